#!/usr/bin/env python3
"""Entry point of all checks:  python3-vt harness/run.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import core

if __name__ == "__main__":
    status = core.main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(status)
