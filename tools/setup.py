#!/usr/bin/env python3
"""Nothing to build: verifies that the interpreter can import the harness and the code under test."""
import os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "harness"))
import core
core.import_repo()
import rsfile
os.makedirs(os.path.join(os.path.dirname(HERE), "evidence"), exist_ok=True)
print("rsfile imported from", rsfile.__file__)
