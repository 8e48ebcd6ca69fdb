"""Runner shared by all the checks: generation (gen.py), sharding, shrinking, replay, evidence.

A check is a module `c01.py` exposing ID, LEVEL, RULE, ASSUMPTIONS (optional) and PARTS, a list of Part objects.
Each part has a strategy (see gen.py) producing *plain Python literals* (the cases) and a `run(case, env)` function which
interprets a case against the code of /repo and raises Violation when the property is broken.

Process layout:  run.py Cxx  (coordinator)  ->  N shards (run.py Cxx --shard k)  ->  whatever the cases fork.
"""
import ast
import ctypes
import gc
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

import gen

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")

SCALE = float(os.environ.get("VERIF_SCALE", "1"))  # to explore less or more than the tier does
NSHARDS = int(os.environ.get("VERIF_SHARDS", "8"))


class Violation(Exception):
    def __init__(self, key, message=""):
        Exception.__init__(self, "%s: %s" % (key, message))
        self.key = key
        self.message = message


class HarnessError(Exception):
    """The harness itself could not do its work (never a verdict about the code)."""


class HangError(BaseException):
    """A case exceeded its (generous) time limit."""


class StopRun(BaseException):
    pass


class Part(object):
    def __init__(self, name, strategy, run, quick, thorough=None, hang=30, deterministic=True, shards=None, cap=90,
                 shrink_s=25, setup=None, single=False, enumerate_cases=None):
        self.name = name
        self.strategy = strategy  # zero-argument callable returning a gen strategy
        self.run = run
        self.quick = quick  # total number of cases, all shards together
        self.thorough = thorough or quick * 20
        self.hang = hang  # seconds before a case is declared hanging
        self.deterministic = deterministic  # False: failing cases needn't fail again (the oracle is sound by itself)
        self.shards = shards  # restricts the part to that many shards
        self.cap = cap  # wall time cap per shard in quick tier (inconclusive beyond)
        self.shrink_s = shrink_s
        self.setup = setup
        self.enumerate_cases = enumerate_cases  # optional: callable(tier) -> list of cases (finite enumeration)


class Env(object):
    """Per-case environment handed to Part.run()."""

    def __init__(self, root):
        self.root = root
        self._dir = None
        self._n = 0
        self.labels = set()
        self.nontrivial = False
        self._cleanups = []
        self.steps = 0

    @property
    def dir(self):
        if self._dir is None:
            self._dir = tempfile.mkdtemp(prefix="c", dir=self.root)
        return self._dir

    def path(self, name=None):
        if name is None:
            self._n += 1
            name = "f%d" % self._n
        return os.path.join(self.dir, name)

    def label(self, *names):
        self.labels.update(names)

    def defer(self, func, *args):
        self._cleanups.append((func, args))

    def close(self):
        for func, args in reversed(self._cleanups):
            try:
                func(*args)
            except Exception:
                pass
        self._cleanups = []
        if self._dir is not None:
            shutil.rmtree(self._dir, ignore_errors=True)
            self._dir = None


def set_pdeathsig():
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:
        pass


def import_repo():
    """Makes `import rsfile` use /repo's current working tree, never a stale bytecode."""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "no-such-pycache-%d" % os.getpid())
    if sys.path[0] != SRC:
        sys.path.insert(0, SRC)


def in_repo_traceback(exc):
    tb = exc.__traceback__
    found = False
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(SRC + os.sep):
            found = True
        tb = tb.tb_next
    return found


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        return json.load(f)


def case_hash(case):
    return hashlib.md5(repr(case).encode("utf-8", "surrogatepass")).hexdigest()[:16]


def execute(part, case, root):
    """Runs one case; returns its Env (closed). Raises Violation / HangError / other exceptions."""
    env = Env(root)

    def on_alarm(signum, frame):
        raise HangError("case exceeded %ss" % part.hang)

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, part.hang)
    try:
        try:
            part.run(case, env)
        except HangError:
            signal.setitimer(signal.ITIMER_REAL, 0)
            stack = traceback.format_exc()
            raise Violation("hang", "operation did not finish within %s s\n%s" % (part.hang, stack[-1500:]))
        except (Violation, HarnessError, StopRun):
            raise
        except Exception as e:
            if in_repo_traceback(e):
                raise Violation("unexpected-exception:%s" % type(e).__name__,
                                "".join(traceback.format_exception(e))[-1800:])
            raise
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        env.close()
    return env


# ----------------------------------------------------------------------------------------------- shard


def derive_seed(*items):
    return int.from_bytes(hashlib.sha256(repr(items).encode()).digest()[:6], "big")


def run_shard(mod, tier, seed, shard, nshards, out, root):
    import_repo()
    known = {(f["property"], f["key"]) for f in load_known().get("findings", [])}
    result = dict(parts={}, failure=None, errors=[])

    def save():
        tmp = out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(result, f)
        os.replace(tmp, out)

    for part in mod.PARTS:
        if getattr(mod, "ONLY_PART", None) not in (None, part.name):
            continue
        active = min(part.shards or nshards, nshards)
        if shard >= active:
            continue
        total = part.quick if tier == "quick" else part.thorough
        total = max(8, int(total * SCALE))
        n = max(1, (total + active - 1) // active)
        cap = part.cap if tier == "quick" else part.cap * 25
        stats = dict(evaluations=0, nontrivial=[], labels={}, samples=[], known={}, capped=False, steps=0, wall=0.0)
        result["parts"][part.name] = stats
        hashes = set()
        state = dict(best=None, first=None, history=[])
        start = time.monotonic()
        if part.setup:
            part.setup()

        def one(case, part=part, stats=stats, hashes=hashes, state=state, start=start, cap=cap):
            now = time.monotonic()
            if state["first"] is None and now - start > cap:
                stats["capped"] = True
                raise StopRun()
            if state["first"] is not None and now - state["first"] > part.shrink_s:
                raise StopRun()
            stats["evaluations"] += 1
            if state["first"] is None:
                state["history"].append(repr(case))
                if len(state["history"]) > 400:
                    del state["history"][:200]
            try:
                env = execute(part, case, root)
            except Violation as v:
                if (mod.ID, v.key) in known:
                    stats["known"][v.key] = stats["known"].get(v.key, 0) + 1
                    return
                text = repr(case)
                if state["first"] is None:
                    state["first"] = time.monotonic()
                if state["best"] is None or len(text) < len(state["best"][0]):
                    state["best"] = (text, v.key, v.message)
                if v.key == "hang":
                    raise StopRun()
                raise
            stats["steps"] += env.steps
            for label in env.labels:
                stats["labels"][label] = stats["labels"].get(label, 0) + 1
            if env.nontrivial:
                h = case_hash(case)
                if h not in hashes:
                    hashes.add(h)
                    if len(stats["samples"]) < 2 and len(repr(case)) < 3000:
                        stats["samples"].append(repr(case)[:1500])

        try:
            if part.enumerate_cases is not None:
                for i, case in enumerate(part.enumerate_cases(tier)):
                    if i % active == shard:
                        one(case)
                stats["exhaustive"] = True
            if part.strategy is not None:
                strategy = part.strategy()
                base = derive_seed(seed, mod.ID, part.name, shard)
                for i in range(n):
                    case, choices = gen.generate(strategy, "%d/%d" % (base, i))
                    try:
                        one(case)
                    except Violation as v:
                        if part.deterministic and v.key != "hang":
                            key = v.key

                            def fails(c):
                                try:
                                    one(c)
                                except Violation as v2:
                                    return v2.key == key
                                return False

                            gen.shrink(strategy, choices, fails,
                                       lambda: time.monotonic() - state["first"] < part.shrink_s)
                        break
        except StopRun:
            pass
        except Violation:
            pass
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            if state["best"] is None:
                result["errors"].append("part %s: %s" % (part.name, "".join(traceback.format_exception(e))[-6000:]))
        stats["wall"] = time.monotonic() - start
        stats["nontrivial"] = sorted(hashes)
        if state["best"] is not None:
            text, key, message = state["best"]
            result["failure"] = dict(part=part.name, case=text, key=key, message=message,
                                     deterministic=part.deterministic, history=state["history"])
            break
    save()


# ----------------------------------------------------------------------------------------------- replay


def run_replay(mod, path, root):
    import_repo()
    with open(path) as f:
        data = json.load(f)
    part = [p for p in mod.PARTS if p.name == data["part"]][0]
    if part.setup:
        part.setup()
    cases = data.get("cases") or [data["case"]]
    for text in cases:
        case = ast.literal_eval(text)
        try:
            execute(part, case, root)
        except Violation as v:
            print("REPRODUCED property=%s part=%s key=%s" % (mod.ID, part.name, v.key))
            print(v.message)
            return 1
    print("NOT-REPRODUCED property=%s part=%s" % (mod.ID, part.name))
    return 0


# ----------------------------------------------------------------------------------------------- coordinator


def make_root(i=0):
    base = "/dev/shm" if i % 2 == 0 and os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    return tempfile.mkdtemp(prefix="rsverif", dir=base)


def child_env(root):
    env = dict(os.environ)
    env.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONUNBUFFERED="1",
               LC_ALL="C.UTF-8", LANG="C.UTF-8")
    env.pop("PYTHONPATH", None)
    env.pop("CI", None)
    return env


def spawn(args, root, **kw):
    return subprocess.Popen([sys.executable, "-W", "ignore", os.path.join(HERE, "run.py")] + args, env=child_env(root), cwd=root,
                            start_new_session=True, preexec_fn=set_pdeathsig, **kw)


def kill_group(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    p.wait()


def replay_once(cid, path, timeout):
    root = make_root(0)
    p = spawn([cid, "--replay", path, "--root", root], root, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode == 1 and b"REPRODUCED" in out
    except subprocess.TimeoutExpired:
        return False
    finally:
        kill_group(p)
        shutil.rmtree(root, ignore_errors=True)


def write_replay(cid, fail, cases=None):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s.json" % (cid, fail["part"], hashlib.md5(fail["case"].encode("utf-8", "surrogatepass")).hexdigest()[:10]))
    data = dict(property=cid, part=fail["part"], key=fail["key"], message=fail["message"], case=fail["case"],
                how_to="python3-vt harness/run.py %s --replay %s" % (cid, path))
    if cases:
        data["cases"] = cases
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
    return path


def confirm(mod, fail):
    """Returns the replay path if the failure is established, else None."""
    cid = mod.ID
    part = [p for p in mod.PARTS if p.name == fail["part"]][0]
    timeout = part.hang * 2 + 60
    path = write_replay(cid, fail)
    for _ in range(2 if fail["deterministic"] else 3):
        if replay_once(cid, path, timeout):
            return path
    if not fail["deterministic"] and fail["key"] != "hang":
        return path  # sound oracle on a concurrent run: one observation is enough
    # maybe it needs the state left by previous cases of the same process
    history = fail["history"]
    for k in (3, 20, 100, 400):
        cases = history[-k:]
        if not cases:
            break
        if cases[-1] != fail["case"]:
            cases = cases + [fail["case"]]
        p2 = write_replay(cid, fail, cases)
        if replay_once(cid, p2, timeout + 120):
            return p2
        if len(history) <= k:
            break
    os.unlink(path)
    return None


def coordinate(cid, tier, seed, only=None):
    t0 = time.monotonic()
    mod = load(cid)
    nshards = NSHARDS
    roots, procs = [], []
    hard_limit = 780 if tier == "quick" else 6 * 3600
    for k in range(nshards):
        root = make_root(k)
        roots.append(root)
        out = os.path.join(root, "result.json")
        log = open(os.path.join(root, "log.txt"), "wb")
        args = [cid, "--shard", str(k), "--nshards", str(nshards), "--tier", tier, "--seed", str(seed),
                "--out", out, "--root", root]
        if only:
            args += ["--only", only]
        procs.append((spawn(args, root, stdout=log, stderr=log), out, log))
    results, failures, errors = [], [], []
    pending = dict(enumerate(procs))
    try:
        while pending:
            time.sleep(0.05)
            for k, (p, out, log) in list(pending.items()):
                if p.poll() is not None:
                    del pending[k]
                    if os.path.exists(out):
                        with open(out) as f:
                            r = json.load(f)
                        results.append(r)
                        errors += r["errors"]
                        if r["failure"]:
                            failures.append(r["failure"])
                    else:
                        log.flush()
                        with open(log.name, "rb") as f:
                            tail = f.read()[-3000:].decode("utf-8", "replace")
                        errors.append("shard %d died with status %s\n%s" % (k, p.returncode, tail))
            if failures and (pending and time.monotonic() - t0 > 30):
                break
            if time.monotonic() - t0 > hard_limit:
                errors.append("NOTE: hard limit reached, %d shards stopped (inconclusive)" % len(pending))
                break
    finally:
        for p, out, log in procs:
            kill_group(p)
            log.close()
        for root in roots:
            shutil.rmtree(root, ignore_errors=True)

    confirmed = []
    unconfirmed = []
    for fail in sorted(failures, key=lambda f: len(f["case"])):
        if confirmed or len(unconfirmed) > 3:
            break
        path = confirm(mod, fail)
        if path:
            confirmed.append((fail, path))
        else:
            unconfirmed.append(fail)

    # merge
    evaluations = sum(s["evaluations"] for r in results for s in r["parts"].values())
    steps = sum(s["steps"] for r in results for s in r["parts"].values())
    distinct, labels, samples, known, parts = set(), {}, [], {}, {}
    for r in results:
        for name, s in r["parts"].items():
            distinct.update(name + ":" + h for h in s["nontrivial"])
            pp = parts.setdefault(name, dict(evaluations=0, nontrivial=0, labels={}, wall_max=0.0, capped=0))
            pp["evaluations"] += s["evaluations"]
            pp["wall_max"] = round(max(pp["wall_max"], s["wall"]), 2)
            pp["capped"] += bool(s["capped"])
            for l, c in s["labels"].items():
                pp["labels"][l] = pp["labels"].get(l, 0) + c
            for l, c in s["known"].items():
                known[l] = known.get(l, 0) + c
            if s["samples"] and sum(x["part"] == name for x in samples) < 2:
                samples.append(dict(part=name, case=s["samples"][0]))
    for d in distinct:
        parts[d.split(":")[0]]["nontrivial"] += 1
    coverage = dict(evaluations=evaluations, distinct_nontrivial=len(distinct), rule=mod.RULE, samples=samples,
                    parts=parts, operations_executed=steps)
    evidence = dict(property=cid, tier=tier, seed=seed, level=mod.LEVEL, coverage=coverage,
                    assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
                    wall_s=round(time.monotonic() - t0, 2), violations=len(confirmed))
    if unconfirmed:
        evidence["coverage"]["unreproduced_failures"] = [dict(part=f["part"], case=f["case"], key=f["key"],
                                                              message=f["message"][:500]) for f in unconfirmed]
    if errors:
        evidence["coverage"]["harness_notes"] = [e[-2000:] for e in errors][:5]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", cid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)

    for f in load_known().get("findings", []):
        if f["property"] == cid:
            print("KNOWN-FINDING: property=%s %s" % (cid, f["what"]))
    for fail, path in confirmed:
        print("VIOLATION property=%s replay=%s" % (cid, path))
        print("  part=%s key=%s" % (fail["part"], fail["key"]))
        print("  " + fail["message"].replace("\n", "\n  ")[:1500])
        print("  case=%s" % fail["case"][:1500])
    print("%s %s seed=%s: %d cases (%d distinct non-trivial), %d violation(s), %.1f s" %
          (cid, tier, seed, evaluations, len(distinct), len(confirmed), time.monotonic() - t0))
    if confirmed:
        return 1
    real_errors = [e for e in errors if not e.startswith("NOTE:")]
    if real_errors:
        print("HARNESS-ERROR (%d)\n" % len(real_errors) + real_errors[0][-3000:])
        return 2
    for f in unconfirmed:
        print("  (unreproduced, ignored: part=%s key=%s %s)" % (f["part"], f["key"], f["message"][:800]))
    return 0


def load(cid):
    if HERE not in sys.path:
        sys.path.insert(0, HERE)
    return importlib.import_module(cid.lower())


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("cid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--shard", type=int)
    ap.add_argument("--nshards", type=int, default=NSHARDS)
    ap.add_argument("--out")
    ap.add_argument("--root")
    ap.add_argument("--replay")
    ap.add_argument("--only", help="run a single part (development)")
    a = ap.parse_args(argv)
    if a.shard is not None:
        set_pdeathsig()
        mod = load(a.cid)
        mod.ONLY_PART = a.only
        run_shard(mod, a.tier, a.seed, a.shard, a.nshards, a.out, a.root)
        return 0
    if a.replay:
        root = a.root or make_root()
        try:
            return run_replay(load(a.cid), os.path.abspath(a.replay), root)
        finally:
            if not a.root:
                shutil.rmtree(root, ignore_errors=True)
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    return coordinate(a.cid, a.tier, a.seed, a.only)
