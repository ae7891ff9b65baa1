"""Check driver: seeds, parallel case execution, violations, known findings, evidence, exit codes.

A check module defines  ID, LEVEL, RULE, run(ctx).  run() calls ctx.map(fn, items) where fn(item) returns a
Result (counters, observation keys, violations, samples); ctx collects them.
Exit codes: 0 held on everything explored, 1 with VIOLATION lines, 2 harness failure (no verdict).
"""
import collections
import ctypes
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4


def scratch_root():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()


class Result:
    __slots__ = ("n", "keys", "viol", "samples", "inconclusive")

    def __init__(self):
        self.n = collections.Counter()
        self.keys = set()
        self.viol = []
        self.samples = []
        self.inconclusive = 0

    def key(self, *parts):
        """Record a distinct non-trivial observation."""
        self.keys.add(hashlib.md5(repr(parts).encode()).digest()[:8])

    def violation(self, key, text, replay):
        """key: stable identity used for known-findings; replay: dict written to the replay file."""
        self.viol.append((key, text, replay))


class Run:
    __slots__ = ("rc", "out", "err", "timeout", "cpu")


_LIBC = ctypes.CDLL(None)


def run(cmd, inp=None, timeout=20, mem_mb=2048, cwd=None, env=None, cpu=None, fsize_mb=256):
    """Run a program in its own session with address-space limit (0: none) and wall-clock limit."""
    def pre():
        _LIBC.prctl(1, 9)                      # die with the check
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_AS, (_HARD, _HARD))
        if mem_mb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_mb << 20, mem_mb << 20))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 1))
        resource.setrlimit(resource.RLIMIT_FSIZE, (fsize_mb << 20, fsize_mb << 20))
    r = Run()
    u0 = resource.getrusage(resource.RUSAGE_CHILDREN)
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env, preexec_fn=pre,
                         start_new_session=True)
    try:
        o, e = p.communicate(inp.encode() if isinstance(inp, str) else inp, timeout=timeout)
        r.timeout = False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            o, e = p.communicate(timeout=10)
        except subprocess.TimeoutExpired:
            o, e = b"", b""
        r.timeout = True
    u1 = resource.getrusage(resource.RUSAGE_CHILDREN)
    r.cpu = u1.ru_utime + u1.ru_stime - u0.ru_utime - u0.ru_stime
    r.rc, r.out, r.err = p.returncode, o.decode(errors="replace"), e.decode(errors="replace")
    return r


def szs(out):
    """SZS statuses printed (in order)."""
    res = []
    for line in out.splitlines():
        i = line.find("SZS status ")
        if i >= 0 and line[:1] in "%#":
            w = line[i + 11:].split()
            if w:
                res.append(w[0])
    return res


sys.setrecursionlimit(4000)


def _call(a):
    fn, item = a
    try:
        return fn(item)
    except RecursionError:                 # a term or formula too deep for the Python side: no verdict for this case
        r = Result()
        r.inconclusive = 1
        r.n["too_deep_for_monitor"] = 1
        return r
    except Exception:
        return ("ERR", traceback.format_exc())


_HARD = resource.getrlimit(resource.RLIMIT_AS)[1]


def _worker():
    """Pool workers must fail with MemoryError rather than be killed (a killed worker loses its case)."""
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, _HARD))


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.n = collections.Counter()
        self.keys = set()
        self.samples = []
        self.viol = []
        self.errors = []
        self.notes = {}
        self.assumptions = []
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid.lower(), dir=scratch_root())
        self.quick = tier == "quick"

    def scale(self, quick, thorough):
        return quick if self.quick else thorough

    def rng(self, *tag):
        return random.Random("%d|%s|%r" % (self.seed, self.pid, tag))

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def take(self, r):
        if r is None:
            return
        if isinstance(r, tuple) and r and r[0] == "ERR":
            self.errors.append(r[1])
            return
        self.n.update(r.n)
        self.keys |= r.keys
        self.viol += r.viol
        self.n["inconclusive"] += r.inconclusive
        if len(self.samples) < 40:
            self.samples += r.samples[:2]

    def map(self, fn, items, stop_after=25, chunk=None, label=None, nproc=None):
        """Run the cases in parallel.  Stops early once enough violations were collected."""
        items = list(items)
        if not items:
            return
        t = time.time()
        nproc = nproc or NPROC
        before = len(self.viol)
        ctx = mp.get_context("fork")
        with ctx.Pool(nproc, _worker) as pool:
            it = pool.imap_unordered(_call, [(fn, i) for i in items],
                                     chunksize=chunk or max(1, min(16, len(items) // (nproc * 8))))
            for r in it:
                self.take(r)
                if len(self.viol) >= stop_after:
                    pool.terminate()
                    break
                if len(self.errors) > 20:
                    pool.terminate()
                    break
        if label:
            self.log("%s: %d cases, %.1fs, %d violations" % (label, len(items), time.time() - t,
                                                             len(self.viol) - before))

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def load_known():
    p = os.path.join(VERIF, "known-findings.jsonl")
    out = []
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line:
                    out.append(json.loads(line))
    return out


def main(argv):
    if len(argv) < 2:
        print("usage: check.py P01 [quick|thorough]")
        return 2
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.path.insert(0, os.path.join(VERIF, "lib"))
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    mod = importlib.import_module(pid.lower())
    ctx = Ctx(pid, tier, seed)
    rc = 2
    try:
        mod.run(ctx)
        rc = finish(ctx, mod)
    except Exception:
        traceback.print_exc()
        sys.stdout.flush()
        print("HARNESS-ERROR property=%s (no verdict)" % pid)
        rc = 2
    finally:
        ctx.cleanup()
    return rc


def finish(ctx, mod):
    known = [k for k in load_known() if k.get("property") == ctx.pid and k.get("kind") == "known"]
    kseen, fresh = {}, collections.OrderedDict()
    for key, text, replay in ctx.viol:
        k = next((x for x in known if x["key"] == key), None)
        if k:
            kseen[k["key"]] = k
        else:
            fresh.setdefault(key, []).append((text, replay))
    rdir = os.path.join(VERIF, "replay")
    out = []
    for i, (key, vs) in enumerate(fresh.items()):
        if i >= 10:
            break
        os.makedirs(rdir, exist_ok=True)
        text, replay = vs[0]
        path = os.path.join(rdir, "%s-%d-%d.json" % (ctx.pid, ctx.seed, i))
        with open(path, "w") as f:
            json.dump(dict(property=ctx.pid, key=key, what=text, count=len(vs), data=replay), f, indent=1, default=str)
        out.append((key, text, path))
    cov = dict(ctx.notes)
    cov["evaluations"] = int(ctx.n.pop("evaluations", 0))
    cov["distinct_nontrivial"] = len(ctx.keys)
    cov["rule"] = mod.RULE
    cov["samples"] = ctx.samples[:6]
    cov["observed"] = {k: int(v) for k, v in sorted(ctx.n.items())}
    ev = dict(property=ctx.pid, tier=ctx.tier, seed=ctx.seed, level=getattr(mod, "LEVEL", "exploration"),
              coverage=cov, assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + ctx.assumptions,
              wall_s=round(time.time() - ctx.t0, 2), violations=len(fresh))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % ctx.pid)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.rename(tmp, os.path.join(VERIF, "evidence", ctx.pid + ".json"))
    ctx.log("evaluations=%d distinct=%d observed=%s" % (cov["evaluations"], cov["distinct_nontrivial"],
                                                       json.dumps(cov["observed"])))
    for k in kseen.values():
        print("KNOWN-FINDING: property=%s %s" % (ctx.pid, k["what"]))
    for key, text, path in out:
        print("  %s: %s" % (key, text[:1500]))
        print("VIOLATION property=%s replay=%s" % (ctx.pid, path))
    sys.stdout.flush()
    if out:
        return 1
    if ctx.errors:
        print(ctx.errors[0])
        print("HARNESS-ERROR property=%s: %d cases failed in the harness (no verdict)" % (ctx.pid, len(ctx.errors)))
        return 2
    if cov["evaluations"] == 0 or cov["distinct_nontrivial"] < getattr(mod, "MIN_DISTINCT", 2):
        print("HARNESS-ERROR property=%s: nothing was observed (no verdict)" % ctx.pid)
        return 2
    return 0
