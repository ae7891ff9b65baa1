"""Builds variants of E from /repo's current working tree, outside /repo.

A variant is (sanitizer/optimisation flags) x (first-order | higher-order).  Every object file is
cached under a key made of the compiler command, the source text and the text of every header of the
repository, so a changed tree can never be judged with a stale object.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
LIBDIRS = ["BASICS", "INOUT", "TERMS", "ORDERINGS", "CLAUSES", "PROPOSITIONAL", "LEARN", "PCL2",
           "HEURISTICS", "CONTROL"]
INCDIRS = LIBDIRS + ["EXTERNAL", "PROVER", "CONTRIB/picosat-965"]
PICO = "CONTRIB/picosat-965"

DEFS = ["-DSTACK_SIZE=32768", "-DCLAUSE_PERM_IDENT", "-DMEMORY_RESERVE_PARANOID",
        "-DPRINT_SOMEERRORS_STDOUT", "-DPRINT_TSTP_STATUS", "-DTAGGED_POINTERS"]

VARIANTS = {
    # the shipped configuration (only -O2 instead of -O3)
    "rel":  dict(cc="gcc", flags=["-O2", "-fno-common", "-DNDEBUG", "-DFAST_EXIT"], ld=[]),
    # sanitizers; system malloc so that every E cell is a separate heap object for ASan
    "asan": dict(cc="gcc", flags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fno-common",
                                  "-fsanitize=address,undefined", "-fno-sanitize=vla-bound,nonnull-attribute", "-fno-sanitize-recover=all",
                                  "-DUSE_SYSTEM_MEM", "-DNDEBUG", "-DFAST_EXIT"],
                 ld=["-fsanitize=address,undefined"]),
    # exploration only: same as asan, but recovering, to list every distinct report
    "asanx": dict(cc="gcc", flags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fno-common",
                                   "-fsanitize=address,undefined", "-fno-sanitize=vla-bound,nonnull-attribute", "-fsanitize-recover=all",
                                   "-DUSE_SYSTEM_MEM", "-DNDEBUG", "-DFAST_EXIT"],
                  ld=["-fsanitize=address,undefined"]),
    # monitor build: hooks on, E's own asserts on
    "mon":  dict(cc="gcc", flags=["-O1", "-g1", "-fno-common", "-DFAST_EXIT", "-DVERIF_MONITOR"], ld=[]),
    # harness build: sanitizers + asserts off, complete exit paths
    "hasan": dict(cc="gcc", flags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fno-common",
                                   "-fsanitize=address,undefined", "-fno-sanitize=vla-bound,nonnull-attribute", "-fno-sanitize-recover=all",
                                   "-DUSE_SYSTEM_MEM", "-DNDEBUG", "-DVERIF_MONITOR"],
                  ld=["-fsanitize=address,undefined"]),
}


class BuildError(Exception):
    pass


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


_hdr_cache = {}


def header_hash():
    if REPO not in _hdr_cache:
        hs = []
        for d in INCDIRS:
            hs += sorted(glob.glob(os.path.join(REPO, d, "*.h")))
        _hdr_cache[REPO] = _sha(*[os.path.basename(h).encode() + b"\1" + _read(h) for h in hs])
    return _hdr_cache[REPO]


def lib_sources():
    """The .c files the project's own makefiles put in its libraries."""
    out = []
    for d in LIBDIRS:
        mk = _read(os.path.join(REPO, d, "Makefile")).decode()
        for name in dict.fromkeys(re.findall(r"([A-Za-z0-9_\-]+)\.o\b", mk)):
            p = os.path.join(REPO, d, name + ".c")
            if os.path.exists(p):
                out.append(p)
    return out


def _compile(cc, flags, src, extra_key=""):
    cmd = [cc] + flags
    key = _sha(" ".join(cmd), os.path.basename(src), _read(src), header_hash(), extra_key)
    obj = os.path.join(CACHE, "obj", key[:2], key + ".o")
    if os.path.exists(obj):
        return obj
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    fd, tmp = tempfile.mkstemp(dir=os.path.dirname(obj), suffix=".o.tmp")
    os.close(fd)
    r = subprocess.run(cmd + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        os.unlink(tmp)
        raise BuildError("compiling %s failed:\n%s" % (src, r.stdout.decode(errors="replace")[-4000:]))
    os.rename(tmp, obj)
    return obj


def _incs():
    return ["-I" + os.path.join(REPO, d) for d in INCDIRS]


def _flags(variant, ho):
    v = VARIANTS[variant]
    return v["cc"], (["-std=gnu99", "-w"] + v["flags"] + DEFS + (["-DENABLE_LFHO"] if ho else []) + _incs())


def _pico_objs(variant):
    v = VARIANTS[variant]
    cfgdir = os.path.join(CACHE, "picoconf")
    os.makedirs(cfgdir, exist_ok=True)
    cfg = os.path.join(cfgdir, "config.h")
    if not os.path.exists(cfg):
        tmp = cfg + ".%d" % os.getpid()
        with open(tmp, "w") as f:
            f.write('#define PICOSAT_CC "gcc"\n#define PICOSAT_CFLAGS "verif"\n#define PICOSAT_VERSION "965"\n')
        os.rename(tmp, cfg)
    fl = [x for x in v["flags"] if not x.startswith("-DVERIF")] + ["-DTRACE", "-DNDEBUG", "-w", "-I" + cfgdir]
    return [(v["cc"], fl, os.path.join(REPO, PICO, s)) for s in ("picosat.c", "version.c")]


def _link(cmd, out, key_parts):
    key = _sha(" ".join(cmd), *key_parts)
    store = os.path.join(CACHE, "bin", key)
    if not os.path.exists(store):
        os.makedirs(os.path.dirname(store), exist_ok=True)
        fd, tmp = tempfile.mkstemp(dir=os.path.dirname(store))
        os.close(fd)
        r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            os.unlink(tmp)
            raise BuildError("linking %s failed:\n%s" % (out, r.stdout.decode(errors="replace")[-4000:]))
        os.chmod(tmp, 0o755)
        os.rename(tmp, store)
    return store


def build(variant="rel", ho=False, programs=("eprover",), harness=(), extra_c=(), wraps=(), mains=()):
    """Returns {program: path}.  harness: list of (name, [c files of /verif], extra_flags).
    extra_c: monitor sources linked into every program; wraps: symbols given to ld --wrap."""
    cc, flags = _flags(variant, ho)
    v = VARIANTS[variant]
    jobs = [(cc, flags, s) for s in lib_sources()] + _pico_objs(variant)
    nlib = len(jobs)
    progs = list(programs)
    pdir = {"CSSCPA_filter": "EXTERNAL", "term2dag": "SIMPLE_APPS", "ex_commandline": "SIMPLE_APPS"}
    pobj = {}
    for p in progs:
        src = os.path.join(REPO, pdir.get(p, "PROVER"), p + ".c")
        pobj[p] = [len(jobs)]
        jobs.append((cc, flags, src))
        if p == "CSSCPA_filter":
            pobj[p].append(len(jobs))
            jobs.append((cc, flags, os.path.join(REPO, "EXTERNAL", "cex_csscpa.c")))
    hobj = {}
    vinc = ["-I" + os.path.join(VERIF, "harness")]
    vkey = _sha(*[_read(h) for h in sorted(glob.glob(os.path.join(VERIF, "harness", "*.h")))])
    for name, files, xf in harness:
        hobj[name] = []
        for f in files:
            hobj[name].append(len(jobs))
            jobs.append((cc, flags + vinc + list(xf), os.path.join(VERIF, f), vkey))
    xobj = []
    for f in extra_c:
        xobj.append(len(jobs))
        jobs.append((cc, flags + vinc, os.path.join(VERIF, f), vkey))
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        objs = list(ex.map(lambda j: _compile(*j), jobs))
    lib = objs[:nlib]
    libkey = _sha(*[os.path.basename(o) for o in lib])
    arch = os.path.join(CACHE, "lib", libkey + ".a")
    if not os.path.exists(arch):
        os.makedirs(os.path.dirname(arch), exist_ok=True)
        tmpd = tempfile.mkdtemp(dir=os.path.dirname(arch))
        tmp = os.path.join(tmpd, "x.a")
        r = subprocess.run(["ar", "rcs", tmp] + lib, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError("ar failed: " + r.stdout.decode())
        os.rename(tmp, arch)
        shutil.rmtree(tmpd)
    ld = [v["cc"]] + v["ld"] + ["-Wl,--wrap=" + w for w in wraps]
    res = {}

    def do(item):
        name, os_ = item
        cmd = ld + os_ + [objs[i] for i in xobj] + [arch, "-lm"]
        return name, _link(cmd, name, [])
    items = [(p, [objs[i] for i in ix]) for p, ix in pobj.items()] + \
            [(n, [objs[i] for i in ix]) for n, ix in hobj.items()]
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for name, path in ex.map(do, items):
            res[name] = path
    return res


ALL_TOOLS = ("eprover", "e_ltb_runner", "e_stratpar", "e_deduction_server", "e_axfilter", "classify_problem",
             "epatternize", "e_client", "e_server", "direct_examples", "epclanalyse", "epclextract", "checkproof",
             "eground", "enormalizer", "edpll", "epcllemma", "ekb_create", "ekb_insert", "ekb_ginsert", "ekb_delete",
             "CSSCPA_filter", "term2dag")

if __name__ == "__main__":
    import time
    t = time.time()
    for a in sys.argv[1:] or ["rel"]:
        var, _, ho = a.partition("-")
        r = build(var, ho == "ho", ALL_TOOLS)
        print(a, "%.1fs" % (time.time() - t))
        for k, p in r.items():
            print("  ", k, p)
