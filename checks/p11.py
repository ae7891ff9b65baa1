"""P11: memory safety and defined behaviour.  The real programs run under AddressSanitizer and UndefinedBehaviorSanitizer over
generated problems x strategies, the repository's examples, damaged input files and tool pipelines; any sanitizer report, fatal
signal or undocumented exit code is a violation."""
import glob
import os
import random
import re
import shutil

import common
import ebuild
import fol
import gen
import genho
import strat

ID = "P11"
LEVEL = "exploration"
RULE = ("runs of the programs built with address and undefined-behaviour sanitizers (one heap object per E cell) over generated "
        "problems x sampled strategies and output options, the repository's examples, damaged inputs in every syntax, higher-order "
        "problems, and chains of the helper programs; one evaluation: one complete run ending in a documented exit code without a "
        "sanitizer report; non-trivial: the program got past its command line; distinct by (program, options, input)")
ASSUMPTIONS = ["gcc 13 ASan/UBSan report the errors they are specified to report",
               "runs ended by the time or memory limit of the harness give no verdict",
               "inputs are at most 64 kB and not nested deeper than a few hundred levels"]
MIN_DISTINCT = 400
ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:hard_rss_limit_mb=2500:"
                       "handle_abort=1:detect_stack_use_after_return=0:max_allocation_size_mb=2000:quarantine_size_mb=64",
       "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=98", "PATH": "/usr/bin:/bin", "TPTP": ""}
TOOLS = ("eprover", "classify_problem", "direct_examples", "e_axfilter", "edpll", "eground", "ekb_create", "ekb_delete", "ekb_ginsert",
         "ekb_insert", "enormalizer", "epatternize", "epclanalyse", "epclextract", "epcllemma")
HOTOOLS = ("eprover", "e_axfilter", "classify_problem")
SKIP = ("SWW194+1", "SWV851-1", "GEO288+1", "README", "CSR036+2")
_bin, _tmp, _corpus, _names = {}, None, [], []


def corpus():
    out = []
    for p in sorted(glob.glob(os.path.join(ebuild.REPO, "EXAMPLE_PROBLEMS", "*", "*"))):
        if os.path.isfile(p) and not any(s in p for s in SKIP):
            with open(p, errors="replace") as f:
                t = f.read()
            if len(t) < 64000:
                out.append((os.path.basename(p), t))
    return out


BAD = re.compile(r"(ERROR: (?:Address|Undefined\w*)Sanitizer[^\n]*|runtime error: [^\n]*|SUMMARY: [^\n]*)")
FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ in (\S+) (\S+)")


def digest(err):
    """(kind, function) of a sanitizer report."""
    if "hard rss limit" in err or "allocation-size-too-big" in err or "out of memory" in err[:4000]:
        return ("limit", "")
    m = BAD.search(err)
    if not m:
        return None
    line = m.group(1)
    if "hard rss limit" in err or "allocation-size-too-big" in line or "out-of-memory" in line or "stack-overflow" in line:
        return ("limit", line)
    kind = re.sub(r"0x[0-9a-f]+|-?\d[\d.e+]*", "N", line.split(" on ")[0].split("Sanitizer: ")[-1])[:80]
    if "runtime error" in line:
        kind = "ub:" + re.sub(r"'[^']*'", "T", re.sub(r"0x[0-9a-f]+|-?\d[\d.e+]*", "N", line.split("runtime error: ")[1]))[:60]
    for f, src in FRAME.findall(err):
        if "/" in src and not any(x in src for x in ("libsanitizer", "sanitizer_common", "../sysdeps", "csu/", "malloc", "string/")):
            return (kind, f)
    return (kind, "?")


def frames(err):
    return [f for f, src in FRAME.findall(err)][:8]


def judge(res, prog, cmd, R, files, seed, label):
    """Records one run."""
    res.n["runs_" + label] += 1
    res.n["evaluations"] += 1
    d = digest(R.err)
    if R.timeout:
        res.n["timeouts"] += 1
        res.inconclusive += 1
        return False
    if d and d[0] == "limit":
        res.n["memory_limit"] += 1
        res.inconclusive += 1
        return False
    what = None
    if d:
        what, key = "%s in %s" % d, "%s|%s" % d
    elif R.rc < 0 and R.rc not in (-9, -24, -25):
        what, key = "signal %d" % -R.rc, "%s|signal %d" % (prog, -R.rc)
    elif R.rc > 14:
        what, key = "exit code %d" % R.rc, "%s|exit %d" % (prog, R.rc)
    if R.rc in (-9, -24, -25):
        res.inconclusive += 1
        return False
    res.n["exit_%d" % R.rc] += 1
    if what:
        sh = [os.path.basename(c) if c.startswith("/") else c for c in cmd]
        res.violation(key, "%s: %s\n  %s\n  %s" % (prog, what, " ".join(sh)[:300], " < ".join(frames(R.err))),
                      dict(kind="sanitizer", program=prog, options=sh, files=files, report=R.err[-6000:], seed=seed))
        return False
    if R.rc != 5:
        res.key(prog, tuple(os.path.basename(c) for c in cmd[1:]), tuple(sorted(files.items())))
    return True


class Work:
    def __init__(self, seed, label):
        self.r = random.Random(seed)
        self.seed, self.label = seed, label
        self.res = common.Result()
        self.d = os.path.join(_tmp, "w%s" % common.hashlib.md5(str(seed).encode()).hexdigest()[:12])
        os.makedirs(self.d)
        self.files = {}

    def put(self, name, text):
        self.files[name] = text
        p = os.path.join(self.d, name)
        with open(p, "w", errors="replace") as f:
            f.write(text)
        return p

    def go(self, prog, args, ho=False, timeout=40, inp=None):
        b = _bin[("ho:" if ho else "") + prog]
        R = common.run([b] + args, inp=inp, timeout=timeout, mem_mb=0, cwd=self.d, env=ENV, fsize_mb=48, cpu=30)
        self.ok = judge(self.res, prog + ("-ho" if ho else ""), [prog] + args, R, dict(self.files), self.seed, self.label)
        return R

    def done(self):
        shutil.rmtree(self.d, ignore_errors=True)
        return self.res


# ---------------------------------------------------------------- inputs
def gen_problem(r):
    p = gen.any_sat(r) if r.random() < .5 else gen.any_unsat(r)
    return p.text


def lop(r):
    """A random LOP clause set."""
    sig = gen.rand_sig(r)
    out = []
    for _ in range(r.randint(2, 10)):
        c = gen.rand_clause(r, sig, r.randint(1, 4), r.randint(0, 3), 2)
        pos = [fol.clause2s([(True, l[1])]) for l in c if l[0]]
        neg = [fol.clause2s([(True, l[1])]) for l in c if not l[0]]
        out.append("%s <- %s." % (";".join(pos), ",".join(neg)) if neg or r.random() < .5 else "%s." % ";".join(pos))
    return "\n".join(out) + "\n"


def tptp2(r):
    sig = gen.rand_sig(r)
    out = []
    for i in range(r.randint(2, 10)):
        c = gen.rand_clause(r, sig, r.randint(1, 4), r.randint(0, 3), 2, 0)
        out.append("input_clause(c%d,%s,[%s])." % (i, r.choice(["axiom", "hypothesis", "conjecture"]), ",".join(
            ("++" if l[0] else "--") + fol.clause2s([(True, l[1])]) for l in c)))
    return "\n".join(out) + "\n"


TOK = re.compile(r"\s+|[A-Za-z_$][\w$]*|'[^'\n]*'|\"[^\"\n]*\"|\d+|<=>|<~>|<=|=>|~\||~&|!=|[^\w\s]")
JUNK = ["(", ")", "[", "]", ",", ".", ":", "!", "?", "^", "@", "~", "&", "|", "=", "!=", "=>", "<=>", "<~>", "~&", "~|", "<=", ">",
        "*", "+", "-", "X", "Y", "f", "p", "a", "$true", "$false", "$i", "$o", "$int", "$tType", "$distinct", "$ite", "$let", "-1", "0",
        "12345678901234567890123", "1/2", "1.5e3", "1.5e999", "\"obj\"", "'q u'", "''", "cnf", "fof", "tff", "thf", "axiom", "conjecture",
        "question", "type", "include", "include('x.p').", "%c\n", "/* c */", "/*", "#", "<-", "?-", ";", "\\", "\x01", "\xe9", "'",
        "\"", "{", "}", "input_clause", "input_formula", "++", "--", "equal", "$less", "$sum", "$uminus", "!!", "??", "@+", "unknown",
        "inference(a,[],[])", "file('x',y)", "$answer", "watchlist", "plain", "lemma", "epred1_0", "esk1_0", "f()", "p(X,X)"]


def mutate(r, text):
    toks = TOK.findall(text)
    if not toks:
        return text
    if len(toks) > 1500:
        i = r.randrange(len(toks) - 1000)
        toks = toks[i:i + 1000]
    for _ in range(r.choice([1, 1, 1, 2, 2, 4, 10])):
        if not toks:
            break
        i = r.randrange(len(toks))
        k = r.random()
        if k < .25:
            toks[i] = r.choice(JUNK)
        elif k < .45:
            toks.insert(i, r.choice(JUNK))
        elif k < .6:
            del toks[i]
        elif k < .75:
            toks[i] = r.choice(toks)
        elif k < .83:
            j = min(len(toks), i + r.randint(1, 12))
            toks[i:i] = toks[i:j]
        elif k < .9:
            j = min(len(toks), i + r.randint(1, 30))
            del toks[i:j]
        elif k < .94:
            del toks[i:]
        else:
            j = r.randrange(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
    return "".join(toks)


OUT = ["-l0", "-l1", "-l2", "-l3", "-l4", "-l5", "-l6", "--proof-object", "--proof-object=2", "--proof-object=3", "--proof-graph",
       "--proof-graph=2", "--proof-graph=3", "--force-deriv=1", "--force-deriv=2", "--training-examples=1", "--training-examples=3", "--print-statistics",
       "-R", "--print-saturated", "--print-saturated=eigEIGaA", "--print-sat-info", "--print-strategy", "--pcl-out", "--pcl-compact",
       "--pcl-terms-compressed", "--pcl-shell-level=1", "--pcl-shell-level=2", "--tptp-out", "--tstp-out", "--print-types",
       "--app-encode", "--answers=3", "--conjectures-are-questions", "--cnf", "--print-pid", "--print-version", "--filter-saturated=u",
       "--filter-saturated=Fc", "--record-gcs", "--detsort-rw", "--detsort-new", "--print-formulas", "--prune", "--error-on-empty",
       "--proof-statistics", "--full-equational-rep", "--tstp-format", "--generated-limit=2000"]


def outopts(r):
    return r.sample(OUT, r.choice([0, 0, 1, 1, 2, 3]))


def limits(r):
    return ["--cpu-limit=%d" % r.choice([4, 6]), "-C", str(r.choice([5, 30, 100, 200])), "--generated-limit=4000"]


# ---------------------------------------------------------------- workloads
def w_generated(seed):
    w = Work(seed, "generated")
    r = w.r
    p = w.put("p.p", gen_problem(r) if r.random() < .9 else lop(r))
    o = strat.sample(r, _names)
    if r.random() < .2:
        o += ["--watchlist=" + w.put("wl.p", gen_problem(r))]
        if r.random() < .5:
            o += [r.choice(["--static-watchlist", "--no-watchlist-simplification"])]
    w.go("eprover", limits(r) + o + outopts(r) + [p])
    return w.done()


def w_example(seed):
    w = Work(seed, "example")
    r = w.r
    name, text = r.choice(_corpus)
    inc = os.path.join(ebuild.REPO, "EXAMPLE_PROBLEMS", "TPTP", "Axioms")
    os.symlink(inc, os.path.join(w.d, "Axioms"))
    p = w.put("p.p", text)
    ho = r.random() < .3 or "thf(" in text
    w.go("eprover", ho=ho, args=limits(r) + (nonpdt(strat.sample(r)) if ho else strat.sample(r, _names)) + outopts(r) + [p])
    os.unlink(os.path.join(w.d, "Axioms"))
    return w.done()


def w_damaged(seed):
    w = Work(seed, "damaged")
    r = w.r
    k = r.random()
    if k < .45:
        t = r.choice(_corpus)[1]
    elif k < .7:
        t = gen_problem(r)
    elif k < .8:
        t = genho.sat(r)[0]
    elif k < .9:
        t = lop(r)
    else:
        t = tptp2(r)
    ho = "thf(" in t or r.random() < .2
    p = w.put("p.p", mutate(r, t))
    fm = r.choice([[], [], [], ["--tstp-in"], ["--tptp-in"], ["--lop-in"]])
    prog = r.choice(["eprover"] * 6 + ["e_axfilter", "classify_problem"] + ([] if ho else ["eground", "epatternize"]))
    if prog == "eprover":
        a = fm + limits(r) + ((nonpdt(strat.sample(r)) if ho else strat.sample(r)) if r.random() < .5 else [r.choice(["--auto", "--cnf", "--prune", "-xAuto"])]) + outopts(r)[:1] + [p]
    elif prog == "e_axfilter":
        a = fm + [p]
    elif prog == "eground":
        a = fm + ["--cpu-limit=4", p]
    else:
        a = fm + [p]
    w.go(prog, a, ho=ho and prog in HOTOOLS)
    return w.done()


def w_ho(seed):
    w = Work(seed, "higher-order")
    r = w.r
    p = w.put("p.p", genho.sat(r)[0])
    o = nonpdt(strat.sample(r, _names)) + hoopts(r)
    w.go("eprover", limits(r) + o + outopts(r)[:1] + [p], ho=True)
    return w.done()


def nonpdt(o):
    """Without the NPDT term index, which overruns its keys on partial applications (known finding, see w_known)."""
    return [x for x in o if not x.endswith("=NPDT")]


NPDT = """thf(t_a,type,a: $i).
thf(t_b,type,b: $i).
thf(t_f,type,f: $i > $i).
thf(t_p,type,p: $i > $o).
thf(t_s0,type,s0: ($i > $o) > $o).
thf(t_s1,type,s1: ($i > $i) > $i).
thf(f0,axiom,((s0 @ p) | (b = (s1 @ f)))).
thf(f1,conjecture,(! [X1: $i]: (? [X2: $i > $i]: (~ (X2 = (^ [X3: $i]: X3)))))).
"""


def w_known(seed):
    w = Work(seed, "known")
    R = w.go("eprover", ["-s", "--cpu-limit=5", "-C", "100", "--pm-from-index=NPDT", "--pm-into-index=NPDT", w.put("p.p", NPDT)], ho=True)
    w.res.viol = [("npdt-partial-application" if k.endswith("|dt_index_rek_find_unifiable") else k, t, d) for k, t, d in w.res.viol]
    return w.done()


def hoopts(r):
    o = []

    def maybe(pr, s):
        if r.random() < pr:
            o.append(s)
    maybe(.3, "--arg-cong=" + r.choice(["all", "max", "off"]))
    maybe(.3, "--neg-ext=" + r.choice(["all", "max", "off"]))
    maybe(.3, "--pos-ext=" + r.choice(["all", "max", "off"]))
    maybe(.2, "--ext-sup-max-depth=%d" % r.choice([-1, 0, 2]))
    maybe(.2, "--inverse-recognition")
    maybe(.2, "--replace-inj-defs")
    maybe(.2, "--lift-lambdas=" + r.choice(["true", "false"]))
    maybe(.2, "--eta-normalize=" + r.choice(["reduce", "expand"]))
    maybe(.2, "--ho-order-kind=" + r.choice(["lfho", "lambda"]))
    maybe(.2, "--cnf-lambda-to-forall=" + r.choice(["true", "false"]))
    maybe(.2, "--unroll-formulas-only=" + r.choice(["true", "false"]))
    maybe(.2, "--prim-enum-mode=" + r.choice(["neg", "and", "or", "eq", "pragmatic", "full", "logsym"]))
    maybe(.2, "--prim-enum-max-depth=%d" % r.choice([-1, 0, 2]))
    maybe(.2, "--inst-choice-max-depth=%d" % r.choice([-1, 0, 2]))
    maybe(.2, "--local-rw=" + r.choice(["true", "false"]))
    maybe(.2, "--prune-args=" + r.choice(["true", "false"]))
    maybe(.2, "--func-proj-limit=%d" % r.choice([0, 1, 3]))
    maybe(.2, "--imit-limit=%d" % r.choice([0, 1, 3]))
    maybe(.2, "--ident-limit=%d" % r.choice([0, 1]))
    maybe(.2, "--elim-limit=%d" % r.choice([0, 1]))
    maybe(.2, "--unif-mode=" + r.choice(["single", "multi"]))
    maybe(.2, "--pattern-oracle=" + r.choice(["true", "false"]))
    maybe(.2, "--fixpoint-oracle=" + r.choice(["true", "false"]))
    maybe(.2, "--max-unifiers=%d" % r.choice([1, 4]))
    maybe(.2, "--preinstantiate-induction=" + r.choice(["true", "false"]))
    maybe(.2, "--fool-unroll=" + r.choice(["true", "false"]))
    return o


def w_tools(seed):
    w = Work(seed, "tools")
    r = w.r
    k = r.random()
    if k < .5:                                             # PCL listings
        p = w.put("p.p", gen.any_unsat(r).text)
        R = w.go("eprover", ["--cpu-limit=5", "-C", "150", "--generated-limit=3000", "--pcl-out", "-l" + r.choice("456")] + strat.sample(r) + [p])
        pcl = R.out[:200000]
        if r.random() < .3:
            pcl = mutate(r, pcl[:30000])
        q = w.put("p.pcl", pcl)
        for _ in range(2):
            t = r.choice(["epclextract", "epcllemma", "epclanalyse", "direct_examples"])
            o = {"epclextract": [["-f"], ["-c"], ["-n"], ["-C"], ["--tstp-out"], ["-s"], []],
                 "epcllemma": [["-i"], ["-r"], ["-f"], ["-A", "3"], ["-q", "1.5"], ["--tstp-out"], ["--tptp-out"], ["--lop-out"], []],
                 "epclanalyse": [[]], "direct_examples": [["-n", "3"], []]}[t]
            w.go(t, r.choice(o) + [q])
    elif k < .62:
        p = w.put("p.p", gen_problem(r))
        w.go("eground", ["--cpu-limit=5"] + r.sample(
            ["--dimacs", "--split-tries=1", "--no-split", "--add-one-instance", "--local-constraints", "--fix-point", "--print-statistics",
             "-R", "--constraints", "--suppress-result"], 2) + [p])
    elif k < .72:
        p = w.put("p.p", gen_problem(r))
        f = w.put("f", "threshold010 = Threshold(10)\ng1 = GSinE(CountFormulas,hypos,%s,%d,%d,20,50,0.5)\n" % (
            r.choice(["1.2", "5.0", "1.0"]), r.choice([1, 3]), r.choice([1, 20])))
        w.go("e_axfilter", (["-f", f] if r.random() < .6 else []) + r.sample(["-S", "-m", "-d", "-s", "--seed-subsample=3"], 1) + [p])
    elif k < .8:
        cls = ["cnf(c%d,axiom,(%s))." % (i, "|".join(r.choice(["", "~"]) + "p%d" % r.randint(1, 6) for _ in range(r.randint(1, 4))))
               for i in range(r.randint(1, 20))]
        p = w.put("p.p", "\n".join(cls) + "\n")
        w.go("edpll", [p])
    elif k < .88:
        sig = gen.rand_sig(r)
        rules = []
        for i in range(r.randint(1, 5)):
            l, rr = gen.rand_term(r, sig, ["X", "Y"], 2), gen.rand_term(r, sig, ["X", "Y"], 1)
            if not isinstance(l, str):
                rules.append("cnf(r%d,axiom,(%s))." % (i, fol.clause2s([(True, ("=", l, rr))])))
        p = w.put("r.p", "\n".join(rules) + "\n")
        t = w.put("c.p", gen_problem(r))
        w.go("enormalizer", ["--tptp3-format", r.choice(["-f", "-c"]), t, p], timeout=10)
    elif k < .94:
        p = w.put("p.p", gen_problem(r))
        w.go(r.choice(["classify_problem", "epatternize"]), ["--tstp-format", p])
    else:
        p = w.put("p.p", gen.any_unsat(r).text)
        R = w.go("eprover", ["--cpu-limit=5", "-C", "150", "--training-examples=3", p])
        q = w.put("t.out", R.out)
        w.go("ekb_create", [os.path.join(w.d, "kb")])
        w.go("ekb_insert", ["-k", os.path.join(w.d, "kb"), q])
        w.go("ekb_ginsert", ["-k", os.path.join(w.d, "kb"), q])
        w.go("ekb_delete", ["-k", os.path.join(w.d, "kb"), "t.out"])
        w.go("eprover", ["--cpu-limit=5", "-C", "50", "-HTSMWeight(ConstPrio,1,1,2,flat,E_KNOWLEDGE,100000,1.0,1.0,Flat,IndexIdentity,"
                         "100000,-20,20,-2,-1,0,2)", p])
    return w.done()


def setup(ctx, programs=True):
    global _tmp, _corpus, _names
    _tmp = ctx.tmp
    b = ebuild.build("asan", False, TOOLS)
    _bin.update(b)
    h = ebuild.build("asan", True, HOTOOLS)
    _bin.update({"ho:" + k: v for k, v in h.items()})
    _corpus = corpus()
    _names = strat.builtin(_bin["eprover"])


WORK = [("generated", w_generated, 260), ("example", w_example, 60), ("damaged", w_damaged, 420), ("ho", w_ho, 130), ("tools", w_tools, 100)]



def replay(ctx, d):
    raise SystemExit("rerun the options of the replay file on its files with the asan build")


def run(ctx):
    setup(ctx)
    ctx.log("built")
    ctx.map(w_known, ["known"], label="known")
    for name, fn, n in WORK:
        k = int(n * ctx.scale(4, 60) * float(os.environ.get("P11_SCALE", "1")))
        ctx.map(fn, ["%d-%s-%d" % (ctx.seed, name, i) for i in range(k)], label=name, stop_after=int(os.environ.get("P11_STOP", "25")))
