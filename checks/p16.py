"""P16: axiom selection.  SInE filters and relevancy pruning keep exactly the formulas their definition names, unchanged, and a pruned
problem is never reported (counter-)satisfiable."""
import collections
import os
import random
import re
import shutil

import common
import ebuild

ID = "P16"
LEVEL = "exploration"
RULE = ("random problems of 3 to 60 clauses and formulas with skewed symbol frequencies, conjectures, hypotheses and formulas without "
        "symbols, pruned by eprover (--prune with sampled GSinE filters, named filters and --rel-pruning-level) and by e_axfilter with several "
        "filters in one run; one evaluation: one selection compared with a reference implementation of the published definition; non-trivial: "
        "the selection is neither empty nor everything; distinct by (problem, filter)")
ASSUMPTIONS = ["the reference selection (this file) follows the definition in the manual; where the manual and the program differ by one "
               "(set size, generosity) the program's count is taken"]
MIN_DISTINCT = 1500
_bin, _tmp = {}, None
AR = {}
SYM = re.compile(r"\b[pfck]\d+\b")


def term(r, syms, d=0):
    x = r.random()
    if x < .35 or d > 2:
        return r.choice(["X", "Y", "Z"])
    fs = [s for s in syms if s[0] == "f"]
    cs = [s for s in syms if s[0] in "ck"]
    if x < .6 and fs:
        f = r.choice(fs)
        return "%s(%s)" % (f, ",".join(term(r, syms, d + 1) for _ in range(1 + int(f[1:]) % 3)))
    return r.choice(cs) if cs else "X"


def atom(r, syms):
    ps = [s for s in syms if s[0] == "p"]
    if not ps or r.random() < .2:
        return "%s%s%s" % (term(r, syms), r.choice(["=", "=", "!="]), term(r, syms))
    p = r.choice(ps)
    n = int(p[1:]) % 4
    return p + ("(%s)" % ",".join(term(r, syms) for _ in range(n)) if n else "")


def form(r, syms, d=0):
    x = r.random()
    if x < .4 or d > 2:
        return atom(r, syms)
    if x < .5:
        return "~(%s)" % form(r, syms, d + 1)
    if x < .6:
        return "(%s[%s]:(%s))" % (r.choice("!?"), r.choice("XYZ"), form(r, syms, d + 1))
    return "(%s%s%s)" % (form(r, syms, d + 1), r.choice(["&", "|", "=>", "<=>", "<=", "<~>", "~&", "~|"]), form(r, syms, d + 1))


def problem(r):
    """[(name, role, lang, text, Counter)]"""
    nsym = r.choice([4, 8, 16, 30])
    pool = ["%s%d" % (r.choice("ppppffcc"), i) for i in range(nsym)]
    w = [1.0 / (1 + i) ** r.choice([.3, .8, 1.2]) for i in range(nsym)]
    out = []
    pure = r.choice([None, None, "cnf", "fof"])
    n = r.choice([3, 6, 12, 25, 60])
    nconj = 0
    for i in range(n):
        lang = pure or r.choice(["cnf", "fof"])
        if r.random() < .06:
            body = r.choice(["X=Y", "X!=Y", "X=X", "(X=Y|Y=Z)" if lang == "fof" else "X=Y|Y=Z"])
        else:
            syms = r.choices(pool, w, k=r.choice([1, 2, 3, 5]))
            body = form(r, syms) if lang == "fof" else "|".join(r.choice(["", "", "~"]) + re.sub("^~", "", atom(r, syms)) for _ in range(r.randint(1, 3)))
        if lang == "cnf":
            body = re.sub(r"~([^|]*)!=", r"\1=", body)
            body = re.sub(r"~([^|(]*(?:\([^|]*\))?=)", r"\1", body)
        role = r.choices(["axiom", "hypothesis", "conj", "lemma", "definition"], [7, 1, 1.2, .5, .5])[0]
        if i == n - 1 and not nconj and r.random() < .85:
            role = "conj"
        if role == "conj":
            nconj += 1
            role = "negated_conjecture" if lang == "cnf" else r.choice(["conjecture", "conjecture", "negated_conjecture"])
        out.append(("n%d" % i, role, lang, body, collections.Counter(SYM.findall(body))))
    r.shuffle(out)
    return out


def text(fs):
    return "".join("%s(%s,%s,%s).\n" % (l, n, ro, ("![X,Y,Z]:(%s)" % b) if l == "fof" else b) for n, ro, l, b, _ in fs)


def isconj(ro):
    return ro in ("conjecture", "negated_conjecture")


def sine(fs, measure, hypos, bene, gene, depth, size, frac, nosym):
    """(levels: [set of names], names of formulas without symbols that are added, size bound)"""
    gt, gf = collections.Counter(), collections.Counter()
    for _, _, _, _, c in fs:
        for s, k in c.items():
            gt[s] += k
            gf[s] += 1
    g = gt if measure == "CountTerms" else gf
    rel, none = collections.defaultdict(list), []
    for n, _, _, _, c in fs:
        vs = sorted(g[s] for s in c)
        if not vs:
            none.append(n)
            continue
        lim = min(int(vs[0] * bene), vs[min(gene, len(vs) - 1)])
        for s in c:
            if g[s] <= lim:
                rel[s].append(n)
    by = {f[0]: f for f in fs}
    cur = {f[0] for f in fs if isconj(f[1]) or (hypos and f[1] == "hypothesis")}
    if not cur:
        return [], set(), 0
    levels, seen = [], set()
    while cur and len(levels) <= depth:
        levels.append(cur)
        seen |= cur
        cur = {m for n in cur for s in by[n][4] for m in rel[s]} - seen
    return levels, set(none) if nosym else set(), min(size, int(frac * len(fs)))


def relprune(fs, level):
    cur = {f[0] for f in fs if isconj(f[1])}
    rest = {f[0] for f in fs} - cur
    by = {f[0]: f for f in fs}
    lv, known = [], set()
    while cur:
        lv.append(cur)
        new = {s for n in cur for s in by[n][4]} - known
        known |= new
        cur = {n for n in rest if new & set(by[n][4])}
        rest -= cur
    sel = set().union(*lv[:level]) if lv else set()
    return sel | (rest if level > len(lv) else set())


NAMED = {"gf500_h_gu_R04_F100_L20000": ("CountFormulas", True, 5.0, 10 ** 9, 4, 20000, 1.0),
         "gf120_h_gu_R02_F100_L20000": ("CountFormulas", True, 1.2, 10 ** 9, 2, 20000, 1.0),
         "gf120_h_gu_RUU_F100_L00500": ("CountFormulas", True, 1.2, 10 ** 9, 10 ** 9, 500, 1.0),
         "gf200_h_gu_R03_F100_L20000": ("CountFormulas", True, 2.0, 10 ** 9, 3, 20000, 1.0),
         "gf120_gu_R02_F100_L20000": ("CountFormulas", False, 1.2, 10 ** 9, 2, 20000, 1.0)}


def rand_filter(r, n):
    """(text, parameters of sine())"""
    if r.random() < .1:
        k = r.choice(sorted(NAMED))
        return k, NAMED[k] + (False,)
    m = r.choice(["CountFormulas", "CountTerms"])
    hy = r.random() < .5
    be = r.choice(["1.0", "1.2", "1.5", "2.0", "3.0", "10.0"])
    ge = r.choice([1, 2, 3, 20, 10000])
    de = r.choice([1, 1, 2, 3, 5, 1000])
    sz = r.choice([20000, 20000, 20000, max(1, n // 2), max(1, n // 4)])
    fr = r.choice(["1.0", "1.0", "1.0", "0.5", "0.25"])
    ns = r.choice([None, True, False])
    t = "GSinE(%s,%shypos,%s,%d,%d,%d,%s%s)" % (m, "" if hy else "no", be, ge, de, sz, fr,
                                                {None: "", True: ",addnosymb", False: ",ignorenosymb"}[ns])
    return t, (m, hy, float(be), ge, de, sz, float(fr), False if ns is None else ns)


NAME = re.compile(r"^(fof|cnf|tff|tcf)\(([\w-]+), (\w+), (.*?)(?:, (?:file\(.*|unknown|introduced.*|\[.*))?\)\.$", re.M)


def norm(b):
    b = re.sub(r"[\s()]", "", b)
    mp = {}
    return re.sub(r"\bX\d+\b|\b[XYZ]\b", lambda m: mp.setdefault(m.group(0), "V%d" % len(mp)), b)


def judge(res, fs, levels, added, bound, got, rp, what):
    names = {f[0] for f in fs}
    ids = [m[1] for m in got]
    rp = dict(rp, selected=ids)
    if len(ids) - len(set(ids)) > len([x for x in ids if x in added]) / 2:     # a goal without symbols is listed as both
        res.violation("selected-twice", "%s selects a formula twice: %s" % (what, [x for x in ids if ids.count(x) > 1][:5]), rp)
    s = set(ids)
    if s - names:
        res.violation("selected-unknown", "%s selects formulas that are not in the problem: %s" % (what, sorted(s - names)[:5]), rp)
        return None
    clos = set().union(*levels) if levels else set()
    extra = s - clos - added
    if extra:
        res.violation("selected-extra", "%s selects %s outside the closure" % (what, sorted(extra)[:5]), rp)
    if added - s:
        res.violation("no-symbol", "%s drops formulas without symbols: %s" % (what, sorted(added - s)[:5]), rp)
    if bound is None or len(clos) <= bound:
        if clos - s:
            res.violation("selected-missing", "%s misses %s" % (what, sorted(clos - s)[:5]), rp)
    else:
        k = len((s - added) | (s & clos))
        if not (min(bound, len(clos)) <= len(s) and len(s - added) <= bound + 1):
            res.violation("set-size", "%s selects %d of %d formulas with bound %d (%d)" % (what, len(s), len(clos), bound, k), rp)
        deepest = max([i for i, l in enumerate(levels) if (l - added) & s] or [0])
        for i, l in enumerate(levels[:deepest]):
            if l - s:
                res.violation("order", "%s selects at level %d but misses %s of level %d" % (what, deepest, sorted(l - s)[:3], i), rp)
    return s


def unchanged(res, fs, got, rp):
    by = {f[0]: f for f in fs}
    for lang, n, role, body in [(g[0], g[1], g[2], g[3]) for g in got]:
        f = by.get(n)
        if not f:
            continue
        if role != f[1] and not (role in ("plain", "axiom") and f[1] in ("lemma", "definition")):
            res.violation("role", "%s was %s, is %s" % (n, f[1], role), rp)
        if collections.Counter(SYM.findall(body)) != f[4]:
            res.violation("changed", "%s was %s, is %s" % (n, f[3], body), rp)


def case(seed):
    r = random.Random(seed)
    res = common.Result()
    fs = problem(r)
    t = text(fs)
    d = os.path.join(_tmp, "s" + common.hashlib.md5(str(seed).encode()).hexdigest()[:12])
    os.makedirs(d)
    fn = os.path.join(d, "q.p")
    with open(fn, "w") as f:
        f.write(t)
    try:
        run_case(r, res, fs, t, d, fn, seed)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


def note(res, fs, s, *key):
    res.n["evaluations"] += 1
    if s is not None and 0 < len(s) < len(fs):
        res.key(*key)


def run_case(r, res, fs, t, d, fn, seed):
    mode = r.random()
    if mode < .2:                                            # several filters in one run of e_axfilter
        fl = [rand_filter(r, len(fs)) for _ in range(r.randint(1, 4))]
        fl = [f for f in fl if f[0].startswith("GSinE")] or [("GSinE(CountFormulas,hypos,1.2,10,2,200,1.0)", ("CountFormulas", True, 1.2, 10, 2, 200, 1.0, False))]
        ff = os.path.join(d, "filters")
        with open(ff, "w") as f:
            f.write("".join("k%d = %s\n" % (i, x[0]) for i, x in enumerate(fl)))
        R = common.run([_bin["e_axfilter"], "--tptp3-in", "--filter=" + ff, fn], timeout=60, cpu=30, cwd=d)
        rp = dict(problem=t, filters=[x[0] for x in fl], rc=R.rc, seed=seed, err=R.err[-400:])
        if R.timeout or R.rc is None or R.rc < 0:
            res.inconclusive += 1
            return
        if R.rc != 0:
            res.violation("rejected", "e_axfilter failed: " + R.err.strip()[:200], rp)
            return
        for i, (ft, pa) in enumerate(fl):
            o = os.path.join(d, "q_k%d.p" % i)
            if not os.path.exists(o):
                res.violation("no-output", "e_axfilter wrote no file for filter %d" % i, dict(rp, files=os.listdir(d)))
                continue
            got = [g for g in NAME.findall(open(o).read()) if g[2] != "type"]
            lv, ad, b = sine(fs, *pa)
            s = judge(res, fs, lv, ad, b, got, dict(rp, filter=ft), "e_axfilter " + ft)
            unchanged(res, fs, got, dict(rp, filter=ft))
            note(res, fs, s, t, ft, "axf")
            res.n["axfilter"] += 1
        return
    rel = 0
    if mode < .75:
        ft, pa = rand_filter(r, len(fs))
        o = ["--sine=" + ft]
        lv, ad, b = sine(fs, *pa)
        what = ft
    else:
        rel = r.choice([1, 1, 2, 2, 3, 5, 50])
        o = ["--rel-pruning-level=%d" % rel]
        s0 = relprune(fs, rel)
        lv, ad, b = [s0], set(), None
        what = "rel-pruning-level %d" % rel
    R = common.run([_bin["eprover"], "-s", "--prune"] + o + [fn], timeout=60, cpu=30)
    rp = dict(problem=t, options=o, rc=R.rc, seed=seed, err=R.err[-400:], out=R.out[-3000:])
    if R.timeout or R.rc is None or R.rc < 0:
        res.inconclusive += 1
        return
    if "Pruning successful" not in R.out:
        res.violation("rejected", "pruning failed: " + R.err.strip()[:200], rp)
        return
    got = NAME.findall(R.out)
    s = judge(res, fs, lv, ad, b, got, rp, what)
    unchanged(res, fs, got, rp)
    note(res, fs, s, t, what)
    res.n["pruned"] += 1
    if s is not None and len(s) < len(fs):
        R = common.run([_bin["eprover"], "-s", "--processed-clauses-limit=400", "--cpu-limit=4"] + o + [fn], timeout=60, cpu=30)
        m = re.findall(r"SZS status (\w+)", R.out)
        res.n["status_" + (m[0] if m else "none")] += 1
        if m and m[0] in ("Satisfiable", "CounterSatisfiable"):
            res.violation("saturated-pruned", "%s after dropping %d formulas (%s)" % (m[0], len(fs) - len(s), what), dict(rp, out2=R.out[-1500:]))


def run(ctx):
    global _tmp
    _tmp = ctx.tmp
    _bin.update(ebuild.build("rel", False, ("eprover", "e_axfilter")))
    ctx.map(case, ["%d-%d" % (ctx.seed, i) for i in range(ctx.scale(9000, 80000))], label="selections")
