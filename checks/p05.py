"""P05: simplification loses nothing.  A run is interrupted (or saturates); the clauses E still holds (processed and unprocessed)
must imply every input clause.  Decided by a finite countermodel search: a structure in which all clauses E kept are true but an
input clause is false."""
import os
import random

import common
import ebuild
import fol
import gen
import strat

ID = "P05"
LEVEL = "exploration"
RULE = ("random satisfiable clause sets with redundant copies, instances and weakened variants added, processed for a random "
        "number of given clauses under sampled simplification options; one evaluation: the printed processed and unprocessed "
        "clauses are checked against the input clauses in all structures with 1-3 elements; non-trivial: the clause sets were "
        "printed and the search completed for size 2; distinct by (problem, options)")
ASSUMPTIONS = ["a lost clause is seen if dropping it admits a structure with at most 3 elements",
               "options whose documented effect is not model preserving (blocked clause and predicate elimination, definition "
               "unfolding, axiom selection, deletion of bad clauses) are switched off"]
MIN_DISTINCT = 500
_bin, _tmp = {}, None


def redundant(r, cls):
    """Clauses made redundant on purpose: subsumed, rewritable, tautological, condensable, with AC and cutting partners."""
    out = []
    for _ in range(r.randint(1, 8)):
        k = r.random()
        c = list(r.choice(cls))
        vs = sorted({v for l in c for a in l[1][1:] for v in (fol.term_vars(a) if not isinstance(a, str) else [a])})
        cons = sorted({t for l in c for t in consts(l)}) or ["c0"]
        if k < .3:                                  # instance plus extra literals
            s = {v: ((r.choice(cons),) if r.random() < .6 else r.choice(vs)) for v in vs if r.random() < .7}
            d = [sub_lit(l, s) for l in c]
            if r.random() < .6:
                d = d + [r.choice(list(r.choice(cls)))]
            r.shuffle(d)
            out.append(d)
        elif k < .5:                                # flip one literal: contextual cutting, simplify-reflect
            if c:
                i = r.randrange(len(c))
                c[i] = (not c[i][0], c[i][1])
                out.append(c + ([r.choice(list(r.choice(cls)))] if r.random() < .4 else []))
        elif k < .65:                               # duplicated literal under a renaming: condensation
            s = {v: "Z" + v for v in vs if r.random() < .6}
            out.append(c + [sub_lit(l, s) for l in c if r.random() < .7])
        elif k < .75:                               # tautology
            l = r.choice(c) if c else (True, ("=", "X", "X"))
            out.append(c + [(not l[0], l[1])])
        elif k < .9:                                # variable disequation: destructive equality resolution
            v = r.choice(vs) if vs else "X"
            out.append(c + [(False, ("=", v, r.choice(vs + ["W"]) if vs else "W"))])
        else:
            out.append(c)
    return out


def sub_lit(l, s):
    """Simultaneous substitution."""
    def go(t):
        if isinstance(t, str):
            return s.get(t, t)
        return (t[0],) + tuple(go(a) for a in t[1:])
    a = l[1]
    if a[0] == "=":
        return (l[0], ("=", go(a[1]), go(a[2])))
    if a[0] == "atom":
        return (l[0], ("atom", go(a[1])))
    return l


def consts(l):
    def go(t):
        if isinstance(t, str):
            return []
        if len(t) == 1:
            return [t[0]]
        return [x for a in t[1:] for x in go(a)]
    a = l[1]
    if a[0] == "=":
        return go(a[1]) + go(a[2])
    if a[0] == "atom":
        return [x for t in a[1][1:] for x in go(t)]
    return []


def options(r):
    o = ["-W" + r.choice(strat.SEL)] if r.random() < .7 else []
    if r.random() < .7:
        o += strat.ordering(r)
    if r.random() < .4:
        o.append("-H" + strat.heuristic(r))
    o += strat.simplifying(r)
    if r.random() < .5:
        o += strat.simplifying(r)
    o += strat.indexing(r)
    if r.random() < .3:
        o.append("--no-preprocessing")
    if r.random() < .1:
        o.append("--filter-orphans-limit=%d" % r.choice([5, 50]))
    if r.random() < .15:
        o.append("--forward-contract-limit=%d" % r.choice([3, 20]))
    if r.random() < .1:
        o.append("--select-on-processing-only")
    return o


def case(seed):
    r = random.Random(seed)
    res = common.Result()
    p = gen.sat_cnf(r)
    cls = [c for _, c in p.items]
    n = r.choice([2, 3, 5, len(cls)])
    cls = cls[:n]
    extra = redundant(r, cls)
    if r.random() < .5:
        cls = cls + extra
    else:
        cls = extra + cls
    if r.random() < .5:
        r.shuffle(cls)
    text = "".join("cnf(a%d,%s,(%s)).\n" % (i, r.choice(["axiom", "axiom", "negated_conjecture"]), fol.clause2s(c))
                   for i, c in enumerate(cls))
    o = options(r)
    fn = os.path.join(_tmp, "c%s.p" % common.hashlib.md5(str(seed).encode()).hexdigest()[:12])
    with open(fn, "w") as f:
        f.write(text)
    cmd = [_bin["ho" if r.random() < .2 else "fo"], "-s", "-C", str(r.choice([0, 1, 3, 6, 10, 15, 25])), "--no-eq-unfolding",
           "--print-saturated=eigEIG", "--generated-limit=1500", "--cpu-limit=6"] + o + [fn]
    R = common.run(cmd, timeout=30, fsize_mb=32)
    os.unlink(fn)
    st = common.szs(R.out)
    if R.timeout or not st or R.rc is None or R.rc < 0:
        res.inconclusive += 1
        return res
    res.n["verdict_" + st[0]] += 1
    if st[0] in ("Unsatisfiable", "Theorem", "ContradictoryAxioms"):
        return res
    if R.out.count("clauses:\n") < 6:               # killed by a limit before the clause sets were printed
        res.n["not_printed"] += 1
        return res
    items, bad = fol.parse_lines(R.out)
    if bad:
        res.n["unread"] += 1
        return res
    kept = list(dict.fromkeys(fol.f2s(a.formula) for a in items if a.formula is not None))
    forms = {fol.f2s(a.formula): fol.close(a.formula) for a in items if a.formula is not None}
    if len(kept) > 260:
        res.n["too_many_clauses"] += 1
        return res
    res.n["evaluations"] += 1
    res.n["clauses_in"] += len(cls)
    res.n["clauses_kept"] += len(kept)
    inp = [fol.close(fol.clause_formula(c)) for c in cls]
    # clauses that are still there literally need no check
    done = []
    for n in (1, 2, 3):
        sat, d = fol.has_model([forms[k] for k in kept] + [("not", ("and", inp))], n, limit=9000)
        if sat is None:
            break
        if sat:
            lost = []
            for c, f in zip(cls, inp):
                s1, _d = fol.has_model([forms[k] for k in kept] + [("not", f)], n, limit=9000)
                if s1:
                    lost.append(fol.clause2s(c))
            res.violation("lost", "the clauses E kept no longer imply the input clause(s) %s (%d-element structure); options %s"
                          % (" ;; ".join(lost)[:500], n, " ".join(o)),
                          dict(problem=text, options=cmd[1:-1], seed=seed, kept=kept, structure=str(d), output=R.out[-3000:]))
            return res
        done.append(n)
    if 2 in done:
        res.n["searched_size_%d" % done[-1]] += 1
        res.key(text, tuple(cmd[1:-1]))
        if r.random() < .004:
            res.samples.append(dict(problem=text[:500], options=" ".join(o), kept=len(kept)))
    return res


def run(ctx):
    global _tmp
    _bin["fo"] = ebuild.build("rel", False)["eprover"]
    _bin["ho"] = ebuild.build("rel", True)["eprover"]
    _tmp = ctx.tmp
    n = ctx.scale(11000, 90000)
    ctx.map(case, ["%d-%d" % (ctx.seed, i) for i in range(n)], label="interrupted runs")
