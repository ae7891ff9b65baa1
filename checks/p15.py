"""P15: eground.  Grounding a near-propositional problem keeps it satisfiable or unsatisfiable, in every output format and under every
reduction option; without splitting and purity reduction the ground set is equivalent to the set of all instances."""
import itertools
import os
import random
import re

import common
import ebuild
import fol
import gen

ID = "P15"
LEVEL = "exploration"
RULE = ("random near-propositional clause sets and formulas around the satisfiability threshold, grounded by eground under sampled options "
        "(unit subsumption and resolution, tautology deletion, purity constraints, splitting, DIMACS and clause output); one evaluation: "
        "one ground set judged by a SAT solver against the set of all instances; non-trivial: the input has variables; distinct by "
        "(problem, options)")
ASSUMPTIONS = ["the SAT solver (cross-checked elsewhere) and the enumeration of instances are right", "up to 5 constants, up to 5 variables per clause"]
MIN_DISTINCT = 1500
_bin, _tmp = {}, None


def sorted_epr(r):
    """Predicates whose positive occurrences are on few constants each, so that purity restricts every variable to a set of its own."""
    cs = ["c%d" % i for i in range(r.randint(2, 4))]
    ps = {"p%d" % i: r.choice([1, 1, 1, 2]) for i in range(r.randint(2, 5))}
    dom = {(p, i): r.sample(cs, r.randint(1, len(cs))) for p in ps for i in range(ps[p])}
    cls = []
    for p in sorted(ps):                                     # a disjunction over everything the predicate may hold of, or facts
        ats = [(True, ("atom", (p,) + tuple((x,) for x in t))) for t in itertools.product(*[dom[p, i] for i in range(ps[p])])]
        r.shuffle(ats)
        x = r.random()
        if x < .75:
            cls.append(ats[:6])
        elif x < .9:
            cls.extend([a] for a in ats[:6])
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        c, k = [], 0
        for _ in range(r.randint(2, 4)):
            p = r.choice(sorted(ps))
            args = []
            for i in range(ps[p]):
                if k and r.random() < .1:
                    args.append("X%d" % r.randrange(k))
                else:
                    args.append("X%d" % k)
                    k += 1
            c.append((r.random() < .1, ("atom", (p,) + tuple(args))))
        if len(cs) ** k <= 1500:
            cls.append(c)
    r.shuffle(cls)
    return cls


def rand_epr(r):
    if r.random() < .3:
        return sorted_epr(r)
    nc = r.choice([0, 1, 2, 2, 3, 3, 4, 5])
    ps = {"p%d" % i: r.choice([0, 1, 1, 2, 2, 3]) for i in range(r.randint(1, 5))}
    cs = ["c%d" % i for i in range(nc)]
    cls = []
    for _ in range(r.randint(3, 16)):
        nv = r.choice([0, 1, 2, 2, 3, 4, 5]) if nc < 4 else r.choice([0, 1, 2, 2, 3])
        vs = ["X%d" % i for i in range(nv)]
        c = []
        for _ in range(r.choice([1, 1, 2, 2, 3, 3, 4, 5])):
            p = r.choice(sorted(ps))
            args = []
            for _ in range(ps[p]):
                if vs and (not cs or r.random() < .65):
                    args.append(r.choice(vs))
                elif cs:
                    args.append((r.choice(cs),))
                else:
                    args.append("X0")
            c.append((r.random() < .5, ("atom", (p,) + tuple(args))))
        cls.append(c)
    return cls


def cvars(c):
    out = []
    for _, a in c:
        for x in a[1][1:]:
            if isinstance(x, str) and x not in out:
                out.append(x)
    return out


def instances(cls):
    """All ground instances over the constants present (one if there is none), as sets of signed atoms."""
    cs = sorted({x[0] for c in cls for _, a in c for x in a[1][1:] if not isinstance(x, str)}) or ["c0"]
    out = set()
    for c in cls:
        vs = cvars(c)
        if len(cs) ** len(vs) > 4000:
            return None
        for v in itertools.product(cs, repeat=len(vs)):
            e = dict(zip(vs, v))
            out.add(frozenset((s, (a[1][0],) + tuple(e[x] if isinstance(x, str) else x[0] for x in a[1][1:])) for s, a in c))
    return out


def sat(cls, extra=()):
    ix = {}

    def n(l):
        k = ix.setdefault(l[1], len(ix) + 1)
        return k if l[0] else -k
    cn = [tuple(n(l) for l in c) for c in cls]
    cn += [(n(l),) for l in extra]
    if any(not c for c in cn):
        return False
    if not cn:
        return True
    return fol.sat_solve(len(ix), cn)[0]


ATOM = re.compile(r"(p\d+|epred\d+_\d+|[a-z]\w*)(?:\(([^()]*)\))?$")


def read_lop(text):
    """Ground clauses in LOP; None if a line cannot be read."""
    out = []
    for l in text.split("\n"):
        l = l.strip()
        if not l or l.startswith("%"):
            continue
        m = re.match(r"^(.*?)(<-|\?-)(.*)\.$", l)
        if not m:
            return None
        c = set()
        for side, s in ((m.group(1), True), (m.group(3), False)):
            for a in re.split(r"[;,]\s*(?![^()]*\))", side):
                a = a.strip()
                if not a:
                    continue
                sg = s
                if a.startswith("~"):
                    a, sg = a[1:], not s
                x = ATOM.match(a)
                if not x:
                    return None
                c.add((sg, (x.group(1),) + tuple(x.group(2).split(",") if x.group(2) else ())))
        out.append(frozenset(c))
    return out


def case(seed):
    r = random.Random(seed)
    res = common.Result()
    cls = rand_epr(r)
    allin = instances(cls)
    if allin is None or len(allin) > 12000:
        res.n["too_big"] += 1
        return res
    truth = sat(allin)
    fof = r.random() < .3
    if fof:
        # constants become outermost existential quantifiers of one formula
        cs = sorted({x[0] for c in cls for _, a in c for x in a[1][1:] if not isinstance(x, str)})
        mp = {c: "E%d" % i for i, c in enumerate(cs)} if r.random() < .5 else {}

        def t(a):
            return ("atom", (a[1][0],) + tuple(x if isinstance(x, str) else mp.get(x[0], x) for x in a[1][1:]))
        fs = [("or", [t(a) if s else ("not", t(a)) for s, a in c]) for c in cls]
        fs = [("all", [(v, "$i") for v in cvars(c)], f) if cvars(c) else f for c, f in zip(cls, fs)]
        if mp:
            f = ("ex", [(v, "$i") for v in sorted(mp.values())], ("and", fs))
            text = "fof(a,axiom,%s).\n" % fol.f2s(f) if r.random() < .5 else "fof(a,conjecture,~(%s)).\n" % fol.f2s(f)
        else:
            text = "".join("fof(a%d,axiom,%s).\n" % (i, fol.f2s(f)) for i, f in enumerate(fs))
    else:
        text = "".join("cnf(a%d,axiom,(%s)).\n" % (i, fol.clause2s(c)) for i, c in enumerate(cls))
    o, cnstr, split = [], False, 0
    if r.random() < .35:
        split = r.choice([1, 1, 2, 5])
        o.append("--split-tries=%d" % split)
    elif r.random() < .6:
        o.append("--split-tries=0")
    for x in ("-U", "-r", "-t", "-M"):
        if r.random() < .3:
            o.append(x)
    if r.random() < .35:
        cnstr = True
        o.append(r.choice(["-c", "-c", "--constraints"]))
    if r.random() < .15:
        o.append("-i")
    if fof:
        o.append("--definitional-cnf=%d" % r.choice([0, 4, 24]))
    dim = r.random() < .5
    fn = os.path.join(_tmp, "g%s.p" % common.hashlib.md5(str(seed).encode()).hexdigest()[:12])
    with open(fn, "w") as f:
        f.write(text)
    cmd = [_bin["eground"], "--tptp3-in"] + o + (["--dimacs"] if dim else []) + [fn]
    R = common.run(cmd, timeout=60, cpu=30)
    os.unlink(fn)
    res.n["evaluations"] += 1
    rp = dict(problem=text, options=cmd[1:-1], seed=seed, rc=R.rc, output=R.out[-4000:], err=R.err[-500:])
    if R.timeout or R.rc is None or R.rc < 0 or R.rc == 8:
        res.inconclusive += 1
        return res
    if R.rc != 0:
        if fof and R.rc == 12:                    # Skolem functions of more than no arguments after clausification
            res.n["not_near_propositional"] += 1
            return res
        res.violation("rejected", "near-propositional problem rejected: %s" % R.err.strip()[:200], rp)
        return res
    if "Full and complete" not in R.out:
        res.n["incomplete"] += 1
        return res
    if dim:
        m = re.search(r"^p cnf (\d+) (\d+)$", R.out, re.M)
        if not m:
            res.violation("dimacs-header", "no DIMACS header", rp)
            return res
        cn = []
        for l in R.out[m.end():].split("\n"):
            l = l.strip()
            if l and not l.startswith("%"):
                xs = [int(x) for x in l.split()]
                if xs[-1] != 0 or 0 in xs[:-1]:
                    res.violation("dimacs-clause", "clause line not terminated by 0: %s" % l, rp)
                    return res
                cn.append(tuple(xs[:-1]))
        if len(cn) != int(m.group(2)):
            res.violation("dimacs-count", "header announces %s clauses, %d follow" % (m.group(2), len(cn)), rp)
        mx = max([abs(x) for c in cn for x in c] or [0])
        if mx > int(m.group(1)):
            res.violation("dimacs-variables", "header announces %s variables, %d occurs" % (m.group(1), mx), rp)
        s = False if any(not c for c in cn) else True if not cn else fol.sat_solve(mx, cn)[0]
        g = None
        res.n["dimacs"] += 1
    else:
        g = read_lop(R.out)
        if g is None:
            g = [frozenset((sg, (a[1][0],) + tuple(x[0] for x in a[1][1:])) for sg, a in c)
                 for c in (fol.formula_clause(x.formula) for x in fol.parse_lines(R.out)[0])]
        s = sat(g)
        res.n["clause_output"] += 1
    if s is None or truth is None:
        res.inconclusive += 1
        return res
    res.n["sat" if truth else "unsat"] += 1
    if bool(s) != bool(truth):
        res.violation("satisfiability", "the problem is %s, its grounding is %s (options %s)" % (
            "satisfiable" if truth else "unsatisfiable", "satisfiable" if s else "unsatisfiable", " ".join(o)), rp)
    named = any(not isinstance(x, str) for c in cls for _, a in c for x in a[1][1:])
    if g is not None and named and not fof and not split and "--split-tries=0" in o:
        G = set(g)
        for c in r.sample(sorted(g, key=repr), min(6, len(g))):
            if sat(allin, [(not a, b) for a, b in c]):
                res.violation("not-an-instance", "ground clause %s does not follow from the problem" % sorted(c), rp)
                break
            res.n["clauses_judged"] += 1
        if not cnstr:
            miss = [c for c in allin if c not in G and not any((not a, b) in c for a, b in c)]
            for c in r.sample(sorted(miss, key=lambda x: repr(sorted(x))), min(6, len(miss))):
                if sat(G, [(not a, b) for a, b in c]):
                    res.violation("instance-lost", "the instance %s does not follow from the ground set" % sorted(c), rp)
                    break
                res.n["instances_judged"] += 1
    if any(cvars(c) for c in cls):
        res.key(text, tuple(o), dim)
    return res


def run(ctx):
    global _tmp
    _tmp = ctx.tmp
    _bin.update(ebuild.build("rel", False, ("eground",)))
    ctx.map(case, ["%d-%d" % (ctx.seed, i) for i in range(ctx.scale(15000, 80000))], label="groundings")
