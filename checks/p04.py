"""P04: clausification.  Random formulas are clausified by eprover --cnf under many settings; in every sampled finite structure
the input (with its conjecture negated) is true iff the clauses can be satisfied by interpreting only the new symbols."""
import os
import random

import numpy as np

import common
import ebuild
import fol
import gen

ID = "P04"
LEVEL = "exploration"
RULE = ("random closed formulas (all connectives, shadowed and vacuous quantifiers, equality, nested equivalences) "
        "clausified under sampled CNF settings; one evaluation is one (problem, structure) pair decided by a SAT solver over "
        "the Skolem and definition symbols, plus satisfiability agreement for domain sizes 1-3; non-trivial: the clause set "
        "is not empty and the structure decided the input; distinct by (problem, settings, structure)")
ASSUMPTIONS = ["structures with at most 3 elements"]
MIN_DISTINCT = 1000
_bin, _tmp = {}, None


def surface(r, f):
    """Print f with varied TPTP surface syntax."""
    op = f[0]
    s = lambda g: surface(r, g)
    if op == "atom":
        return fol.t2s(f[1])
    if op == "=":
        return "%s=%s" % (fol.t2s(f[1]), fol.t2s(f[2]))
    if op == "not":
        g = f[1]
        if g[0] == "=" and r.random() < .7:
            return "%s!=%s" % (fol.t2s(g[1]), fol.t2s(g[2]))
        if g[0] == "iff" and r.random() < .7:
            return "(%s <~> %s)" % (s(g[1]), s(g[2]))
        if g[0] in ("and", "or") and len(g[1]) == 2 and r.random() < .6:
            return "(%s %s %s)" % (s(g[1][0]), "~&" if g[0] == "and" else "~|", s(g[1][1]))
        return "~ (%s)" % s(g)
    if op in ("and", "or"):
        return "(%s)" % (" & " if op == "and" else " | ").join(s(g) for g in f[1])
    if op == "imp":
        return "(%s <= %s)" % (s(f[2]), s(f[1])) if r.random() < .3 else "(%s => %s)" % (s(f[1]), s(f[2]))
    if op == "iff":
        return "(%s <=> %s)" % (s(f[1]), s(f[2]))
    if op in ("all", "ex"):
        return "(%s[%s]: %s)" % ("!" if op == "all" else "?", ",".join(v for v, _ in f[1]),
                                 s(f[2]) if f[2][0] not in ("=",) else "(" + s(f[2]) + ")")
    return "$true" if op == "true" else "$false"


def mutate(r, f):
    """Sprinkle truth constants, vacuous quantifiers and duplicated parts."""
    op = f[0]
    if op in ("and", "or"):
        xs = [mutate(r, g) for g in f[1]]
        if r.random() < .05:
            xs.insert(r.randint(0, len(xs)), ("true",) if r.random() < .5 else ("false",))
        if r.random() < .06:
            xs.append(r.choice(xs))
        return (op, xs)
    if op in ("imp", "iff"):
        a, b = mutate(r, f[1]), mutate(r, f[2])
        if r.random() < .04:
            a = ("true",) if r.random() < .5 else ("false",)
        return (op, a, b)
    if op == "not":
        return ("not", mutate(r, f[1]))
    if op in ("all", "ex"):
        g = (op, f[1], mutate(r, f[2]))
        if r.random() < .08:
            g = (r.choice(["all", "ex"]), [("V", "$i")], g)
        return g
    return f


def settings(r):
    o = []
    if r.random() < .6:
        o.append("--definitional-cnf=%d" % r.choice([0, 1, 2, 3, 5, 10, 24]))
    if r.random() < .5:
        o.append("--miniscope-limit=%d" % r.choice([0, 1, 5, 20, 1000, 2147483647]))
    if r.random() < .5:
        o.append("--no-preprocessing")
    return o


def case(seed):
    r = random.Random(seed)
    res = common.Result()
    sig = gen.rand_sig(r, nf=(0, 2), np_=(1, 3), nc=(1, 2))
    forms = []
    pool = {} if r.random() < .4 else None
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        if pool is not None:
            f = gen.pooled_formula(r, sig, r.choice([3, 4, 4, 5]), [], pool, r.choice([0, 1]), r.choice([0, .1, .35]))
            if len(fol.f2s(f)) < 1500:
                forms.append(f)
            continue
        f = mutate(r, gen.closed_formula(r, sig, r.choice([2, 3, 3, 4, 5]), r.choice([0, 1, 1, 2]), r.choice([.1, .35, .6])))
        if len(fol.f2s(f)) < 1500:
            forms.append(f)
    if not forms:
        return res
    conj = r.random() < .5
    roles = ["axiom"] * len(forms)
    if conj:
        roles[-1] = "conjecture"
    lang = "tff" if r.random() < .1 else "fof"
    text = "\n".join("%s(a%d,%s,%s)." % (lang, i, ro, surface(r, f)) for i, (ro, f) in enumerate(zip(roles, forms))) + "\n"
    sem = [("not", f) if ro == "conjecture" else f for ro, f in zip(roles, forms)]
    fn = os.path.join(_tmp, "c%s.p" % common.hashlib.md5(str(seed).encode()).hexdigest()[:12])
    with open(fn, "w") as f:
        f.write(text)
    if lang == "tff":
        pre = "".join("tff(t_%s,type,%s:%s)." % (n, n, ty) for n, ty in
                      [(c, "$i") for c in sig.consts] +
                      [(n, ("$i > $i" if a == 1 else "(%s) > $i" % " * ".join(["$i"] * a))) for n, a in sig.funs.items() if a] +
                      [(n, "$o" if a == 0 else ("$i > $o" if a == 1 else "(%s) > $o" % " * ".join(["$i"] * a)))
                       for n, a in sig.preds.items()])
        with open(fn, "w") as f:
            f.write(pre + "\n" + text)
    for _ in range(2):
        o = settings(r)
        e = _bin["ho" if r.random() < .25 else "fo"]
        cmd = [e, "--cnf", "--no-eq-unfolding", "--cpu-limit=5"] + o + [fn]
        R = common.run(cmd, timeout=30, fsize_mb=32)
        rp = dict(problem=text, options=cmd[1:-1], seed=seed, output=R.out[:8000])
        if R.timeout or R.rc != 0:
            res.inconclusive += 1
            continue
        items, bad = fol.parse_lines(R.out)
        if bad or len(items) > 400:
            res.n["unread"] += 1
            continue
        cls = [fol.close(a.formula) for a in items if a.formula is not None and a.role != "type"]
        res.n["clause_sets"] += 1
        res.n["clauses"] += len(cls)
        fails = None
        for n in (1, 2, 3):
            if n < 3 or len(text) < 500:
                a, _d = fol.has_model(sem, n, limit=20000)
                b, _d = fol.has_model(cls, n, limit=20000)
                if a is not None and b is not None:
                    res.n["evaluations"] += 1
                    res.n["size_checks"] += 1
                    res.key(text, tuple(o), n)
                    if a != b:
                        fails = ("satisfiability", "input %s with %d elements, clauses %s" % (
                            "satisfiable" if a else "unsatisfiable", n, "satisfiable" if b else "unsatisfiable"))
                        break
            if n == 1:
                continue
            for k in range(4 if n == 2 else 2):
                m = gen.rand_model(r, n, sig)
                try:
                    want = all(m.formula_true(f) for f in sem)
                except KeyError:
                    break
                fx = {}
                for name, t in list(m.funs.items()) + list(m.preds.items()):
                    fx[name] = {i: (bool(t[i]) if t.dtype == bool else int(t[i])) for i in np.ndindex(*t.shape)}
                got, _d = fol.has_model(cls, n, None, fx, limit=30000)
                if got is None:
                    res.n["too_big"] += 1
                    continue
                res.n["evaluations"] += 1
                res.n["structures_true" if want else "structures_false"] += 1
                if cls:
                    res.key(text, tuple(o), n, str(fx))
                if got != want:
                    fails = ("structure", "input is %s in a structure with %d elements, the clauses are %s there" % (
                        want, n, "satisfiable" if got else "unsatisfiable"))
                    rp["structure"] = str(fx)
                    break
            if fails:
                break
        if fails:
            res.violation(fails[0], fails[1] + ": " + text[:600] + " options " + " ".join(o), rp)
        elif r.random() < .005:
            res.samples.append(dict(problem=text[:500], options=" ".join(o), clauses=len(cls)))
    os.unlink(fn)
    return res


def run(ctx):
    global _tmp
    _bin["fo"] = ebuild.build("rel", False)["eprover"]
    _bin["ho"] = ebuild.build("rel", True)["eprover"]
    _tmp = ctx.tmp
    n = ctx.scale(5000, 60000)
    ctx.map(case, ["%d-%d" % (ctx.seed, i) for i in range(n)], label="clausifications")
