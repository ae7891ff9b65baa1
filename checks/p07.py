"""P07: unification and matching.  Every answer of the real unification, matching and fingerprint pre-filters is compared with
Robinson unification; most-generality is checked up to renaming; failed attempts must leave no binding behind."""
import random

import common
import elib
from elib import t2s, subst, tvars

ID = "P07"
LEVEL = "exploration"
RULE = ("random term pairs biased towards near-unifiable ones (instances, perturbations, shared and repeated variables, occurs-check "
        "failures); one evaluation: one unification or matching call against Robinson's algorithm, including the bindings, the "
        "instantiated terms and term sharing of the result; non-trivial: both terms are not variables; distinct by (operation, terms)")
ASSUMPTIONS = ["the reference unification and matching (40 lines of Python) are right", "first-order terms, untyped or many-sorted, depth up to 6, arity up to 20"]
MIN_DISTINCT = 5000
_tmp = None


def pair(r, sig):
    vs = ["X", "Y", "Z", "U"]
    k = r.random()
    t = sig.term(r, vs, r.randint(1, 4))
    if k < .15:
        return t, sig.term(r, vs, r.randint(1, 3))
    if k < .45:                                            # generalise two instances of a common term
        s = {v: sig.term(r, vs if r.random() < .5 else ["A", "B"], 2) for v in tvars(t)}
        u = subst(t, s)
        g = generalise(r, u, vs if r.random() < .5 else ["A", "B", "C"])
        return (t, g) if r.random() < .5 else (generalise(r, u, vs), g)
    if k < .6:
        return t, elib.perturb(r, sig, t, vs)
    if k < .8:                                             # separate variables
        m = {v: v + "1" for v in vs}
        return t, elib.perturb(r, sig, subst(t, m), ["X1", "Y1"])
    n = r.randint(2, 3)                                    # chains of variables; occurs-check candidates
    fs = [f for f, a in sig.f.items() if a >= 2] or list(sig.f)
    f = r.choice(fs)
    def build(d):
        if d == 0:
            return r.choice(vs)
        return (f,) + tuple(build(d - 1) if r.random() < .6 else r.choice(vs) for _ in range(sig.f[f]))
    return build(n), build(n)


def generalise(r, t, vs, p=.25):
    if r.random() < p:
        return r.choice(vs)
    if isinstance(t, str):
        return t
    return (t[0],) + tuple(generalise(r, x, vs, p) for x in t[1:])


def inst(t, b):
    return subst(t, b)


class TSig:
    """Many-sorted signature."""
    def __init__(self, r):
        self.sorts = ["s0", "s1", "$i"][:r.randint(2, 3)]
        self.c = {"c%d%s" % (i, s.strip("$")): s for s in self.sorts for i in range(r.randint(1, 2))}
        self.f = {}
        for i in range(r.randint(2, 5)):
            self.f["fghkl"[i]] = ([r.choice(self.sorts) for _ in range(r.choice([1, 1, 2, 2, 3, 7]))], r.choice(self.sorts))
        self.v = {"%s%d" % (s.strip("$").upper(), i): s for s in self.sorts for i in range(3)}

    def problem(self):
        out = ["tff(%s_t,type,%s: $tType)." % (s, s) for s in self.sorts if s[0] != "$"]
        out += ["tff(%s_t,type,%s: %s)." % (c, c, s) for c, s in self.c.items()]
        out += ["tff(%s_t,type,%s: %s > %s)." % (f, f, "(%s)" % " * ".join(a) if len(a) > 1 else a[0], s) for f, (a, s) in self.f.items()]
        out += ["tff(%s_a,axiom,%s = %s)." % (c, c, c) for c in self.c]
        out += ["tff(%s_a,axiom,%s%s != c0%s | c0s0=c0s0)." % (f, "![%s]:" % ",".join("X%d:%s" % x for x in enumerate(a)), "%s(%s)" % (
            f, ",".join("X%d" % i for i in range(len(a)))), s.strip("$")) for f, (a, s) in self.f.items()]
        return "\n".join(out) + "\n"

    def sort(self, t):
        return self.v[t] if isinstance(t, str) else self.c[t[0]] if len(t) == 1 else self.f[t[0]][1]

    def term(self, r, so, depth):
        fs = [f for f, (a, s) in self.f.items() if s == so]
        if depth > 0 and fs and r.random() < .7:
            f = r.choice(fs)
            return (f,) + tuple(self.term(r, x, depth - 1) for x in self.f[f][0])
        if r.random() < .6:
            return r.choice([v for v, s in self.v.items() if s == so])
        return (r.choice([c for c, s in self.c.items() if s == so]),)

    def gen(self, r, t, p=.3):
        if r.random() < p:
            return r.choice([v for v, s in self.v.items() if s == self.sort(t)])
        return t if isinstance(t, str) else (t[0],) + tuple(self.gen(r, x, p) for x in t[1:])

    def pair(self, r):
        s = self.term(r, r.choice(self.sorts), r.randint(0, 3))
        if r.random() < .5:
            return s, self.gen(r, self.gen(r, subst(s, {v: self.term(r, self.v[v], 1) for v in tvars(s)})))
        return s, self.term(r, r.choice(self.sorts), r.randint(0, 2))


def typed(a):
    """Many-sorted terms: a variable unifies with, or matches, terms of its own sort only."""
    no, seed, n = a
    r = random.Random(seed)
    res = common.Result()
    sig = TSig(r)
    text = sig.problem()
    decl = [("VAR", v, s) for v, s in sig.v.items()]
    script = list(decl)
    for _ in range(n):
        s, t = sig.pair(r)
        if r.random() < .3:
            s, t = t, s
        script.append((r.choice(["MGU", "MATCH"]), t2s(s), t2s(t)))
    out, R = elib.session(_tmp, "t%d" % no, text, [], script, ho=False)
    if out is None:
        rep = elib.san_report(R)
        if rep:
            res.violation("sanitizer", rep[:600], dict(problem=text, script=script))
        res.inconclusive += 1
        res.n["failed_session"] += 1
        return res
    for cmd, line in zip(script[len(decl):], out[len(decl):]):
        f = line[1:].split("\t")
        s, t = elib.parse(cmd[1]), elib.parse(cmd[2])
        res.n["evaluations"] += 1
        res.n["typed_pairs"] += 1
        diff = sig.sort(s) != sig.sort(t)
        want = None if diff else elib.unify(s, t) if cmd[0] == "MGU" else elib.match(s, t, {})
        res.n["typed_%s" % ("other_sort" if diff else "yes" if want is not None else "no")] += 1
        res.key("typed", cmd[0], elib.canon(("", s, t)))
        if (f[0] == "1") != (want is not None):
            res.violation("typed-" + cmd[0].lower(), "%s of %s (%s) and %s (%s): answer %s" % (cmd[0], cmd[1], sig.sort(s), cmd[2], sig.sort(t), f[0]),
                          dict(problem=text, cmd=cmd, vars=sig.v, line=line))
    return res


def case(a):
    no, seed, n = a
    r = random.Random(seed)
    res = common.Result()
    sig = elib.Sig(r, wide=.3)
    text = sig.problem()
    script = []
    for _ in range(n):
        s, t = pair(r, sig)
        op = r.choice(["MGU", "MGU", "MATCH"])
        if op == "MATCH" and r.random() < .6:
            m = {v: sig.term(r, ["A", "B", "X"], 2) for v in tvars(s)}
            t = subst(s, m)
            if r.random() < .4:
                t = elib.perturb(r, sig, t, ["A", "B"])
        script += [("CLEARNAMES",), (op, t2s(s), t2s(t))]
    ho = r.random() < .4
    out, R = elib.session(_tmp, "%d" % no, text, [], script, ho=ho)
    if out is None:
        rep = elib.san_report(R)
        if rep:
            res.violation("sanitizer", rep[:600], dict(problem=text, script=script))
        res.inconclusive += 1
        res.n["failed_session"] += 1
        return res
    for cmd, line in zip(script[1::2], out[1::2]):
        f = line[1:].split("\t")
        ok = f[0] == "1"
        s, t = elib.parse(f[1]), elib.parse(f[2])
        res.n["evaluations"] += 1
        mgu = cmd[0] == "MGU"
        want = elib.unify(s, t) if mgu else elib.match(s, t, {})
        res.n["%s_%s" % (cmd[0].lower(), "yes" if want is not None else "no")] += 1
        if not isinstance(s, str) and not isinstance(t, str):
            res.key(cmd[0], elib.canon(("", s, t)))
        why = None
        if ok != (want is not None):
            why = "answer %s, should be %s" % (ok, want is not None)
        elif not ok:
            if f[3] != "0":
                why = "a failed attempt left %s bindings" % f[3]
        else:
            b = dict((x.split("=")[0], elib.parse(x.split("=")[1])) for x in f[3].split(";") if x)
            si, ti = elib.parse(f[4]), elib.parse(f[5])
            vs = sorted(tvars(s) | tvars(t))
            if si != ti or f[6] != "1":
                why = "instances differ: %s, %s (same cell: %s)" % (f[4], f[5], f[6])
            elif subst(s, b) != si or (mgu and subst(t, b) != ti):
                why = "bindings %s do not give the instance %s" % (f[3], f[4])
            elif mgu and elib.canon(("",) + tuple(subst(v, b) for v in vs)) != elib.canon(("",) + tuple(subst(v, want) for v in vs)):
                why = "unifier %s is not most general" % f[3]
            elif not mgu and {v: x for v, x in b.items() if x != v} != {v: x for v, x in want.items() if x != v}:
                why = "matcher %s, should be %s" % (b, want)
        if why:
            res.violation(cmd[0].lower(), "%s of %s and %s: %s" % (cmd[0], f[1], f[2], why), dict(problem=text, cmd=cmd, ho=ho, line=line))
            if len(res.viol) > 5:
                break
    if no < 3:
        res.samples.append(dict(cmd=script[1], answer=out[1]))
    return res


def run(ctx):
    global _tmp
    _tmp = ctx.tmp
    elib.build()
    n = ctx.scale(600, 12000)
    ctx.map(typed, [(i, "%d-p07t-%d" % (ctx.seed, i), 200) for i in range(n // 4)], label="many-sorted")
    ctx.map(case, [(i, "%d-p07-%d" % (ctx.seed, i), 300) for i in range(n)], label="unification")
