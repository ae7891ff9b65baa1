"""P06: the term ordering is the one selected, and admissible.  Real start-up fixes precedence and weights; the monitor reads them,
checks that they are admissible, and compares every answer of the ordering and of the maximal-literal computation with a reference
KBO / LPO written from the definition."""
import json
import random

import common
import elib
import strat
from elib import t2s, subst, tvars

ID = "P06"
LEVEL = "exploration"
RULE = ("random signatures, problems and ordering options (KBO, KBO6, LPO, LPO4; weight and precedence generation schemes; user "
        "precedences); one evaluation: one comparison of two terms (both directions, with and without bindings to be followed) or "
        "one clause's maximal literals, against a reference ordering; non-trivial: the terms differ; distinct by (precedence and "
        "weights restricted to the terms, terms)")
ASSUMPTIONS = ["the reference KBO / LPO (60 lines of Python) is right", "terms up to depth 6, signatures up to 35 symbols",
               "first-order terms"]
MIN_DISTINCT = 3000
UNC, EQ, GT, LT = 1, 2, 3, 4
NAME = {1: "uncomparable", 2: "equal", 3: "greater", 4: "lesser"}
_tmp = None


class Ord:
    def __init__(self, d):
        self.kbo = d["kbo"]
        self.varw = d["varw"]
        self.w, self.pr = {}, {}
        names = [s[1] for s in d["syms"]]
        for i, s in enumerate(d["syms"]):
            self.w[s[1]] = s[4]
            for j, n in enumerate(names):
                self.pr[s[1], n] = d["cmp"][i][j]
        self.memo = {}

    def prec(self, f, g):
        if f == g:
            return EQ
        if f == "$true":
            return LT
        if g == "$true":
            return GT
        return self.pr[f, g]

    def weight(self, t):
        if isinstance(t, str):
            return self.varw
        return self.w.get(t[0], 1) + sum(map(self.weight, t[1:]))

    def gt(self, s, t):
        k = (s, t)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = (self.kbo_gt if self.kbo else self.lpo_gt)(s, t)
        return r

    def cmp(self, s, t):
        return EQ if s == t else GT if self.gt(s, t) else LT if self.gt(t, s) else UNC

    def kbo_gt(self, s, t):
        if isinstance(s, str) or s == t:
            return False
        if isinstance(t, str):
            return t in tvars(s)
        cs, ct = {}, {}
        count(s, cs)
        count(t, ct)
        if any(cs.get(v, 0) < n for v, n in ct.items()):
            return False
        ws, wt = self.weight(s), self.weight(t)
        if ws != wt:
            return ws > wt
        if s[0] != t[0]:
            return self.prec(s[0], t[0]) == GT
        for a, b in zip(s[1:], t[1:]):
            if a != b:
                return self.gt(a, b)
        return False

    def lpo_gt(self, s, t):
        if isinstance(s, str) or s == t:
            return False
        if isinstance(t, str):
            return t in tvars(s)
        if any(a == t or self.gt(a, t) for a in s[1:]):
            return True
        if s[0] != t[0]:
            return self.prec(s[0], t[0]) == GT and all(self.gt(s, b) for b in t[1:])
        for a, b in zip(s[1:], t[1:]):
            if a != b:
                return self.gt(a, b) and all(self.gt(s, x) for x in t[1:])
        return False

    def lit(self, l):
        sg, a, b = l
        b = ("$true",) if b is None else b
        return [a, b] if sg else [a, a, b, b]

    def lit_cmp(self, l, m):
        """Multiset extension."""
        x, y = self.lit(l), self.lit(m)
        for e in list(x):
            if e in y:
                x.remove(e)
                y.remove(e)
        if not x and not y:
            return EQ
        if x and all(any(self.gt(a, b) for a in x) for b in y):
            return GT
        if y and all(any(self.gt(b, a) for b in y) for a in x):
            return LT
        return UNC


def count(t, c):
    if isinstance(t, str):
        c[t] = c.get(t, 0) + 1
    else:
        for x in t[1:]:
            count(x, c)


def options(r, sig):
    t = r.choice(["KBO", "KBO6", "KBO6", "LPO", "LPO4", "LPO4"])
    o = ["-t" + t]
    if r.random() < .8:
        o.append("-w" + r.choice(strat.WGT))
    user = False
    if r.random() < .85:
        o.append("-G" + r.choice(strat.PREC))
    elif t != "KBO6":
        user = True
    if r.random() < .25:
        ss = list(sig.f) + sig.c
        r.shuffle(ss)
        k = r.randint(2, min(4, len(ss)))
        o.append("--precedence=" + (">" if r.random() < .7 else "<").join(ss[:k]))
        user = True
    if r.random() < .2:
        o.append("-c%d" % r.randint(1, 4))
    return t, o, user


def pair(r, sig, vs):
    k = r.random()
    t = sig.term(r, vs, r.randint(0, 5))
    if k < .2:
        return sig.term(r, vs, r.randint(0, 4)), t
    if k < .3:
        return t, r.choice(list(elib.subterms(t)))
    if k < .6:
        u = elib.perturb(r, sig, t, vs)
        return (t, u) if r.random() < .5 else (u, t)
    if k < .75:                                        # same symbols, arguments permuted
        return t, permute(r, t)
    if k < .9:
        s = {v: sig.term(r, vs, 1) for v in tvars(t)}
        return t, subst(t, s)
    u = elib.perturb(r, sig, t, vs)
    f = r.choice(list(sig.f))
    n = sig.f[f]
    i = r.randrange(n)
    rest = [sig.term(r, vs, 1) for _ in range(n)]
    mk = lambda x: (f,) + tuple(x if j == i else rest[j] for j in range(n))
    return mk(t), mk(u)


def permute(r, t):
    if isinstance(t, str) or len(t) == 1:
        return t
    a = [permute(r, x) if r.random() < .5 else x for x in t[1:]]
    r.shuffle(a)
    return (t[0],) + tuple(a)


def total(res, d, t, user, o, text):
    """Precedence is a strict (total) order; weights are admissible."""
    c, syms = d["cmp"], d["syms"]
    n = len(syms)
    res.n["precedences"] += 1
    rep = dict(options=o, problem=text, syms=syms, cmp=c)
    for i in range(n):
        for j in range(n):
            if i == j:
                continue
            if c[i][j] == EQ:
                res.violation("precedence-tie", "distinct symbols %s, %s are equal in the precedence (%s)" % (syms[i][1], syms[j][1], o), rep)
                return
            if {c[i][j], c[j][i]} not in ({GT, LT}, {UNC}):
                res.violation("precedence-asym", "precedence of %s, %s is not antisymmetric (%s)" % (syms[i][1], syms[j][1], o), rep)
                return
            if c[i][j] == UNC and not user:
                res.violation("precedence-partial", "generated precedence leaves %s, %s uncomparable (%s)" % (syms[i][1], syms[j][1], o), rep)
                return
            if c[i][j] == GT:
                for k in range(n):
                    if c[j][k] == GT and c[i][k] != GT:
                        res.violation("precedence-trans", "precedence is not transitive: %s (%s)" % ([syms[x][1] for x in (i, j, k)], o), rep)
                        return
    if t.startswith("KBO"):
        res.n["weightings"] += 1
        if d["varw"] <= 0:
            res.violation("varweight", "variable weight %d (%s)" % (d["varw"], o), rep)
        for i, s in enumerate(syms):
            if s[3]:
                continue
            if s[4] < 0 or (s[2] == 0 and s[4] < d["varw"]):
                res.violation("weight", "weight of %s/%d is %d, variable weight %d (%s)" % (s[1], s[2], s[4], d["varw"], o), rep)
                return
            if s[2] == 1 and s[4] == 0 and any(c[i][j] != GT for j in range(n) if j != i and not syms[j][3]):
                res.violation("weight0", "unary %s has weight 0 but is not maximal in the precedence (%s)" % (s[1], o), rep)
                return


def case(a):
    no, seed, npairs, ncl = a
    r = random.Random(seed)
    res = common.Result()
    big = r.random() < .15
    sig = elib.Sig(r, nf=(5, 12) if big else (1, 4), nc=(5, 20) if big else (1, 5))
    text = sig.problem(r)
    t, o, user = options(r, sig)
    vs = ["X", "Y", "Z"]
    script = [("DUMP",)]
    items = []
    for _ in range(npairs):
        s, u = pair(r, sig, r.choice([vs, vs, vs[:1], []]) if not big else ["V%d" % k for k in range(1, r.choice([3, 90]))])
        c = ["CMP", t2s(s), t2s(u)]
        if r.random() < .4:
            bind = {}
            for v in vs:
                if r.random() < .6:
                    bind[v] = sig.term(r, [x for x in vs[:vs.index(v)]], 2)
            for v, x in bind.items():
                c += [v, t2s(x)]
            for v in reversed(vs):
                if v in bind:
                    s, u = subst(s, {v: bind[v]}), subst(u, {v: bind[v]})
        items.append((s, u))
        script.append(("CLEARNAMES",))
        script.append(("PAD", r.choice([0] * 30 + [5, 62, 64, 127, 130, 400, 1500])))
        script.append(tuple(c))
    k0 = len(script)
    for i in range(ncl):
        c = sig.clause(r, r.randint(2, 5), r.choice([0, 1, 3]), r.randint(0, 3))
        if r.random() < .5:
            for _ in range(r.randint(1, 3)):
                sg, x, y = r.choice(c)
                c.append((sg if r.random() < .5 else not sg, elib.perturb(r, sig, x, vs) if y is not None and r.random() < .5 else x, y))
        script.append(("ADD", "cnf(c,axiom,(%s))." % elib.cl2s(c)))
        script.append(("MAX", i))
    out, R = elib.session(_tmp, "%d" % no, text, o, script, ho=r.random() < .3)
    if out is None:
        rep = elib.san_report(R)
        if rep:
            res.violation("sanitizer", rep[:600], dict(options=o, problem=text, script=script))
        res.inconclusive += 1
        res.n["failed_session"] += 1
        return res
    d = json.loads(out[0][1:])
    d["kbo"] = t.startswith("KBO")
    total(res, d, t, user, o, text)
    O = Ord(d)
    for (s, u), line, cmd in zip(items, out[3:k0:3], script[3:k0:3]):
        f = line[1:].split("\t")
        r1, r2, g1, g2, r3 = map(int, f[:5])
        want = O.cmp(s, u)
        inv = {GT: LT, LT: GT}.get(want, want)
        res.n["evaluations"] += 1
        res.n["cmp_" + NAME[want]] += 1
        if s != u:
            res.key(t[:3], s, u, sorted((x, O.w[x]) for x in syms(s) | syms(u)),
                    sorted((x, y, O.pr[x, y]) for x in syms(s) | syms(u) for y in syms(s) | syms(u)))
        got = (r1, r2, g1, g2, r3)
        if got != (want, inv, want == GT, want == LT, want):
            res.violation("compare-" + t, "%s under %s: comparing %s with %s gives %s, reversed %s, greater tests %d/%d, on "
                          "instances %s; the ordering says %s" % (t, o, t2s(s), t2s(u), NAME.get(r1), NAME.get(r2), g1, g2,
                                                               NAME.get(r3), NAME[want]),
                          dict(options=o, problem=text, cmd=cmd, dump=d))
            if len(res.viol) > 5:
                return res
    if True:
        for j in range(k0, len(script), 2):
            f = out[j + 1][1:].split("\t")
            lits = elib.parse_lits(f[0])
            flags = [int(x) for x in f[1]]
            res.n["evaluations"] += 1
            res.n["clauses"] += 1
            m = [[O.lit_cmp(x, y) for y in lits] for x in lits]
            n = len(lits)
            want = []
            for i in range(n):
                mx = all(m[i][k] != LT for k in range(n) if k != i)
                st = mx and all(m[i][k] != EQ for k in range(n) if k != i)
                ori = O.gt(lits[i][1], ("$true",) if lits[i][2] is None else lits[i][2])
                want.append((1 if mx else 0) + (2 if st else 0) + (4 if ori else 0))
            if n > 1:
                res.key(t, f[0], want)
            exact = not user and not elib.cvars(lits)
            res.n["clauses_exact"] += exact
            # non-ground literals may be left uncomparable: more of them count as maximal, never fewer
            if want != flags if exact else any((w & ~f) or ((w ^ f) & 4) for w, f in zip(want, flags)):
                res.violation("maximal-" + t, "%s under %s: literals of %s: flags (1 maximal, 2 strictly, 4 oriented) %s, should be %s"
                              % (t, o, f[0], flags, want), dict(options=o, problem=text, cmd=script[j], dump=d))
                if len(res.viol) > 5:
                    return res
    if no < 3:
        res.samples.append(dict(options=o, first=script[3], answer=out[3]))
    return res


def syms(t):
    return {x[0] for x in elib.subterms(t) if not isinstance(x, str)}


def run(ctx):
    global _tmp
    _tmp = ctx.tmp
    elib.build()
    n = ctx.scale(1200, 25000)
    ctx.map(case, [(i, "%d-p06-%d" % (ctx.seed, i), 120, 25) for i in range(n)], label="orderings")
    ctx.notes["sessions"] = n
