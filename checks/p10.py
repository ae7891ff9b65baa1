"""P10: rewriting.  Over histories of adding and removing demodulators: normal forms are equal to the term in a model of all equations
ever present, not larger in the ordering, not rewritable by the demodulators present, and independent of what was normalised before."""
import itertools
import json
import random

import common
import elib
import p06
import p09
import ref
import strat
from elib import t2s, subst, tvars

ID = "P10"
LEVEL = "exploration"
RULE = ("random finite algebras, demodulators true in them, histories of adding and removing demodulators and normalising terms and "
        "clauses, with garbage collections of the term bank; one evaluation: one normal form checked for value in the algebra, ordering and irreducibility; non-trivial: the "
        "term was changed; distinct by (demodulators, term)")
ASSUMPTIONS = ["reference ordering of P06", "algebras with 2 or 3 elements", "a removed demodulator may still have been used through a "
               "remembered rewrite step"]
MIN_DISTINCT = 2000
_tmp = None
V = ["X", "Y", "Z"]


class Alg:
    def __init__(self, r, sig):
        self.n = n = r.choice([2, 2, 3])
        self.f = {}
        for f, a in sig.f.items():
            if a and r.random() < .4:                       # projections and constant functions give many equations
                k = r.randrange(a + 1)
                self.f[f] = {x: (x[k] if k < a else 0) for x in itertools.product(range(n), repeat=a)}
            else:
                self.f[f] = {x: r.randrange(n) for x in itertools.product(range(n), repeat=a)}
        for c in sig.c:
            self.f[c] = {(): r.randrange(n)}
        self.p = {p: {x: r.randrange(2) for x in itertools.product(range(n), repeat=a)} for p, a in sig.p.items()}

    def val(self, t, e):
        if isinstance(t, str):
            return e[t]
        return self.f[t[0]][tuple(self.val(x, e) for x in t[1:])]

    def envs(self, vs):
        vs = sorted(vs)
        for x in itertools.product(range(self.n), repeat=len(vs)):
            yield dict(zip(vs, x))

    def same(self, s, t):
        return all(self.val(s, e) == self.val(t, e) for e in self.envs(tvars(s) | tvars(t)))

    def lit(self, l, e):
        if l[2] is None:
            if l[1] == ("$true",):
                return l[0]
            return bool(self.p[l[1][0]][tuple(self.val(x, e) for x in l[1][1:])]) == l[0]
        if l[1] == ("$true",):
            return l[0]
        return (self.val(l[1], e) == self.val(l[2], e)) == l[0]

    def clause(self, c, e):
        return any(self.lit(l, e) for l in c)


def reducible(O, t, demods, restricted=False, top=True):
    """A demodulator (oriented flag, lhs, rhs) that rewrites t."""
    if isinstance(t, str):
        return None
    for a in t[1:]:
        x = reducible(O, a, demods, False, False)
        if x:
            return x
    if restricted:                                          # the top position may be left alone
        return None
    for ori, l, r in demods:
        for a, b in ((l, r),) if ori else ((l, r), (r, l)):
            m = elib.match(a, t, {})
            if m is None:
                continue
            ren = len(set(map(repr, m.values()))) == len(m) and all(isinstance(x, str) for x in m.values())
            if ren and not ori:
                continue
            if not ori:
                if not tvars(b) <= set(m):
                    continue                                # E binds such variables to a minimal term; not required
                if not O.gt(t, subst(b, m)):
                    continue
            return (l, r)
    return None


def case(a):
    no, seed, size = a
    r = random.Random(seed)
    res = common.Result()
    sig = elib.Sig(r, wide=0, nf=(1, 3), nc=(1, 4))
    text = sig.problem(r if r.random() < .3 else None)
    o = ["-t" + r.choice(strat.ORD), "-w" + r.choice(strat.WGT), "-G" + r.choice(strat.PREC)]
    for f in ("--pdt-no-size-constr", "--pdt-no-age-constr"):
        if r.random() < .2:
            o.append(f)
    ho = r.random() < .3
    A = Alg(r, sig)
    eqs = []
    tries = 0
    while len(eqs) < size and tries < 4000:
        tries += 1
        vs = V[:r.randint(0, 3)]
        s, t = sig.term(r, vs, r.randint(1, 3)), sig.term(r, vs, r.randint(0, 2))
        if s != t and A.same(s, t):
            if not (isinstance(s, str) and isinstance(t, str)):
                eqs.append([(True, s, t)])
    if not eqs:
        res.n["no_equations"] += 1
        return res
    script, plan = [], []

    def ask(cmd, p=None):
        script.append(cmd)
        plan.append(p)

    for c in eqs:
        ask(("CLEARNAMES",))
        ask(("ADD", "cnf(c,axiom,(%s))." % elib.cl2s(c)))
    ne = len(eqs)
    clauses = []
    for _ in range(size):
        c = p09.clean(sig.clause(r, r.randint(1, 3), 2, r.randint(1, 3)))
        if c:
            clauses.append(c)
            ask(("CLEARNAMES",))
            ask(("ADD", "cnf(c,axiom,(%s))." % elib.cl2s(c)))
    head, R = elib.session(_tmp, "%da" % no, text, o, script + [("DUMP",)], ho=ho)
    if head is None:
        return p09.failed(res, R, text, script)
    d = json.loads(head[-1][1:])
    d["kbo"] = "-tKBO" in o[0]
    O = p06.Ord(d)
    C, ori = {}, {}
    for line in head:
        if line.startswith("A"):
            f = line[1:].split("\t")
            C[int(f[0])] = elib.parse_lits(f[1])
            ori[int(f[0])] = f[2]
    cur, gone = [], set()
    terms = [sig.term(r, V, r.randint(1, 4)) for _ in range(size)]
    for c in eqs:                                           # instances of the demodulators below contexts
        s = {v: sig.term(r, V, 1) for v in tvars(c[0][1]) | tvars(c[0][2])}
        x, y = p09.contexts(r, sig, subst(c[0][1], s), subst(c[0][2], s))
        terms += [x, y]
    terms = [t for t in terms if elib.size(t) < 60]
    for _ in range(size * 9):
        k = r.random()
        if k < .14:
            i = r.randrange(ne)
            if i not in cur and i not in gone:
                ask(("INS", "r" if ori[i] == "1" else "e", i))
                cur.append(i)
        elif k < .17 and cur:
            i = r.choice(cur)
            ask(("DEL", i))
            cur.remove(i)
            gone.add(i)
        elif k < .19:
            ask(("GC",))
        elif k < .85 and terms:
            t = r.choice(terms)
            lv = r.choice([1, 2, 2, 2])
            rs = int(r.random() < .15)
            ask(("CLEARNAMES",))
            ask(("NF", lv, r.randint(0, 1), rs, t2s(t)), ("nf", lv, rs, list(cur)))
        elif clauses:
            i = ne + r.randrange(len(clauses))
            lv = r.choice([1, 2, 2])
            ask(("CNF", lv, r.randint(0, 1), i), ("cnf", lv, list(cur)))
    out, R = elib.session(_tmp, "%db" % no, text, o, script, ho=ho)
    if out is None:
        return p09.failed(res, R, text, script)

    def demods(lv, cur):
        return [(ori[i] == "1", C[i][0][1], C[i][0][2]) for i in cur if lv == 2 or ori[i] == "1"]

    def bad(key, cmd, line, why, cur):
        res.violation(key, "%s gives %s: %s; demodulators [%s] [%s]" % (cmd, line, why, "; ".join(
            ("" if ori[i] == "1" else "~ ") + elib.cl2s(C[i]) for i in cur)[:600], " ".join(o)),
            dict(options=o, problem=text, script=script, cmd=cmd, ho=ho))

    for cmd, p, line in zip(script, plan, out):
        if p is None:
            continue
        if len(res.viol) > 6:
            break
        res.n["evaluations"] += 1
        if p[0] == "nf":
            s, t = map(elib.parse, line[1:].split("\t"))
            _, lv, rs, cur = p
            D = demods(lv, cur)
            if s != t:
                res.key([(a, t2s(b), t2s(c)) for a, b, c in D], t2s(s), lv)
                res.n["rewritten"] += 1
            else:
                res.n["irreducible"] += 1
            if not A.same(s, t):
                bad("unsound", cmd, line, "the two terms differ in a model of the equations", cur)
            elif s != t and not O.gt(s, t):
                bad("not-smaller", cmd, line, "the normal form is not smaller", cur)
            else:
                x = reducible(O, t, D, restricted=rs == 1)
                if x:
                    bad("reducible", cmd, line, "not a normal form: %s = %s applies" % (t2s(x[0]), t2s(x[1])), cur)
        else:
            c, g = C[cmd[3]], elib.parse_lits(line[1:])
            _, lv, cur = p
            D = demods(lv, cur)
            if g != c:
                res.n["clauses_rewritten"] += 1
                res.key([(a, t2s(b), t2s(c)) for a, b, c in D], elib.cl2s(c), lv)
            vs = elib.cvars(c) | elib.cvars(g)
            if any(A.clause(c, e) != A.clause(g, e) for e in A.envs(vs)):
                bad("unsound-clause", cmd, line, "%s has another value in a model of the equations" % elib.cl2s(c), cur)
                continue
            for l in g:
                for side in (l[1], l[2]):
                    if side is None or isinstance(side, str):
                        continue
                    x = reducible(O, side, D, restricted=l[0] and side is l[1])
                    if x:
                        bad("reducible-clause", cmd, line, "%s = %s still applies" % (t2s(x[0]), t2s(x[1])), cur)
                        break
    if no < 2:
        k = next(i for i, p in enumerate(plan) if p)
        res.samples.append(dict(options=o, cmd=script[k], answer=out[k]))
    return res


def run(ctx):
    global _tmp
    _tmp = p09._tmp = ctx.tmp
    elib.build()
    n = ctx.scale(800, 20000)
    ctx.map(case, [(i, "%d-p10-%d" % (ctx.seed, i), 14) for i in range(n)], label="rewriting histories")
