"""Many-sorted first-order (TFF) problems, optionally with Boolean arguments and variables (FOOL), true or false in a planted model
whose sorts have domains of different sizes.

Terms: ("v", name) | (f, args...); formulas: ("=", s, t) ("atom", t) ("bvar", name) ("not", f) ("and"|"or"|"imp"|"iff"|"xor", f, g)
("all"|"ex", name, sort, f) ("true",) ("false",); an argument of sort $o is ("$f", formula)."""
import itertools


class MS:
    def __init__(self, r, fool):
        self.r, self.fool = r, fool
        self.dom = {s: r.choice([1, 2, 2, 3]) for s in ["s", "t", "u"][:r.randint(1, 3)]}
        if r.random() < .3 or len(self.dom) == 1:
            self.dom["$i"] = r.choice([1, 2, 3])
        so = list(self.dom)
        arg = so + (["$o"] if fool else [])
        self.f, self.p = {}, {}
        for i, s in enumerate(so):
            for j in range(r.randint(1, 2)):
                self.f["c%d%d" % (i, j)] = ((), s)
        for i in range(r.randint(1, 4)):
            self.f["fghk"[i]] = (tuple(r.choice(arg) for _ in range(r.choice([1, 1, 2]))), r.choice(so))
        for i in range(r.randint(1, 4)):
            self.p["pqrm"[i]] = tuple(r.choice(arg) for _ in range(r.choice([0, 1, 1, 2, 2])))
        self.k = 0
        self.tab = {}
        for n, (a, s) in self.f.items():
            self.tab[n] = {x: r.randrange(self.dom[s]) for x in itertools.product(*map(self.els, a))}
        for n, a in self.p.items():
            self.tab[n] = {x: r.random() < .5 for x in itertools.product(*map(self.els, a))}

    def els(self, s):
        return (False, True) if s == "$o" else range(self.dom[s])

    def fresh(self):
        self.k += 1
        return "X%d" % self.k

    def term(self, s, env, d):
        r = self.r
        if s == "$o":
            bs = [v for v, x in env if x == "$o"]
            if d <= 0 or r.random() < .3:
                return ("$f", ("bvar", r.choice(bs)) if bs and r.random() < .7 else (r.choice(["true", "false"]),))
            return ("$f", self.formula(env, d - 1, 1))
        vs = [v for v, x in env if x == s]
        fs = [n for n, (a, x) in self.f.items() if x == s and (d > 0 or not a)]
        if vs and (r.random() < .5 or not fs):
            return ("v", r.choice(vs))
        n = r.choice(fs)
        return (n,) + tuple(self.term(x, env, d - 1) for x in self.f[n][0])

    def atom(self, env, d):
        r = self.r
        d = max(d, 0) if self.r.random() < .6 else max(d, 0) + (not self.fool)
        x = r.random()
        bs = [v for v, s in env if s == "$o"]
        if bs and x < .25:
            return ("bvar", r.choice(bs))
        if x < .55:
            s = r.choice(list(self.dom))
            return ("=", self.term(s, env, d), self.term(s, env, d))
        n = r.choice(list(self.p))
        return ("atom", (n,) + tuple(self.term(a, env, d) for a in self.p[n]))

    def formula(self, env, d, q=0):
        r = self.r
        if d <= 0 or r.random() < .25:
            a = self.atom(env, d)
            return a if r.random() < .65 else ("not", a)
        x = r.random()
        if x < .12:
            return ("not", self.formula(env, d - 1, q))
        if x < .65 or q >= 3:
            return (r.choice(["and", "or", "imp", "or", "imp", "iff", "xor"]), self.formula(env, d - 1, q), self.formula(env, d - 1, q))
        v, s = self.fresh(), self.rsort()
        return (r.choice(["all", "all", "ex"]), v, s, self.formula(env + [(v, s)], d - 1, q + 1))

    def rsort(self):
        return "$o" if self.fool and self.r.random() < .2 else self.r.choice(list(self.dom))

    def closed(self, d):
        r = self.r
        if r.random() < .4:                               # a clause
            env = [(self.fresh(), self.rsort()) for _ in range(r.randint(0, 3))]
            f = self.atom(env, 2) if r.random() < .7 else ("not", self.atom(env, 2))
            for _ in range(r.choice([0, 0, 1, 1, 2])):
                a = self.atom(env, 1)
                f = ("or", f, a if r.random() < .5 else ("not", a))
            for v, s in env:
                f = ("all", v, s, f)
            return f
        env = [(self.fresh(), self.rsort()) for _ in range(r.choice([0, 1, 2, 2]))]
        f = self.formula(env, d)
        for v, s in reversed(env):
            f = (r.choice(["all", "all", "ex"]), v, s, f)
        return f

    def ev(self, f, e):
        k = f[0]
        if k in ("v", "bvar"):
            return e[f[1]]
        if k == "$f":
            return self.ev(f[1], e)
        if k == "=":
            return self.ev(f[1], e) == self.ev(f[2], e)
        if k == "atom":
            return self.ev(f[1], e)
        if k == "not":
            return not self.ev(f[1], e)
        if k == "and":
            return self.ev(f[1], e) and self.ev(f[2], e)
        if k == "or":
            return self.ev(f[1], e) or self.ev(f[2], e)
        if k == "imp":
            return not self.ev(f[1], e) or self.ev(f[2], e)
        if k in ("iff", "xor"):
            return (self.ev(f[1], e) == self.ev(f[2], e)) == (k == "iff")
        if k in ("all", "ex"):
            return (all if k == "all" else any)(self.ev(f[3], {**e, f[1]: x}) for x in self.els(f[2]))
        if k in ("true", "false"):
            return k == "true"
        return self.tab[k][tuple(self.ev(x, e) for x in f[1:])]

    def show(self, f):
        k = f[0]
        if k in ("v", "bvar"):
            return f[1]
        if k == "$f":
            return self.show(f[1])
        if k == "=":
            return "(%s = %s)" % (self.show(f[1]), self.show(f[2]))
        if k == "atom":
            return self.show(f[1])
        if k == "not":
            return "(~ %s)" % self.show(f[1])
        if k in ("and", "or", "imp", "iff", "xor"):
            return "(%s %s %s)" % (self.show(f[1]), {"and": "&", "or": "|", "imp": "=>", "iff": "<=>", "xor": "<~>"}[k], self.show(f[2]))
        if k in ("all", "ex"):
            return "(%s [%s:%s]: %s)" % ("!" if k == "all" else "?", f[1], f[2], self.show(f[3]))
        if k in ("true", "false"):
            return "$" + k
        return k if len(f) == 1 else "%s(%s)" % (k, ",".join(self.show(x) for x in f[1:]))

    def decls(self):
        def ty(a, s):
            return s if not a else "%s > %s" % (a[0] if len(a) == 1 else "(%s)" % " * ".join(a), s)
        return ["tff(t_%s,type,%s: $tType)." % (s, s) for s in self.dom if s != "$i"] + \
               ["tff(t_%s,type,%s: %s)." % (n, n, ty(a, s)) for n, (a, s) in self.f.items()] + \
               ["tff(t_%s,type,%s: %s)." % (n, n, ty(a, "$o")) for n, a in self.p.items()]

    def cardinality(self):
        """True statements about the sizes of the sorts, which are false for other sorts."""
        r = self.r
        out = []
        for s, n in self.dom.items():
            x = r.random()
            if x < .3:
                xs = [self.fresh() for _ in range(n + 1)]
                f = None
                for a, b in itertools.combinations(xs, 2):
                    g = ("=", ("v", a), ("v", b))
                    f = g if f is None else ("or", f, g)
                for v in xs:
                    f = ("all", v, s, f)
                out.append(f)
            elif x < .6 and n > 1:
                a, b = self.fresh(), self.fresh()
                out.append(("ex", a, s, ("ex", b, s, ("not", ("=", ("v", a), ("v", b))))))
            elif x < .75:
                v = self.fresh()
                cs = [c for c, (a, t) in self.f.items() if t == s and not a]
                f = ("=", ("v", v), (cs[0],))
                for c in cs[1:]:
                    f = ("or", f, ("=", ("v", v), (c,)))
                if self.ev(("all", v, s, f), {}):
                    out.append(("all", v, s, f))
        return out

    def diagram(self):
        """Axioms whose only model, up to isomorphism, is this one."""
        out, nm = [], {}
        new = []
        for s, n in self.dom.items():
            ds = ["d_%s_%d" % (s.strip("$"), i) for i in range(n)]
            nm[s] = ds
            new += ["tff(t_%s,type,%s: %s)." % (d, d, s) for d in ds]
            out.append("! [X:%s]: (%s)" % (s, " | ".join("X = %s" % d for d in ds)))
            out += ["%s != %s" % x for x in itertools.combinations(ds, 2)]
        nm["$o"] = {False: "$false", True: "$true"}
        for n, (a, s) in self.f.items():
            for x, y in self.tab[n].items():
                out.append("%s = %s" % (self.show((n,) + tuple((nm[k][v],) for k, v in zip(a, x))), nm[s][y]))
        for n, a in self.p.items():
            for x, y in self.tab[n].items():
                out.append(("" if y else "~ ") + self.show((n,) + tuple((nm[k][v],) for k, v in zip(a, x))))
        self.r.shuffle(out)
        return new, out


def _cost(f, m):
    c = 1
    k = f[0]
    if k in ("all", "ex"):
        return len(m.els(f[2])) * _cost(f[3], m)
    return c + sum(_cost(x, m) for x in f[1:] if isinstance(x, tuple))


def sat(r, fool=None):
    """(text, kind) of a problem true in the planted model (a conjecture, if any, is false in it)."""
    fool = r.random() < .3 if fool is None else fool
    m = MS(r, fool)
    fs = m.cardinality()
    for _ in range(r.randint(1, 7)):
        f = m.closed(r.randint(1, 3))
        if _cost(f, m) > 4000:
            continue
        fs.append(f if m.ev(f, {}) else ("not", f))
    r.shuffle(fs)
    out = [("axiom", f) for f in fs]
    if fs and r.random() < .4:
        f = out.pop()[1]
        out.append(("conjecture", f[1] if f[0] == "not" else ("not", f)))
    return "\n".join(m.decls() + ["tff(a%d,%s,%s)." % (i, role, m.show(f)) for i, (role, f) in enumerate(out)]) + "\n", "fool" if fool else "sorted"


def unsat(r, fool=None):
    fool = r.random() < .3 if fool is None else fool
    while True:
        m = MS(r, fool)
        if sum(map(len, m.tab.values())) <= 60:
            break
    new, ax = m.diagram()
    while True:
        f = m.closed(r.randint(1, 3))
        if _cost(f, m) <= 4000:
            break
    v = m.ev(f, {})
    fs = ["tff(a%d,axiom,%s)." % (i, x) for i, x in enumerate(ax)]
    k = r.random()
    if v and k < .6:
        fs.append("tff(goal,conjecture,%s)." % m.show(f))
    else:
        fs.insert(r.randrange(len(fs) + 1), "tff(extra,axiom,%s)." % m.show(("not", f) if v else f))
    return "\n".join(m.decls() + new + fs) + "\n", "fool" if fool else "sorted"
