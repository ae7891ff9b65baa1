"""Random typed higher-order (THF) problems with a planted finite standard model, and plain well-typed noise.

Types: "i", "o", (a, b) for a > b.  Terms: ("v", name, ty) | ("c", name, ty) | ("app", f, a) | ("lam", name, ty, body)
Formulas are terms of type o: ("not", f) ("and"|"or"|"imp"|"iff", f, g) ("eq", s, t) ("all"|"ex", name, ty, f) ("true",) ("false",)
("ite", c, a, b): a if c else b;  ("let", name, ty, def, body)."""
import itertools

I, O = "i", "o"
II, IO, III, HO1, HO2, OO, OI = ("i", "i"), ("i", "o"), ("i", ("i", "i")), (("i", "i"), "i"), (("i", "o"), "o"), ("o", "o"), ("o", "i")


def ty2s(t, names={"i": "$i", "o": "$o"}):
    if isinstance(t, str):
        return names[t]
    a = ty2s(t[0], names)
    if not isinstance(t[0], str):
        a = "(" + a + ")"
    return a + " > " + ty2s(t[1], names)


def typeof(t):
    k = t[0]
    if k in ("v", "c"):
        return t[2]
    if k == "app":
        return typeof(t[1])[1]
    if k == "lam":
        return (t[2], typeof(t[3]))
    if k == "ite":
        return typeof(t[2])
    if k == "let":
        return typeof(t[4])
    return O


def show(t):
    k = t[0]
    if k in ("v", "c"):
        return t[1]
    if k == "app":
        return "(%s @ %s)" % (show(t[1]), show(t[2]))
    if k == "lam":
        return "(^ [%s: %s]: %s)" % (t[1], ty2s(t[2]), show(t[3]))
    if k == "not":
        return "(~ %s)" % show(t[1])
    if k in ("and", "or", "imp", "iff"):
        return "(%s %s %s)" % (show(t[1]), {"and": "&", "or": "|", "imp": "=>", "iff": "<=>"}[k], show(t[2]))
    if k == "eq":
        return "(%s = %s)" % (show(t[1]), show(t[2]))
    if k in ("all", "ex"):
        return "(%s [%s: %s]: %s)" % ("!" if k == "all" else "?", t[1], ty2s(t[2]), show(t[3]))
    if k == "ite":
        return "$ite(%s,%s,%s)" % (show(t[1]), show(t[2]), show(t[3]))
    if k == "let":
        u, a, lhs, n = t[2], show(t[3]), [], 0
        while not isinstance(u, str):                       # f(X,Y) := def
            n += 1
            lhs.append("Z%d%s" % (n, t[1]))
            a = "(%s @ %s)" % (a, lhs[-1])
            u = u[1]
        return "$let(%s: %s,%s := %s,%s)" % (t[1], ty2s(t[2]), t[1] + ("(%s)" % ",".join(lhs) if lhs else ""), a, show(t[4]))
    return "$true" if k == "true" else "$false"


class Model:
    """Full (standard) function spaces over a domain of n elements.  A function is a tuple of values indexed by the
    position of its argument in the enumeration of the argument type."""
    def __init__(self, n):
        self.n = n
        self._e = {}
        self.c = {}

    def elems(self, ty):
        if ty not in self._e:
            if ty == "i":
                self._e[ty] = list(range(self.n))
            elif ty == "o":
                self._e[ty] = [False, True]
            else:
                a, b = self.elems(ty[0]), self.elems(ty[1])
                self._e[ty] = list(itertools.product(b, repeat=len(a)))
        return self._e[ty]

    def size(self, ty):
        if ty == "i":
            return self.n
        if ty == "o":
            return 2
        return self.size(ty[1]) ** self.size(ty[0])

    def pos(self, ty, x):
        if ty == "i":
            return x
        if ty == "o":
            return int(x)
        k = ("pos", ty)
        if k not in self._e:
            self._e[k] = {e: i for i, e in enumerate(self.elems(ty))}
        return self._e[k][x]

    def rand(self, r, ty):
        if ty == "i":
            return r.randrange(self.n)
        if ty == "o":
            return r.random() < .5
        return tuple(self.rand(r, ty[1]) for _ in range(self.size(ty[0])))

    def ev(self, t, env):
        k = t[0]
        if k == "v":
            return env[t[1]]
        if k == "c":
            return self.c[t[1]]
        if k == "app":
            f = self.ev(t[1], env)
            return f[self.pos(typeof(t[1])[0], self.ev(t[2], env))]
        if k == "lam":
            return tuple(self.ev(t[3], {**env, t[1]: e}) for e in self.elems(t[2]))
        if k == "not":
            return not self.ev(t[1], env)
        if k == "and":
            return self.ev(t[1], env) and self.ev(t[2], env)
        if k == "or":
            return self.ev(t[1], env) or self.ev(t[2], env)
        if k == "imp":
            return (not self.ev(t[1], env)) or self.ev(t[2], env)
        if k == "iff":
            return self.ev(t[1], env) == self.ev(t[2], env)
        if k == "eq":
            return self.ev(t[1], env) == self.ev(t[2], env)
        if k == "all":
            return all(self.ev(t[3], {**env, t[1]: e}) for e in self.elems(t[2]))
        if k == "ex":
            return any(self.ev(t[3], {**env, t[1]: e}) for e in self.elems(t[2]))
        if k == "ite":
            return self.ev(t[2] if self.ev(t[1], env) else t[3], env)
        if k == "let":
            return self.ev(t[4], {**env, t[1]: self.ev(t[3], env)})
        return k == "true"


CONST_TYPES = [I, I, II, III, IO, ("i", ("i", "o")), HO1, HO2, OO, OI, O, (("i", "i"), ("i", "i")), (("i", "o"), "i")]
VAR_TYPES = [I, I, I, I, O, II, IO, OO]


def size(t):
    return 1 + sum(size(x) for x in t[1:] if isinstance(x, tuple) and x and x[0] in
                   ("v", "c", "app", "lam", "not", "and", "or", "imp", "iff", "eq", "all", "ex", "true", "false", "ite", "let"))


class Gen:
    def __init__(self, r, lam=.5, boolin=.3, maxq=3):
        self.ite = .1 if r.random() < .25 else 0
        self.inlam = 0
        self.r, self.lam, self.boolin, self.maxq = r, lam, boolin, maxq
        self.k = 0
        self.sig = [("a", I), ("b", I), ("f", II), ("p", IO)]
        for i in range(r.randint(1, 4)):
            self.sig.append(("s%d" % i, r.choice(CONST_TYPES)))

    def fresh(self):
        self.k += 1
        return "X%d" % self.k

    def heads(self, ty, env):
        """Symbols and variables whose (partial) application can have type ty, with the number of arguments."""
        out = []
        for kind, pool in (("c", self.sig), ("v", env)):
            for n, t in pool:
                k, u = 0, t
                while True:
                    if u == ty:
                        out.append((kind, n, t, k))
                    if isinstance(u, str):
                        break
                    u, k = u[1], k + 1
        return out

    def term(self, ty, env, d):
        r = self.r
        if d > 0 and ty in (I, O) and not self.inlam and r.random() < self.ite:
            if r.random() < .6:
                return ("ite", self.formula(env, d - 1, 2), self.term(ty, env, d - 1), self.term(ty, env, d - 1))
            x, u = "l" + self.fresh(), r.choice([I, I, O])
            return ("let", x, u, self.term(u, env, d - 1), self.term(ty, env + [(x, u)], d - 1))
        if not isinstance(ty, str) and (r.random() < self.lam):
            x = self.fresh()
            self.inlam += 1
            b = self.term(ty[1], env + [(x, ty[0])], d - 1)
            self.inlam -= 1
            return ("lam", x, ty[0], b)
        if ty == "o" and d > 0 and r.random() < self.boolin:
            return self.formula(env, d - 1, 1)
        hs = self.heads(ty, env)
        if d <= 0:
            h0 = [h for h in hs if h[3] == 0]
            hs = h0 or hs
        if hs and not (d <= -4):
            # prefer bound variables a little
            vs = [h for h in hs if h[0] == "v"]
            kind, n, t, k = r.choice(vs) if vs and r.random() < .5 else r.choice(hs)
            out = (kind, n, t)
            for _ in range(k):
                out = ("app", out, self.term(t[0], env, d - 1))
                t = t[1]
            return out
        if ty == "o":
            return ("true",) if r.random() < .5 else ("false",)
        if ty == "i":
            return ("c", "a", I)
        x = self.fresh()
        self.inlam += 1
        b = self.term(ty[1], env + [(x, ty[0])], d - 1)
        self.inlam -= 1
        return ("lam", x, ty[0], b)

    def atom(self, env, d):
        r = self.r
        if r.random() < .5:
            ty = r.choice([I, I, I, II, IO, O, II, III])
            a = self.term(ty, env, d)
            return ("eq", a, self.term(ty, env, d))
        return self.term(O, env, d)

    def formula(self, env, d, q=0):
        r = self.r
        if d <= 0 or r.random() < .25:
            return self.atom(env, max(d, 1))
        x = r.random()
        if x < .15:
            return ("not", self.formula(env, d - 1, q))
        if x < .6 or q >= self.maxq:
            return (r.choice(["and", "or", "imp", "iff", "or", "imp"]), self.formula(env, d - 1, q), self.formula(env, d - 1, q))
        v = self.fresh()
        ty = r.choice(VAR_TYPES)
        return (r.choice(["all", "all", "ex"]), v, ty, self.formula(env + [(v, ty)], d - 1, q + 1))

    def closed(self, d):
        r = self.r
        env = [(self.fresh(), r.choice(VAR_TYPES)) for _ in range(r.choice([0, 1, 1, 2, 2]))]
        f = self.formula(env, d)
        for v, ty in reversed(env):
            f = (r.choice(["all", "all", "all", "ex"]), v, ty, f)
        return f


def beta_noise(r, t):
    """An equal term with some beta redexes or eta expansions added at random subterms."""
    k = t[0]
    if k == "app":
        u = ("app", beta_noise(r, t[1]), beta_noise(r, t[2]))
    elif k == "lam":
        u = ("lam", t[1], t[2], beta_noise(r, t[3]))
    elif k in ("not",):
        u = ("not", beta_noise(r, t[1]))
    elif k in ("and", "or", "imp", "iff", "eq"):
        u = (k, beta_noise(r, t[1]), beta_noise(r, t[2]))
    elif k in ("all", "ex"):
        u = (k, t[1], t[2], beta_noise(r, t[3]))
    elif k == "ite":
        u = (k, beta_noise(r, t[1]), beta_noise(r, t[2]), beta_noise(r, t[3]))
    elif k == "let":
        u = (k, t[1], t[2], beta_noise(r, t[3]), beta_noise(r, t[4]))
    else:
        u = t
    if r.random() < .12:
        ty = typeof(t)
        if Model(3).size(ty) > 300:
            return u
        beta_noise.k += 1
        x = "Y%d" % beta_noise.k
        if r.random() < .5:
            return ("app", ("lam", x, ty, ("v", x, ty)), u)
        if not isinstance(ty, str):
            return ("lam", x, ty[0], ("app", u, ("v", x, ty[0])))
        return ("app", ("lam", x, I, u), ("c", "a", I))
    return u


beta_noise.k = 0


def decls(sig):
    return ["thf(t_%s,type,%s: %s)." % (n, n, ty2s(t)) for n, t in sig]


def problem(sig, items):
    return "\n".join(decls(sig) + ["thf(f%d,%s,%s)." % (i, role, show(f)) for i, (role, f) in enumerate(items)]) + "\n"


def fo_style(g):
    g.lam = .1
    g.boolin = .05


def sat(r, n=None):
    """(text, model, sig, items): all axioms true, the conjecture (if any) false in a standard model."""
    g = Gen(r, lam=r.choice([.1, .3, .5]), boolin=r.choice([.0, .2, .4]))
    n = n or r.choice([1, 2, 2, 2, 3])
    while True:
        big = [t for _, t in g.sig if not isinstance(t, str)]
        m = Model(n)
        if all(m.size(t[0]) <= 300 for t in big):
            break
        n -= 1
    for c, t in g.sig:
        m.c[c] = m.rand(r, t)
    items = []
    for _ in range(r.randint(1, 5)):
        for _ in range(20):
            f = g.closed(r.choice([1, 2, 3, 3]))
            if size(f) <= 45:
                break
        else:
            continue
        if not m.ev(f, {}):
            f = ("not", f)
        items.append(("axiom", f))
    conj = False
    if r.random() < .7:
        for _ in range(20):
            f = g.closed(r.choice([1, 2, 3]))
            if size(f) <= 35:
                if m.ev(f, {}):
                    f = ("not", f)
                items.append(("conjecture", f))
                conj = True
                break
    if r.random() < .4 and not g.ite:
        items = [(k, beta_noise(r, f)) for k, f in items]
    for k, f in items:
        assert m.ev(f, {}) == (k == "axiom")
    return problem(g.sig, items), m, g.sig, items, conj
