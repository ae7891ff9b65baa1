"""Problem generators whose ground truth is known by construction.

Problem: .text (TPTP-3), .truth in {"sat", "unsat", None}, .model (fol.Model of the axioms and of the negated
conjecture, for truth == "sat"), .conj (has a conjecture), .lang, .kind, .sig
"""
import itertools
import random

import numpy as np

from fol import (Model, clause2s, f2s, t2s, lit2s, subst, term_vars, Grounder, TooBig, sat_solve)


class Problem:
    def __init__(self, kind, lang, items, truth, model=None, conj=False, sig=None, decls=()):
        self.kind, self.lang, self.items, self.truth = kind, lang, items, truth
        self.model, self.conj, self.sig, self.decls = model, conj, sig or {}, list(decls)

    @property
    def text(self):
        out = list(self.decls)
        for i, (role, x) in enumerate(self.items):
            if self.lang == "cnf":
                out.append("cnf(a%d,%s,(%s))." % (i, role, clause2s(x)))
            else:
                out.append("%s(a%d,%s,%s)." % (self.lang, i, role, f2s(x)))
        return "\n".join(out) + "\n"


# ------------------------------------------------------------------ terms, clauses

class Sig:
    """funs {name: arity}, preds {name: arity}"""

    def __init__(self, funs, preds):
        self.funs, self.preds = dict(funs), dict(preds)
        self.consts = [f for f, a in self.funs.items() if a == 0]
        self.nonconsts = [f for f, a in self.funs.items() if a > 0]


def rand_sig(r, nf=(1, 4), np_=(0, 3), nc=(1, 3), maxar=2):
    funs = {"c%d" % i: 0 for i in range(r.randint(*nc))}
    for i in range(r.randint(*nf)):
        funs["f%d" % i] = r.choice([1, 1, 2, 2, maxar])
    preds = {"p%d" % i: r.choice([0, 1, 1, 2, 2, maxar]) for i in range(r.randint(*np_))}
    return Sig(funs, preds)


def rand_term(r, sig, vs, depth):
    x = r.random()
    if depth <= 0 or not sig.nonconsts or x < 0.35:
        if vs and (not sig.consts or r.random() < 0.65):
            return r.choice(vs)
        if sig.consts:
            return (r.choice(sig.consts),)
        return r.choice(vs)
    f = r.choice(sig.nonconsts)
    return (f,) + tuple(rand_term(r, sig, vs, depth - 1) for _ in range(sig.funs[f]))


def rand_atom(r, sig, vs, depth, peq=0.4):
    if not sig.preds or r.random() < peq:
        return ("=", rand_term(r, sig, vs, depth), rand_term(r, sig, vs, depth))
    p = r.choice(list(sig.preds))
    return ("atom", (p,) + tuple(rand_term(r, sig, vs, depth - 1) for _ in range(sig.preds[p])))


def rand_clause(r, sig, nlits, nvars, depth, peq=0.4):
    vs = ["X%d" % i for i in range(max(nvars, 0 if sig.consts else 1))]
    return [(r.random() < 0.5, rand_atom(r, sig, vs, depth, peq)) for _ in range(nlits)]


def rand_model(r, n, sig):
    rs = np.random.RandomState(r.getrandbits(31))
    funs = {f: rs.randint(0, n, size=(n,) * a) if a else np.array(rs.randint(0, n)) for f, a in sig.funs.items()}
    preds = {p: rs.rand(*([n] * a)) < 0.5 if a else np.array(rs.rand() < 0.5) for p, a in sig.preds.items()}
    return Model(n, funs, preds)


def tight(r, m, c):
    """Drop literals as long as the clause stays true in m (so nothing in it is superfluous)."""
    ls = list(c)
    r.shuffle(ls)
    i = 0
    while i < len(ls):
        d = ls[:i] + ls[i + 1:]
        if d and m.clause_true(d):
            ls = d
        else:
            i += 1
    return ls


def true_clause(r, m, sig, nlits=(1, 4), nvars=(0, 4), depth=2, peq=0.4, tries=60):
    for _ in range(tries):
        c = rand_clause(r, sig, r.randint(*nlits), r.randint(*nvars), depth, peq)
        if any(a[0] == "=" and a[1] == a[2] for s, a in c):
            continue
        if m.clause_true(c):
            return tight(r, m, c)
    return None


# ------------------------------------------------------------------ algebraic models

def algebra(r):
    """A well known finite structure, its signature, and identities it satisfies (as clauses)."""
    k = r.choice(["group", "abelian", "semilattice", "lattice", "ring", "order", "quasigroup", "perm", "leftzero",
                  "nat_mod", "idem", "boolalg"])
    X, Y, Z = "X", "Y", "Z"
    if k in ("group", "abelian", "ring", "nat_mod"):
        n = r.choice([2, 3, 4, 5]) if k != "ring" else r.choice([2, 3, 4])
        I = np.arange(n)
        mul = (I[:, None] + I[None, :]) % n
        inv = (-I) % n
        if k == "group" and r.random() < 0.35:
            ps = list(itertools.permutations(range(3)))
            n = 6
            mul = np.array([[ps.index(tuple(a[b[i]] for i in range(3))) for b in ps] for a in ps])
            inv = np.array([next(j for j in range(6) if mul[i, j] == ps.index((0, 1, 2))) for i in range(6)])
            e = ps.index((0, 1, 2))
        else:
            e = 0
        ids = [[(True, ("=", ("m", ("e",), X), X))], [(True, ("=", ("m", ("i", X), X), ("e",)))],
               [(True, ("=", ("m", ("m", X, Y), Z), ("m", X, ("m", Y, Z))))],
               [(True, ("=", ("m", X, ("e",)), X))], [(True, ("=", ("m", X, ("i", X)), ("e",)))],
               [(True, ("=", ("i", ("m", X, Y)), ("m", ("i", Y), ("i", X))))],
               [(True, ("=", ("i", ("i", X)), X))]]
        if n < 6:
            ids.append([(True, ("=", ("m", X, Y), ("m", Y, X)))])
        sig = {"m": 2, "i": 1, "e": 0}
        funs = {"m": mul, "i": inv, "e": np.array(e)}
        if k == "ring":
            funs["t"] = (I[:, None] * I[None, :]) % n
            sig["t"] = 2
            ids += [[(True, ("=", ("t", X, ("m", Y, Z)), ("m", ("t", X, Y), ("t", X, Z))))],
                    [(True, ("=", ("t", ("m", X, Y), Z), ("m", ("t", X, Z), ("t", Y, Z))))],
                    [(True, ("=", ("t", X, Y), ("t", Y, X)))],
                    [(True, ("=", ("t", ("t", X, Y), Z), ("t", X, ("t", Y, Z))))]]
        if k == "nat_mod":
            funs["s"] = (I + 1) % n
            sig["s"] = 1
            ids += [[(True, ("=", ("m", ("s", X), Y), ("s", ("m", X, Y))))]]
    elif k in ("semilattice", "lattice", "boolalg"):
        b = r.choice([1, 2])
        n = 2 ** b
        if k != "boolalg" and r.random() < 0.5:
            n = 3
            I = np.arange(n)
            mul = np.minimum(I[:, None], I[None, :])
            jn = np.maximum(I[:, None], I[None, :])
        else:
            I = np.arange(n)
            mul = I[:, None] & I[None, :]
            jn = I[:, None] | I[None, :]
        funs, sig = {"m": mul}, {"m": 2}
        ids = [[(True, ("=", ("m", X, X), X))], [(True, ("=", ("m", X, Y), ("m", Y, X)))],
               [(True, ("=", ("m", ("m", X, Y), Z), ("m", X, ("m", Y, Z))))]]
        if k != "semilattice":
            funs["j"] = jn
            sig["j"] = 2
            ids += [[(True, ("=", ("j", X, X), X))], [(True, ("=", ("j", X, Y), ("j", Y, X)))],
                    [(True, ("=", ("j", ("j", X, Y), Z), ("j", X, ("j", Y, Z))))],
                    [(True, ("=", ("m", X, ("j", X, Y)), X))], [(True, ("=", ("j", X, ("m", X, Y)), X))],
                    [(True, ("=", ("m", X, ("j", Y, Z)), ("j", ("m", X, Y), ("m", X, Z))))]]
        if k == "boolalg":
            funs["n"] = (n - 1) ^ I
            funs["o"] = np.array(n - 1)
            sig.update(n=1, o=0)
            ids += [[(True, ("=", ("j", X, ("n", X)), ("o",)))], [(True, ("=", ("n", ("n", X)), X))]]
    elif k == "order":
        n = r.choice([2, 3, 4])
        I = np.arange(n)
        le = I[:, None] <= I[None, :]
        ids = [[(True, ("atom", ("le", X, X)))],
               [(False, ("atom", ("le", X, Y))), (False, ("atom", ("le", Y, Z))), (True, ("atom", ("le", X, Z)))],
               [(False, ("atom", ("le", X, Y))), (False, ("atom", ("le", Y, X))), (True, ("=", X, Y))],
               [(True, ("atom", ("le", X, Y))), (True, ("atom", ("le", Y, X)))],
               [(True, ("atom", ("le", ("b",), X)))], [(True, ("atom", ("le", X, ("u", X))))]]
        m = Model(n, {"b": np.array(0), "u": np.minimum(I + 1, n - 1)}, {"le": le})
        return k, m, Sig({"b": 0, "u": 1}, {"le": 2}), ids
    elif k == "quasigroup":
        n = 3
        I = np.arange(n)
        q = (2 * I[:, None] + 2 * I[None, :]) % n
        funs, sig = {"q": q}, {"q": 2}
        ids = [[(True, ("=", ("q", X, ("q", X, Y)), Y))], [(True, ("=", ("q", X, Y), ("q", Y, X)))],
               [(True, ("=", ("q", X, X), X))]]
    elif k == "perm":
        n = r.choice([3, 4])
        p = list(range(n))
        r.shuffle(p)
        p = np.array(p)
        q = np.argsort(p)
        funs, sig = {"p": p, "q": q, "a": np.array(0), "b": np.array(1)}, {"p": 1, "q": 1, "a": 0, "b": 0}
        ids = [[(True, ("=", ("p", ("q", X)), X))], [(True, ("=", ("q", ("p", X)), X))],
               [(False, ("=", ("p", X), ("p", Y))), (True, ("=", X, Y))], [(False, ("=", ("a",), ("b",)))]]
    elif k == "leftzero":
        n = r.choice([2, 3])
        I = np.arange(n)
        funs, sig = {"m": np.repeat(I[:, None], n, 1), "a": np.array(0), "b": np.array(1)}, {"m": 2, "a": 0, "b": 0}
        ids = [[(True, ("=", ("m", X, Y), X))], [(False, ("=", ("a",), ("b",)))]]
    else:
        n = r.choice([2, 3])
        I = np.arange(n)
        funs, sig = {"g": np.array([0] * n), "h": I.copy(), "a": np.array(0), "b": np.array(1)}, \
            {"g": 1, "h": 1, "a": 0, "b": 0}
        ids = [[(True, ("=", ("g", ("g", X)), ("g", X)))], [(True, ("=", ("h", X), X))]]
    # a constant or two and a predicate to talk about
    for c in ("a", "b"):
        if c not in sig and r.random() < 0.6:
            funs[c] = np.array(r.randrange(n))
            sig[c] = 0
    preds, psig = {}, {}
    if r.random() < 0.5:
        preds["r"] = np.array([r.random() < 0.5 for _ in range(n)])
        psig["r"] = 1
    m = Model(n, funs, preds)
    return k, m, Sig(sig, psig), ids


# ------------------------------------------------------------------ formulas

def rand_formula(r, sig, depth, vs, tdepth=2, peq=0.35):
    if depth <= 0 or r.random() < 0.12:
        a = rand_atom(r, sig, vs, tdepth, peq)
        return a if r.random() < 0.6 else ("not", a)
    k = r.choice(["and", "or", "imp", "iff", "not", "all", "ex", "all", "ex", "or", "and"])
    if k in ("and", "or"):
        return (k, [rand_formula(r, sig, depth - 1, vs, tdepth, peq) for _ in range(r.choice([2, 2, 3]))])
    if k in ("imp", "iff"):
        return (k, rand_formula(r, sig, depth - 1, vs, tdepth, peq), rand_formula(r, sig, depth - 1, vs, tdepth, peq))
    if k == "not":
        return ("not", rand_formula(r, sig, depth - 1, vs, tdepth, peq))
    nv = r.choice([1, 1, 2])
    base = len(vs)
    # sometimes reuse (shadow) a variable name
    new = ["X%d" % (base + i) for i in range(nv)]
    if vs and r.random() < 0.15:
        new = [r.choice(vs)]
    return (k, [(v, "$i") for v in new], rand_formula(r, sig, depth - 1, vs + [v for v in new if v not in vs], tdepth, peq))


def pooled_formula(r, sig, depth, vs, pool, tdepth=1, peq=0.3):
    """Formulas in which the same subformula occurs several times, at different polarities and in different scopes."""
    cand = [f for k, fs in pool.items() if set(k) <= set(vs) for f in fs]
    if cand and r.random() < 0.4:
        return r.choice(cand)
    if depth <= 0:
        a = rand_atom(r, sig, vs, tdepth, peq)
        return a if r.random() < 0.6 else ("not", a)
    k = r.choice(["and", "or", "imp", "iff", "iff", "not", "all", "ex", "or", "and"])
    sub = lambda: pooled_formula(r, sig, depth - 1, vs, pool, tdepth, peq)
    if k in ("and", "or"):
        f = (k, [sub() for _ in range(r.choice([2, 2, 3, 4]))])
    elif k in ("imp", "iff"):
        f = (k, sub(), sub())
    elif k == "not":
        f = ("not", sub())
    else:
        x = "X%d" % len(vs)
        return (k, [(x, "$i")], pooled_formula(r, sig, depth - 1, vs + [x], pool, tdepth, peq))
    if depth <= 2 or r.random() < 0.3:
        pool.setdefault(tuple(vs), []).append(f)
    return f


def closed_formula(r, sig, depth, tdepth=2, peq=0.35):
    if sig.consts and r.random() < 0.5:
        return rand_formula(r, sig, depth, [], tdepth, peq)
    q = r.choice(["all", "ex"])
    return (q, [("X0", "$i")], rand_formula(r, sig, depth, ["X0"], tdepth, peq))


# ------------------------------------------------------------------ satisfiable problems

def sat_cnf(r):
    if r.random() < 0.4:
        kind, m, sig, ids = algebra(r)
        r.shuffle(ids)
        cls = ids[:r.randint(1, len(ids))]
        extra = r.randint(0, 5)
    else:
        kind = "random"
        sig = rand_sig(r)
        m = rand_model(r, r.choice([2, 2, 3, 3, 4]), sig)
        cls = []
        extra = r.randint(3, 12)
    for _ in range(extra):
        c = true_clause(r, m, sig, (1, 4), (0, 4), r.choice([1, 2, 2, 3]), r.choice([0.2, 0.5, 0.8]))
        if c:
            cls.append(c)
    if not cls:
        cls = [[(True, ("=", "X", "X"))]]
    r.shuffle(cls)
    items = [(r.choice(["axiom", "axiom", "hypothesis", "negated_conjecture"]), c) for c in cls]
    if r.random() < 0.6:
        items[-1] = ("negated_conjecture", items[-1][1])
    return Problem("sat_cnf:" + kind, "cnf", items, "sat", m)


def _sign_to(m, f, want):
    v = m.formula_true(f)
    if v == want:
        return f
    return f[1] if f[0] == "not" else ("not", f)


def sat_fof(r):
    if r.random() < 0.3:
        kind, m, sig, ids = algebra(r)
        r.shuffle(ids)
        items = [("axiom", ("all", [(v, "$i") for v in _cvars(c)], ("or", [a if s else ("not", a) for s, a in c]))
                  if _cvars(c) else ("or", [a if s else ("not", a) for s, a in c]))
                 for c in ids[:r.randint(1, 4)]]
    else:
        kind = "random"
        sig = rand_sig(r)
        m = rand_model(r, r.choice([2, 2, 3]), sig)
        items = []
    for _ in range(r.randint(1, 5)):
        items.append(("axiom", _sign_to(m, closed_formula(r, sig, r.choice([1, 2, 3, 4]), r.choice([1, 2])), True)))
    conj = r.random() < 0.7
    if conj:
        items.append(("conjecture", _sign_to(m, closed_formula(r, sig, r.choice([1, 2, 3])), False)))
    return Problem("sat_fof:" + kind, "fof", items, "sat", m, conj)


def _cvars(c):
    acc = {}
    for s, a in c:
        for t in a[1:]:
            for v in term_vars(t):
                acc[v] = True
    return list(acc)


# ------------------------------------------------------------------ exactly decided problems

def epr(r, eq=None):
    """Effectively propositional clause set; satisfiability decided by grounding + SAT."""
    eq = r.random() < 0.5 if eq is None else eq
    nc = r.choice([1, 2, 3])
    sig = Sig({"c%d" % i: 0 for i in range(nc)}, {"p%d" % i: r.choice([0, 1, 1, 2, 2, 3]) for i in range(r.randint(1, 4))})
    cls = []
    for _ in range(r.randint(4, 14)):
        c = rand_clause(r, sig, r.choice([1, 2, 2, 3, 3]), r.choice([0, 1, 2, 3]), 1, 0.3 if eq else 0.0)
        if not eq:
            c = [l for l in c if l[1][0] != "="]
        if c and not any(a[0] == "=" and a[1] == a[2] for s, a in c):
            cls.append(c)
    if not cls:
        return None
    # Herbrand universe = the constants; with equality every model has a submodel on the constants: sizes 1..nc
    sat = None
    for n in range(1, nc + 1):
        g = Grounder(n, limit=60000)
        try:
            # with constants named, models on the constants only: require every element named
            for c in cls:
                vs = [(v, "$i") for v in _cvars(c)]
                f = ("or", [a if s else ("not", a) for s, a in c])
                g.assert_(("all", vs, f) if vs else f)
        except TooBig:
            return None
        s = g.solve()
        if s is None:
            return None
        if s:
            sat = True
            break
    items = [(r.choice(["axiom", "axiom", "negated_conjecture"]), c) for c in cls]
    return Problem("epr%s" % ("_eq" if eq else ""), "cnf", items, "sat" if sat else "unsat")


def quf(r):
    """Ground equational clause set decided by z3 (quantifier-free UF)."""
    import z3
    S = z3.DeclareSort("S")
    funs = {"f": 1, "g": 2, "h": 1}
    consts = ["a", "b", "c", "d"][:r.randint(2, 4)]
    sig = Sig({**{c: 0 for c in consts}, **{f: funs[f] for f in r.sample(list(funs), r.randint(1, 3))}},
              {p: a for p, a in (("p", 1), ("q", 2), ("s", 0)) if r.random() < 0.5})
    cls = []
    for _ in range(r.randint(4, 12)):
        c = rand_clause(r, sig, r.choice([1, 1, 2, 2, 3]), 0, r.choice([1, 2, 3]), 0.75)
        cls.append([l for l in c if not (l[1][0] == "=" and l[1][1] == l[1][2])] or c)
    fz = {f: z3.Function(f, *([S] * (a + 1))) if a else z3.Const(f, S) for f, a in sig.funs.items()}
    pz = {p: z3.Function(p, *([S] * a + [z3.BoolSort()])) if a else z3.Bool(p) for p, a in sig.preds.items()}

    def t(x):
        return fz[x[0]](*[t(y) for y in x[1:]]) if len(x) > 1 else fz[x[0]]

    def at(a):
        if a[0] == "=":
            return t(a[1]) == t(a[2])
        x = a[1]
        return pz[x[0]](*[t(y) for y in x[1:]]) if len(x) > 1 else pz[x[0]]
    s = z3.Solver()
    for c in cls:
        s.add(z3.Or([at(a) if sg else z3.Not(at(a)) for sg, a in c]))
    v = s.check()
    if v == z3.unknown:
        return None
    return Problem("quf", "cnf", [("axiom", c) for c in cls], "sat" if v == z3.sat else "unsat")


def diagram(r, want=None):
    """Complete diagram of a small structure with domain closure: every sentence is decided by evaluation."""
    n = r.choice([2, 2, 3])
    sig = rand_sig(r, (0, 2), (1, 2), (0, 1), 2)
    m = rand_model(r, n, sig)
    es = ["e%d" % i for i in range(n)]
    funs = dict(m.funs)
    items = []
    for i in range(n):
        funs[es[i]] = np.array(i)
        for j in range(i):
            items.append(("axiom", ("not", ("=", (es[j],), (es[i],)))))
    items.append(("axiom", ("all", [("X", "$i")], ("or", [("=", "X", (e,)) for e in es]))))
    for f, a in sig.funs.items():
        for args in itertools.product(range(n), repeat=a):
            v = int(m.funs[f][args])
            items.append(("axiom", ("=", (f,) + tuple((es[x],) for x in args), (es[v],))))
    for p, a in sig.preds.items():
        for args in itertools.product(range(n), repeat=a):
            at = ("atom", (p,) + tuple((es[x],) for x in args))
            items.append(("axiom", at if m.preds[p][args] else ("not", at)))
    m = Model(n, funs, m.preds)
    sig2 = Sig({**sig.funs, **{e: 0 for e in es}}, sig.preds)
    f = closed_formula(r, sig2, r.choice([2, 3, 4]), r.choice([1, 2]))
    want = (r.random() < 0.7) if want is None else want
    f = _sign_to(m, f, want)
    r.shuffle(items)
    items.append(("conjecture", f))
    return Problem("diagram", "fof", items, "unsat" if want else "sat", None if want else m, True)


# ------------------------------------------------------------------ unsatisfiable by construction (sound inferences)

def walk(t, s):
    while isinstance(t, str) and t in s:
        t = s[t]
    return t


def occurs(v, t, s):
    t = walk(t, s)
    if t == v:
        return True
    return not isinstance(t, str) and any(occurs(v, a, s) for a in t[1:])


def unify(a, b, s):
    a, b = walk(a, s), walk(b, s)
    if a == b:
        return s
    if isinstance(a, str):
        if occurs(a, b, s):
            return None
        s = dict(s)
        s[a] = b
        return s
    if isinstance(b, str):
        return unify(b, a, s)
    if a[0] != b[0] or len(a) != len(b):
        return None
    for x, y in zip(a[1:], b[1:]):
        s = unify(x, y, s)
        if s is None:
            return None
    return s


def app(t, s):
    t = walk(t, s)
    if isinstance(t, str):
        return t
    return (t[0],) + tuple(app(a, s) for a in t[1:])


def app_lit(l, s):
    sg, a = l
    if a[0] == "=":
        return (sg, ("=", app(a[1], s), app(a[2], s)))
    return (sg, ("atom", app(a[1], s)))


def rename_clause(c, suf):
    env = {v: v + suf for v in _cvars(c)}
    return [(s, ("=", subst(a[1], env), subst(a[2], env)) if a[0] == "=" else ("atom", subst(a[1], env))) for s, a in c]


def norm_vars(c):
    env = {v: "X%d" % i for i, v in enumerate(_cvars(c))}
    return [(s, ("=", subst(a[1], env), subst(a[2], env)) if a[0] == "=" else ("atom", subst(a[1], env))) for s, a in c]


def positions(t, p=()):
    if not isinstance(t, str):
        yield p, t
        for i, a in enumerate(t[1:]):
            yield from positions(a, p + (i,))


def replace_at(t, p, u):
    if not p:
        return u
    xs = list(t)
    xs[p[0] + 1] = replace_at(xs[p[0] + 1], p[1:], u)
    return tuple(xs)


def tsize(t):
    return 1 if isinstance(t, str) else 1 + sum(tsize(a) for a in t[1:])


def csize(c):
    return sum(tsize(a[1]) + (tsize(a[2]) if a[0] == "=" else 0) for s, a in c)


def rand_inference(r, cls):
    """One random sound inference (resolution, paramodulation, factoring, equality resolution) or None."""
    k = r.choice(["res", "para", "para", "res", "fact", "eres"])
    if k in ("fact", "eres"):
        c = r.choice(cls)
        if k == "eres":
            i = r.randrange(len(c)) if c else None
            if i is None or c[i][0] or c[i][1][0] != "=":
                return None
            s = unify(c[i][1][1], c[i][1][2], {})
            return None if s is None else [app_lit(l, s) for j, l in enumerate(c) if j != i]
        if len(c) < 2:
            return None
        i, j = r.sample(range(len(c)), 2)
        if c[i][0] != c[j][0] or c[i][1][0] != c[j][1][0]:
            return None
        s = {}
        for x, y in zip(c[i][1][1:], c[j][1][1:]):
            s = unify(x, y, s)
            if s is None:
                return None
        return [app_lit(l, s) for q, l in enumerate(c) if q != j]
    c, d = rename_clause(r.choice(cls), "a"), rename_clause(r.choice(cls), "b")
    if not c or not d:
        return None
    i = r.randrange(len(c))
    if k == "res":
        js = [j for j in range(len(d)) if d[j][0] != c[i][0] and d[j][1][0] == c[i][1][0] == "atom"]
        if not js:
            return None
        j = r.choice(js)
        s = unify(c[i][1][1], d[j][1][1], {})
        if s is None:
            return None
        return [app_lit(l, s) for q, l in enumerate(c) if q != i] + [app_lit(l, s) for q, l in enumerate(d) if q != j]
    if not (c[i][0] and c[i][1][0] == "="):
        return None
    l, rr = c[i][1][1], c[i][1][2]
    if r.random() < 0.5:
        l, rr = rr, l
    if isinstance(l, str):
        return None
    j = r.randrange(len(d))
    side = r.randrange(1, len(d[j][1]))
    pos = list(positions(d[j][1][side]))
    if d[j][1][0] == "atom":
        pos = [x for x in pos if x[0]]
    if not pos:
        return None
    p, sub = r.choice(pos)
    s = unify(l, sub, {})
    if s is None:
        return None
    at = list(d[j][1])
    at[side] = replace_at(at[side], p, rr)
    new = (d[j][0], tuple(at))
    return [app_lit(x, s) for q, x in enumerate(c) if q != i] + \
           [app_lit(x, s) for q, x in enumerate(d) if q != j] + [app_lit(new, s)]


def derived(r, cls, steps, maxsize=24, maxlits=5):
    """Clauses derived from cls by random sound inferences (with how many steps deep)."""
    pool = [(c, 0) for c in cls]
    for _ in range(steps):
        k = [c for c, _ in pool[-8:]] + [r.choice(pool)[0] for _ in range(3)]
        c = rand_inference(r, k)
        if c is None:
            continue
        d = []
        for l in c:
            if l not in d and not (not l[0] and l[1][0] == "=" and l[1][1] == l[1][2]):
                d.append(l)
        if len(d) > maxlits or csize(d) > maxsize:
            continue
        if any(s and a[0] == "=" and a[1] == a[2] for s, a in d) or any((not s, a) in d for s, a in d):
            continue
        pool.append((norm_vars(d), 1))
    return [c for c, k in pool if k]


def unsat_cnf(r):
    """Axioms plus the negation of a clause derived from them by sound inferences."""
    for _ in range(20):
        if r.random() < 0.45:
            kind, m, sig, ids = algebra(r)
            r.shuffle(ids)
            cls = ids[:r.randint(2, len(ids))] if len(ids) > 2 else list(ids)
        else:
            kind = "random"
            sig = rand_sig(r)
            m = rand_model(r, r.choice([2, 3]), sig)
            cls = []
        for _ in range(r.randint(2, 6)):
            c = true_clause(r, m, sig, (1, 3), (0, 3), 2, r.choice([0.3, 0.6]))
            if c:
                cls.append(c)
        if not cls:
            continue
        ds = derived(r, cls, 80)
        if not ds:
            continue
        d = r.choice(ds[-10:])
        if r.random() < 0.3 and len(d) > 1:
            d = r.choice(ds)
        # negate d: ground it with fresh constants
        env = {v: ("k%d" % i,) for i, v in enumerate(_cvars(d))}
        neg = [[(not s, ("=", subst(a[1], env), subst(a[2], env)) if a[0] == "=" else ("atom", subst(a[1], env)))]
               for s, a in d]
        items = [("axiom", c) for c in cls] + [("negated_conjecture", c) for c in neg]
        if r.random() < 0.3:
            r.shuffle(items)
        p = Problem("unsat_cnf:" + kind, "cnf", items, "unsat")
        if r.random() < 0.3:
            fo = [("axiom", clause_all(c)) for c in cls] + [("conjecture", clause_all(d))]
            p = Problem("unsat_fof:" + kind, "fof", fo, "unsat", None, True)
        return p
    return None


def clause_all(c):
    vs = [(v, "$i") for v in _cvars(c)]
    f = ("or", [a if s else ("not", a) for s, a in c]) if len(c) != 1 else (c[0][1] if c[0][0] else ("not", c[0][1]))
    if not c:
        f = ("false",)
    return ("all", vs, f) if vs else f


def wrap_fof(r, f, sig, m=None):
    """A formula logically equivalent to f, more complex (so that clausification has work to do)."""
    k = r.randrange(7)
    if k == 0:
        return ("not", ("not", f))
    if k == 1:
        g = closed_formula(r, sig, 1, 1)
        return ("and", [("or", [f, g]), ("or", [f, ("not", g)])])
    if k == 2:
        g = closed_formula(r, sig, 1, 1)
        return ("iff", g, ("iff", g, f))
    if k == 3:
        g = closed_formula(r, sig, 2, 1)
        return ("or", [("and", [f, g]), ("and", [f, ("not", g)])])
    if k == 4:
        return ("imp", ("not", f), f)
    if k == 5:
        g = closed_formula(r, sig, 2, 1)
        return ("not", ("imp", f, ("and", [g, ("not", g)])))
    return f


def unsat_fof(r):
    p = None
    while p is None or p.lang != "fof":
        p = unsat_cnf(r)
    from fol import symbols
    fs, ps = {}, {}
    for _, f in p.items:
        symbols(f, fs, ps)
    sig = Sig({n: a for n, a in fs}, {n: a for n, a in ps})
    if not sig.consts:
        sig = Sig({**sig.funs, "kk": 0}, sig.preds)
    items = []
    for role, f in p.items:
        for _ in range(r.choice([0, 0, 1, 2])):
            f = wrap_fof(r, f, sig)
        items.append((role, f))
    return Problem(p.kind, "fof", items, "unsat", None, True)


# ------------------------------------------------------------------ sorted (TFF) translation

def to_tff(r, p):
    """Relabel a one-sorted FOF/CNF problem into TFF with a user sort (same truth)."""
    fs, ps = {}, {}
    from fol import symbols
    fl = [(role, clause_all(x) if p.lang == "cnf" else x) for role, x in p.items]
    for _, f in fl:
        symbols(f, fs, ps)
    srt = "s1"
    decls = ["tff(%s_t,type,%s: $tType)." % (srt, srt)]
    for n, a in sorted(fs):
        ty = srt if a == 0 else ("%s > %s" % (srt, srt) if a == 1 else "( %s ) > %s" % (" * ".join([srt] * a), srt))
        decls.append("tff(%s_t,type,%s: %s)." % (n, n, ty))
    for n, a in sorted(ps):
        ty = "$o" if a == 0 else ("%s > $o" % srt if a == 1 else "( %s ) > $o" % (" * ".join([srt] * a)))
        decls.append("tff(%s_t,type,%s: %s)." % (n, n, ty))

    def q(f):
        op = f[0]
        if op in ("all", "ex"):
            return (op, [(v, srt) for v, _ in f[1]], q(f[2]))
        if op == "not":
            return ("not", q(f[1]))
        if op in ("and", "or"):
            return (op, [q(g) for g in f[1]])
        if op in ("imp", "iff"):
            return (op, q(f[1]), q(f[2]))
        return f
    items = [("axiom" if role == "hypothesis" else role, q(f)) for role, f in fl]
    return Problem(p.kind + "+tff", "tff", items, p.truth, p.model, p.conj, decls=decls)


def any_sat(r):
    x = r.random()
    p = sat_cnf(r) if x < 0.5 else sat_fof(r) if x < 0.9 else diagram(r, False)
    if r.random() < 0.15:
        p = to_tff(r, p)
    return p


def any_unsat(r):
    while True:
        x = r.random()
        if x < 0.35:
            p = unsat_cnf(r)
        elif x < 0.5:
            p = unsat_fof(r)
        elif x < 0.65:
            p = diagram(r, True)
        elif x < 0.85:
            p = epr(r)
        else:
            p = quf(r)
        if p is not None and p.truth == "unsat":
            if r.random() < 0.12:
                p = to_tff(r, p)
            return p
