"""First-order syntax (TPTP-3 cnf/fof/tff/tcf as E reads and prints it) and finite-model semantics.

Terms: a variable is a str, an application a tuple (name, arg, ...).
Formulas: ('atom', term) ('=', s, t) ('not', f) ('and', [f..]) ('or', [f..]) ('imp', a, b) ('iff', a, b)
          ('all', [(var, sort)..], f) ('ex', [(var, sort)..], f) ('true',) ('false',)
A clause is a list of literals (sign, atom) with atom ('=', s, t) or ('atom', term).
"""
import itertools
import os
import re
import shutil
import subprocess
import tempfile

import numpy as np

TOK = re.compile(r"""
   (?P<ws>\s+|%[^\n]*|\#[^\n]*|/\*.*?\*/)
 | (?P<sq>'(?:[^'\\]|\\.)*')
 | (?P<dq>"(?:[^"\\]|\\.)*")
 | (?P<op><=>|<~>|=>|<=|~\||~&|!=|:=|\$\$?[A-Za-z_0-9]+|[!?^~&|=@:*>(),.\[\]])
 | (?P<num>[-+]?\d+(?:[./]\d+)?(?:[Ee][-+]?\d+)?)
 | (?P<var>[A-Z][A-Za-z0-9_]*)
 | (?P<id>[a-z][A-Za-z0-9_]*)
""", re.X | re.S)


class ParseError(Exception):
    pass


def tokenize(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise ParseError("bad character at %r" % s[i:i + 30])
        k = m.lastgroup
        if k != "ws":
            t = m.group()
            if k == "sq" and re.fullmatch(r"'[a-z][A-Za-z0-9_]*'", t):
                t, k = t[1:-1], "id"
            out.append((k, t))
        i = m.end()
    out.append(("eof", ""))
    return out


class P:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    @property
    def cur(self):
        return self.t[self.i][1]

    @property
    def kind(self):
        return self.t[self.i][0]

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, s):
        if self.t[self.i][1] == s and self.t[self.i][0] == "op":
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.accept(s):
            raise ParseError("expected %r, got %r" % (s, " ".join(x[1] for x in self.t[self.i:self.i + 8])))

    # terms
    def term(self):
        k, s = self.next()
        if k == "var":
            return s
        if k in ("id", "sq", "dq", "num") or (k == "op" and s.startswith("$")):
            args = []
            if self.accept("("):
                args.append(self.term())
                while self.accept(","):
                    args.append(self.term())
                self.expect(")")
            return (s,) + tuple(args)
        raise ParseError("term expected, got %r" % (s,))

    # formulas
    def formula(self):
        a = self.unit()
        c = self.cur
        if self.kind == "op":
            if c in ("&", "|"):
                xs = [a]
                while self.accept(c):
                    xs.append(self.unit())
                return ("and" if c == "&" else "or", xs)
            if c == "=>":
                self.next()
                return ("imp", a, self.unit())
            if c == "<=":
                self.next()
                return ("imp", self.unit(), a)
            if c == "<=>":
                self.next()
                return ("iff", a, self.unit())
            if c == "<~>":
                self.next()
                return ("not", ("iff", a, self.unit()))
            if c == "~|":
                self.next()
                return ("not", ("or", [a, self.unit()]))
            if c == "~&":
                self.next()
                return ("not", ("and", [a, self.unit()]))
        return a

    def unit(self):
        if self.accept("~"):
            return ("not", self.unit())
        if self.kind == "op" and self.cur in ("!", "?"):
            q = self.next()[1]
            self.expect("[")
            vs = []
            while True:
                k, v = self.next()
                if k != "var":
                    raise ParseError("variable expected")
                sort = "$i"
                if self.accept(":"):
                    sort = self.next()[1]
                vs.append((v, sort))
                if not self.accept(","):
                    break
            self.expect("]")
            self.expect(":")
            f = self.unit()
            return ("all" if q == "!" else "ex", vs, f)
        if self.kind == "op" and self.cur == "(":
            # formula in parentheses, or (rarely) a parenthesised term before an equation
            save = self.i
            self.next()
            try:
                f = self.formula()
                self.expect(")")
            except ParseError:
                self.i = save
                raise
            return f
        t = self.term()
        if self.accept("="):
            return ("=", t, self.term())
        if self.accept("!="):
            return ("not", ("=", t, self.term()))
        if t == ("$true",):
            return ("true",)
        if t == ("$false",):
            return ("false",)
        return ("atom", t)

    # generic annotation term: [..], name(..), strings
    def gterm(self):
        if self.accept("["):
            xs = []
            if not self.accept("]"):
                xs.append(self.gterm())
                while self.accept(","):
                    xs.append(self.gterm())
                self.expect("]")
            return ["list"] + xs
        k, s = self.next()
        if k == "eof":
            raise ParseError("unexpected end")
        args = []
        if self.accept("("):
            if not self.accept(")"):
                args.append(self.gterm())
                while self.accept(","):
                    args.append(self.gterm())
                self.expect(")")
        return (s,) + tuple(args)

    def type_(self):
        """sort or mapping type -> (argsorts, result)"""
        args = []
        if self.accept("("):
            a, r = self.type_()
            self.expect(")")
            if a:
                raise ParseError("higher-order type")
            args = r if isinstance(r, list) else [r]
        else:
            k, s = self.next()
            args = [s]
            if self.accept("*"):
                while True:
                    args.append(self.next()[1])
                    if not self.accept("*"):
                        break
                return ([], args)
        if self.accept(">"):
            k, s = self.next()
            return (args, s)
        if len(args) == 1:
            return ([], args[0])
        return ([], args)


class Annotated:
    __slots__ = ("lang", "name", "role", "formula", "source", "info", "typedecl", "text")

    def __repr__(self):
        return "%s(%s,%s)" % (self.lang, self.name, self.role)


def parse_one(p):
    a = Annotated()
    start = p.i
    a.lang = p.next()[1]
    p.expect("(")
    a.name = p.next()[1]
    p.expect(",")
    a.role = p.next()[1]
    while not (p.kind == "op" and p.cur == ","):
        p.next()           # roles such as axiom-foo
    p.expect(",")
    a.typedecl = None
    if a.role == "type":
        par = 0
        while p.accept("("):
            par += 1
        sym = p.next()[1]
        p.expect(":")
        a.typedecl = (sym,) + tuple(p.type_())
        for _ in range(par):
            p.expect(")")
        a.formula = None
    else:
        a.formula = p.formula()
    a.source = a.info = None
    if p.accept(","):
        a.source = p.gterm()
        if p.accept(","):
            a.info = p.gterm()
    p.expect(")")
    p.expect(".")
    return a


STMT = re.compile(r"^(?:cnf|fof|tff|tcf|thf)\(", re.M)


def parse_problem(text):
    p = P(tokenize(text))
    out = []
    while p.kind != "eof":
        out.append(parse_one(p))
    return out


def parse_lines(text):
    """Annotated formulas in E's output, one per line; other lines are ignored.
    Returns (list, number of statement lines that did not parse)."""
    out = []
    bad = []
    for line in text.splitlines():
        if line[:4] in ("cnf(", "fof(", "tff(", "tcf("):
            try:
                a = parse_one(P(tokenize(line)))
                a.text = line
                out.append(a)
            except (ParseError, IndexError) as e:
                bad.append((line, str(e)))
    return out, bad


# ---------------------------------------------------------------- helpers

def free_vars(f, bound=frozenset(), acc=None):
    if acc is None:
        acc = {}
    op = f[0]
    if op == "atom":
        _tvars(f[1], bound, acc)
    elif op == "=":
        _tvars(f[1], bound, acc)
        _tvars(f[2], bound, acc)
    elif op == "not":
        free_vars(f[1], bound, acc)
    elif op in ("and", "or"):
        for g in f[1]:
            free_vars(g, bound, acc)
    elif op in ("imp", "iff"):
        free_vars(f[1], bound, acc)
        free_vars(f[2], bound, acc)
    elif op in ("all", "ex"):
        free_vars(f[2], bound | {v for v, _ in f[1]}, acc)
    return acc


def _tvars(t, bound, acc):
    if isinstance(t, str):
        if t not in bound:
            acc[t] = True
    else:
        for a in t[1:]:
            _tvars(a, bound, acc)


def term_vars(t):
    acc = {}
    _tvars(t, frozenset(), acc)
    return list(acc)


def close(f):
    vs = list(free_vars(f))
    return ("all", [(v, "$i") for v in vs], f) if vs else f


def symbols(f, funs=None, preds=None):
    """Collect {name: arity} of function and predicate symbols."""
    funs = {} if funs is None else funs
    preds = {} if preds is None else preds

    def term(t):
        if not isinstance(t, str):
            funs[(t[0], len(t) - 1)] = True
            for a in t[1:]:
                term(a)

    def go(f):
        op = f[0]
        if op == "atom":
            t = f[1]
            preds[(t[0], len(t) - 1)] = True
            for a in t[1:]:
                term(a)
        elif op == "=":
            term(f[1])
            term(f[2])
        elif op == "not":
            go(f[1])
        elif op in ("and", "or"):
            for g in f[1]:
                go(g)
        elif op in ("imp", "iff"):
            go(f[1])
            go(f[2])
        elif op in ("all", "ex"):
            go(f[2])
    go(f)
    return funs, preds


def subst(t, env):
    if isinstance(t, str):
        return env.get(t, t)
    if len(t) == 1:
        return t
    return (t[0],) + tuple(subst(a, env) for a in t[1:])


def t2s(t):
    if isinstance(t, str):
        return t
    if len(t) == 1:
        return t[0]
    return "%s(%s)" % (t[0], ",".join(t2s(a) for a in t[1:]))


def f2s(f):
    op = f[0]
    if op == "atom":
        return t2s(f[1])
    if op == "=":
        return "%s=%s" % (t2s(f[1]), t2s(f[2]))
    if op == "not":
        if f[1][0] == "=":
            return "%s!=%s" % (t2s(f[1][1]), t2s(f[1][2]))
        return "~(%s)" % f2s(f[1])
    if op in ("and", "or"):
        if not f[1]:
            return "$true" if op == "and" else "$false"
        return "(%s)" % (" & " if op == "and" else " | ").join(f2s(g) for g in f[1])
    if op == "imp":
        return "(%s => %s)" % (f2s(f[1]), f2s(f[2]))
    if op == "iff":
        return "(%s <=> %s)" % (f2s(f[1]), f2s(f[2]))
    if op in ("all", "ex"):
        vs = ",".join(v if s == "$i" else "%s:%s" % (v, s) for v, s in f[1])
        return "(%s[%s]: (%s))" % ("!" if op == "all" else "?", vs, f2s(f[2]))
    if op == "true":
        return "$true"
    if op == "false":
        return "$false"
    raise ValueError(op)


def lit2s(l):
    s, a = l
    if a[0] == "=":
        return "%s%s%s" % (t2s(a[1]), "=" if s else "!=", t2s(a[2]))
    return ("" if s else "~") + t2s(a[1])


def clause2s(c):
    return "|".join(lit2s(l) for l in c) if c else "$false"


def clause_formula(c):
    return ("or", [a if s else ("not", a) for s, a in c])


def formula_clause(f):
    """The literals of a formula that is a clause (disjunction of literals), else None."""
    if f[0] == "all":
        return formula_clause(f[2])
    xs = f[1] if f[0] == "or" else [f]
    out = []
    for g in xs:
        if g[0] == "false":
            continue
        if g[0] == "or":
            sub = formula_clause(g)
            if sub is None:
                return None
            out += sub
        elif g[0] == "not" and g[1][0] in ("=", "atom"):
            out.append((False, g[1]))
        elif g[0] in ("=", "atom"):
            out.append((True, g))
        elif g[0] == "true" or (g[0] == "not" and g[1][0] == "false"):
            out.append((True, ("true",)))
        elif g[0] == "not" and g[1][0] == "true":
            continue
        else:
            return None
    return out


# ---------------------------------------------------------------- evaluation in a given finite model

class Model:
    """funs: {name: numpy int array of shape (n,)*arity}, preds: {name: numpy bool array}."""

    def __init__(self, n, funs, preds):
        self.n, self.funs, self.preds = n, funs, preds

    def knows(self, f):
        fs, ps = symbols(f)
        return all(x[0] in self.funs for x in fs) and all(x[0] in self.preds for x in ps)

    def clause_true(self, c, maxvars=9):
        """True / False / None (too many variables)."""
        vs = {}
        for s, a in c:
            if a[0] == "true":
                return True
            for t in a[1:]:
                for v in term_vars(t):
                    vs.setdefault(v, len(vs))
        k = len(vs)
        if k > maxvars:
            return None
        n = self.n
        env = {}
        for v, i in vs.items():
            sh = [1] * k
            sh[i] = n
            env[v] = np.arange(n).reshape(sh)

        def ev(t):
            if isinstance(t, str):
                return env[t]
            f = self.funs[t[0]]
            if len(t) == 1:
                return f[()]
            return f[tuple(ev(a) for a in t[1:])]
        acc = np.zeros((1,) * k, dtype=bool)
        for s, a in c:
            if a[0] == "=":
                v = np.equal(ev(a[1]), ev(a[2]))
            else:
                t = a[1]
                p = self.preds[t[0]]
                v = p[tuple(ev(x) for x in t[1:])] if len(t) > 1 else p[()]
            acc = acc | (v if s else ~np.asarray(v))
        return bool(np.all(acc))

    def formula_true(self, f, env=None):
        env = env or {}
        op = f[0]
        if op == "atom":
            return bool(self.preds[f[1][0]][tuple(self.tv(a, env) for a in f[1][1:])])
        if op == "=":
            return self.tv(f[1], env) == self.tv(f[2], env)
        if op == "not":
            return not self.formula_true(f[1], env)
        if op == "and":
            return all(self.formula_true(g, env) for g in f[1])
        if op == "or":
            return any(self.formula_true(g, env) for g in f[1])
        if op == "imp":
            return (not self.formula_true(f[1], env)) or self.formula_true(f[2], env)
        if op == "iff":
            return self.formula_true(f[1], env) == self.formula_true(f[2], env)
        if op in ("all", "ex"):
            vs = [v for v, _ in f[1]]
            it = (self.formula_true(f[2], {**env, **dict(zip(vs, ds))})
                  for ds in itertools.product(range(self.n), repeat=len(vs)))
            return all(it) if op == "all" else any(it)
        return op == "true"

    def tv(self, t, env):
        if isinstance(t, str):
            return env[t]
        return int(self.funs[t[0]][tuple(self.tv(a, env) for a in t[1:])])


# ---------------------------------------------------------------- finite model search by SAT

class TooBig(Exception):
    pass


class Grounder:
    """Encodes closed formulas over finite domains.  sorts: {sort: size}; sig: {name: (argsorts, ressort)}
    for typed symbols (anything else is $i); fixed: {name: {args: value}} for interpreted symbols."""

    def __init__(self, sorts, sig=None, fixed=None, limit=400000):
        self.sorts = sorts if isinstance(sorts, dict) else {"$i": sorts}
        self.sig = sig or {}
        self.fixed = fixed or {}
        self.nv = 0
        self.clauses = []
        self.cellf = {}
        self.cellp = {}
        self.tcache = {}
        self.acache = {}
        self.limit = limit
        self.work = 0
        self.atoms = 0
        self.distinct = {}

    def new(self):
        self.nv += 1
        return self.nv

    def add(self, *lits):
        c = []
        for l in lits:
            if l is True:
                return
            if l is False:
                continue
            c.append(l)
        self.clauses.append(c)
        if len(self.clauses) > self.limit:
            raise TooBig()

    @staticmethod
    def neg(l):
        if l is True:
            return False
        if l is False:
            return True
        return -l

    def res_sort(self, name):
        if name in self.sig:
            return self.sig[name][1]
        return "$i"

    def fcell(self, name, args):
        fx = self.fixed.get(name)
        if fx is not None:
            return fx[args]
        key = (name, args)
        c = self.cellf.get(key)
        if c is None:
            n = self.sorts[self.res_sort(name)]
            vs = [self.new() for _ in range(n)]
            self.add(*vs)
            for i in range(n):
                for j in range(i):
                    self.add(-vs[i], -vs[j])
            c = {i: vs[i] for i in range(n)}
            if n == 1:
                c = 0
            self.cellf[key] = c
        return c

    def pcell(self, name, args):
        fx = self.fixed.get(name)
        if fx is not None:
            return bool(fx[args])
        key = (name, args)
        c = self.cellp.get(key)
        if c is None:
            c = self.cellp[key] = self.new()
        return c

    def tval(self, t, env):
        """int, or {value: literal} one-hot"""
        if isinstance(t, str):
            return env[t]
        args = tuple(self.tval(a, env) for a in t[1:])
        if all(isinstance(a, int) for a in args):
            if (t[0][0] == '"' or t[0][0].isdigit()) and not args:
                self.distinct.setdefault(t[0], True)
            return self.fcell(t[0], args)
        key = (t[0], tuple(a if isinstance(a, int) else tuple(sorted(a.items())) for a in args))
        r = self.tcache.get(key)
        if r is not None:
            return r
        n = self.sorts[self.res_sort(t[0])]
        if n == 1:
            return 0
        out = {i: self.new() for i in range(n)}
        self.add(*out.values())
        for i in range(n):
            for j in range(i):
                self.add(-out[i], -out[j])
        for combo in itertools.product(*[[(a, True)] if isinstance(a, int) else list(a.items()) for a in args]):
            cond = [self.neg(l) for _, l in combo]
            cell = self.fcell(t[0], tuple(v for v, _ in combo))
            if isinstance(cell, int):
                self.add(*cond, out[cell])
            else:
                for v, l in cell.items():
                    self.add(*cond, -l, out[v])
        self.tcache[key] = out
        return out

    def alit(self, f, env):
        self.atoms += 1
        if self.atoms > 20 * self.limit:
            raise TooBig()
        if f[0] == "=":
            a, b = self.tval(f[1], env), self.tval(f[2], env)
            if isinstance(a, int) and isinstance(b, int):
                return a == b
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                return a.get(b, False)
            if a == b:
                return True
            key = ("=", tuple(sorted(a.items())), tuple(sorted(b.items())))
            e = self.acache.get(key)
            if e is None:
                e = self.new()
                for v in set(a) | set(b):
                    x, y = a.get(v, False), b.get(v, False)
                    self.add(-e, self.neg(x), y)
                    self.add(-e, x, self.neg(y))
                    self.add(e, self.neg(x), self.neg(y))
                self.acache[key] = e
            return e
        t = f[1]
        args = tuple(self.tval(a, env) for a in t[1:])
        if all(isinstance(a, int) for a in args):
            return self.pcell(t[0], args)
        key = (t[0], tuple(a if isinstance(a, int) else tuple(sorted(a.items())) for a in args))
        e = self.acache.get(key)
        if e is None:
            e = self.new()
            for combo in itertools.product(*[[(a, True)] if isinstance(a, int) else list(a.items()) for a in args]):
                cond = [self.neg(l) for _, l in combo]
                c = self.pcell(t[0], tuple(v for v, _ in combo))
                self.add(*cond, -e, c)
                self.add(*cond, e, self.neg(c))
            self.acache[key] = e
        return e

    def lit(self, f, env):
        """A literal equivalent to f under env."""
        op = f[0]
        if op in ("=", "atom"):
            return self.alit(f, env)
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "not":
            return self.neg(self.lit(f[1], env))
        if op == "imp":
            return self.disj([self.neg(self.lit(f[1], env)), self.lit(f[2], env)])
        if op == "iff":
            a, b = self.lit(f[1], env), self.lit(f[2], env)
            if isinstance(a, bool):
                return b if a else self.neg(b)
            if isinstance(b, bool):
                return a if b else self.neg(a)
            e = self.new()
            self.add(-e, -a, b)
            self.add(-e, a, -b)
            self.add(e, a, b)
            self.add(e, -a, -b)
            return e
        if op == "or":
            return self.disj([self.lit(g, env) for g in f[1]])
        if op == "and":
            return self.neg(self.disj([self.neg(self.lit(g, env)) for g in f[1]]))
        if op in ("all", "ex"):
            ls = []
            for env2 in self.envs(f[1], env):
                l = self.lit(f[2], env2)
                if op == "all":
                    l = self.neg(l)
                if l is True:
                    ls = [True]
                    break
                if l is not False:
                    ls.append(l)
            d = self.disj(ls)
            return self.neg(d) if op == "all" else d
        raise ValueError(op)

    def envs(self, vs, env):
        names = [v for v, _ in vs]
        for ds in itertools.product(*[range(self.sorts.get(s, self.sorts.get("$i", 1))) for _, s in vs]):
            self.work += 1
            if self.work > self.limit:
                raise TooBig()
            e = dict(env)
            e.update(zip(names, ds))
            yield e

    def disj(self, ls):
        out = []
        for l in ls:
            if l is True:
                return True
            if l is not False and l not in out:
                out.append(l)
        if not out:
            return False
        if len(out) == 1:
            return out[0]
        e = self.new()
        self.add(-e, *out)
        for l in out:
            self.add(e, -l)
        return e

    def assert_(self, f, env=None):
        env = env or {}
        op = f[0]
        if op == "and":
            for g in f[1]:
                self.assert_(g, env)
        elif op == "all":
            for e in self.envs(f[1], env):
                self.assert_(f[2], e)
        elif op == "or":
            self.add(*[self.lit(g, env) for g in f[1]])
        else:
            self.add(self.lit(f, env))

    def assert_distinct(self):
        """Distinct objects/numbers met so far denote pairwise different elements."""
        ds = sorted(self.distinct)
        for a, b in itertools.combinations(ds, 2):
            self.add(self.neg(self.alit(("=", (a,), (b,)), {})))

    def solve(self, timeout=20):
        """True (sat), False (unsat), None (unknown). self.model is the set of true literals."""
        r, m = sat_solve(self.nv, self.clauses, timeout)
        self.model = m
        return r

    def describe(self):
        """Human-readable interpretation of the free symbols."""
        tr = set(l for l in (self.model or []) if l > 0)
        out = {}
        for (name, args), c in sorted(self.cellf.items(), key=str):
            if isinstance(c, int):
                out["%s%s" % (name, list(args))] = c
            else:
                out["%s%s" % (name, list(args))] = next((v for v, l in c.items() if l in tr), 0)
        for (name, args), l in sorted(self.cellp.items(), key=str):
            out["%s%s" % (name, list(args))] = l in tr
        return out


class Table(dict):
    """Partial interpretation of one symbol; cells the solver never looked at are 0/false."""
    def __missing__(self, k):
        return 0


def tables(g):
    """The solution of a solved Grounder as fixed tables for another one."""
    tr = set(l for l in (g.model or []) if l > 0)
    out = {}
    for (name, args), c in g.cellf.items():
        out.setdefault(name, Table())[args] = c if isinstance(c, int) else next((v for v, l in c.items() if l in tr), 0)
    for (name, args), l in g.cellp.items():
        out.setdefault(name, Table())[args] = int(l in tr)
    return out


_MINISAT = shutil.which("minisat")
_Z3 = shutil.which("z3") or shutil.which("z3-new")


_lib = None


def _satlib():
    """In-process solver: lib/satlib.c over the system's libpicosat, compiled on first use; False if not possible."""
    global _lib
    if _lib is None:
        import ctypes
        here = os.path.dirname(os.path.abspath(__file__))
        cache = os.environ.get("VERIF_CACHE", os.path.join(os.path.dirname(here), ".cache"))
        so = os.path.join(cache, "satlib.so")
        try:
            if not os.path.exists(so):
                os.makedirs(cache, exist_ok=True)
                t = "%s.%d" % (so, os.getpid())
                src = os.path.join(here, "satlib.c")
                for lib in ("-lpicosat", "-l:libpicosat.so.1", "-l:libpicosat.a"):
                    if subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", t, src, lib], stdout=subprocess.DEVNULL,
                                      stderr=subprocess.DEVNULL).returncode == 0:
                        break
                os.rename(t, so)
            _lib = ctypes.CDLL(so)
            _lib.satlib_solve.argtypes = [ctypes.c_void_p, ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_void_p]
            x = np.array([1, 0, -1, 2, 0, -2, -1, 0], dtype=np.int32)
            m = np.zeros(3, dtype=np.int8)
            if _lib.satlib_solve(x.ctypes.data, len(x), 2, -1, m.ctypes.data) != 20:
                _lib = False
        except (OSError, AttributeError):
            _lib = False
    return _lib


def sat_solve(nv, clauses, timeout=20):
    if any(not c for c in clauses):
        return False, None
    if not clauses:
        return True, []
    lib = _satlib()
    if lib:
        flat = []
        for c in clauses:
            flat.extend(c)
            flat.append(0)
        a = np.array(flat, dtype=np.int32)
        m = np.zeros(nv + 1, dtype=np.int8)
        r = lib.satlib_solve(a.ctypes.data, len(a), nv, 200000, m.ctypes.data)
        if r == 10:
            return True, [i if m[i] > 0 else -i for i in range(1, nv + 1)]
        return (False if r == 20 else None), None
    d = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    fd, path = tempfile.mkstemp(suffix=".cnf", dir=d)
    with os.fdopen(fd, "w") as f:
        f.write("p cnf %d %d\n" % (nv, len(clauses)))
        f.write("\n".join(" ".join(map(str, c)) + " 0" for c in clauses))
        f.write("\n")
    out = path + ".out"
    try:
        if _MINISAT:
            r = subprocess.run([_MINISAT, "-verb=0", path, out], stdout=subprocess.DEVNULL,
                               stderr=subprocess.DEVNULL, timeout=timeout)
            if r.returncode == 10:
                with open(out) as f:
                    ls = f.read().split()
                return True, [int(x) for x in ls[1:] if x != "0"]
            if r.returncode == 20:
                return False, None
            return None, None
        r = subprocess.run([_Z3, "-dimacs", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
        o = r.stdout.decode()
        if re.search(r"^s SATISFIABLE|^sat", o, re.M):
            ls = []
            for line in o.splitlines():
                if line.startswith("v ") or re.match(r"^[-\d ]+$", line):
                    ls += [int(x) for x in line.replace("v", " ").split() if x != "0"]
            return True, ls
        if re.search(r"^s UNSATISFIABLE|^unsat", o, re.M):
            return False, None
        return None, None
    except subprocess.TimeoutExpired:
        return None, None
    finally:
        for x in (path, out):
            try:
                os.unlink(x)
            except OSError:
                pass


def has_model(formulas, sizes, sig=None, fixed=None, limit=400000, distinct=True):
    """Is there a model of the closed formulas with the given domain size(s)?
    (True, description) / (False, None) / (None, None)"""
    try:
        g = Grounder(sizes, sig, fixed, limit)
        for f in formulas:
            g.assert_(f)
        if distinct:
            g.assert_distinct()
        r = g.solve()
        return r, (g.describe() if r else None)
    except TooBig:
        return None, None


def countermodel(premises, conclusion, max_size=3, sig=None, limit=60000):
    """Search a finite model of the premises in which the conclusion is false.
    Returns (size, description) or None; second value: sizes fully searched."""
    done = []
    for n in range(1, max_size + 1):
        sizes = n if sig is None else sig_sizes(sig, n)
        r, d = has_model(list(premises) + [("not", conclusion)], sizes, sig, None, limit)
        if r:
            return (n, d), done
        if r is False:
            done.append(n)
    return None, done


def sig_sizes(sig, n):
    s = {"$i": n}
    for name, (a, r) in sig.items():
        for x in list(a) + [r]:
            if x not in ("$o", "$tType"):
                s[x] = n
    return s
