"""Runs command scripts on the library driver (harness/elib.c): real eprover start-up (options, problem, ordering, indices),
then library calls on the initialised proof state."""
import os
import random

import common
import ebuild

_b = {}


def build(variants=("fo", "ho"), flavour="hasan"):
    for v in variants:
        if (v, flavour) not in _b:
            _b[v, flavour] = ebuild.build(flavour, v == "ho", ("eprover",), extra_c=("harness/elib.c",),
                                          wraps=("Saturate",))["eprover"]


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:hard_rss_limit_mb=2500",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=99")


CPU = 30      # seconds of processor time; sessions need one or two


def session(tmp, tag, problem, opts, script, ho=False, flavour="hasan", timeout=600):
    """Returns (list of output lines without '@', Run).  The list is None if the program did not finish the script."""
    base = os.path.join(tmp, "s%s" % tag)
    with open(base + ".p", "w") as f:
        f.write(problem)
    with open(base + ".cmd", "w") as f:
        f.write("\n".join("\t".join(str(x) for x in c) for c in script) + "\n")
    R = common.run([_b["ho" if ho else "fo", flavour], "-s", "--no-preprocessing"] + opts + [base + ".p"], timeout=timeout, mem_mb=0, cpu=CPU,
                   env=dict(ENV, VERIF_SCRIPT=base + ".cmd"))
    os.unlink(base + ".p")
    os.unlink(base + ".cmd")
    out = [l[1:] for l in R.out.split("\n") if l.startswith("@")]
    if R.rc != 0 or not out or out[-1] != "END" or len(out) != len(script) + 1:
        return None, R
    return out[:-1], R


def san_report(R):
    """A sanitizer report in the output of a run, or None."""
    for k in ("ERROR: AddressSanitizer", "runtime error:", "AddressSanitizer:DEADLYSIGNAL"):
        i = R.err.find(k)
        if i >= 0:
            return R.err[max(0, i - 200):i + 1500]
    if "hard rss limit" in R.err:
        return "the call used more than 2.5 GB of memory"
    if R.cpu >= CPU - 1:
        return "the call did not return within %d s of processor time" % CPU
    return None


# ---- terms: nested tuples; variables are strings starting with an upper-case letter --------------------------------
def t2s(t):
    if isinstance(t, str):
        return t
    return t[0] if len(t) == 1 else "%s(%s)" % (t[0], ",".join(map(t2s, t[1:])))


def parse(s):
    """Parse a TPTP term (plain identifiers only)."""
    pos = 0

    def p():
        nonlocal pos
        i = pos
        while pos < len(s) and (s[pos].isalnum() or s[pos] in "_$"):
            pos += 1
        name = s[i:pos]
        if pos < len(s) and s[pos] == "(":
            args = []
            while True:
                pos += 1
                args.append(p())
                if s[pos] == ")":
                    break
            pos += 1
            return (name,) + tuple(args)
        return name if name[:1].isupper() else (name,)
    r = p()
    if pos != len(s):
        raise ValueError(s)
    return r


def parse_lits(s):
    """'a=b|~p(X)|f(X)!=c' -> [(sign, lhs, rhs or None)]"""
    if s == "$false":
        return []
    out = []
    for l in s.split("|"):
        if l in ("$false", "$true"):                     # how E prints t!=t and t=t
            out.append((l == "$true", ("$true",), ("$true",)))
            continue
        neg = l.startswith("~")
        if neg:
            l = l[1:]
        if "!=" in l:
            a, b = l.split("!=")
            out.append((False, parse(a), parse(b)))
        elif "=" in l:
            a, b = l.split("=")
            out.append((True, parse(a), parse(b)))
        else:
            out.append((not neg, parse(l), None))
    return out


def lit2s(l):
    sg, a, b = l
    if b is None:
        return ("" if sg else "~") + t2s(a)
    return "%s%s%s" % (t2s(a), "=" if sg else "!=", t2s(b))


def cl2s(c):
    return "|".join(map(lit2s, c)) if c else "$false"


def tvars(t, acc=None):
    acc = set() if acc is None else acc
    if isinstance(t, str):
        acc.add(t)
    else:
        for x in t[1:]:
            tvars(x, acc)
    return acc


def cvars(c):
    s = set()
    for sg, a, b in c:
        tvars(a, s)
        if b is not None:
            tvars(b, s)
    return s


def size(t):
    return 1 if isinstance(t, str) else 1 + sum(size(x) for x in t[1:])


def subst(t, s):
    if isinstance(t, str):
        return s.get(t, t)
    return (t[0],) + tuple(subst(x, s) for x in t[1:])


def subterms(t):
    yield t
    if not isinstance(t, str):
        for x in t[1:]:
            yield from subterms(x)


def match(p, t, s):
    """Extends the match s (dict) so that subst(p, s) == t; returns a dict or None."""
    s = dict(s)
    st = [(p, t)]
    while st:
        a, b = st.pop()
        if isinstance(a, str):
            if a in s:
                if s[a] != b:
                    return None
            else:
                s[a] = b
        else:
            if isinstance(b, str) or a[0] != b[0] or len(a) != len(b):
                return None
            st += list(zip(a[1:], b[1:]))
    return s


def unify(a, b):
    """Robinson; triangular substitution or None."""
    s = {}

    def walk(t):
        while isinstance(t, str) and t in s:
            t = s[t]
        return t

    def occ(v, t):
        t = walk(t)
        if isinstance(t, str):
            return t == v
        return any(occ(v, x) for x in t[1:])
    st = [(a, b)]
    while st:
        x, y = st.pop()
        x, y = walk(x), walk(y)
        if x == y:
            continue
        if isinstance(x, str):
            if occ(x, y):
                return None
            s[x] = y
        elif isinstance(y, str):
            if occ(y, x):
                return None
            s[y] = x
        elif x[0] != y[0] or len(x) != len(y):
            return None
        else:
            st += list(zip(x[1:], y[1:]))

    def full(t):
        t = walk(t)
        return t if isinstance(t, str) else (t[0],) + tuple(full(x) for x in t[1:])
    return {v: full(v) for v in s}


def canon(t):
    """Variables renamed in order of occurrence."""
    m = {}

    def go(t):
        if isinstance(t, str):
            return m.setdefault(t, "V%d" % len(m))
        return (t[0],) + tuple(go(x) for x in t[1:])
    return go(t)


class Sig:
    """Random signature: functions with arities, predicates with arities."""

    def __init__(self, r, maxar=3, nf=(2, 4), nc=(1, 4), npred=(1, 3), wide=.12):
        self.f = {}
        if r.random() < wide:
            self.f["w"] = r.choice([4, 5, 6, 7, 8, 9, 12, 20])
        for i in range(r.randint(*nf)):
            self.f["fghk"[i] if i < 4 else "f%d" % i] = r.choice([1, 1, 2, 2, 3][:5 if maxar >= 3 else 4])
        self.c = ["abcde"[i] if i < 5 else "c%d" % i for i in range(r.randint(*nc))]
        self.p = {"pqrs"[i]: r.choice([0, 1, 1, 2, 2]) for i in range(r.randint(*npred))}

    def term(self, r, vs, depth, pv=.35):
        x = r.random()
        if depth <= 0 or x < .15:
            if vs and r.random() < pv + .2:
                return r.choice(vs)
            return (r.choice(self.c),)
        if vs and x < pv:
            return r.choice(vs)
        f = r.choice(list(self.f))
        if self.f[f] > 3:
            return (f,) + tuple(self.term(r, vs, depth - 1 if r.random() < .2 else 0, pv) for _ in range(self.f[f]))
        return (f,) + tuple(self.term(r, vs, depth - 1, pv) for _ in range(self.f[f]))

    def ground(self, r, depth):
        return self.term(r, [], depth)

    def lit(self, r, vs, depth, peq=.5):
        sg = r.random() < .6
        if r.random() < peq or not self.p:
            return (sg, self.term(r, vs, depth), self.term(r, vs, depth))
        p = r.choice(list(self.p))
        return (sg, (p,) + tuple(self.term(r, vs, depth) for _ in range(self.p[p])), None)

    def clause(self, r, n, nv, depth, peq=.5):
        vs = ["X", "Y", "Z", "U", "W"][:nv]
        return [self.lit(r, vs, depth, peq) for _ in range(n)]

    def problem(self, r=None):
        """Clauses mentioning every symbol."""
        out = []
        vs = ["X%d" % i for i in range(20)]
        for f, a in self.f.items():
            out.append("cnf(s_%s,axiom,(%s=%s|z0))." % (f, t2s((f,) + tuple(vs[:a])), self.c[0]))
        for p, a in self.p.items():
            out.append("cnf(s_%s,axiom,(%s|z0))." % (p, t2s((p,) + tuple(vs[:a]))))
        for c in self.c:
            out.append("cnf(s_%s,axiom,(%s!=%s|z0))." % (c, c, self.c[0]))
        if r:
            for i in range(r.randint(0, 6)):
                out.append("cnf(x%d,%s,(%s|z0))." % (i, r.choice(["axiom", "negated_conjecture"]),
                                                  cl2s(self.clause(r, r.randint(1, 3), 2, 2))))
        return "\n".join(out) + "\n"


def perturb(r, sig, t, vs):
    """A random small change of a term."""
    if isinstance(t, str) or r.random() < .3 or len(t) == 1:
        return sig.term(r, vs, 1)
    i = r.randrange(1, len(t))
    return t[:i] + (perturb(r, sig, t[i], vs),) + t[i + 1:]
