"""Reference (brute force) versions of the clause operations, on clauses [(sign, lhs, rhs or None)]."""
import itertools

import elib
from elib import match, subst, tvars

TRUE = ("$true",)


def sides(l):
    return (l[1], TRUE if l[2] is None else l[2])


def lit_matches(l, m, s):
    """All extensions of s that map literal l onto literal m (equations are symmetric)."""
    if l[0] != m[0] or (l[2] is None) != (m[2] is None):
        return
    a, b = sides(l)
    c, d = sides(m)
    x = match(a, c, s)
    if x is not None:
        y = match(b, d, x)
        if y is not None:
            yield y
    if c != d and l[2] is not None:
        x = match(a, d, s)
        if x is not None:
            y = match(b, c, x)
            if y is not None:
                yield y


def subsumes(C, D, injective=True):
    if injective and len(C) > len(D):
        return False
    D = rename(D)                 # C and D may share variable names

    def go(i, s, used):
        if i == len(C):
            return True
        for j, m in enumerate(D):
            if injective and j in used:
                continue
            for s2 in lit_matches(C[i], m, s):
                if go(i + 1, s2, used | {j}):
                    return True
        return False
    return go(0, {}, frozenset())


def rename(D, suffix="_"):
    m = {v: v + suffix for v in elib.cvars(D)}
    return [(sg, subst(a, m), None if b is None else subst(b, m)) for sg, a, b in D]


def rename_t(t, suffix="_"):
    return subst(t, {v: v + suffix for v in tvars(t)})


def variant(C, D):
    """Equal up to renaming, literal order and symmetry."""
    return len(C) == len(D) and subsumes(C, D) and subsumes(D, C)


def unit_top(C, s, t, directed=False):
    """The positive unit equation C matches the pair (s, t), in either order unless directed."""
    if not C[0][0]:
        return False
    if directed:
        x = match(C[0][1], s, {})
        return x is not None and match(sides(C[0])[1], t, x) is not None
    return any(True for _ in lit_matches((True, C[0][1], C[0][2]), (True, s, None if t == TRUE else t), {}))


def unit_context(C, s, t, directed=False):
    """s and t differ in exactly one place (their smallest differing context), somewhere above which C matches."""
    s, t = rename_t(s), rename_t(t)
    if s == t:
        return False
    while True:
        if unit_top(C, s, t, directed):
            return True
        if isinstance(s, str) or isinstance(t, str) or s[0] != t[0] or len(s) != len(t):
            return False
        d = [i for i in range(1, len(s)) if s[i] != t[i]]
        if len(d) != 1:
            return False
        s, t = s[d[0]], t[d[0]]


def unit_subsumes(u, D):
    """(may, must): the unit clause u subsumes D, for positive equations also below a common context.  E may miss an unoriented
    match whose first side also matches the wrong way round; it must find all others."""
    l = u[0]
    may = must = False
    for m in rename(D):
        if m[0] != l[0] or (m[2] is None) != (l[2] is None):
            continue
        s, t = sides(m)
        while True:
            a, b = sides(l)
            x = match(a, s, {})
            if x is not None:
                if match(b, t, x) is not None:
                    may = must = True
                else:
                    y = match(a, t, {})
                    if l[2] is not None and y is not None and match(b, s, y) is not None:
                        may = True
            elif l[2] is not None:
                y = match(a, t, {})
                if y is not None and match(b, s, y) is not None:
                    may = must = True
            if must or not l[0] or l[2] is None or isinstance(s, str) or isinstance(t, str) or s[0] != t[0]:
                break
            d = [i for i in range(1, len(s)) if s[i] != t[i]]
            if len(d) != 1:
                break
            s, t = s[d[0]], t[d[0]]
    return may, must


def entails_by_instance(C, D):
    """Some instance of C, without literals t != t, is contained in D."""
    neg = [i for i, l in enumerate(C) if not l[0] and l[2] is not None]
    for k in range(1 << len(neg)):
        res = {i for j, i in enumerate(neg) if k >> j & 1}
        s = elib.unify(("",) + tuple(C[i][1] for i in sorted(res)), ("",) + tuple(C[i][2] for i in sorted(res)))
        if s is None:
            continue
        rest = [(sg, subst(a, s), None if b is None else subst(b, s)) for i, (sg, a, b) in enumerate(C) if i not in res]
        if subsumes(rest, D, injective=False):
            return True
    return False


def strip(C):
    """Without literals t != t."""
    return [l for l in C if l[0] or sides(l)[0] != sides(l)[1]]


class CC:
    """Congruence closure over ground terms (variables are constants)."""

    def __init__(self, terms):
        self.par = {}
        self.terms = set()
        for t in terms:
            for x in elib.subterms(t):
                self.terms.add(x)
        for x in self.terms:
            self.par[x] = x

    def find(self, x):
        while self.par[x] != x:
            x = self.par[x]
        return x

    def merge(self, a, b):
        a, b = self.find(a), self.find(b)
        if a != b:
            self.par[a] = b

    def close(self):
        while True:
            seen = {}
            ch = False
            for x in self.terms:
                if isinstance(x, str) or len(x) == 1:
                    continue
                k = (x[0],) + tuple(self.find(y) for y in x[1:])
                if k in seen:
                    if self.find(seen[k]) != self.find(x):
                        self.merge(seen[k], x)
                        ch = True
                else:
                    seen[k] = x
            if not ch:
                return


def tautology(C):
    """Valid in the theory of equality (variables as constants)."""
    ts = [x for l in C for x in sides(l)]
    cc = CC(ts + [TRUE])
    for l in C:
        if not l[0]:
            cc.merge(*sides(l))
    cc.close()
    return any(l[0] and cc.find(sides(l)[0]) == cc.find(sides(l)[1]) for l in C)


def same(C, D):
    """Same multiset of literals (equations unordered)."""
    k = lambda c: sorted((sg,) + tuple(sorted(map(repr, sides((sg, a, b))))) for sg, a, b in c)
    return k(C) == k(D)
