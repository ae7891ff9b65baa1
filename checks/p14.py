"""P14: reading and printing.  What the parser takes in and the printers give out is the problem that was written, for every concrete
syntax.  Random formulas and clauses are written by an independent printer with syntactic noise, read and printed by E, and read back
by an independent parser; meaning, names, roles, number and order are compared."""
import os
import random
from decimal import Decimal
from fractions import Fraction
import re
import shutil

import common
import ebuild
import fol
import gen

ID = "P14"
LEVEL = "exploration"
RULE = ("random formulas and clauses (awkward quoted names, escapes, distinct objects, all connectives with and without parentheses, "
        "shadowed variables, comments, annotations, nested include files with selections, typed declarations) written in TPTP-3, "
        "TPTP-2 and LOP; pairs of numerals; damaged texts; one evaluation: one formula or clause as printed by E compared with the one written; non-trivial: not a "
        "propositional constant; distinct by (syntax, formula)")
ASSUMPTIONS = ["the independent reader and printer of TPTP-3 are right", "formulas are compared in all structures with 1 and 2 elements"]
MIN_DISTINCT = 4000
_bin, _tmp = {}, None

ODD = ["'p q'", "'A'", "'it\\'s'", "'b\\\\c'", "'\\\\'", "'\\''", "'Foo_1'", "'9lives'", "'=>'", "'$foo'", "'a.b'", "'x,y'", "'(('", "'%no comment'",
       "'/* no */'", "'_'", "'X1'", "'[]'", "'a\"b'", "'~p'", "'a  b'", "'\\\\\\''"]
PLAIN = ["a", "b", "f1", "g_2", "hA", "fof", "cnf", "include", "axiom", "equal", "x__", "p0q", "e", "s1", "eq", "aXYZ", "file", "type", "esk", "in"]
DIST = ['"d"', '"D e"', '"it\'s"', '"a\\"b"', '"a\\\\"', '"%"', '"$x"']


def tag(seed):
    return common.hashlib.md5(str(seed).encode()).hexdigest()[:12]


def rename(f, mp):
    def t(x):
        return x if isinstance(x, str) else (mp.get((x[0], len(x) - 1), x[0]),) + tuple(t(a) for a in x[1:])
    op = f[0]
    if op == "atom":
        u = t(f[1])
        return ("atom", (mp.get(("P", f[1][0], len(f[1]) - 1), f[1][0]),) + u[1:])
    if op == "=":
        return ("=", t(f[1]), t(f[2]))
    if op == "not":
        return ("not", rename(f[1], mp))
    if op in ("and", "or"):
        return (op, [rename(g, mp) for g in f[1]])
    if op in ("imp", "iff"):
        return (op, rename(f[1], mp), rename(f[2], mp))
    if op in ("all", "ex"):
        return (op, f[1], rename(f[2], mp))
    return f


def naming(r, fs, odd, quoted_only_plain=False):
    """A renaming of the symbols to awkward names; functions and predicates get different names, too."""
    fu, pr = {}, {}
    for f in fs:
        fol.symbols(f, fu, pr)
    pool = (ODD if odd else []) + PLAIN
    taken = {n for n, _ in list(fu) + list(pr)}
    pool = [n for n in pool if n not in taken]
    r.shuffle(pool)
    mp = {}
    dist = DIST[:]
    r.shuffle(dist)
    for n, a in sorted(fu):
        if a == 0 and odd and r.random() < .15 and dist:
            mp[(n, a)] = dist.pop()
        elif pool and r.random() < .8:
            mp[(n, a)] = pool.pop()
    for n, a in sorted(pr):
        if pool and r.random() < .8:
            mp[("P", n, a)] = pool.pop()
    return mp


class Writer:
    """TPTP-3 with noise."""

    def __init__(self, r):
        self.r = r

    def ws(self):
        x = self.r.random()
        if x < .75:
            return ""
        if x < .9:
            return " "
        if x < .95:
            return "\n\t"
        if x < .97:
            return " % it's a \"comment\" ).\n"
        if x < .985:
            return "/* p(X) & */"
        return "/***/ "

    def name(self, n):
        if re.fullmatch("[a-z][A-Za-z0-9_]*", n) and self.r.random() < .12:
            return "'" + n + "'"
        return n

    def t(self, t):
        if isinstance(t, str):
            return t
        if len(t) == 1:
            return self.name(t[0])
        return self.name(t[0]) + "(" + ",".join(self.ws() + self.t(a) + self.ws() for a in t[1:]) + ")"

    def unit(self, f):
        """As operand of ~ or a binary connective."""
        s, k = self.f(f)
        if k == "bin" or self.r.random() < .15:
            return "(" + self.ws() + s + ")"
        return s

    def f(self, f):
        """(text, 'unit' | 'bin' | 'eq')"""
        r, op = self.r, f[0]
        w = self.ws
        if op == "atom":
            return self.t(f[1]), "unit"
        if op == "=":
            return self.t(f[1]) + w() + "=" + w() + self.t(f[2]), "eq"
        if op == "not":
            g = f[1]
            if g[0] == "=" and r.random() < .7:
                return self.t(g[1]) + w() + "!=" + w() + self.t(g[2]), "eq"
            if g[0] == "iff" and r.random() < .6:
                return self.unit(g[1]) + w() + " <~> " + w() + self.unit(g[2]), "bin"
            if g[0] in ("and", "or") and len(g[1]) == 2 and r.random() < .6:
                return self.unit(g[1][0]) + w() + (" ~& " if g[0] == "and" else " ~| ") + w() + self.unit(g[1][1]), "bin"
            s, k = self.f(g)
            if k != "unit" or r.random() < .2:
                s = "(" + s + ")"
            return "~" + r.choice(["", " "]) + w() + s, "unit"
        if op in ("and", "or"):
            if not f[1]:
                return ("$true" if op == "and" else "$false"), "unit"
            if len(f[1]) == 1:
                return self.f(f[1][0])
            return (w() + (" & " if op == "and" else " | ") + w()).join(self.unit(g) for g in f[1]), "bin"
        if op == "imp":
            if r.random() < .3:
                return self.unit(f[2]) + " <= " + w() + self.unit(f[1]), "bin"
            return self.unit(f[1]) + " => " + w() + self.unit(f[2]), "bin"
        if op == "iff":
            return self.unit(f[1]) + w() + " <=> " + self.unit(f[2]), "bin"
        if op in ("all", "ex"):
            vs = ",".join(v + ((":" + r.choice(["", " "]) + s) if s != "$i" or r.random() < 0 else "") + w() for v, s in f[1])
            return ("!" if op == "all" else "?") + r.choice(["", " "]) + "[" + w() + vs + "]" + r.choice([":", " : ", ": "]) + self.unit(f[2]), "unit"
        return {"true": "$true", "false": "$false"}[op], "unit"

    def stmt(self, lang, name, role, f):
        s = self.f(f)[0]
        if self.r.random() < .6:
            s = "(" + self.ws() + s + self.ws() + ")"
        ann = self.r.choice([""] * 6 + [",file('x y.p',n1)", ",introduced(definition,[new_symbols(x,[y])])", ",unknown,[foo(a,[b]),'Q']",
                                       ",inference(res,[status(thm)],[a1,a2:[bind(X,$fot(a))]])"])
        return "%s(%s%s,%s%s,%s%s%s)." % (lang, self.ws(), name, self.ws(), role, self.ws(), s, ann)


def differs(f, g, sig=None):
    """A structure in which the closed formulas differ, or None; second value: was anything searched completely?"""
    done = False
    for n in (1, 2):
        sizes = n if sig is None else fol.sig_sizes(sig, n)
        x, d = fol.has_model([("not", ("iff", f, g))], sizes, sig, None, 20000, False)
        if x:
            return d, True
        done = done or x is False
    return None, done


def names(r, n):
    pool = ["n%d" % i for i in range(n)] + ["'my ax %d'" % i for i in range(3)] + ["'N'", "'it\\'s'", "12", "345", "axiom", "fof", "c_0_1", "i_0_1"]
    r.shuffle(pool)
    return pool[:n]


def layout(r, base, stmts):
    """Distributes statements (name, text) over include files; returns (main text, files written, expected order of names)."""
    files, order = [], []

    def emit(sts, depth):
        out, exp = [], []
        i = 0
        while i < len(sts):
            if depth < 3 and r.random() < .25:
                k = r.randint(1, min(4, len(sts) - i))
                fn = "%s_i%d.ax" % (base, len(files))
                files.append(fn)
                sub = sts[i:i + k]
                txt, e = emit(sub, depth + 1)
                flat = "include(" not in txt
                if flat and r.random() < .4:
                    # decoys that the selection leaves out
                    sel = [n for n, _ in sub]
                    txt += "\nfof(decoy,axiom,(decoy_p & ~decoy_p)).\n" + ("fof(decoy2,axiom,$false).\n" if r.random() < .5 else "")
                    out.append("include('%s',[%s])." % (os.path.basename(fn) if r.random() < .8 else fn, ",".join(sel)))
                else:
                    out.append("include('%s')." % (os.path.basename(fn) if r.random() < .8 else fn))
                with open(fn, "w") as f:
                    f.write(txt + "\n")
                exp += e
                i += k
            else:
                out.append(sts[i][1])
                exp.append(sts[i][0])
                i += 1
        return r.choice(["\n", "\n", " ", "\n% c\n"]).join(out), exp
    main, order = emit(stmts, 0)
    return main, files, order


def formulas(seed):
    r = random.Random(seed)
    res = common.Result()
    sig = gen.rand_sig(r, nf=(0, 3), np_=(1, 3), nc=(1, 3))
    fs = [gen.closed_formula(r, sig, r.choice([1, 2, 3, 4]), r.choice([0, 1, 2]), r.choice([.1, .35, .6])) for _ in range(r.randint(2, 7))]
    tff = r.random() < .25
    odd = not tff and r.random() < .75
    fsig, decl = None, []
    if tff:
        q = gen.to_tff(r, gen.Problem("x", "fof", [("axiom", f) for f in fs], None))
        fs = [f for _, f in q.items]
        decl = q.decls
        fsig = {a.typedecl[0]: tuple(a.typedecl[1:]) for d in decl for a in fol.parse_problem(d) if "$tType" not in d}
        fsig = {k: v for k, v in fsig.items()}
    else:
        mp = naming(r, fs, odd)
        fs = [rename(f, mp) for f in fs]
    W = Writer(r)
    ns = names(r, len(fs))
    roles = [r.choice(["axiom", "axiom", "hypothesis", "definition", "lemma", "plain", "theorem"]) for _ in fs]
    if r.random() < .6:
        roles[-1] = "conjecture"
    elif r.random() < .3:
        roles[-1] = "negated_conjecture"
    lang = "tff" if tff else "fof"
    stmts = [(n, W.stmt(lang, n, ro, f)) for n, ro, f in zip(ns, roles, fs)]
    d = os.path.join(_tmp, "d" + tag(seed))
    os.makedirs(d)
    if tff:
        main, files, order = "\n".join(decl + [s for _, s in stmts]), [], ns
    else:
        main, files, order = layout(r, os.path.join(d, "m"), stmts)
    fn = os.path.join(d, "main.p")
    with open(fn, "w") as f:
        f.write(main + r.choice(["\n", "", "\n% end"]))
    inc = {os.path.basename(x): open(x).read() for x in files}
    ho = r.random() < .2
    R = common.run([_bin["ho" if ho else "fo"], "--syntax-only", "--print-formulas"] + r.choice([[], [], ["--tptp3-in"]]) + [fn], timeout=30, cwd="/")
    shutil.rmtree(d)
    res.n["evaluations"] += len(fs)
    rp = dict(problem=main, includes=inc, ho=ho, seed=seed, rc=R.rc, output=R.out[-6000:], err=R.err[-500:])
    if R.timeout or (R.rc is not None and R.rc < 0):
        res.inconclusive += 1
        return res
    if R.rc != 0:
        res.violation("rejected", "well-formed problem rejected: %s" % R.err.strip()[:300], rp)
        return res
    text = "\n".join(l for l in R.out.split("\n") if not l.startswith("%"))
    try:
        back = [a for a in fol.parse_problem(text) if a.role != "type"]
    except (fol.ParseError, IndexError) as e:
        res.violation("unreadable-output", "printed problem cannot be read: %s" % e, rp)
        return res
    dn = {a.name for d in decl for a in fol.parse_problem(d)}
    back = [a for a in back if not (a.name in dn and a.formula in (("true",), ("and", [])))]     # what is left of declarations
    if len(back) != len(fs):
        res.violation("formula-count", "%d formulas written, %d printed" % (len(fs), len(back)), rp)
        return res
    written = {n: (ro, f) for n, ro, f in zip(ns, roles, fs)}
    if sorted(a.name for a in back) != sorted(ns):
        res.violation("names", "names written %s, printed %s" % (sorted(ns), sorted(a.name for a in back)), rp)
        return res
    for a in back:
        ro, f = written[a.name]
        if (a.role == "conjecture") != (ro == "conjecture") or (a.role == "negated_conjecture") != (ro == "negated_conjecture"):
            res.violation("role", "formula %s has role %s, printed as %s" % (a.name, ro, a.role), rp)
        if fol.free_vars(a.formula):
            res.violation("free-variable", "printed formula %s has a free variable" % a.name, rp)
            continue
        su, sv = {}, {}
        fol.symbols(f, su, sv)
        tu, tv = {}, {}
        fol.symbols(a.formula, tu, tv)
        if not (set(tu) <= set(su) and set(tv) <= set(sv)):
            res.violation("symbols", "printed formula %s has symbols %s not in the one written" %
                          (a.name, sorted((set(tu) - set(su)) | (set(tv) - set(sv)))), rp)
            continue
        d, done = differs(f, a.formula, fsig)
        if d:
            res.violation("meaning", "formula %s means something else as printed: %s" % (a.name, fol.f2s(a.formula)[:200]), dict(rp, structure=d))
        elif done:
            res.n["formulas_" + lang] += 1
            res.key(lang, f, fol.f2s(a.formula))
    res.n["include_files"] += len(inc)
    return res


# ---- clauses -------------------------------------------------------------------------------------------------------
def canon(c):
    """Clause up to variable renaming, literal order and orientation of equations: smallest rendering over the literal orders tried."""
    best = None
    import itertools
    lits = list(c)
    orders = list(itertools.permutations(range(len(lits)))) if len(lits) <= 4 else None
    if orders is None:
        def sh(l):
            return (l[0], re.sub(r"\b[A-Z]\w*", "V", fol.lit2s(l)))
        orders = [sorted(range(len(lits)), key=lambda i: sh(lits[i]))]
    for o in orders:
        for flip in itertools.product((0, 1), repeat=sum(1 for l in lits if l[1][0] == "=")) if len(lits) <= 4 else ((),):
            mp = {}

            def t(x):
                if isinstance(x, str):
                    return mp.setdefault(x, "X%d" % len(mp))
                return (x[0],) + tuple(t(a) for a in x[1:])
            out = []
            fl = list(flip)
            for i in o:
                s, a = lits[i]
                if a[0] == "=":
                    x, y = (a[2], a[1]) if fl and fl.pop() else (a[1], a[2])
                    out.append((s, "=", t(x), t(y)))
                else:
                    out.append((s, "p", t(a[1])))
            k = repr(out)
            if best is None or k < best:
                best = k
    return best


def lit(l, neg, pos="", eq="infix"):
    s, a = l
    if a[0] == "=":
        return s, ("equal(%s,%s)" % (fol.t2s(a[1]), fol.t2s(a[2])) if eq == "prefix" else "%s=%s" % (fol.t2s(a[1]), fol.t2s(a[2])))
    return s, fol.t2s(a[1])


def lop(r, c):
    """One of the ways to write a clause in LOP."""
    pos = [lit(l, "", eq=r.choice(["infix", "prefix"]))[1] for l in c if l[0]]
    neg = [lit(l, "", eq=r.choice(["infix", "prefix"]))[1] for l in c if not l[0]]
    if not pos:
        return r.choice(["?- %s.", "<- %s."]) % ", ".join(neg)
    if not neg:
        return (r.choice(["%s <- .", "%s."]) if len(pos) == 1 else "%s <- .") % "; ".join(pos)
    return "%s %s %s." % ("; ".join(pos), r.choice(["<-", ":-"]) if len(pos) == 1 and "=" not in pos[0] else "<-", ", ".join(neg))


def tptp2(r, c, name, role):
    ls = []
    for l in c:
        s, t = lit(l, "", eq="prefix")
        ls.append(("++" if s else "--") + r.choice(["", " "]) + t)
    return "input_clause(%s,%s,[%s])." % (name, role, ("," + r.choice(["", " ", "\n"])).join(ls))


def tptp3(r, c, name, role):
    ls = []
    for s, a in c:
        if a[0] == "=":
            ls.append(fol.t2s(a[1]) + (" = " if s else " != ") + fol.t2s(a[2]) if r.random() < .8 or s else "~ %s = %s" % (fol.t2s(a[1]), fol.t2s(a[2])))
        else:
            ls.append(("" if s else "~") + r.choice(["", " "]) + fol.t2s(a[1]))
    return "cnf(%s,%s,%s)." % (name, role, "(" + " | ".join(ls) + ")")


def clauses(seed):
    r = random.Random(seed)
    res = common.Result()
    sig = gen.rand_sig(r)
    cs = []
    for _ in range(r.randint(2, 8)):
        c = gen.rand_clause(r, sig, r.randint(1, 4), r.randint(0, 3), r.choice([0, 1, 2, 3]), r.choice([.2, .5]))
        # no literal that simplification removes at once
        seen, keep = set(), []
        for s, a in c:
            k = (a[0], frozenset((repr(a[1]), repr(a[2])))) if a[0] == "=" else repr(a)
            if k in seen or a[0] == "=" and a[1] == a[2]:
                continue
            seen.add(k)
            keep.append((s, a))
        if keep:
            cs.append(keep)
    syn = r.choice(["lop", "tptp2", "tptp3"])
    mp = {}
    if syn == "tptp3":
        mp = naming(r, [gen.clause_all(c) for c in cs], r.random() < .6)
        cs = [[(s, rename(a, mp)) for s, a in c] for c in cs]
    cs = [c for c in cs if c]
    d = os.path.join(_tmp, "d" + tag(seed))
    os.makedirs(d)
    if syn == "lop":
        text = "\n".join(lop(r, c) for c in cs)
        if not text or not re.match(r"[a-zA-Z?<]", text):
            text = "\n" + text
        o = ["--lop-in"] if r.random() < .7 or True else []
    elif syn == "tptp2":
        text = "\n".join(tptp2(r, c, "c%d" % i, r.choice(["axiom", "hypothesis", "conjecture"])) for i, c in enumerate(cs))
        o = r.choice([[], ["--tptp2-in"], ["--tptp-in"]])
    else:
        text = "\n".join(tptp3(r, c, "c%d" % i, r.choice(["axiom", "hypothesis", "negated_conjecture", "plain"])) for i, c in enumerate(cs))
        o = r.choice([[], ["--tptp3-in"], ["--tstp-in"]])
    fn = os.path.join(d, "m.p")
    with open(fn, "w") as f:
        f.write(text + "\n")
    # E's own output in another syntax is read once more
    via = r.choice([None, None, "lop", "tptp2", "tptp3"]) if syn != "tptp3" or not mp else r.choice([None, "tptp3"])
    base = [_bin["fo"], "-s", "--cnf", "--no-preprocessing", "--no-eq-unfolding", "--cpu-limit=10"]
    fmt = {"lop": (r.choice([[], [], ["--eqn-no-infix"]]), ["--lop-in"]), "tptp2": (["--tptp-out"], ["--tptp-in"]), "tptp3": (["--tptp3-out"], ["--tptp3-in"])}
    rp = dict(problem=text, syntax=syn, via=via, seed=seed)
    ok = True
    if via and not (via == "lop" and syn == "tptp3"):
        # LOP is what is printed for LOP and TPTP-2 input unless something else is selected
        R = common.run(base + o + fmt[via][0] + [fn], timeout=30)
        rp["first_output"] = R.out[-3000:]
        if R.rc == 0:
            with open(fn, "w") as f:
                f.write("\n".join(l for l in R.out.split("\n") if not l.startswith("%")) + "\n")
            o = fmt[via][1]
        else:
            ok = R.rc is None or R.rc < 0
            if not ok:
                res.violation("clauses-rejected", "well-formed clauses rejected: %s" % R.err.strip()[:300], rp)
    else:
        via = None
    R = common.run(base + o + ["--tptp3-out", fn], timeout=30)
    shutil.rmtree(d)
    res.n["evaluations"] += len(cs)
    rp.update(rc=R.rc, output=R.out[-4000:], err=R.err[-400:])
    if R.timeout or R.rc is None or R.rc < 0:
        res.inconclusive += 1
        return res
    if R.rc != 0:
        res.violation("clauses-rejected", "%s clauses rejected%s: %s" % (syn, " when re-read as " + via if via else "", R.err.strip()[:300]), rp)
        return res
    items, bad = fol.parse_lines(R.out)
    if bad:
        res.violation("unreadable-output", "printed clause cannot be read: %s" % (bad[0],), rp)
        return res
    back = [fol.formula_clause(a.formula) for a in items]
    if None in back:
        res.violation("no-clause", "printed something that is no clause", rp)
        return res
    want, got = sorted(canon(c) for c in cs), sorted(canon(c) for c in back)
    big = any(len(c) > 4 for c in cs)
    if len(want) != len(got) or want != got and not big:
        res.violation("clauses-differ", "%s clauses come out different%s: missing %s, extra %s" % (
            syn, " via " + via if via else "", [x for x in want if x not in got][:2], [x for x in got if x not in want][:2]), rp)
    for c in want:
        res.n["clauses_%s%s" % (syn, "_via_" + via if via else "")] += 1
        res.key(syn, via, c)
    return res


# ---- damaged texts --------------------------------------------------------------------------------------------------
def spots(t, chars):
    """Positions of the characters outside quotes."""
    out, q, i = [], None, 0
    while i < len(t):
        c = t[i]
        if q:
            if c == "\\":
                i += 1
            elif c == q:
                q = None
        elif c in "'\"":
            q = c
        elif c in chars:
            out.append(i)
        i += 1
    return out


def damaged(seed):
    """A text that is not well formed is rejected with an error, in finite time."""
    r = random.Random(seed)
    res = common.Result()
    sig = gen.rand_sig(r, nf=(0, 3), np_=(1, 3), nc=(1, 3))
    cnf = r.random() < .4
    if cnf:
        st = ["cnf(c%d,axiom,(%s))." % (i, fol.clause2s(gen.rand_clause(r, sig, r.choice([1, 2, 3]), 2, 2))) for i in range(r.randint(1, 4))]
    else:
        fs = [gen.closed_formula(r, sig, r.choice([1, 2, 3, 4]), r.choice([0, 1, 2]), .35) for _ in range(r.randint(1, 4))]
        mp = naming(r, fs, r.random() < .5)
        st = ["fof(n%d,%s,(%s))." % (i, r.choice(["axiom", "conjecture", "lemma"]), fol.f2s(rename(f, mp))) for i, f in enumerate(fs)]
    k = r.randrange(len(st))
    t, how = st[k], r.choice(["cut", "cut", "comment", "quote", "bracket", "operator", "fullstop", "role", "head"])
    if how == "cut":
        st = st[:k + 1]
        t = t[:r.randint(1, len(t) - 1)]
    elif how == "comment":
        i = r.choice(spots(t, "(,)"))
        t = t[:i] + r.choice(["/* ", "/*", "/* * /", "/*/"]) + t[i:]
    elif how == "quote":
        i = r.choice(spots(t, "(,)"))
        t = t[:i] + r.choice(["'", '"', "'\\'"]) + t[i:]
    elif how == "bracket":
        i = r.choice(spots(t, "()"))
        t = t[:i] + t[i + 1:]
    elif how == "operator":
        ps = spots(t, ",|&=" if not cnf else ",|=")
        i = r.choice(ps)
        t = t[:i] + r.choice(["&", "|", ",", ":", "]", "=>", "<~>", ")", "@"]) + " " + t[i:]
    elif how == "fullstop":
        t = t[:-1] + r.choice(["", ",", ";"])
        st.append("fof(extra,axiom,(p0)).")
    elif how == "role":
        t = re.sub(r",(axiom|conjecture|lemma),", r.choice([",", ",axiom:", ",,", ",axiom axiom,", ",'a,", ",Axiom,"]), t, count=1)
    else:
        t = r.choice(["fofa(", "fof[", "fof", "(", "cnf(,"]) + t[t.index("(") + 1:]
    st = st[:k] + [t] + st[k + 1:]
    text = r.choice(["\n", "\n", " "]).join(st)
    fn = os.path.join(_tmp, "b%s.p" % tag(seed))
    with open(fn, "w") as f:
        f.write(text)
    ho = r.random() < .3
    R = common.run([_bin["ho" if ho else "fo"], "--tptp3-in"] + r.choice([["--syntax-only"], ["-s", "--cpu-limit=10"], ["--cnf"]]) + [fn], timeout=60, cpu=20,
                   mem_mb=1500)
    os.unlink(fn)
    res.n["evaluations"] += 1
    res.n["damaged_" + how] += 1
    rp = dict(problem=text, damage=how, ho=ho, seed=seed, rc=R.rc, output=R.out[-1500:], err=R.err[-500:])
    if R.rc == 0 or re.search(r"SZS status (?!.*Error)\w+", R.out):
        res.violation("accepted-" + how, "text that is not well formed (%s) was accepted: %s" % (how, t[:200]), rp)
    elif R.rc in (6, 8, -9, -24, -6, -11) or R.rc is None or R.timeout:
        res.violation("hang-" + how, "no error message for text that is not well formed (%s), exit status %s: %s" % (how, R.rc, t[:200]), rp)
    elif not R.err.strip():
        res.violation("silent-" + how, "no message for text that is not well formed (%s)" % how, rp)
    res.key(text)
    return res


def numeral(r, v, kind):
    """A text for the number v (a Fraction)."""
    sg = "-" if v < 0 else r.choice(["", "", "", "+"])
    v = abs(v)
    if kind == "int":
        return sg + str(v.numerator)
    if kind == "rat":
        k = r.choice([1, 1, 2, 3, 7, 10, 64])
        return "%s%d/%d" % (sg, v.numerator * k, v.denominator * k)
    # a real: digits * 10^e with the point anywhere
    n, e = v.numerator, 0
    while v.denominator != 1:
        v, e = v * 10, e - 1
    n = v.numerator
    z = r.choice([0, 0, 0, 1, 3])
    d, e = str(n) + "0" * z, e - z
    cut = r.randint(1, len(d)) if r.random() < .6 or e >= 0 or -e >= len(d) else len(d) + e
    if r.random() < .15:
        d, cut = "0." + "0" * r.randint(0, 3) + d, None
        e += len(d) - 2
    if cut is None:
        t = d
    else:
        t = d[:cut] + "." + (d[cut:] or "0")
        e += len(d) - cut
    if e or r.random() < .1:
        t += r.choice("eE") + ("-" if e < 0 else r.choice(["", "+"])) + str(abs(e))
    return sg + t


def value(t):
    """The value of a numeral as printed by the prover."""
    return Fraction(Decimal(t)) if "/" not in t else Fraction(t)


def numerals(seed):
    """Two numerals denote the same number iff their values are equal; printing keeps the value."""
    r = random.Random(seed)
    res = common.Result()
    kind = r.choice(["int", "rat", "real", "real"])
    big = r.random() < .5
    a = r.choice([0, 1, 2, 7, 10, 99, 1000, r.randint(0, 10 ** r.randint(1, 25 if kind != "rat" else 14))])
    if kind == "int":
        v = Fraction(a)
        delta = Fraction(r.choice([1, 1, 10, 2 ** 32, 2 ** 64]))
    elif kind == "rat":
        v = Fraction(a, r.choice([1, 2, 3, 5, 12, r.randint(1, 10 ** r.randint(1, 14))]))
        delta = Fraction(1, r.choice([1, 2, 3, v.denominator, v.denominator * 2]))
    else:
        e = r.choice([0, -1, -2, -3, -6, -7, -12, 3, 6, 14, 15, 16] + ([-40, 40, 310, -330] if big else []))
        v = Fraction(a) * Fraction(10) ** e
        delta = Fraction(10) ** (e - r.choice([0, 0, 1, 2]))
    if r.random() < .3:
        v = -v
    w = r.choice([v, v, v + delta, v - delta, -v])
    n1, n2 = numeral(r, v, kind), numeral(r, w, kind)
    sign, free = r.choice(["=", "!="]), r.random() < .15
    wrap = r.choice(["%s %s %s", "p(%s) & ~p(%s)", "f(%s) %s f(%s)"]) if r.random() < .3 else "%s %s %s"
    if wrap.startswith("p("):
        body, want = wrap % (n1, n2), v == w
    elif wrap.startswith("f("):
        body, want = wrap % (n1, sign, n2), v == w and sign == "!="
    else:
        body = wrap % (n1, sign, n2)
        want = (sign == "!=") if v == w else (sign == "=" and not free)
    head = "" if wrap[0] == "%" else ("tff(t,type,(p: $%s > $o)).\n" if wrap[0] == "p" else "tff(t,type,(f: $%s > $i)).\n") % ("i" if free else kind)
    text = head + "tff(a,axiom,(%s)).\n" % body
    fn = os.path.join(_tmp, "n%s.p" % tag(seed))
    with open(fn, "w") as f:
        f.write(text)
    ho = r.random() < .3
    bn = _bin["ho" if ho else "fo"]
    fl = ["--free-numbers"] if free else []
    R = common.run([bn, "-s", "--cpu-limit=10"] + fl + [fn], timeout=60, cpu=20, mem_mb=1500)
    C = common.run([bn, "--cnf", "--tstp-format", "--no-preprocessing"] + fl + [fn], timeout=60, cpu=20, mem_mb=1500)
    os.unlink(fn)
    res.n["evaluations"] += 1
    res.n["numerals_" + kind] += 1
    res.n["numerals_equal" if v == w else "numerals_different"] += 1
    res.key("n", text)
    rp = dict(problem=text, seed=seed, free=free, ho=ho, values=[str(v), str(w)], output=R.out[-800:], err=R.err[-400:], cnf=C.out[-800:])
    m = re.search(r"SZS status (\w+)", R.out)
    if R.timeout or not m:
        if R.rc in (0, 8, 9) or R.timeout:
            res.inconclusive += 1
        else:
            res.violation("numeral-rejected-" + kind, "no answer for %s (exit status %s): %s" % (text, R.rc, R.err[-200:]), rp)
        return res
    if (m.group(1) == "Unsatisfiable") != want:
        res.violation("numeral-%s-%s" % (kind, "equal" if v == w else "different"),
                      "%s is reported %s, but the numbers are %s" % (body, m.group(1), "equal" if v == w else "different"), rp)
    # what is printed has the value that was read
    out = "\n".join(l for l in C.out.splitlines() if l.startswith("tcf(") or l.startswith("cnf("))
    body = re.sub(r"^\w+\([^,]*,[^,]*,", "", out, flags=re.M)
    got = {value(x) for x in re.findall(r"(?<![\w.$/])-?\d+(?:/\d+|\.\d+(?:[eE][+-]?\d+)?)?(?![\w.])", body)}
    if C.rc == 0 and out and wrap.startswith("p("):
        res.n["numerals_printed"] += 1
        if got != {v, w}:
            res.violation("numeral-printed-" + kind, "%s is printed as %s" % (wrap % (n1, n2), body[:300]), rp)
    return res


def run(ctx):
    global _tmp
    _tmp = ctx.tmp
    _bin["fo"] = ebuild.build("rel", False)["eprover"]
    _bin["ho"] = ebuild.build("rel", True)["eprover"]
    ctx.map(formulas, ["f%d-%d" % (ctx.seed, i) for i in range(ctx.scale(8000, 40000))], label="formulas")
    ctx.map(clauses, ["c%d-%d" % (ctx.seed, i) for i in range(ctx.scale(8000, 40000))], label="clauses")
    ctx.map(damaged, ["x%d-%d" % (ctx.seed, i) for i in range(ctx.scale(6000, 40000))], label="damaged texts")
    ctx.map(numerals, ["n%d-%d" % (ctx.seed, i) for i in range(ctx.scale(5000, 40000))], label="numerals")
