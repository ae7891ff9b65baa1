"""P12: higher-order soundness.  Problems with a planted finite standard model (all function spaces full, evaluated exactly) are given
to the higher-order prover under sampled strategies and higher-order options; a refutation is a violation."""
import os
import random

import common
import ebuild
import fol
import gen
import genho
import p11
import strat

ID = "P12"
LEVEL = "exploration"
RULE = ("random THF problems (lambdas, applied variables, Boolean arguments, partial application, quantification over functions and "
        "Booleans, extensional equality, beta/eta noise) and curried first-order problems, all true in a planted finite standard model; "
        "pairs of simply typed lambda terms, convertible or not, judged by an independent normaliser; one evaluation: one verdict of the higher-order prover; non-trivial: the search started; distinct by (problem, options)")
ASSUMPTIONS = ["the evaluator of standard models (60 lines) is right", "domains of 1 to 3 individuals"]
MIN_DISTINCT = 800
_bin, _tmp, _names = {}, None, []


def curry(r, p):
    """A first-order problem as THF with curried symbols; predicates and functions may also be passed to a combinator."""
    fs, ps = {}, {}
    fl = [(role, gen.clause_all(x) if p.lang == "cnf" else x) for role, x in p.items]
    for _, f in fl:
        fol.symbols(f, fs, ps)

    def ty(a, res):
        return " > ".join(["$i"] * a + [res])
    dec = ["thf(t_%s,type,%s: %s)." % (n, n, ty(a, "$i")) for n, a in sorted(fs)] + \
          ["thf(t_%s,type,%s: %s)." % (n, n, ty(a, "$o")) for n, a in sorted(ps)]

    def t2s(t):
        if isinstance(t, str):
            return t
        if len(t) == 1:
            return t[0]
        s = t[0]
        for a in t[1:]:
            s = "(%s @ %s)" % (s, t2s(a))
        return "((^ [ZZ: $i]: ZZ) @ %s)" % s if r.random() < .03 and t[0] in {n for n, _ in fs} else s

    def f2s(f):
        k = f[0]
        if k in ("all", "ex"):
            return "(%s [%s]: %s)" % ("!" if k == "all" else "?", ",".join("%s: $i" % v for v, _ in f[1]), f2s(f[2]))
        if k == "not":
            return "(~ %s)" % f2s(f[1])
        if k in ("and", "or"):
            if not f[1]:
                return "$true" if k == "and" else "$false"
            s = f2s(f[1][0])
            for g in f[1][1:]:
                s = "(%s %s %s)" % (s, "&" if k == "and" else "|", f2s(g))
            return s
        if k in ("imp", "iff"):
            return "(%s %s %s)" % (f2s(f[1]), "=>" if k == "imp" else "<=>", f2s(f[2]))
        if k == "=":
            return "(%s = %s)" % (t2s(f[1]), t2s(f[2]))
        if k == "atom":
            return t2s(f[1])
        return {"true": "$true", "false": "$false"}[k]
    return "\n".join(dec + ["thf(f%d,%s,%s)." % (i, "axiom" if role == "hypothesis" else role, f2s(f)) for i, (role, f) in enumerate(fl)]) + "\n"


BADST = ("Theorem", "Unsatisfiable", "ContradictoryAxioms")


def case(seed):
    r = random.Random(seed)
    res = common.Result()
    if r.random() < .75:
        text = genho.sat(r)[0]
        kind = "standard"
    else:
        p = gen.sat_cnf(r) if r.random() < .5 else gen.sat_fof(r)
        text = curry(r, p)
        kind = "curried"
    o = p11.nonpdt(strat.sample(r, _names)) + [x for x in p11.hoopts(r) if x != "--fool-unroll=false"]
    fn = os.path.join(_tmp, "c%s.p" % common.hashlib.md5(str(seed).encode()).hexdigest()[:12])
    with open(fn, "w") as f:
        f.write(text)
    cmd = [_bin["ho"], "-s", "--cpu-limit=4", "-C", str(r.choice([50, 200, 400])), "--generated-limit=6000"] + o + [fn]
    R = common.run(cmd, timeout=30, fsize_mb=32)
    os.unlink(fn)
    st = common.szs(R.out)
    res.n["evaluations"] += 1
    if R.timeout or not st or R.rc is None or R.rc < 0:
        res.inconclusive += 1
        res.n["none_rc_%s" % R.rc] += 1
        return res
    res.n["%s_%s" % (kind, st[0])] += 1
    res.key(text, tuple(o))
    if st[0] in BADST:
        res.violation("unsound|" + kind, "%s for a problem with a standard model, options %s" % (st[0], " ".join(o)),
                      dict(problem=text, options=cmd[1:-1], seed=seed, output=R.out[-3000:]))
    return res


KNOWN = {
    "fool-unroll-false": (["--fool-unroll=false"], "thf(t,type,a: $i).\nthf(f1,axiom,(~ ((^ [Y: $i]: (! [X: $o]: X)) @ a))).\n"),
    "let-under-lambda": ([], "thf(t_f,type,f: $i > $i).\nthf(t_a,type,a: $i).\nthf(t_b,type,b: $i).\n"
                         "thf(f0,axiom,((^ [X: $i]: ($let(l: $i,l := X,(f@l)))) = f)).\nthf(f1,axiom,~ (a=b)).\n"
                         "thf(f2,axiom,! [Z: $i] : ((f@Z)=Z)).\n"),
    "ite-condition-bound-under-redex": ([], "thf(t_a,type,a: $i).\nthf(t_b,type,b: $i).\n"
                                        "thf(f0,axiom,((^ [Y: $o]: Y) @ (? [X: $o]: (a = $ite(X,a,b))))).\n"
                                        "thf(f1,axiom,((^ [Y: $o]: Y) @ (? [X: $o]: (b = $ite(X,a,b))))).\nthf(f2,axiom,~ (a=b)).\n"),
}


def known(key):
    """Inputs of the known findings; the generators stay clear of exactly these features (--fool-unroll=false, $let and $ite under
    lambdas or beta-redexes)."""
    res = common.Result()
    opts, text = KNOWN[key]
    fn = os.path.join(_tmp, "known-%s.p" % key)
    with open(fn, "w") as f:
        f.write(text)
    R = common.run([_bin["ho"], "-s", "--cpu-limit=4", "-C", "200"] + opts + [fn], timeout=30)
    st = common.szs(R.out)
    res.n["evaluations"] += 1
    if st and st[0] in BADST:
        res.violation(key, "%s for a problem with a standard model, options %s" % (st[0], opts), dict(problem=text, output=R.out))
    return res


# ---- simply typed lambda terms: ("v", k) de Bruijn, ("c", name), ("@", s, t), ("^", type, body); a type is "i" or (arg, result)
def rtype(r, order):
    if order == 0 or r.random() < .35:
        return "i"
    return (rtype(r, order - 1), rtype(r, r.choice([0, 0, 1, order])) if r.random() < .6 else "i")


def ty2s(t):
    return "$i" if t == "i" else "(%s > %s)" % (ty2s(t[0]), ty2s(t[1]))


def tails(t):
    """(argument types, rest) for every way to apply a head of type t."""
    out, args = [((), t)], ()
    while t != "i":
        args, t = args + (t[0],), t[1]
        out.append((args, t))
    return out


def lterm(r, ty, env, consts, d):
    if ty != "i" and (d <= 0 or r.random() < .55):
        return ("^", ty[0], lterm(r, ty[1], [ty[0]] + env, consts, d - 1))
    if d > 0 and r.random() < .4:
        a = rtype(r, r.choice([0, 1, 1, 2]))
        return ("@", ("^", a, lterm(r, ty, [a] + env, consts, d - 1)), lterm(r, a, env, consts, d - 1))
    heads = [(("v", k), args) for k, t in enumerate(env) for args, res in tails(t) if res == ty]
    heads = heads * 3 + [(("c", n), args) for n, t in consts for args, res in tails(t) if res == ty]
    if d <= 0:
        small = [h for h in heads if len(h[1]) == min(len(x[1]) for x in heads)] if heads else []
        heads = small
    if not heads:
        return ("^", ty[0], lterm(r, ty[1], [ty[0]] + env, consts, d - 1)) if ty != "i" else ("c", "a")
    h, args = r.choice(heads)
    for a in args:
        h = ("@", h, lterm(r, a, env, consts, d - 1 - (len(args) > 2)))
    return h


def shift(t, n, c=0):
    k = t[0]
    if k == "v":
        return ("v", t[1] + n) if t[1] >= c else t
    if k == "c":
        return t
    if k == "@":
        return ("@", shift(t[1], n, c), shift(t[2], n, c))
    return ("^", t[1], shift(t[2], n, c + 1))


def subst(t, s, d=0):
    k = t[0]
    if k == "v":
        return shift(s, d) if t[1] == d else ("v", t[1] - 1) if t[1] > d else t
    if k == "c":
        return t
    if k == "@":
        return ("@", subst(t[1], s, d), subst(t[2], s, d))
    return ("^", t[1], subst(t[2], s, d + 1))


def occurs(t, c=0):
    return t[1] == c if t[0] == "v" else False if t[0] == "c" else (occurs(t[1], c) or occurs(t[2], c)) if t[0] == "@" else occurs(t[2], c + 1)


class TooBig(Exception):
    pass


def norm(t, fuel):
    """Beta-eta normal form."""
    fuel[0] -= 1
    if fuel[0] < 0:
        raise TooBig
    k = t[0]
    if k in "vc":
        return t
    if k == "@":
        f, a = norm(t[1], fuel), t[2]
        if f[0] == "^":
            return norm(subst(f[2], a), fuel)
        return ("@", f, norm(a, fuel))
    b = norm(t[2], fuel)
    if b[0] == "@" and b[2] == ("v", 0) and not occurs(b[1]):
        return shift(b[1], -1)
    return ("^", t[1], b)


def tyof(t, env, sig):
    k = t[0]
    return env[t[1]] if k == "v" else sig[t[1]] if k == "c" else tyof(t[1], env, sig)[1] if k == "@" else (t[1], tyof(t[2], [t[1]] + env, sig))


def positions(t, env=(), path=()):
    yield path, t, list(env)
    if t[0] == "@":
        yield from positions(t[1], env, path + (1,))
        yield from positions(t[2], env, path + (2,))
    elif t[0] == "^":
        yield from positions(t[2], [t[1]] + list(env), path + (2,))


def replace(t, path, new):
    if not path:
        return new
    t = list(t)
    t[path[0]] = replace(t[path[0]], path[1:], new)
    return tuple(t)


def loose(t, k, c=0):
    """Does t mention one of the k innermost binders around it?"""
    return c <= t[1] < c + k if t[0] == "v" else False if t[0] == "c" else loose(t[1], k, c) or loose(t[2], k, c) if t[0] == "@" else loose(t[2], k, c + 1)


def abstract(r, t, sig):
    """Beta expansion: m becomes (^x. m[x]) u for some subterm m of t and a subterm u of m, under as many binders as possible."""
    ps = list(positions(t))
    for _ in range(8):
        path, m, env = r.choice(ps)
        inner = [(q, u, e) for q, u, e in positions(m, env)]
        q, u, e = r.choice(inner)
        k = len(e) - len(env)
        if loose(u, k):
            continue
        ty = tyof(u, e, sig)
        body = replace(shift(m, 1), q, ("v", k))
        if r.random() < .3:                        # every occurrence
            for q2, u2, e2 in inner:
                if u2 == u and e2 == e and q2[:len(q)] != q and q[:len(q2)] != q2:
                    body = replace(body, q2, ("v", k))
        return replace(t, path, ("@", ("^", ty, body), shift(u, -k)))
    return t


def expand(r, t, ty, env):
    """A term convertible to t: beta and eta expansions at random places."""
    x = r.random()
    if x < .12 and ty != "i":
        return ("^", ty[0], ("@", shift(t, 1), ("v", 0)))
    if x < .3:
        a = rtype(r, 1)
        return ("@", ("^", a, shift(t, 1)), lterm(r, a, env, [("a", "i"), ("f", ("i", "i"))], 1))
    if x < .45:
        return ("@", ("^", ty, ("v", 0)), t)
    if t[0] == "^":
        return ("^", t[1], expand(r, t[2], ty[1], [t[1]] + env))
    return t


def l2s(t, names, style):
    k = t[0]
    if k == "v":
        return names[t[1]]
    if k == "c":
        return t[1]
    if k == "@":
        return "(%s @ %s)" % (l2s(t[1], names, style), l2s(t[2], names, style))
    v = []
    while t[0] == "^":
        n = style(names)
        v.append("%s: %s" % (n, ty2s(t[1])))
        names, t = [n] + names, t[2]
    return "(^ [%s]: %s)" % (",".join(v), l2s(t, names, style))


LSIG = [("a", "i"), ("b", "i"), ("f", ("i", "i")), ("g", ("i", ("i", "i"))), ("h", (("i", "i"), "i")), ("k", (("i", ("i", "i")), ("i", "i")))]


def lambdas(seed):
    """Two lambda terms are identified exactly if they are equal by beta and eta."""
    r = random.Random(seed)
    res = common.Result()
    consts = r.sample(LSIG, r.randint(1, 4))
    if not any(n == "a" for n, _ in consts):
        consts.append(LSIG[0])
    ty = rtype(r, r.choice([0, 1, 1, 2, 2, 3]))
    try:
        s = lterm(r, ty, [], consts, r.choice([2, 3, 4, 5]))
        n1 = norm(s, [4000])
        if r.random() < .5:
            t = n1
            for _ in range(r.randint(0, 4)):
                t = expand(r, t, ty, []) if r.random() < .35 else abstract(r, t, dict(LSIG))
            if norm(t, [4000]) != n1:
                raise RuntimeError("expansion changed the normal form")
            if r.random() < .5:
                s = n1
        else:
            t = lterm(r, ty, [], consts, r.choice([2, 3]))
            for _ in range(6):                  # a near miss: one variable of the normal form exchanged
                if norm(t, [4000]) != n1:
                    break
                t = lterm(r, ty, [], consts, r.choice([2, 3, 4]))
            if r.random() < .5:
                vs = []

                def walk(u, env, path):
                    if u[0] == "v":
                        alt = [k for k in range(len(env)) if env[k] == env[u[1]] and k != u[1]]
                        vs.extend((path, k) for k in alt)
                    elif u[0] == "@":
                        walk(u[1], env, path + (1,))
                        walk(u[2], env, path + (2,))
                    elif u[0] == "^":
                        walk(u[2], [u[1]] + env, path + (2,))

                def put(u, path, k):
                    if not path:
                        return ("v", k)
                    u = list(u)
                    u[path[0]] = put(u[path[0]], path[1:], k)
                    return tuple(u)
                walk(n1, [], ())
                if vs:
                    t = put(n1, *r.choice(vs))
        n2 = norm(t, [4000])
    except (TooBig, RecursionError):
        res.inconclusive += 1
        return res
    same = n1 == n2
    if len(repr(s)) + len(repr(t)) > 6000:
        res.inconclusive += 1
        return res
    cnt = [0]
    shadow = r.random() < .3

    def style(names):
        cnt[0] += 1
        return "X%d" % (len(names) if shadow else cnt[0])
    a, b = l2s(s, [], style), l2s(t, [], style)
    if r.random() < .3:
        a, b = b, a
    dec = "".join("thf(t_%s,type,%s: %s).\n" % (n, n, ty2s(y)) for n, y in sorted(set(consts + [LSIG[0], LSIG[2]]), key=str))
    how = r.choice(["conjecture", "negated", "equal", "predicate", "swap"])
    if how == "conjecture":
        text, want = dec + "thf(g,conjecture,(%s = %s)).\n" % (a, b), same
    elif how == "negated":
        text, want = dec + "thf(g,axiom,(%s != %s)).\n" % (a, b), same
    elif how == "equal":
        text, want = dec + "thf(g,axiom,(%s = %s)).\n" % (a, b), False
    else:
        text, want = dec + "thf(t_p,type,p: %s > $o).\nthf(g,axiom,(p @ %s)).\nthf(n,axiom,(~ (p @ %s))).\n" % (ty2s(ty), a, b), same
    o = r.choice([[], [], ["--auto"], ["--eta-normalize=reduce"], ["--eta-normalize=expand"], ["--lift-lambdas=true"], ["--lift-lambdas=false"]])
    fn = os.path.join(_tmp, "l%s.p" % common.hashlib.md5(str(seed).encode()).hexdigest()[:12])
    with open(fn, "w") as f:
        f.write(text)
    cmd = [_bin["ho"], "-s", "--cpu-limit=4", "-C", "200", "--generated-limit=4000"] + o + [fn]
    R = common.run(cmd, timeout=30, fsize_mb=32)
    os.unlink(fn)
    st = common.szs(R.out)
    res.n["evaluations"] += 1
    if R.timeout or not st or R.rc is None or R.rc < 0:
        res.inconclusive += 1
        res.n["none_rc_%s" % R.rc] += 1
        if R.rc in (2, 3, 4, 5):
            res.violation("lambda-rejected", "well-formed lambda terms are rejected: " + R.err.strip()[:200], dict(problem=text, options=cmd[1:-1], seed=seed))
        return res
    res.n["lambda_%s_%s" % ("equal" if same else "different", st[0])] += 1
    res.key(text, tuple(o))
    rp = dict(problem=text, options=cmd[1:-1], seed=seed, output=R.out[-2000:], normal_forms=[repr(n1), repr(n2)])
    if st[0] in BADST and not want:
        res.violation("lambda-unsound", "%s for %s with the terms %s and %s, whose normal forms differ" % (st[0], how, a[:150], b[:150])
                      if how != "equal" else "%s for an equation of lambda terms" % st[0], rp)
    elif want and st[0] in ("GaveUp", "Satisfiable", "CounterSatisfiable"):
        res.violation("lambda-incomplete", "%s (%s) for the terms %s and %s, which have the same normal form" % (st[0], how, a[:150], b[:150]), rp)
    return res


def run(ctx):
    global _tmp, _names
    _tmp = ctx.tmp
    _bin["ho"] = ebuild.build("rel", True)["eprover"]
    _names = strat.builtin(_bin["ho"])
    ctx.map(known, sorted(KNOWN), label="known")
    n = ctx.scale(9000, 120000)
    ctx.map(case, ["%d-%d" % (ctx.seed, i) for i in range(n)], label="problems")
    ctx.map(lambdas, ["l%d-%d" % (ctx.seed, i) for i in range(ctx.scale(15000, 120000))], label="lambda terms")
