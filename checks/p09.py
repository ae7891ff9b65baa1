"""P09: the pairwise deduction tests - clause subsumption, unit subsumption and simplification in context, simplify-reflect, contextual
literal cutting, condensation, tautology deletion - answer exactly what their definitions say."""
import random

import common
import elib
import ref
import strat
from elib import t2s, subst, tvars

ID = "P09"
LEVEL = "exploration"
RULE = ("random clause families (instances, weakened and perturbed copies of each other, units with contexts) under sampled orderings "
        "and indices; one evaluation: one answer of a real library operation against brute force; non-trivial: the clauses involved "
        "share a literal shape; distinct by (operation, clauses)")
ASSUMPTIONS = ["the brute-force definitions (lib/ref.py) are right", "clauses of up to 6 literals, terms of depth up to 4"]
MIN_DISTINCT = 5000
_tmp = None
V = ["X", "Y", "Z", "U"]


def inst(r, sig, c, depth=1, vs=V):
    s = {v: sig.term(r, vs, depth) for v in elib.cvars(c) if r.random() < .7}
    return [(sg, subst(a, s), None if b is None else subst(b, s)) for sg, a, b in c]


def flip(r, c):
    return [(sg, b, a) if b is not None and r.random() < .5 else (sg, a, b) for sg, a, b in c]


def mutate(r, sig, c):
    c = list(c)
    if not c:
        return c
    i = r.randrange(len(c))
    sg, a, b = c[i]
    k = r.random()
    if k < .2:
        sg = not sg
    elif k < .6:
        a = elib.perturb(r, sig, a, V) if b is not None or (not isinstance(a, str) and len(a) > 1) else a
        if b is None and (isinstance(a, str) or a[0] not in sig.p):
            return c[:i] + c[i + 1:]
    elif k < .8 and b is not None:
        b = elib.perturb(r, sig, b, V)
    else:
        return c[:i] + c[i + 1:]
    c[i] = (sg, a, b)
    return c


def family(r, sig, n):
    out = []
    for _ in range(n):
        k = r.random()
        if not out or k < .15:
            c = sig.clause(r, r.randint(1, 4), r.choice([0, 1, 2, 3]), r.randint(0, 3), r.choice([.2, .5, .9]))
        elif k < .5:
            c = inst(r, sig, r.choice(out), r.randint(0, 2))
            if r.random() < .6:
                c = c + sig.clause(r, r.randint(0, 2), 3, 1)
        elif k < .65:
            c = mutate(r, sig, inst(r, sig, r.choice(out), 1))
        elif k < .8:                                         # literals duplicated under a substitution
            d = r.choice(out)[:3]
            c = d + inst(r, sig, d, 1)[:r.randint(1, 3)]
        elif k < .9:                                         # variables identified or split
            d = r.choice(out)
            s = {v: r.choice(V) for v in elib.cvars(d)}
            c = [(sg, subst(a, s), None if b is None else subst(b, s)) for sg, a, b in d]
        else:
            c = r.choice(out) + sig.clause(r, 1, 2, 1)
        c = flip(r, list(c))
        r.shuffle(c)
        if len(c) <= 6:
            out.append(c)
    return out


def clean(c):
    """What E does to every new clause: no duplicate literals, no t = t, t != t."""
    out = []
    for l in c:
        if ref.sides(l)[0] != ref.sides(l)[1] and not any(ref.same([l], [m]) for m in out):
            out.append(l)
    return out


def contexts(r, sig, s, t):
    """A pair of terms that contain s and t at one (or two) parallel positions."""
    for _ in range(r.randint(0, 3)):
        f = r.choice(list(sig.f))
        n = sig.f[f]
        i = r.randrange(n)
        rest = [sig.term(r, V, 1) for _ in range(n)]
        a = [s if j == i else rest[j] for j in range(n)]
        b = [t if j == i else rest[j] for j in range(n)]
        if n > 1 and r.random() < .35:
            j = (i + 1) % n
            k = r.random()
            if k < .3:
                a[j], b[j] = s, t
            elif k < .5:
                a[j], b[j] = s, sig.term(r, V, 1)
            elif k < .6:
                a[j], b[j] = t, s
            else:
                b[j] = sig.term(r, V, 1)
        s, t = (f,) + tuple(a), (f,) + tuple(b)
    return s, t


def theta(C, D):
    return ref.subsumes(C, D, injective=False)


def case(a):
    no, seed, size = a
    r = random.Random(seed)
    res = common.Result()
    sig = elib.Sig(r, nf=(1, 3), nc=(1, 3))
    text = sig.problem(r if r.random() < .3 else None)
    o = ["-t" + r.choice(strat.ORD), "-w" + r.choice(strat.WGT), "-G" + r.choice(strat.PREC)] + strat.indexing(r)
    ho = r.random() < .3
    script, cls = [], []

    def add(c):
        script.append(("CLEARNAMES",))
        script.append(("ADD", "cnf(c,axiom,(%s))." % elib.cl2s(c)))
        cls.append(c)
        return len(cls) - 1

    raw = [add(c) for c in family(r, sig, size // 2)]
    fam = [add(c) for c in map(clean, family(r, sig, size)) if c]
    units = []
    for _ in range(size // 2):
        k = r.random()
        vs = V[:r.randint(0, 3)]
        if k < .7:
            s, t = sig.term(r, vs, r.randint(0, 2)), sig.term(r, vs, r.randint(0, 2))
            c = [(True, s, t)]
        else:
            c = [sig.lit(r, vs, 1, .4)]
        if clean(c):
            units.append(add(c))
    probes = []                                              # clauses built around instances of the units
    for _ in range(size):
        u = cls[r.choice(units)][0]
        _, x, y = inst(r, sig, [u], 1, V[:2])[0]
        if u[2] is not None:
            x, y = contexts(r, sig, x, y)
            if r.random() < .5:
                x, y = y, x
        if x == y:
            continue
        c = [(r.random() < .4, x, y)] + sig.clause(r, r.randint(0, 2), 2, 1)
        c = clean(c)
        r.shuffle(c)
        probes.append(add(c))
    q = len(script)
    jobs = []
    for i in fam:
        for j in fam:
            if i != j and (r.random() < .5):
                jobs.append(("SUB", i, j))
    for i in raw + fam + probes:
        jobs.append(("TAUT", i))
        jobs.append(("COND", "p", i))
    for i in units:
        for j in r.sample(probes, min(6, len(probes))):
            jobs.append(("SUB", i, j))
    script += jobs
    # the indexed unit sets
    n1 = len(script)
    script += [("SHOW", i) for i in range(len(cls))]
    neg = [i for i in units if not cls[i][0][0]]
    pos = [i for i in units if cls[i][0][0]]
    for i in neg:
        script.append(("INS", "n", i))
    marker = len(script)                                     # where the positive units go is decided by orientation: use both sets
    for i in pos:
        script.append(("INS", "@%d" % i, i))
    uq = []
    for i in probes + fam:
        for op, st in (("UFWSUB", "n"), ("UFWSUB", "e"), ("UFWSUB", "r"), ("PSR", "e"), ("PSR", "r"), ("NSR", "n")):
            uq.append((op, st, i))
    for _ in range(size * 2):
        i = r.choice(units)
        _, x, y = inst(r, sig, [cls[i][0]], 1, V[:2])[0]
        if y is None:
            continue
        x, y = contexts(r, sig, x, y)
        uq.append(("UNIT", r.choice("er"), t2s(x), t2s(y)))
        uq.append(("CLEARNAMES",))
    script += uq
    # contextual literal cutting with the non-unit set
    big = [i for i in fam if len(cls[i]) >= 1]
    keep = r.sample(big, len(big) // 2)
    for i in keep:
        script.append(("INS", "m", i))
    cq = [("CSR", "m", i) for i in fam + probes if i not in keep]
    script += cq
    # orientation is not known in advance: a first session asks for it
    head, R = elib.session(_tmp, "%da" % no, text, o, script[:n1 - len(jobs)], ho=ho)
    if head is None:
        return failed(res, R, text, script)
    oriented = {}
    for line in head:
        if line.startswith("A"):
            f = line[1:].split("\t")
            oriented[int(f[0])] = f[2]
    script = [("INS", "r" if oriented[c[2]] == "1" else "e", c[2]) if c[0] == "INS" and c[1].startswith("@") else c for c in script]
    out, R = elib.session(_tmp, "%db" % no, text, o, script, ho=ho)
    if out is None:
        return failed(res, R, text, script)
    C = {}
    for cmd, line in zip(script, out):
        if cmd[0] == "ADD":
            f = line[1:].split("\t")
            C[int(f[0])] = elib.parse_lits(f[1])
    sets = {"n": neg, "r": [i for i in pos if oriented[i] == "1"], "e": [i for i in pos if oriented[i] != "1"], "m": keep}

    def bad(key, cmd, line, want):
        cs = ["%d: %s" % (int(x), elib.cl2s(C[int(x)])) for x in cmd[1:] if str(x).isdigit()]
        st = [elib.cl2s(C[i]) for i in sets.get(cmd[1], [])] if len(cmd) > 1 else []
        res.violation(key, "%s on %s (set: %s) gives %s, should be %s [%s]" % (cmd[0], cs or cmd[2:], "; ".join(st)[:300], line, want,
                                                                              " ".join(o)),
                      dict(options=o, problem=text, script=script, cmd=cmd, ho=ho))

    for cmd, line in zip(script, out):
        op = cmd[0]
        if op in ("ADD", "CLEARNAMES", "INS"):
            continue
        if len(res.viol) > 6:
            return res
        if op == "SHOW":
            if elib.parse_lits(line[1:]) != C[cmd[1]]:
                bad("changed", cmd, line, "unchanged " + elib.cl2s(C[cmd[1]]))
            continue
        res.n["evaluations"] += 1
        if op == "SUB":
            if len(C[cmd[1]]) == 1:
                want, must = ref.unit_subsumes(C[cmd[1]], C[cmd[2]])
            else:
                want = must = ref.subsumes(C[cmd[1]], C[cmd[2]])
            res.n["sub_%d" % want] += 1
            res.key(op, elib.cl2s(C[cmd[1]]), elib.cl2s(C[cmd[2]]))
            if not (must <= (line == "S1") <= want):
                bad("subsumption", cmd, line, want)
        elif op == "TAUT":
            want = ref.tautology(C[cmd[1]])
            triv = any(ref.sides(l)[0] == ref.sides(l)[1] for l in C[cmd[1]] if l[0]) or \
                any(l[0] != m[0] and set(ref.sides(l)) == set(ref.sides(m)) for l in C[cmd[1]] for m in C[cmd[1]])
            t1, t2 = line[1:].split("\t")
            res.n["taut_%d" % want] += 1
            res.key(op, elib.cl2s(C[cmd[1]]))
            if (t1 == "1") != want or (t2 == "1") != triv:
                bad("tautology", cmd, line, "%d %d" % (want, triv))
        elif op == "COND":
            got = elib.parse_lits(line[1:])
            c = C[cmd[2]]
            res.n["cond_%s" % ("smaller" if len(got) < len(c) else "same")] += 1
            res.key(op, elib.cl2s(c))
            if not (ref.tautology(c) and ref.tautology(got)) and not (ref.entails_by_instance(c, got) and ref.entails_by_instance(got, c)):
                bad("condensation", cmd, line, "an equivalent clause")
        elif op == "UNIT":
            f = line[1:].split("\t")
            x, y = elib.parse(f[2]), elib.parse(f[3])
            s = sets[cmd[1]]
            xs, ys = ref.rename_t(x), ref.rename_t(y)
            top = [i for i in s if ref.unit_top(C[i], xs, ys, cmd[1] == "r")]
            ctx = [i for i in s if ref.unit_context(C[i], x, y, cmd[1] == "r")]
            g1, g2 = int(f[0]), int(f[1])
            res.n["unit_%d%d" % (bool(top), bool(ctx))] += 1
            res.key(op, f[2], f[3], [elib.cl2s(C[i]) for i in s])
            if (g1 == -1) != (not top) or (g1 != -1 and g1 not in top):
                bad("unit-top", cmd, line, top)
            if x != y and ((g2 == -1) != (not ctx) or (g2 != -1 and g2 not in ctx)):
                bad("unit-context", cmd, line, ctx)
        elif op in ("UFWSUB", "PSR", "NSR"):
            c, s = C[cmd[2]], sets[cmd[1]]
            res.key(op, elib.cl2s(c), [elib.cl2s(C[i]) for i in s])
            if op == "UFWSUB":
                g = int(line[1:])
                ok = [i for i in s if any(next(ref.lit_matches(C[i][0], m, {}), None) is not None or
                                          (m[0] and C[i][0][0] and m[2] is not None and C[i][0][2] is not None and ref.unit_context(C[i], m[1], m[2]))
                                          for m in ref.rename(c))]
                res.n["ufwsub_%d" % bool(ok)] += 1
                if (g == -1) != (not ok) or (g != -1 and g not in ok):
                    bad("unit-subsumption", cmd, line, ok)
            else:
                want = []
                for m in c:
                    mm = ref.rename([m])[0]
                    cut = False
                    if op == "PSR" and not m[0]:
                        x, y = ref.sides(mm)
                        cut = any(ref.unit_context(C[i], x, y) for i in s)
                    elif op == "NSR" and m[0]:
                        cut = any(next(ref.lit_matches(C[i][0], (False,) + mm[1:], {}), None) is not None for i in s)
                    if not cut:
                        want.append(m)
                res.n["%s_%s" % (op.lower(), "cut" if len(want) < len(c) else "same")] += 1
                got = elib.parse_lits(line[1:])
                if not ref.same(ref.strip(got), ref.strip(want)):
                    bad("simplify-reflect", cmd, line, elib.cl2s(want))
        elif op == "CSR":
            c = ref.strip(C[cmd[2]])
            got = ref.strip(elib.parse_lits(line[1:]))
            cur = list(c)
            res.key(op, elib.cl2s(c), [elib.cl2s(C[i]) for i in keep])
            rest = list(got)
            removed = []
            for l in c:
                hit = next((x for x in rest if ref.same([x], [l])), None)
                if hit is not None:
                    rest.remove(hit)
                else:
                    removed.append(l)
            if rest:
                bad("context-cut", cmd, line, "a subset of the literals")
                continue
            # some order of cutting must justify the removed literals
            ok = justify(cur, removed, [C[i] for i in keep])
            res.n["csr_%s" % ("cut" if removed else "same")] += 1
            if not ok:
                bad("context-cut", cmd, line, "only literals cut by a clause of the set")
            elif not removed and cuttable(cur, [C[i] for i in keep]):
                bad("context-cut-missed", cmd, line, "a literal to be cut")
    if no < 2:
        res.samples.append(dict(cmd=jobs[0], clauses=[elib.cl2s(C[i]) for i in jobs[0][1:]], answer=out[q]))
    return res


def cut_by(c, i, D, must=False):
    """Literal i of c can be cut: some clause subsumes c with that literal negated."""
    sg, a, b = c[i]
    n = c[:i] + [(not sg, a, b)] + c[i + 1:]
    return any(ref.unit_subsumes(d, n)[must] if len(d) == 1 else ref.subsumes(d, n) for d in D)


def cuttable(c, D):
    return any(cut_by(c, i, D, True) for i in range(len(c)))


def justify(c, removed, D):
    if not removed:
        return True
    for k, l in enumerate(removed):
        for i in range(len(c)):
            if c[i] == l and cut_by(c, i, D):
                if justify(c[:i] + c[i + 1:], removed[:k] + removed[k + 1:], D):
                    return True
    return False


def failed(res, R, text, script):
    rep = elib.san_report(R)
    if rep:
        res.violation("sanitizer", rep[:600], dict(problem=text, script=script))
    res.inconclusive += 1
    res.n["failed_session"] += 1
    return res


def run(ctx):
    global _tmp
    _tmp = ctx.tmp
    elib.build()
    n = ctx.scale(600, 12000)
    ctx.map(case, [(i, "%d-p09-%d" % (ctx.seed, i), 14) for i in range(n)], label="deduction tests")
