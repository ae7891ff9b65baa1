"""P08: indexed retrieval returns what an exhaustive scan would, over histories of insertions and deletions: discrimination trees,
fingerprint indices, feature-vector indices and the backward rewriting index."""
import json
import random

import common
import elib
import p06
import p09
import ref
import strat
from elib import t2s, subst, tvars

ID = "P08"
LEVEL = "exploration"
RULE = ("random histories of insertions, deletions and queries on the prover's index structures under all index and feature-vector "
        "options; one evaluation: one query answer against a scan over the current contents; non-trivial: the index is not empty; "
        "distinct by (index option, contents, query)")
ASSUMPTIONS = ["the brute-force matching, unification and subsumption of lib/elib.py and lib/ref.py are right",
               "indices of up to 60 entries"]
MIN_DISTINCT = 5000
_tmp = None
V = ["X", "Y", "Z", "U"]


def fv_options(r):
    o = []
    o.append("--subsumption-indexing=" + r.choice(["None", "Direct", "Perm", "PermOpt"]))
    if r.random() < .8:
        o.append("--fvindex-featuretypes=" + r.choice(["None", "AC", "SS", "All", "Bill", "BillPlus", "ACFold", "ACStagger"]))
    if r.random() < .5:
        o.append("--fvindex-maxfeatures=%d" % r.choice([1, 2, 5, 20, 200]))
    if r.random() < .3:
        o.append("--fvindex-slack=%d" % r.choice([0, 1, 4]))
    return o


def fp_case(r, sig, script, n):
    kind = r.choice([x for x in strat.FP if x not in ("NoIndex", "NPDT")])
    script.append(("FPNEW", kind))
    pool = []
    for _ in range(n):
        if pool and r.random() < .5:
            t = r.choice(pool)
            if r.random() < .5:
                t = subst(t, {v: sig.term(r, V, 1) for v in tvars(t)})
            else:
                t = elib.perturb(r, sig, t, V)
        else:
            t = sig.term(r, V, r.randint(0, 4))
        pool.append(t)
    have = []
    plan = []
    for _ in range(n * 2):
        k = r.random()
        if k < .4:
            t = r.choice(pool)
            t = elib.parse(t2s(t))
            script.append(("FPINS", t2s(t)))
            plan.append(None)
            if t not in have:
                have.append(t)
        elif k < .55 and have:
            t = r.choice(have)
            script.append(("FPDEL", t2s(t)))
            plan.append(None)
            have.remove(t)
        else:
            t = r.choice(pool)
            if r.random() < .4:
                t = elib.perturb(r, sig, t, V)
            script.append(("FPQ", t2s(t)))
            plan.append(("fp", kind, list(have), t))
    return plan


def rewritable(O, c, d, oriented):
    """(some subterm of c is matched by the demodulator d with a decreasing instance, and so that E has to notice)."""
    _, l, r = d[0]
    may = must = False
    for lit in ref.rename(c):
        for side in (lit[1], lit[2]):
            if side is None:
                continue
            # E indexes a side of a literal and its direct arguments (deeper clauses may be missed; see DESIGN.md)
            near = [side] + ([] if isinstance(side, str) else list(side[1:]))
            for s in elib.subterms(side):
                if isinstance(s, str) or (s is side and lit[2] is None):
                    continue
                for a, b in ((l, r),) if oriented else ((l, r), (r, l)):
                    m = elib.match(a, s, {})
                    if m is None or not tvars(b) <= set(m) and oriented:
                        continue
                    if not oriented and not O.gt(s, subst(b, m)):
                        continue
                    may = True
                    ren = len(set(map(repr, m.values()))) == len(m) and all(isinstance(x, str) for x in m.values())
                    must = must or ((not ren or s is not side) and any(s is x for x in near))
    return may, must


def case(a):
    no, seed, size = a
    r = random.Random(seed)
    res = common.Result()
    sig = elib.Sig(r, nf=(1, 4), nc=(1, 4), npred=(1, 4))
    text = sig.problem(r)
    o = ["-t" + r.choice(strat.ORD), "-w" + r.choice(strat.WGT), "-G" + r.choice(strat.PREC)] + fv_options(r)
    for x in ("rw-bw", "pm-from", "pm-into"):
        if r.random() < .8:
            o.append("--%s-index=%s" % (x, r.choice([f for f in strat.FP if f != "NoIndex"] if x != "rw-bw" or r.random() < .9 else ["NoIndex"])))
    for f in ("--pdt-no-size-constr", "--pdt-no-age-constr", "--fp-no-size-constr"):
        if r.random() < .2:
            o.append(f)
    ho = r.random() < .3
    script, plan = [], []

    def ask(cmd, p=None):
        script.append(cmd)
        plan.append(p)

    # 1. clauses, then a first session to learn their orientation
    cls = []
    for c in p09.family(r, sig, size):
        c = p09.clean(c)
        if c:
            cls.append(c)
    nf = len(cls)
    for _ in range(size):
        vs = V[:r.randint(0, 3)]
        s, t = sig.term(r, vs, r.randint(0, 3)), sig.term(r, vs, r.randint(0, 2))
        if cls[nf:] and r.random() < .5:
            _, s, t = p09.inst(r, sig, r.choice(cls[nf:]), 1)[0]
            if r.random() < .4:
                s = elib.perturb(r, sig, s, V)
        if s != t:
            cls.append([(r.random() < .85, s, t)])
    for c in cls:
        ask(("CLEARNAMES",))
        ask(("ADD", "cnf(c,axiom,(%s))." % elib.cl2s(c)))
    head, R = elib.session(_tmp, "%da" % no, text, o, script + [("DUMP",)], ho=ho)
    if head is None:
        return p09.failed(res, R, text, script)
    C, ori = {}, {}
    for line in head:
        if line.startswith("A"):
            f = line[1:].split("\t")
            C[int(f[0])] = elib.parse_lits(f[1])
            ori[int(f[0])] = f[2]
    units = [i for i in range(nf, len(cls)) if C[i][0][0]]
    home = {i: "r" if ori[i] == "1" else "e" for i in units}
    cont = {"r": [], "e": [], "m": []}
    fam = list(range(nf))
    bw, used, gone = [], set(), set()
    d = json.loads(head[-1][1:])
    d["kbo"] = "-tKBO" in o[0]
    O = p06.Ord(d)
    probes = []
    for i in units:
        _, s, t = p09.inst(r, sig, C[i], 2)[0]
        s, t = p09.contexts(r, sig, s, t)
        probes += [s, t]
    # 2. interleaved history
    for _ in range(size * 8):
        k = r.random()
        if k < .12 and units:
            i = r.choice(units)
            if i not in used:
                used.add(i)
                ask(("INS", home[i], i))
                cont[home[i]].append(i)
        elif k < .16 and (cont["r"] or cont["e"]):
            i = r.choice(cont["r"] + cont["e"])
            ask(("DEL", i))
            cont[home[i]].remove(i)
        elif k < .36 and units:
            st = r.choice("re")
            t = r.choice(probes) if r.random() < .7 else sig.term(r, V, 2)
            t = r.choice(list(elib.subterms(t)))
            if isinstance(t, str):
                continue
            ask(("CLEARNAMES",))
            ask(("PDT", st, t2s(t), r.randint(0, 1)), ("pdt", list(cont[st])))
        elif k < .5:
            i = r.choice(fam)
            if i not in cont["m"] and i not in bw:
                ask(("INS", "m", i))
                cont["m"].append(i)
        elif k < .56 and cont["m"]:
            i = r.choice(cont["m"])
            ask(("DEL", i))
            cont["m"].remove(i)
        elif k < .85:
            i = r.choice(fam)
            op = r.choice(["FWSUB", "BWSUB", "BWSUB", "VARIANT"])
            if op == "VARIANT" and (any(x.endswith("=None") for x in o) or len(C[i]) == 1):
                continue                                      # searches the feature-vector index, which must exist
            ask((op, "m", i), (op, list(cont["m"])))
        elif k < .93:
            i = r.choice(fam)
            if i in bw:
                if r.random() < .4:
                    ask(("BWIDX", 0, i))
                    bw.remove(i)
            elif i not in cont["m"] and i not in gone:
                gone.add(i)
                ask(("BWIDX", 1, i))
                bw.append(i)
        elif units:
            i = r.choice(units)
            if i not in used:                                 # as in the given-clause loop: rewritable clauses leave the index
                used.add(i)
                ask(("BWRW", i), ("bw", list(bw)))
                ask(("INS", home[i], i))
                cont[home[i]].append(i)
                for j in list(bw):
                    if rewritable(O, C[j], C[i], home[i] == "r")[0]:
                        ask(("BWIDX", 0, j))
                        bw.remove(j)
                        gone.add(j)
    for i in list(cont["m"]):
        ask(("SHOW", i), ("show",))
    # 3. fingerprint index of its own
    k0 = len(script)
    ask(("CLEARNAMES",))
    p = fp_case(r, sig, script, size)
    plan += [None] + p
    out, R = elib.session(_tmp, "%db" % no, text, o, script, ho=ho)
    if out is None:
        return p09.failed(res, R, text, script)

    def bad(key, cmd, line, want, cur):
        res.violation(key, "%s with contents [%s] gives %s, a scan gives %s; query %s [%s]"
                      % (cmd, "; ".join("%d: %s" % (i, elib.cl2s(C[i])) for i in cur)[:700], line, want,
                         elib.cl2s(C[cmd[2]]) if len(cmd) > 2 and isinstance(cmd[2], int) and cmd[0] != "PDT" else "", " ".join(o)),
                      dict(options=o, problem=text, script=script, cmd=cmd, ho=ho))

    for cmd, p, line in zip(script, plan, out):
        if p is None:
            continue
        if len(res.viol) > 6:
            break
        res.n["evaluations"] += 1
        if p[0] == "show":
            if elib.parse_lits(line[1:]) != C[cmd[1]]:
                bad("changed", cmd, line, elib.cl2s(C[cmd[1]]), [])
        elif p[0] == "pdt":
            f = line[1:].split("\t")
            t = ref.rename_t(elib.parse(f[1]))
            got = set()
            good = True
            for x in f[0].split():
                i, sd, ok = x.split(":")
                got.add((int(i), sd))
                good = good and ok == "1"
            want = set()
            for i in p[1]:
                _, l, rr = C[i][0]
                if elib.match(l, t, {}) is not None:
                    want.add((i, "l"))
                if home[i] == "e" and elib.match(rr, t, {}) is not None:
                    want.add((i, "r"))
            res.n["pdt_hits"] += len(want)
            if p[1]:
                res.key("pdt", [elib.cl2s(C[i]) for i in p[1]], f[1])
            if got != want or not good:
                bad("discrimination-tree", cmd, line, sorted(want), p[1])
        elif p[0] == "FWSUB":
            g = int(line[1:])
            q = C[cmd[2]]
            may = {i for i in p[1] if (ref.unit_subsumes(C[i], q)[0] if len(C[i]) == 1 else ref.subsumes(C[i], q))}
            must = {i for i in may if len(C[i]) != 1 or ref.unit_subsumes(C[i], q)[1]}
            res.n["fwsub_%d" % bool(must)] += 1
            if p[1]:
                res.key("fw", o, [elib.cl2s(C[i]) for i in p[1]], elib.cl2s(q))
            # the feature-vector index only promises literal-wise subsumption (a unit may subsume below a context)
            must = {i for i in must if ref.subsumes(C[i], q)}
            if (g == -1 and must) or (g != -1 and g not in may):
                bad("forward-subsumption", cmd, line, sorted(must), p[1])
        elif p[0] == "BWSUB":
            g = set(map(int, line[1:].split()))
            c = C[cmd[2]]
            if len(c) == 1:
                may = {i for i in p[1] if ref.unit_subsumes(c, C[i])[0]}
                must = {i for i in p[1] if ref.unit_subsumes(c, C[i])[1] and ref.subsumes(c, C[i])}
            else:
                may = must = {i for i in p[1] if ref.subsumes(c, C[i])}
            res.n["bwsub_hits"] += len(must)
            if p[1]:
                res.key("bw", o, [elib.cl2s(C[i]) for i in p[1]], elib.cl2s(c))
            if not must <= g <= may:
                bad("backward-subsumption", cmd, line, sorted(must), p[1])
        elif p[0] == "VARIANT":
            g = int(line[1:])
            w = {i for i in p[1] if ref.variant(C[i], C[cmd[2]])}
            res.n["variant_%d" % bool(w)] += 1
            if (g == -1) != (not w) or (g != -1 and g not in w):
                bad("variant", cmd, line, sorted(w), p[1])
        elif p[0] == "bw":
            res.n["bwrw_queries"] += 1
            if line[1:].startswith("-"):
                continue
            g = set(map(int, line[1:].split()))
            x = {i: rewritable(O, C[i], C[cmd[1]], home[cmd[1]] == "r") for i in p[1]}
            may, must = {i for i in x if x[i][0] | x[i][1]}, {i for i in x if x[i][1]}
            res.n["bwrw_hits"] += len(must)
            if p[1]:
                res.key("bwrw", o, [elib.cl2s(C[i]) for i in p[1]], elib.cl2s(C[cmd[1]]))
            if not must <= g <= may:
                bad("backward-rewriting", cmd, line, sorted(must), p[1] + [cmd[1]])
        elif p[0] == "fp":
            _, kind, have, q = p
            d = line[1:]
            res.key("fp", kind, [t2s(t) for t in have], t2s(q))
            res.n["fp_queries"] += 1
            if len(d) != len(have):
                bad("fingerprint-contents", cmd, line, len(have), [])
                continue
            qq = ref.rename_t(q)
            for t, x in zip(have, d):
                u = elib.unify(t, qq) is not None
                m = elib.match(qq, t, {}) is not None
                res.n["fp_unifiable"] += u
                res.n["fp_rejected"] += x == "0"
                if x == "8" or (u and not int(x) & 1) or (m and not int(x) & 2):
                    res.violation("fingerprint", "%s: query %s does not retrieve %s (answer %s; unifiable %s, instance %s)"
                                  % (kind, t2s(q), t2s(t), x, u, m), dict(problem=text, script=script, ho=ho))
                    break
    if no < 2:
        res.samples.append(dict(options=o, cmd=script[k0 - 1], answer=out[k0 - 1]))
    return res


def run(ctx):
    global _tmp
    _tmp = ctx.tmp
    p09._tmp = ctx.tmp
    elib.build()
    n = ctx.scale(1000, 20000)
    ctx.map(case, [(i, "%d-p08-%d" % (ctx.seed, i), 22) for i in range(n)], label="index histories")
