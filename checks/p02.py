"""P02: saturation soundness.  E runs on problems known to be unsatisfiable (by construction: derived empty clause, complete
diagrams, SAT- or SMT-decided fragments); no run may claim satisfiability, under any strategy including restricted ones."""
import os
import random

import common
import ebuild
import gen
import genms
import strat

ID = "P02"
LEVEL = "exploration"
RULE = ("unsatisfiable problems (refutations built by random inferences, complete diagrams of finite models, SAT-decided "
        "effectively propositional sets, SMT-decided ground equational problems), each run under sampled strategies; "
        "non-trivial: the run ended with a verdict of its own (refutation, saturation or give-up); distinct by "
        "(problem, options)")
ASSUMPTIONS = ["ground truth of the decided fragments comes from minisat/z3, of the others from the construction"]
MIN_DISTINCT = 300
_bin, _tmp, _names = {}, None, []

SINE = ["GSinE(CountFormulas,hypos,1.1,,02,20,1.0)", "GSinE(CountTerms,,1.2,,,100,1.0)", "Auto",
        "GSinE(CountFormulas,,1.0,,1,5,1.0)"]


def restrict(r):
    """Options that may lose completeness: E has to own up to that in its verdict."""
    o = []
    if r.random() < .3:
        o.append("--sine=" + r.choice(SINE))
    if r.random() < .15:
        o.append("--rel-pruning-level=%d" % r.randint(1, 3))
    if r.random() < .25:
        o.append("-WNoGeneration")
    if r.random() < .2:
        o.append("--literal-comparison=TFOEqMax")
    if r.random() < .25:
        o.append("--disable-eq-factoring")
    if r.random() < .25:
        o.append("--disable-paramod-into-neg-units")
    if r.random() < .15:
        o.append("--delete-bad-limit=%d" % r.choice([2000, 20000]))
    if r.random() < .1:
        o.append("--ac-handling=DiscardAll")
    return o


def case(seed):
    r = random.Random(seed)
    res = common.Result()
    if r.random() < .2:
        text, kind = genms.unsat(r)
        p = gen.Problem(kind, "tff", [], "unsat")
    else:
        p = gen.any_unsat(r)
        text, kind = p.text, p.kind
    ho = r.random() < .2
    fn = os.path.join(_tmp, "c%s.p" % common.hashlib.md5(str(seed).encode()).hexdigest()[:12])
    with open(fn, "w") as f:
        f.write(text)
    for _ in range(4):
        res.n["evaluations"] += 1
        o = strat.sample(r, _names)
        rst = r.random() < .25
        if rst:
            o += restrict(r)
        cmd = [_bin["ho" if ho else "fo"], "-s", "-C", str(r.choice([200, 600])), "--cpu-limit=4"] + o + [fn]
        R = common.run(cmd, timeout=30)
        st = common.szs(R.out)
        if R.timeout or R.rc is None or R.rc < 0 or not st:
            res.inconclusive += 1
            continue
        res.n["verdict_" + st[0]] += 1
        rp = dict(problem=text, options=cmd[1:-1], ho=ho, kind=kind, seed=seed, output=R.out[-2500:])
        if st[0] in ("Satisfiable", "CounterSatisfiable", "FiniteModel", "CounterTheorem") or R.rc == 1:
            res.violation("verdict:" + st[0], "%s (exit %s) for an unsatisfiable %s problem, options %s"
                          % (st[0], R.rc, kind, " ".join(o)), rp)
        if st[0] != "ResourceOut":
            res.key(text, tuple(o))
            res.n["restricted_runs" if rst else "unrestricted_runs"] += 1
            if r.random() < .003:
                res.samples.append(dict(kind=kind, options=" ".join(o), verdict=st[0], problem=text[:500]))
    os.unlink(fn)
    return res


ITE = "tff(a_t,type,a: $i).\ntff(q_t,type,q: $i > $o).\ntff(ax,axiom,$ite(q(a),~q(a),q(a))).\n"


def known(key):
    """The input of the known finding: a formula-level $ite in TFF (not generated elsewhere)."""
    res = common.Result()
    fn = os.path.join(_tmp, "known.p")
    with open(fn, "w") as f:
        f.write(ITE)
    R = common.run([_bin["fo"], "-s", "--cpu-limit=4", "-C", "200", fn], timeout=30)
    st = common.szs(R.out)
    res.n["evaluations"] += 1
    if st and st[0] in ("Satisfiable", "CounterSatisfiable"):
        res.violation(key, "%s for an unsatisfiable problem" % st[0], dict(problem=ITE, output=R.out))
    return res


def run(ctx):
    global _tmp, _names
    _bin["fo"] = ebuild.build("rel", False)["eprover"]
    _bin["ho"] = ebuild.build("rel", True)["eprover"]
    _tmp = ctx.tmp
    _names = strat.builtin(_bin["fo"])
    ctx.map(known, ["tff-formula-ite"], label="known")
    n = ctx.scale(3500, 40000)
    ctx.map(case, ["%d-%d" % (ctx.seed, i) for i in range(n)], label="unsatisfiable problems")
