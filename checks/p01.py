"""P01: refutation soundness.  E runs on problems with a planted finite model; the verdict must not be a refutation
claim, and (shadow-model monitor) every clause and formula E derives must hold in the planted model, expanded by an
interpretation of the Skolem, definition and split symbols E introduced."""
import os

import numpy as np

import common
import ebuild
import fol
import gen
import genms
import strat

ID = "P01"
LEVEL = "exploration"
RULE = ("random and algebraic clause sets, FOF and TFF problems true in a planted finite model (2-6 elements), run "
        "under sampled strategies; non-trivial: the trace contains derived clauses and the monitor evaluated them; "
        "many-sorted and FOOL problems: verdict only; distinct by (problem, options)")
ASSUMPTIONS = ["clauses with more than 8 variables and traces whose grounding is too big are skipped and counted",
               "soundness is observed through one planted model per run"]
MIN_DISTINCT = 200

_bin = {}
_tmp = None
_names = []


def fixed_tables(m):
    d = {}
    for name, a in list(m.funs.items()) + list(m.preds.items()):
        d[name] = {idx: (bool(a[idx]) if a.dtype == bool else int(a[idx])) for idx in np.ndindex(*a.shape)}
    return d


def check_trace(out, m, res):
    """Returns None or a description of the first formula that no expansion of the model satisfies."""
    items, bad = fol.parse_lines(out)
    res.n["trace_lines"] += len(items)
    res.n["unparsed_lines"] += len(bad)
    seen = set()
    unknown = []
    derived = 0
    for a in items:
        if a.role in ("conjecture", "question", "type") or a.formula is None:
            continue
        if isinstance(a.source, tuple) and a.source[0] == "inference":
            derived += 1
        key = fol.f2s(a.formula)
        if key in seen:
            continue
        seen.add(key)
        if "$answer" in key:
            continue
        if m.knows(a.formula):
            c = fol.formula_clause(a.formula)
            if c is not None:
                v = m.clause_true(c, 8)
            elif len(key) < 4000:
                try:
                    v = m.formula_true(fol.close(a.formula))
                except KeyError:
                    v = None
            else:
                v = None
            if v is None:
                res.n["formulas_skipped"] += 1
            else:
                res.n["formulas_evaluated"] += 1
            if v is False:
                return a.text, derived
        else:
            unknown.append(a)
    if unknown:
        g = fol.Grounder(m.n, None, fixed_tables(m), limit=30000)
        used = []
        for a in unknown:
            f = fol.close(a.formula)
            save = (len(g.clauses), g.work)
            try:
                nv = len(fol.free_vars(a.formula))
                if m.n ** nv > 3000:
                    res.n["formulas_skipped"] += 1
                    continue
                g.assert_(f)
                used.append((a, len(g.clauses)))
            except fol.TooBig:
                del g.clauses[save[0]:]
                res.n["formulas_skipped"] += 1
                break
        r, _ = fol.sat_solve(g.nv, g.clauses)
        if r is None:
            res.n["formulas_skipped"] += len(used)
        else:
            res.n["formulas_evaluated"] += len(used)
            res.n["expansions_solved"] += 1
        if r is False:
            lo, hi = 0, len(used) - 1        # first prefix that is unsatisfiable
            while lo < hi:
                mid = (lo + hi) // 2
                if fol.sat_solve(g.nv, g.clauses[:used[mid][1]])[0] is False:
                    hi = mid
                else:
                    lo = mid + 1
            return used[lo][0].text, derived
    return None, derived


def case(seed):
    r = __import__("random").Random(seed)
    res = common.Result()
    res.n["evaluations"] += 1
    p = gen.any_sat(r)
    o = strat.sample(r, _names)
    ho = r.random() < 0.25
    e = _bin["ho" if ho else "fo"]
    fn = os.path.join(_tmp, "c%s.p" % common.hashlib.md5(str(seed).encode()).hexdigest()[:12])
    with open(fn, "w") as f:
        f.write(p.text)
    cmd = [e, "-l", "6", "-C", str(r.choice([10, 30, 60, 100])), "--generated-limit=1500", "--cpu-limit=8"] + o + [fn]
    R = common.run(cmd, timeout=40, fsize_mb=64)
    st = common.szs(R.out)
    os.unlink(fn)
    rp = dict(problem=p.text, options=cmd[1:-1], ho=ho, kind=p.kind, seed=seed)
    if R.timeout or R.rc is None or R.rc < 0 or not st:
        res.inconclusive += 1
        return res
    res.n["verdict_" + st[0]] += 1
    if st[0] in ("Theorem", "Unsatisfiable", "ContradictoryAxioms") or R.rc == 0:
        res.violation("verdict:" + st[0], "%s reported for a %s problem that has a finite model of size %d (options %s)"
                      % (st[0], p.kind, p.model.n, " ".join(o)), dict(rp, output=R.out[-3000:]))
        return res
    if len(R.out) > 3000000:
        res.n["trace_too_long"] += 1
        return res
    w, derived = check_trace(R.out, p.model, res)
    if w is not None:
        res.violation("derived-false", "derived formula is false in a model of the problem: %s" % w[:600],
                      dict(rp, formula=w, model=dict(n=p.model.n, funs={k: v.tolist() for k, v in p.model.funs.items()},
                                                     preds={k: v.tolist() for k, v in p.model.preds.items()})))
    if derived >= 3:
        res.key(p.text, tuple(o))
        if r.random() < 0.02:
            res.samples.append(dict(kind=p.kind, options=" ".join(o), verdict=st[0], derived_steps=derived,
                                    problem=p.text[:600]))
    return res


def sorted_case(seed):
    """Many-sorted problems, with and without Boolean arguments: verdict only."""
    r = __import__("random").Random(seed)
    res = common.Result()
    text, kind = genms.sat(r)
    fn = os.path.join(_tmp, "s%s.p" % common.hashlib.md5(str(seed).encode()).hexdigest()[:12])
    with open(fn, "w") as f:
        f.write(text)
    for _ in range(2):
        res.n["evaluations"] += 1
        ho = r.random() < .25
        o = strat.sample(r, _names)
        cmd = [_bin["ho" if ho else "fo"], "-s", "-C", str(r.choice([50, 200, 400])), "--generated-limit=6000", "--cpu-limit=4"] + o + [fn]
        R = common.run(cmd, timeout=40)
        st = common.szs(R.out)
        if R.timeout or R.rc is None or R.rc < 0 or not st:
            res.inconclusive += 1
            continue
        res.n["%s_%s" % (kind, st[0])] += 1
        if st[0] in ("Theorem", "Unsatisfiable", "ContradictoryAxioms") or R.rc == 0:
            res.violation("sorted:" + st[0], "%s reported for a many-sorted problem that has a finite model (options %s)" % (st[0], " ".join(o)),
                          dict(problem=text, options=cmd[1:-1], ho=ho, seed=seed, output=R.out[-3000:]))
        res.key(text, tuple(o))
    os.unlink(fn)
    return res


def run(ctx):
    global _tmp, _names
    _bin["fo"] = ebuild.build("rel", False)["eprover"]
    _bin["ho"] = ebuild.build("rel", True)["eprover"]
    _tmp = ctx.tmp
    _names = strat.builtin(_bin["fo"])
    n = ctx.scale(6000, 60000)
    ctx.map(case, ["%d-%d" % (ctx.seed, i) for i in range(n)], label="planted-model runs")
    ctx.map(sorted_case, ["%d-s%d" % (ctx.seed, i) for i in range(ctx.scale(1500, 30000))], label="many-sorted problems")
