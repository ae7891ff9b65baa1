"""P03: proof objects.  Every proof object E prints is read back and judged: it is a well-founded derivation whose leaves are
input formulas or definitions of fresh symbols, that ends in the empty clause, and each of its steps is checked against
its recorded parents by a finite countermodel search."""
import os
import random

import common
import ebuild
import fol
import gen
import strat

ID = "P03"
LEVEL = "exploration"
RULE = ("proof objects (detail levels 1-3) printed for provable problems under sampled strategies; every derivation step is "
        "one oracle evaluation (countermodel search in sizes 1-3, or the conservativity test for Skolemization and "
        "definitions); non-trivial: a step whose countermodel search completed for at least size 2; distinct by the text "
        "of the step and its parents")
ASSUMPTIONS = ["an unsound step is seen if it has a countermodel with at most 3 elements"]
MIN_DISTINCT = 500
_bin, _tmp, _names = {}, None, []

EXAMPLES = ["SMOKETEST/ALL_RULES.p", "SMOKETEST/BOO020-1.p", "SMOKETEST/CNFTest.p", "SMOKETEST/GROUP1st.p",
            "SMOKETEST/LUSK3.p", "SMOKETEST/LUSK6.lop", "SMOKETEST/socrates.p", "SMOKETEST/tffex01.p",
            "TPTP/BOO006-1.p", "TPTP/GRP237-1.p", "TPTP/PUZ028-6.p", "TPTP/SYN190-1.p", "TPTP/SEU027+1.p",
            "TPTP/BOO010-2.p", "TPTP/MGT063+1.p", "TPTP/PLA012-1.p", "TPTP/SET183-6.p", "TPTP/HEN011-2.p"]


def sources(src, acc_par, acc_stat, rules):
    """Flatten a source annotation into parent names, statuses and rules."""
    if isinstance(src, list):
        for x in src[1:]:
            sources(x, acc_par, acc_stat, rules)
        return
    h = src[0]
    if h == "inference" and len(src) == 4:
        rules.append(src[1][0])
        info = src[2]
        st = [x for x in info[1:] if isinstance(x, tuple) and x[0] == "status"]
        acc_stat.append(st[0][1][0] if st else "?")
        sources(src[3], acc_par, acc_stat, rules)
    elif h in ("file", "introduced"):
        acc_par.append(src)
    elif h == "theory":
        acc_par.append(src)
    elif len(src) == 1:
        acc_par.append(h)
    else:                              # parents decorated with positions, e.g. c_0_1:[..]
        acc_par.append(h)


def syms(f):
    a, b = {}, {}
    fol.symbols(f, a, b)
    return set(a) | set(b)


def equivalent(f, g):
    """No countermodel for f<=>g; returns a description of a countermodel or None."""
    cm, done = fol.countermodel([], ("iff", f, g), 2)
    return cm


def defined(f, old):
    """The new predicate a definition is about: one side of an equivalence or implication, not occurring on the other."""
    while f[0] == "all":
        f = f[2]
    if f[0] not in ("iff", "imp"):
        return None
    for x, y in ((f[1], f[2]), (f[2], f[1])):
        while x[0] == "not":
            x = x[1]
        if x[0] == "atom":
            fs, ps = {}, {}
            fol.symbols(x, fs, ps)
            for h in ps:
                if h not in old and h not in syms(y):
                    return h
    return None


def cycle(needs):
    state = {}

    def go(x):
        state[x] = 1
        for y in needs.get(x, ()):
            if state.get(y) == 1:
                return [x, y]
            if y not in state:
                c = go(y)
                if c:
                    return c
        state[x] = 2
        return None
    for x in list(needs):
        if x not in state:
            c = go(x)
            if c:
                return c
    return None


def judge(text, inputs, res, goals_false=True):
    """Returns None or (key, message)."""
    lines = text.split("\n")
    try:
        a = next(i for i, l in enumerate(lines) if "SZS output start" in l)
        b = next(i for i, l in enumerate(lines) if "SZS output end" in l)
    except StopIteration:
        return "no-proof-object", "proof claimed, but no delimited proof object"
    items, bad = fol.parse_lines("\n".join(lines[a + 1:b]))
    if bad:
        return "unreadable", "proof line does not parse: %s (%s)" % bad[0]
    seen = {}
    known_syms = set()
    for f in inputs.values():
        known_syms |= syms(f[1])
    input_syms = set(known_syms)
    used = set()
    anc, intro, needs, defs = {}, {}, {}, {}      # step -> symbols of its derivation; symbol -> introducing step, -> symbols before it
    for it in items:
        if it.typedecl is not None or it.role == "type":
            continue
        if it.name in seen:
            return "duplicate-name", "two steps named %s" % it.name
        par, stat, rules = [], [], []
        if it.source is None:
            return "no-source", "step without justification: %s" % it.text
        sources(it.source, par, stat, rules)
        res.n["steps"] += 1
        f = fol.close(it.formula)
        leaf = not stat
        names = [p for p in par if isinstance(p, str)]
        for p in names:
            if p not in seen:
                return "unknown-parent", "step %s uses %s, which is not derived before it" % (it.name, p)
            used.add(p)
        files = [p for p in par if isinstance(p, tuple) and p[0] == "file"]
        if leaf and files:
            nm = files[0][2][0] if len(files[0]) > 2 else None
            if nm not in inputs:
                return "unknown-input", "leaf %s cites input formula %s, which does not exist" % (it.name, nm)
            res.n["input_leaves"] += 1
            if equivalent(f, inputs[nm][1]) is not None:
                return "leaf-differs", "leaf %s is not the input formula %s: %s" % (it.name, nm, it.text[:300])
            want = inputs[nm][0]
            if (it.role == "conjecture") != (want == "conjecture"):
                return "leaf-role", "leaf %s has role %s, the input has %s" % (it.name, it.role, want)
        elif leaf and not names:
            new = syms(f) - known_syms
            if any(isinstance(p, tuple) and p[0] == "introduced" for p in par) or it.source[0] in ("introduced",):
                res.n["definitions"] += 1
                head = defined(f, input_syms)
                if head:
                    if head in defs and equivalent(defs[head], f) is not None:
                        return "two-definitions", "%s has two different definitions: %s" % (head[0], it.text[:300])
                    if head in intro and head not in defs:
                        return "skolem-not-fresh", "%s is defined, but also introduced by %s" % (head[0], intro[head])
                    defs[head] = f
                    intro[head] = it.name
                    needs[head] = syms(f) - {head} - input_syms
                elif not new and fol.countermodel([], f, 3)[0]:
                    return "bad-definition", "introduced formula has no fresh symbol and is not valid: %s" % it.text[:300]
            else:
                return "bad-leaf", "leaf with unknown source: %s" % it.text[:300]
        elif leaf:
            parents = [fol.close(seen[p].formula) for p in names]
            cm, done = fol.countermodel(parents, f, 2)
            if cm:
                return "bad-copy", "copied step differs from its parent: %s" % it.text[:300]
        else:
            prem = [seen[p] for p in dict.fromkeys(names)]
            pf = [fol.close(x.formula) for x in prem]
            for p in par:
                if isinstance(p, tuple) and p[0] in ("file",):
                    if len(p) > 2 and p[2][0] in inputs:
                        pf.append(inputs[p[2][0]][1])
                    else:
                        return "unknown-input", "step %s cites an unknown input" % it.name
            if "cth" in stat:
                res.n["negation_steps"] += 1
                rest = [s for s in stat if s != "cth"]
                if not any(x.role in ("conjecture", "question") for x in prem) and not \
                        any(x[0] == "conjecture" for x in inputs.values()):
                    return "negated-nonconjecture", "negation of something that is no conjecture: %s" % it.text[:300]
                if len(pf) != 1:
                    return "negation-parents", "negation step with %d parents" % len(pf)
                if "esa" not in rest and equivalent(f, ("not", pf[0])) is not None:
                    return "negation-wrong", "step is not the negation of its parent: %s" % it.text[:300]
                res.key(it.formula, [fol.f2s(x) for x in pf])
            elif all(s == "thm" for s in stat):
                cm, done = fol.countermodel(pf, f, 3, None, 12000)
                if cm:
                    return "step:" + rules[0], ("step does not follow from its parents (countermodel of size %d): %s  "
                                                "parents: %s" % (cm[0], it.text[:400],
                                                                " ;; ".join(fol.f2s(x)[:200] for x in pf)))
                res.n["thm_steps"] += 1
                for x in rules:
                    res.n["rule_" + x] += 1
                if 2 in done:
                    res.key(it.formula, [fol.f2s(x) for x in pf])
                else:
                    res.n["steps_too_big"] += 1
            else:                                    # equisatisfiable step: conservative over the old symbols
                res.n["esa_steps"] += 1
                new = syms(f) - set().union(*[syms(x) for x in pf]) if pf else syms(f)
                before = set().union(*[anc[x.name] for x in prem]) if prem else set()
                stale = new & (input_syms | before | set(intro))
                if "skolemize" in rules:
                    if stale:
                        return "skolem-not-fresh", "Skolemization uses an old symbol %s: %s" % (sorted(stale), it.text[:300])
                    for x in new:
                        intro[x] = it.name
                        needs[x] = (before | syms(f)) - new - input_syms
                msg = conservative(pf, f, new)
                if msg is False:
                    return "step:" + rules[0], "step is not satisfiability preserving: %s  parents: %s" % (
                        it.text[:400], " ;; ".join(fol.f2s(x)[:200] for x in pf))
                if msg is True:
                    res.key(it.formula, [fol.f2s(x) for x in pf])
                    for x in rules:
                        res.n["rule_" + x] += 1
        known_syms |= syms(f)
        seen[it.name] = it
        anc[it.name] = syms(f).union(*[anc[p] for p in names])
    loop = cycle(needs)
    if loop:
        return "circular-introduction", "the introduced symbols %s depend on each other" % " ".join(x[0] for x in loop)
    res.n["introduced_symbols"] += len(intro)
    if goals_false:
        fin = [x for x in seen.values() if x.formula == ("false",)]
        if not fin:
            return "no-empty-clause", "proof object does not contain the empty clause"
        dangling = [n for n, x in seen.items() if n not in used and x.formula != ("false",)]
        res.n["unused_steps"] += len(dangling)
    return None


def conservative(pf, f, new):
    """Every model of the parents (a few random ones are tried) has an expansion satisfying f: True / False / None."""
    ok = None
    rnd = random.Random(fol.f2s(f))
    for n in (1, 2, 2, 3):
        try:
            g = fol.Grounder(n, None, None, 40000)
            for x in pf:
                g.assert_(x)
            cells = list(g.cellp.values()) + [l for c in g.cellf.values() if isinstance(c, dict) for l in c.values()]
            extra = [(l if rnd.random() < .5 else -l,) for l in cells if rnd.random() < .3]
            sol, m = fol.sat_solve(g.nv, g.clauses + extra)
            if sol is False:
                sol, m = fol.sat_solve(g.nv, g.clauses)
            if not sol:
                continue
            g.model = m
            h = fol.Grounder(n, None, fol.tables(g), 40000)
            h.assert_(f)
            s2 = h.solve()
            if s2 is False:
                return False
            if s2 and n > 1:
                ok = True
        except fol.TooBig:
            continue
    return ok


def load_inputs(text, lop=False):
    d = {}
    for a in fol.parse_problem(text):
        if a.role == "type" or a.formula is None:
            continue
        d[a.name] = (a.role, fol.close(a.formula))
    return d


def one(res, e, fn, text, opts, inputs, rp):
    res.n["evaluations"] += 1
    lvl = rp["level"]
    cmd = [e, "-s", "--proof-object=%d" % lvl, "--cpu-limit=8", "-C", "800"] + opts + [fn]
    R = common.run(cmd, timeout=40, fsize_mb=64)
    st = common.szs(R.out)
    if R.timeout or not st or R.rc is None or R.rc < 0:
        res.inconclusive += 1
        return
    res.n["verdict_" + st[0]] += 1
    if st[0] not in ("Theorem", "Unsatisfiable", "ContradictoryAxioms"):
        return
    w = judge(R.out, inputs, res)
    res.n["proof_objects"] += 1
    res.n["level_%d" % lvl] += 1
    if w:
        res.violation(w[0], w[1] + "  (options %s)" % " ".join(opts), dict(rp, problem=text, options=cmd[1:-1],
                                                                          output=R.out[:20000]))


def case(seed):
    r = random.Random(seed)
    res = common.Result()
    p = gen.any_unsat(r)
    fn = os.path.join(_tmp, "c%s.p" % common.hashlib.md5(str(seed).encode()).hexdigest()[:12])
    with open(fn, "w") as f:
        f.write(p.text)
    inputs = load_inputs(p.text)
    o = strat.sample(r, _names)
    lvl = r.choice([1, 1, 1, 2, 3])
    one(res, _bin["ho" if r.random() < .15 else "fo"], fn, p.text, o, inputs, dict(level=lvl, kind=p.kind, seed=seed))
    if r.random() < .01:
        res.samples.append(dict(kind=p.kind, options=" ".join(o), steps=res.n["steps"], problem=p.text[:400]))
    os.unlink(fn)
    return res


def run(ctx):
    global _tmp, _names
    _bin["fo"] = ebuild.build("rel", False)["eprover"]
    _bin["ho"] = ebuild.build("rel", True)["eprover"]
    _tmp = ctx.tmp
    _names = strat.builtin(_bin["fo"])
    n = ctx.scale(2600, 15000)
    ctx.map(case, ["%d-%d" % (ctx.seed, i) for i in range(n)], label="proof objects", chunk=2)
