"""P13: one truthful status, matching exit code, limits honoured, counters that add up.  Offline monitor over complete runs."""
import os
import random
import argparse
import re
import resource
import signal
import subprocess
import time

import common
import ebuild
import fol
import gen
import genms
import strat

ID = "P13"
LEVEL = "exploration"
RULE = ("runs of the prover on satisfiable and unsatisfiable problems under sampled strategies with sampled step, set-size, generation "
        "and term limits; with hard and soft processor-time and memory limits on problems without end; with strategy schedules on "
        "several cores whose worker processes are killed at random moments; one evaluation: one finished run whose status line, exit "
        "code, printed clause sets, counters and remaining processes are judged; non-trivial: the run ended with a status; distinct "
        "by (problem, options)")
ASSUMPTIONS = ["processor-time limits are judged with 3 s of slack", "truth of ContradictoryAxioms is judged by models with up to 3 elements"]
MIN_DISTINCT = 800
_bin, _tmp, _names = {}, None, []

RC = {"Theorem": (0,), "Unsatisfiable": (0,), "ContradictoryAxioms": (0,), "Satisfiable": (1,), "CounterSatisfiable": (1,),
      "ResourceOut": (2, 8, 9), "GaveUp": (10,), "Unknown": (0,)}
STAT = re.compile(r"^% *(.*?) *: *(\d+)$")
SEC = re.compile(r"^% (Processed|Unprocessed) (positive unit|negative unit|non-unit) clauses:")
HARD = """cnf(a,axiom,m(X,m(Y,Z))=m(m(X,Y),Z)).
cnf(b,axiom,m(X,X)=m(Y,Y)).
cnf(c,axiom,k(k(X,Y),Z)=k(X,m(Y,Z))).
cnf(d,axiom,k(m(X,Y),k(Y,X))=m(Y,k(X,X))|p(X,Y,Z)).
cnf(d1,axiom,~p(X,k(X,Y),Z)|p(k(X,Z),Y,X)).
cnf(e,negated_conjecture,k(a,b)!=m(b,a)).
cnf(e2,negated_conjecture,~p(a,b,Z)|p(Z,a,m(Z,Z))).
"""
LIMITS = (("-C", "c"), ("-P", "p"), ("-U", "u"), ("-T", "t"), ("--generated-limit=", "g"), ("--tb-insert-limit=", "b"))


def tag(seed):
    return common.hashlib.md5(str(seed).encode()).hexdigest()[:12]


def statuses(out):
    return re.findall(r"^%+ SZS status (\w+)", out, re.M)


def status_faults(out, rc, conj, truth, silent=False):
    """What is wrong with the reported outcome: list of (key, message)."""
    st = statuses(out)
    if len(st) != 1:
        return [("status-count", "%d status lines: %s" % (len(st), st))]
    s, bad = st[0], []
    if s not in RC:
        bad.append(("status-unknown", "status %s" % s))
    elif rc not in RC[s]:
        bad.append(("exit-code", "exit code %s with status %s" % (rc, s)))
    if conj is not None:
        if conj and s in ("Unsatisfiable", "Satisfiable") or not conj and s in ("Theorem", "CounterSatisfiable", "ContradictoryAxioms"):
            bad.append(("status-kind", "status %s for a problem %s conjecture" % (s, "with a" if conj else "without")))
    if truth == "unsat" and s in ("Satisfiable", "CounterSatisfiable") or \
            truth == "sat" and s in ("Theorem", "Unsatisfiable", "ContradictoryAxioms"):
        bad.append(("wrong-status", "status %s for a problem that is %s" % (s, truth)))
    return bad


def counters(out):
    d = {}
    for l in out.split("\n"):
        m = STAT.match(l)
        if m and m.group(1) not in d:
            d[m.group(1)] = int(m.group(2))
    return d


def sections(out):
    """Printed clause sets: {(Processed|Unprocessed, kind): [clause]}; None if a clause cannot be read."""
    d, cur = {}, None
    for l in out.split("\n"):
        m = SEC.match(l)
        if m:
            cur = d.setdefault((m.group(1), m.group(2)), [])
        elif cur is not None and re.match(r"^(cnf|tcf|fof|thf)\(", l):
            cur.append(l)
        elif l.startswith("% Parsed"):
            cur = None
    return d


def nlits(line):
    items, bad = fol.parse_lines(line)
    if bad or len(items) != 1:
        return None
    c = fol.formula_clause(items[0].formula)
    return None if c is None else c


def conserve(out, ninput, lim, opts, res):
    """Conservation laws between the counters, the printed sets and the limits in force."""
    c = counters(out)
    sec = sections(out)
    bad = []

    def law(name, ok):
        res.n["laws"] += 1
        if not ok:
            bad.append(("counter:" + name, name + " violated: " + str({k: v for k, v in c.items() if v})[:900]))
    try:
        law("parsed axioms = formulas in the file", c["Parsed axioms"] == ninput)
        rest = c["Processed clauses"] - c["...of these trivial"] - c["...subsumed"] - c["...remaining for further processing"]
        if not c["Propositional unsat checks"] and not any(o.startswith("--satcheck") for o in opts):      # these simplify unprocessed clauses, too, and count them
            law("processed = trivial + subsumed + remaining", rest in ((0, 1) if "Proof found!" in out else (0,)))
        cur = [c["Positive orientable unit clauses"], c["Positive unorientable unit clauses"], c["Negative unit clauses"],
               c["Non-unit-clauses"]]
        law("current processed = sum of its classes", c["Current number of processed clauses"] == sum(cur))
        law("current processed <= remaining", c["Current number of processed clauses"] <= c["...remaining for further processing"])
        law("cached rewrite steps <= rewrite steps", c["...of those cached"] <= c["Total rewrite steps"])
        if sec:
            n = {k: len(v) for k, v in sec.items()}
            law("printed processed positive units = counted", n[("Processed", "positive unit")] == cur[0] + cur[1])
            law("printed processed negative units = counted", n[("Processed", "negative unit")] == cur[2])
            law("printed processed non-units = counted", n[("Processed", "non-unit")] == cur[3])
            up = [v for k, v in sec.items() if k[0] == "Unprocessed"]
            if len(up) == 3:
                law("printed unprocessed = counted", sum(map(len, up)) == c["Current number of unprocessed clauses"])
            for (w, k), v in sec.items():
                for line in v[:40]:
                    cl = None if "$false" in line or "$true" in line else nlits(line)
                    if cl is None:
                        continue
                    law("printed clause is of the announced class", len(cl) == 1 and cl[0][0] if k == "positive unit" else
                        len(cl) == 1 and not cl[0][0] if k == "negative unit" else len(cl) != 1)
        presat = "Presaturation interreduction done" in out or any(o.startswith("--presat") for o in opts)
        if not presat:
            if "c" in lim:
                law("processed <= limit", c["Processed clauses"] <= lim["c"])
            if "p" in lim:
                law("processed set <= limit", c["Current number of processed clauses"] <= max(lim["p"], 0))
            if "User resource limit exceeded" in out and "b" not in lim:
                gcount = c["Generated clauses"]
                un, pr = c["Current number of unprocessed clauses"], c["Current number of processed clauses"]
                law("the reported limit was reached", any((
                    c["Processed clauses"] >= lim.get("c", 1 << 60), pr >= lim.get("p", 1 << 60), un >= lim.get("u", 1 << 60),
                    pr + un >= lim.get("t", 1 << 60), gcount >= lim.get("g", 1 << 60))))
    except KeyError as e:
        return [("counter-missing", "counter or section %s is not printed" % e)]
    return bad


def case(seed):
    r = random.Random(seed)
    res = common.Result()
    if r.random() < .55:
        p = gen.any_sat(r)
    else:
        p = gen.any_unsat(r)
    text, conj = p.text, p.conj or any(role == "conjecture" for role, _ in p.items)
    o = strat.sample(r, _names)
    lim, lo = {}, []
    for opt, k in LIMITS:
        if r.random() < (.6 if k == "c" else .12):
            v = r.choice([0, 1, 2, 5, 20, 60, 200]) if k == "c" else r.choice([1, 3, 10, 40, 200, 2000])
            lim[k] = v
            lo += [opt + str(v)] if opt.startswith("--") else [opt, str(v)]
    if "c" not in lim:
        lo += ["-C", "300"]
        lim["c"] = 300
    fn = os.path.join(_tmp, "c%s.p" % tag(seed))
    with open(fn, "w") as f:
        f.write(text)
    out_to = r.random() < .1
    extra = ["--print-saturated=" + r.choice(["teigEIG", "eigEIG"]), "--print-statistics"]
    if out_to:
        extra.append("--output-file=" + fn + ".out")
    cmd = [_bin["fo"], "-s", "--cpu-limit=6"] + lo + extra + o + [fn]
    R = common.run(cmd, timeout=40, fsize_mb=64)
    out = R.out
    if out_to:
        try:
            with open(fn + ".out", errors="replace") as f:
                out = f.read()
            os.unlink(fn + ".out")
        except OSError:
            pass
    os.unlink(fn)
    res.n["evaluations"] += 1
    if R.timeout or R.rc is None or R.rc < 0 or R.rc in (3, 5, 7, 8):
        res.inconclusive += 1
        res.n["none_rc_%s" % R.rc] += 1
        return res
    rp = dict(problem=text, options=cmd[1:-1], seed=seed, rc=R.rc, output=out[-4000:])
    for key, msg in status_faults(out, R.rc, bool(conj), p.truth):
        res.violation(key, "%s, options %s" % (msg, " ".join(cmd[3:-1])), rp)
    ninput = len(p.items) + len(p.decls)
    if not any(x.startswith(("--answers", "--sine")) for x in o):
        for key, msg in conserve(out, ninput, lim, o, res):
            res.violation(key, "%s, options %s" % (msg, " ".join(cmd[3:-1])), rp)
    st = statuses(out)
    for x in st:
        res.n["status_" + x] += 1
    if st and st[0] == "ContradictoryAxioms":
        ax = [gen.clause_all(x) if p.lang == "cnf" else x for role, x in p.items if role != "conjecture"]
        try:
            if any(fol.has_model(ax, n)[0] for n in (1, 2, 3)):
                res.violation("wrong-contradictory", "ContradictoryAxioms, but the axioms have a model", rp)
            res.n["contradictory_judged"] += 1
        except fol.TooBig:
            pass
    res.key(text, tuple(o), tuple(lo))
    return res


def group_members(pgid):
    n = []
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                with open("/proc/%s/stat" % d) as f:
                    s = f.read()
                a = s[s.rindex(")") + 2:].split()
                if int(a[2]) == pgid and a[0] not in "ZX":
                    n.append(int(d))
            except (OSError, ValueError):
                pass
    return n


def clocked(seed):
    """Hard and soft processor-time limits and memory limits on problems the search does not finish on."""
    r = random.Random(seed)
    res = common.Result()
    fn = os.path.join(_tmp, "h%s.p" % tag(seed))
    with open(fn, "w") as f:
        f.write(HARD)
    kind = r.choice(["hard", "soft", "both", "memory", "silent"])
    o = {"hard": ["--cpu-limit=1"], "soft": ["--soft-cpu-limit=1"], "both": ["--soft-cpu-limit=1", "--cpu-limit=4"],
         "memory": ["--memory-limit=48", "--cpu-limit=20"], "silent": ["--cpu-limit=1", "-R"]}[kind]
    o += r.choice([[], ["-tKBO6"], ["-tLPO4"], ["--print-saturated"], ["-H(1*Clauseweight(ConstPrio,1,1,1),1*FIFOWeight(ConstPrio))"],
                   ["--split-clauses=3"], ["-l2"]])
    R = common.run([_bin["fo"], "-s"] + o + [fn], timeout=90, fsize_mb=256, mem_mb=0)
    os.unlink(fn)
    res.n["evaluations"] += 1
    res.n["clocked_" + kind] += 1
    rp = dict(problem=HARD, options=o, seed=seed, rc=R.rc, cpu=R.cpu, output=R.out[-1500:], err=R.err[-500:])
    st = statuses(R.out)
    if st and st[0] in ("Unsatisfiable", "Theorem", "Satisfiable"):
        res.inconclusive += 1
        return res
    if R.rc is not None and R.rc < 0 and not R.timeout:
        res.inconclusive += 1
        return res
    if kind in ("hard", "silent", "soft"):
        if R.timeout or R.cpu > 4.5:
            res.violation("limit-ignored", "%s: used %.1f s" % (o, R.cpu), rp)
            return res
    for key, msg in status_faults(R.out, R.rc, None, None):
        res.violation("clocked-" + key, "%s, options %s" % (msg, o), rp)
    want = {"hard": (8,), "silent": (8,), "soft": (9,), "both": (9,), "memory": (2,)}[kind]
    if R.rc not in want and not (kind == "memory" and R.rc == 8):
        res.violation("limit-exit", "exit code %s for %s" % (R.rc, o), rp)
    res.key("clocked", kind, tuple(o), seed)
    return res


def scheduled(seed):
    """Strategy schedules over several processes, some of them killed."""
    r = random.Random(seed)
    res = common.Result()
    p = gen.any_sat(r) if r.random() < .4 else gen.any_unsat(r)
    conj = p.conj or any(role == "conjecture" for role, _ in p.items)
    hard = r.random() < .15
    chain = 0 if hard or r.random() < .8 else r.randint(60, 220)
    if chain:                                  # every formula is needed, so that the proof is long and its text known
        p = argparse.Namespace()
        p.text = "".join("fof(s%d,axiom,(![X]: (p%d(X) => p%d(X)))).\n" % (i, i, i + 1) for i in range(chain))
        p.text += "fof(b,axiom,p0(c)).\nfof(g,conjecture,p%d(c)).\n" % chain
        p.truth, conj = "unsat", True
    fn = os.path.join(_tmp, "s%s.p" % tag(seed))
    with open(fn, "w") as f:
        f.write(HARD if hard else p.text)
    limit = r.choice([2, 3]) if hard else 20 if chain else 6
    cmd = [_bin["fo"], "-s", r.choice(["--auto-schedule", "--auto-schedule=2", "--auto-schedule=4"]), "--cpu-limit=%d" % limit] + \
        (["--proof-object=1"] if chain else r.choice([[], ["--proof-object=1"], ["--print-statistics"]])) + [fn]
    cpu0 = resource.getrusage(resource.RUSAGE_CHILDREN)
    outf = open(fn + ".o", "w+b")
    t0 = time.time()
    P = subprocess.Popen(cmd, stdout=outf, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
    kills = r.choice([0, 0, 1, 2]) if not hard else r.choice([0, 1, 3])
    killed = 0
    while P.poll() is None and time.time() - t0 < 60:
        if killed < kills:
            time.sleep(r.choice([.002, .01, .03, .1]))
            kids = [x for x in group_members(P.pid) if x != P.pid]
            if kids:
                try:
                    os.kill(r.choice(kids), r.choice([signal.SIGKILL, signal.SIGKILL, signal.SIGTERM]))
                    killed += 1
                except OSError:
                    pass
        else:
            time.sleep(.02)
    wall = time.time() - t0
    rc = P.poll()
    left = group_members(P.pid)
    for _ in range(60):
        if not left:
            break
        time.sleep(.1)
        left = group_members(P.pid)
    try:
        os.killpg(P.pid, signal.SIGKILL)
    except OSError:
        pass
    P.wait()
    cpu1 = resource.getrusage(resource.RUSAGE_CHILDREN)
    cpu = cpu1.ru_utime + cpu1.ru_stime - cpu0.ru_utime - cpu0.ru_stime
    outf.seek(0)
    out = outf.read().decode(errors="replace")
    outf.close()
    os.unlink(fn)
    os.unlink(fn + ".o")
    res.n["evaluations"] += 1
    res.n["schedules"] += 1
    res.n["workers_killed"] += killed
    rp = dict(problem=HARD if hard else p.text, options=cmd[1:-1], seed=seed, rc=rc, killed=killed, output=out[-3000:])
    if rc is None:
        if wall >= 60:
            res.violation("schedule-hangs", "schedule with limit %d s still running after 60 s (%d workers killed)" % (limit, killed), rp)
        return res
    if left:
        res.violation("processes-left", "processes %s still running after the prover ended" % left, rp)
    if rc < 0:
        res.inconclusive += 1
        return res
    cores = int((re.search(r"--auto-schedule=(\d+)", " ".join(cmd)) or [0, "1"])[1])
    if cpu > limit * cores + 3:
        res.violation("schedule-overruns", "%.1f s used with limit %d on %d processors" % (cpu, limit, cores), rp)
    st = statuses(out)
    for x in st:
        res.n["schedule_" + x] += 1
    if chain and not killed:
        n = len(re.findall(r"^fof\(.*file\(", out, re.M))
        if st != ["Theorem"]:
            res.violation("schedule-result-lost", "status %s for a chain of %d implications" % (st, chain), rp)
        elif (n < chain + 2 or out.count("SZS output start") != 1 or out.count("SZS output end") != 1):
            res.violation("schedule-text", "the proof printed is not complete: %d of %d formulas" % (n, chain + 2), rp)
        else:
            res.n["long_proofs"] += 1
    if hard and st and st[0] in ("Unsatisfiable",):
        return res
    if killed == 0:
        for key, msg in status_faults(out, 10 if st == ["GaveUp"] and rc in (9, 10) else rc, None if hard else bool(conj), None if hard else p.truth):
            res.violation("schedule-" + key, "%s, command %s" % (msg, " ".join(cmd[1:-1])), rp)
    else:
        # a killed worker may cost the result, but never falsify it
        if len(st) > 1:
            res.violation("schedule-status-count", "statuses %s" % st, rp)
        for s in st:
            if not hard and (p.truth == "unsat" and s in ("Satisfiable", "CounterSatisfiable") or
                             p.truth == "sat" and s in ("Theorem", "Unsatisfiable", "ContradictoryAxioms")):
                res.violation("schedule-wrong", "status %s for a problem that is %s after %d killed workers" % (s, p.truth, killed), rp)
        if not st and rc in (0, 1):
            res.violation("schedule-silent-success", "exit code %d without a status" % rc, rp)
    if "--proof-object=1" in cmd and st and RC.get(st[0]) == (0,) and rc == 0:
        if out.count("SZS output start") != 1 or out.count("SZS output end") != 1:
            res.violation("schedule-proof", "proof found, but not exactly one proof object", rp)
    res.key("schedule", rp["problem"], tuple(cmd[1:-1]), killed)
    return res


def run(ctx):
    global _tmp, _names
    _tmp = ctx.tmp
    _bin["fo"] = ebuild.build("rel", False)["eprover"]
    _names = strat.builtin(_bin["fo"])
    ctx.map(clocked, ["k%d-%d" % (ctx.seed, i) for i in range(ctx.scale(64, 400))], label="limits")
    ctx.map(scheduled, ["s%d-%d" % (ctx.seed, i) for i in range(ctx.scale(220, 2500))], label="schedules")
    ctx.map(case, ["%d-%d" % (ctx.seed, i) for i in range(ctx.scale(4500, 80000))], label="limited runs")
