"""Samples command-line configurations of eprover."""

SEL = """NoSelection SelectNegativeLiterals PSelectNegativeLiterals SelectPureVarNegLiterals PSelectPureVarNegLiterals
SelectLargestNegLit PSelectLargestNegLit SelectSmallestNegLit PSelectSmallestNegLit SelectLargestOrientable
PSelectLargestOrientable MSelectLargestOrientable SelectSmallestOrientable PSelectSmallestOrientable
MSelectSmallestOrientable SelectDiffNegLit PSelectDiffNegLit SelectGroundNegLit PSelectGroundNegLit
SelectOptimalLit PSelectOptimalLit SelectMinOptimalLit PSelectMinOptimalLit SelectMinOptimalNoTypePred
PSelectMinOptimalNoTypePred SelectMinOptimalNoXTypePred PSelectMinOptimalNoXTypePred SelectMinOptimalNoRXTypePred
PSelectMinOptimalNoRXTypePred SelectCondOptimalLit PSelectCondOptimalLit SelectAllCondOptimalLit
PSelectAllCondOptimalLit SelectOptimalRestrDepth2 PSelectOptimalRestrDepth2 SelectOptimalRestrPDepth2
PSelectOptimalRestrPDepth2 SelectOptimalRestrNDepth2 PSelectOptimalRestrNDepth2 SelectNonRROptimalLit
PSelectNonRROptimalLit SelectNonStrongRROptimalLit PSelectNonStrongRROptimalLit SelectAntiRROptimalLit
PSelectAntiRROptimalLit SelectNonAntiRROptimalLit PSelectNonAntiRROptimalLit SelectStrongRRNonRROptimalLit
PSelectStrongRRNonRROptimalLit SelectUnlessUniqMax PSelectUnlessUniqMax SelectUnlessPosMax PSelectUnlessPosMax
SelectUnlessUniqPosMax PSelectUnlessUniqPosMax SelectUnlessUniqMaxPos PSelectUnlessUniqMaxPos SelectComplex
PSelectComplex SelectComplexExceptRRHorn PSelectComplexExceptRRHorn SelectLComplex PSelectLComplex
SelectMaxLComplex PSelectMaxLComplex SelectMaxLComplexNoTypePred PSelectMaxLComplexNoTypePred
SelectMaxLComplexNoXTypePred PSelectMaxLComplexNoXTypePred SelectComplexPreferNEQ PSelectComplexPreferNEQ
SelectComplexPreferEQ PSelectComplexPreferEQ SelectComplexExceptUniqMaxHorn PSelectComplexExceptUniqMaxHorn
MSelectComplexExceptUniqMaxHorn SelectNewComplex PSelectNewComplex SelectNewComplexExceptUniqMaxHorn
PSelectNewComplexExceptUniqMaxHorn SelectMinInfpos PSelectMinInfpos HSelectMinInfpos GSelectMinInfpos
SelectMinInfposNoTypePred PSelectMinInfposNoTypePred SelectMin2Infpos PSelectMin2Infpos
SelectComplexExceptUniqMaxPosHorn PSelectComplexExceptUniqMaxPosHorn SelectUnlessUniqMaxSmallestOrientable
PSelectUnlessUniqMaxSmallestOrientable SelectDivLits SelectDivPreferIntoLits SelectMaxLComplexG
SelectMaxLComplexAvoidPosPred SelectMaxLComplexAPPNTNp SelectMaxLComplexAPPNoType SelectMaxLComplexAvoidPosUPred
SelectComplexG SelectComplexAHP PSelectComplexAHP SelectNewComplexAHP PSelectNewComplexAHP
SelectComplexAHPExceptRRHorn PSelectComplexAHPExceptRRHorn SelectNewComplexAHPExceptRRHorn
PSelectNewComplexAHPExceptRRHorn SelectNewComplexAHPExceptUniqMaxHorn PSelectNewComplexAHPExceptUniqMaxHorn
SelectNewComplexAHPNS SelectVGNonCR SelectCQArEqLast SelectCQArEqFirst SelectCQIArEqLast SelectCQIArEqFirst
SelectCQAr SelectCQIAr SelectCQArNpEqFirst SelectCQIArNpEqFirst SelectGrCQArEqFirst SelectCQGrArEqFirst
SelectCQArNTEqFirst SelectCQIArNTEqFirst SelectCQArNTNpEqFirst SelectCQIArNTNpEqFirst SelectCQArNXTEqFirst
SelectCQIArNXTEqFirst SelectCQArNTNp SelectCQIArNTNp SelectCQArNT SelectCQIArNT SelectCQArNp SelectCQIArNp
SelectCQArNpEqFirstUnlessPDom SelectCQArNTEqFirstUnlessPDom SelectCQPrecW SelectCQIPrecW SelectCQPrecWNTNp
SelectCQIPrecWNTNp SelectMaxLComplexAvoidAppVar SelectMaxLComplexStronglyAvoidAppVar SelectMaxLComplexPreferAppVar""".split()
ORD = ["LPO", "LPO4", "KBO", "KBO6"]
WGT = """firstmaximal0 arity aritymax0 modarity modaritymax0 aritysquared aritysquaredmax0 invarity invaritymax0
invaritysquared invaritysquaredmax0 precedence invprecedence precrank5 precrank10 precrank20 freqcount invfreqcount
freqrank invfreqrank invconjfreqrank freqranksquare invfreqranksquare invmodfreqrank invmodfreqrankmax0
constant""".split()
PREC = """unary_first unary_freq arity invarity const_max const_min freq invfreq invconjfreq invfreqconjmax
invfreqconjmin invfreqconstmin invfreqhack arrayopt""".split()
FP = "FP0 FPfp FP1 FP2 FP3D FP3W FP4D FP4W FP4M FP5M FP6M FP7 FP7M FP4X2_2 FP3DFlex NPDT NoIndex".split()
GND = """PseudoVar FirstConst ConjMinMinFreq ConjMaxMinFreq ConjMinMaxFreq ConjMaxMaxFreq GlobalMax
GlobalMin""".split()
PRIO = """ConstPrio PreferGoals PreferNonGoals PreferGround PreferNonGround PreferUnits PreferNonUnits PreferHorn
PreferNonHorn SimulateSOS PreferProcessed PreferUnitGroundGoals DeferSOS ByLiteralNumber
PreferDemods PreferNew PreferMixed PreferPositive PreferNegative ByDerivationDepth ByDerivationSize ByNegLitDist
ByGoalDifficulty ByCreationDate ByPosLitNo ByHornDist PreferUnitAndNonEq DeferNonUnitMaxEq PreferNonEqUnits""".split()
WF = ["Clauseweight(%s,1,1,1)", "Clauseweight(%s,2,1,2)", "Refinedweight(%s,2,1,1.5,1.1,1)", "FIFOWeight(%s)",
      "Uniqweight(%s)", "Defaultweight(%s)", "DAGweight(%s,1,2,1.5,2,true,false,false,true,false,false,true)", "LIFOWeight(%s)",
      "Orientweight(%s,2,1,1.5,1.1,1)",
      "ConjectureRelativeSymbolWeight(%s,0.1,100,100,100,100,1.5,1.5,1.5)", "PNRefinedweight(%s,4,3,7,2,0.5,2,1)",
      "Depthweight(%s,2,1,1.5,1.1,1,2)", "RandomWeight(%s,10,1,1)"]


def heuristic(r, fair=True):
    parts = []
    for _ in range(r.randint(1, 3)):
        parts.append("%d*%s" % (r.randint(1, 8), r.choice(WF) % r.choice(PRIO)))
    if fair:
        parts.append("1*FIFOWeight(ConstPrio)")
    return "(" + ",".join(parts) + ")"


def simplifying(r):
    o = []

    def maybe(p, *xs):
        if r.random() < p:
            o.append(r.choice(xs))
    maybe(.2, "--forward-context-sr")
    maybe(.12, "--forward-context-sr-aggressive")
    maybe(.25, "--backward-context-sr")
    maybe(.2, "--condense", "--condense-aggressive")
    maybe(.25, "--destructive-er")
    maybe(.15, "--strong-destructive-er")
    maybe(.15, "--destructive-er-aggressive")
    maybe(.2, "--simul-paramod", "--oriented-simul-paramod", "--supersimul-paramod", "--oriented-supersimul-paramod")
    maybe(.3, "-F0", "-F1", "-F2")
    maybe(.15, "--prefer-general-demodulators")
    maybe(.15, "--strong-rw-inst")
    maybe(.15, "-u", "--strong-forward-subsumption")
    maybe(.15, "--fw-subsumption-aggressive")
    maybe(.1, "--conventional-subsumption")
    maybe(.1, "--disable-given-clause-fw-contraction")
    maybe(.15, "--presat-simplify")
    maybe(.12, "--ac-handling=None", "--ac-handling=DiscardAll", "--ac-handling=KeepUnits",
          "--ac-handling=KeepOrientable", "--ac-non-aggressive")
    if r.random() < .15:
        o.append("--split-clauses=%d" % r.choice([1, 2, 4, 7, 31, 63]))
        maybe(.5, "--split-method=0", "--split-method=1", "--split-method=2")
        maybe(.3, "--split-aggressive")
        maybe(.3, "--split-reuse-defs")
    maybe(.15, "--detsort-rw", "--detsort-new")
    maybe(.1, "--disequality-decomposition", "--disequality-decomposition=2")
    return o


def indexing(r):
    o = []

    def maybe(p, *xs):
        if r.random() < p:
            o.append(r.choice(xs))
    maybe(.2, *["--fp-index=" + x for x in FP])
    maybe(.15, *["--rw-bw-index=" + x for x in FP])
    maybe(.15, *["--pm-from-index=" + x for x in FP])
    maybe(.15, *["--pm-into-index=" + x for x in FP])
    maybe(.2, "--subsumption-indexing=None", "--subsumption-indexing=Direct", "--subsumption-indexing=Perm",
          "--subsumption-indexing=PermOpt")
    maybe(.2, *["--fvindex-featuretypes=" + x for x in
                ("None", "AC", "SS", "All", "Bill", "BillPlus", "ACFold", "ACStagger")])
    maybe(.1, "--fvindex-maxfeatures=%d" % r.choice([2, 10, 50]))
    maybe(.1, "--fvindex-slack=%d" % r.choice([0, 1, 5]))
    maybe(.1, "--fp-no-size-constr")
    maybe(.1, "--pdt-no-size-constr")
    maybe(.1, "--pdt-no-age-constr")
    return o


def ordering(r):
    o = ["-t" + r.choice(ORD)]
    if r.random() < .6:
        o.append("-w" + r.choice(WGT))
    if r.random() < .6:
        o.append("-G" + r.choice(PREC))
    if r.random() < .2:
        o.append("-c%d" % r.choice([1, 2, 5]))
    if r.random() < .15:
        o.append("--literal-comparison=" + r.choice(["Normal", "TFOEqMin", "TFOEqMax", "None"]))
    return o


def preproc(r, goal=True):
    o = []

    def maybe(p, *xs):
        if r.random() < p:
            o.append(r.choice(xs))
    maybe(.12, "--no-preprocessing")
    maybe(.12, "--no-eq-unfolding", "--eq-unfold-limit=1000", "--eq-unfold-maxclauses=1000")
    maybe(.2, "--definitional-cnf=%d" % r.choice([0, 2, 3, 4, 10, 24]))
    maybe(.15, "--miniscope-limit=%d" % r.choice([0, 1, 10, 1000, 2147483648]))
    if goal:
        maybe(.1, "--goal-defs", "--goal-defs=Neg", "--goal-subterm-defs")
    if r.random() < .2:
        o.append("--bce=true")
        maybe(.5, "--bce-max-occs=%d" % r.choice([1, 4, 64]))
    if r.random() < .2:
        o.append("--pred-elim=true")
        maybe(.5, "--pred-elim-max-occs=%d" % r.choice([1, 4, 64]))
        maybe(.4, "--pred-elim-tolerance=%d" % r.choice([0, 5, 100]))
        maybe(.4, "--pred-elim-recognize-gates=true", "--pred-elim-recognize-gates=false")
        maybe(.4, "--pred-elim-force-mu-decrease=true", "--pred-elim-force-mu-decrease=false")
        maybe(.4, "--pred-elim-ignore-conj-syms=true", "--pred-elim-ignore-conj-syms=false")
    if r.random() < .15:
        o.append("--satcheck=" + r.choice(GND))
        o.append("--satcheck-proc-interval=%d" % r.choice([1, 5, 20]))
        maybe(.3, "--satcheck-normalize-const")
        maybe(.3, "--satcheck-normalize-unproc")
    return o


_names = None


def builtin(e):
    """Names of the strategies compiled into the prover."""
    global _names
    if _names is None:
        import subprocess
        import tempfile
        import os
        fd, p = tempfile.mkstemp(suffix=".p")
        os.write(fd, b"cnf(a,axiom,p).\n")
        os.close(fd)
        out = subprocess.run([e, "--print-strategy=>all-names<", p], stdout=subprocess.PIPE).stdout.decode()
        os.unlink(p)
        _names = [x.strip() for x in out.splitlines() if x[:1].isalpha() or x[:1] == "_"]
    return _names


def sample(r, names=None):
    """A random complete-ish configuration (list of options)."""
    x = r.random()
    if x < .12:
        o = ["--auto"]
    elif x < .34 and names:
        o = ["--select-strategy=" + r.choice(names)]
    else:
        o = ["-W" + r.choice(SEL)] if r.random() < .85 else []
        if r.random() < .85:
            o += ordering(r)
        if r.random() < .5:
            o.append("-H" + heuristic(r))
        o += simplifying(r)
        o += indexing(r)
    if r.random() < .6:
        o += preproc(r)
    if r.random() < .08:
        o.append("--filter-orphans-limit=%d" % r.choice([5, 50]))
    if r.random() < .08:
        o.append("--forward-contract-limit=%d" % r.choice([5, 50]))
    if r.random() < .05:
        o.append("--prefer-initial-clauses")
    if r.random() < .05:
        o.append("--select-on-processing-only")
    if r.random() < .06:
        o += r.sample(["-i", "-j", "--inherit-conjecture-pm-literals"], 1)
    if r.random() < .04:
        o.append("--disable-eq-factoring")
    if r.random() < .04:
        o.append("--disable-paramod-into-neg-units")
    if r.random() < .04:
        o.append("--sos-uses-input-types")
    if r.random() < .03:
        o.append("--delete-bad-limit=%d" % r.choice([2000, 100000, 1000000]))
    return o
