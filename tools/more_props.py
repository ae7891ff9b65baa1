prop("P06", "Term orderings are the selected ones, admissible, and used for maximality",
     "Under every ordering option the weights and precedence in force are admissible for the ordering, and comparing two terms "
     "answers exactly as the definition of that Knuth-Bendix or lexicographic path ordering says (an answer of 'uncomparable' is right "
     "only if the terms are). Consequently the ordering is a strict simplification ordering, stable under substitution, and the "
     "literals and equation sides marked maximal or oriented are the maximal ones.",
     ["inputs", "configurations"], "all signatures, ordering options and pairs of terms and literals",
     TESTS + "a wrong comparison for one shape of terms only makes the search slightly different.",
     ["ORDERINGS/cto_kbolin.c", "ORDERINGS/cto_kbo.c", "ORDERINGS/cto_lpo.c", "ORDERINGS/cto_ocb.c", "ORDERINGS/cto_orderings.c",
      "HEURISTICS/che_to_weightgen.c", "HEURISTICS/che_to_precgen.c", "CLAUSES/ccl_eqn.c", "CLAUSES/ccl_clauses.c"],
     "order control block with weights and precedence; comparison with linear variable counting; maximal literal marking",
     "differential monitor: recorded comparisons of the linked library against a reference ordering",
     "recorded answers of the real code against an independent definition on generated terms; first-order untyped terms")

prop("P07", "Unification and matching give most general results and clean up after failure",
     "Two terms unify exactly if a unifier exists, and the substitution computed is a most general one; one term matches another "
     "exactly if it has an instance equal to it, and the instance computed is that one. A failed attempt leaves no variable bound, and "
     "undoing a substitution restores the state before. Pre-filters never reject a pair that does unify or match.",
     ["inputs", "histories"], "all pairs of terms, with any bindings already in force",
     TESTS + "occurs checks, repeated variables and left-over bindings matter only for particular term shapes.",
     ["TERMS/cte_match_mgu_1-1.c", "TERMS/cte_subst.c", "TERMS/cte_idx_fp.c", "TERMS/cte_termfunc.c"],
     "constraint-queue unification and matching on shared terms with destructive variable bindings",
     "differential monitor of library calls against Robinson unification",
     "recorded answers of the real code against an independent definition on generated term pairs")

prop("P08", "Indexed retrieval finds exactly what an exhaustive scan would",
     "After any history of inserting and deleting clauses and terms, querying an index (for generalisations, unifiable subterms, "
     "subsuming or subsumed clauses, clauses with a rewritable indexed term) returns every entry present that satisfies the retrieval "
     "condition and none that was deleted or does not satisfy it.",
     ["inputs", "configurations", "histories"], "all index types and configurations, all insertion, deletion and query histories",
     TESTS + "a lost or stale index entry needs a specific history of insertions and deletions to show.",
     ["CLAUSES/ccl_pdtrees.c", "TERMS/cte_fp_index.c", "TERMS/cte_idx_fp.c", "CLAUSES/ccl_fcvindexing.c", "CLAUSES/ccl_freqvectors.c",
      "CLAUSES/ccl_subterm_index.c", "CLAUSES/ccl_unit_simplify.c", "CLAUSES/ccl_subsumption.c"],
     "perfect discrimination trees with size and age constraints, fingerprint indices, feature vector tries",
     "model-based history monitor: every query result against an exhaustive scan of the entries present",
     "recorded histories of the real code against brute force; what the prover itself indexes (top and first-level subterms) counts as "
     "the contents of the backward rewriting index")

prop("P09", "Deduction tests of simplification answer what their definitions say",
     "Clause subsumption, unit subsumption and its use below function symbols, simplify-reflect, contextual literal cutting, "
     "condensation, duplicate and resolved literal removal, and tautology recognition accept only cases their definition allows, for "
     "each clause pair; subsumption, tautology and unit tests accept all of those cases their definition requires. Variables are "
     "standardised apart and no binding remains.",
     ["inputs", "configurations"], "all clauses and clause pairs",
     TESTS + "a wrong yes deletes a needed clause, a wrong no costs time; neither usually changes an easy verdict.",
     ["CLAUSES/ccl_subsumption.c", "CLAUSES/ccl_unit_simplify.c", "CLAUSES/ccl_context_sr.c", "CLAUSES/ccl_condensation.c",
      "CLAUSES/ccl_tautologies.c", "CLAUSES/ccl_groundcc.c" if os.path.exists("/repo/CLAUSES/ccl_groundcc.c") else "CLAUSES/ccl_eqnlist.c"],
     "destructive matching with backtracking over shared terms, with cheap pre-tests by weight, shape and counts",
     "differential monitor of library calls against brute-force definitions",
     "recorded answers of the real code against brute force on generated clause families")

prop("P10", "Rewriting computes equal, irreducible terms whatever was rewritten before",
     "Rewriting a term with a set of oriented and unoriented unit equations gives a term that is equal to it in every model of the "
     "equations, is not larger in the term ordering, and cannot be rewritten further by the equations present. Cached rewrite results "
     "never change this: the result does not depend on which terms were normalised before, or on equations that have since been "
     "added or removed, or on garbage collections in between.",
     ["inputs", "configurations", "histories"], "all equation sets, terms and interleavings of additions, removals and rewriting",
     TESTS + "stale normal-form dates and rewrite links need a specific history to matter.",
     ["CLAUSES/ccl_rewrite.c", "TERMS/cte_termtypes.c", "TERMS/cte_termbanks.c", "CLAUSES/ccl_pdtrees.c", "CLAUSES/ccl_clausesets.c",
      "CLAUSES/ccl_global_indices.c"],
     "shared terms carry rewrite links and normal-form dates per rewrite level; discrimination trees carry age constraints",
     "history monitor: normal forms against a reference rewriter and a planted model",
     "recorded histories of the real code against independent definitions")

prop("P11", "No input or option makes the programs corrupt memory or do undefined things",
     "For every input text (well formed or not, in any supported syntax, first-order or higher-order) and every combination of documented "
     "options, the prover and its helper programs run without reading or writing memory they do not own, without using freed or "
     "uninitialised data, without arithmetic or shifts that C leaves undefined and without crashing, and end with a documented exit "
     "code: bad input is rejected with an error message.",
     ["inputs", "configurations"], "all input files and option combinations within the resource limits given",
     TESTS + "a wild read usually returns something plausible; a parser crash needs a malformed input.",
     ["BASICS/clb_memory.c", "INOUT/cio_scanner.c", "CLAUSES/ccl_tformulae.c", "TERMS/cte_termbanks.c", "TERMS/cte_termfunc.c",
      "CLAUSES/ccl_eqn.c", "PROVER/eprover.c", "PCL2/pcl_protocol.c", "TERMS/cte_typecheck.c"],
     "size-segregated free lists, manual ownership of cells, recursive-descent parsers over a look-ahead scanner",
     "AddressSanitizer and UndefinedBehaviorSanitizer builds under generated, damaged and example workloads",
     "sanitizers watch every execution of a broad workload; the free lists are bypassed so that each cell is a heap object of its own")

prop("P12", "A higher-order refutation is never reported for a satisfiable problem",
     "For every THF problem, under every strategy and higher-order option, the higher-order prover reports Theorem, Unsatisfiable or "
     "ContradictoryAxioms only if the problem has no standard model: beta and eta conversion, lambda lifting, elimination of Boolean "
     "subterms, extensionality, choice, primitive enumeration, argument pruning and higher-order unification never lose or change "
     "the meaning of a formula. Two lambda terms are proved equal if they are equal by beta and eta conversion, and, from no axioms, only then.",
     ["inputs", "configurations"], "all typed higher-order problems, strategies and higher-order options",
     TESTS + "only first-order problems are in the test suite, and a lost binder or argument matters for few formulas.",
     ["TERMS/cte_lambda.c", "TERMS/cte_ho_csu.c", "TERMS/cte_fixpoint_unif.c", "TERMS/cte_pattern_match_mgu.c", "CONTROL/cco_ho_inferences.c",
      "CLAUSES/ccl_formulafunc.c", "CLAUSES/ccl_def_handling.c", "CLAUSES/ccl_tcnf.c"],
     "lambda terms with de Bruijn indices, applied variables, dynamic clausification, pragmatic higher-order unification",
     "end-to-end verdict monitor against planted finite standard models and an independent lambda normaliser",
     "verdicts of the real prover against problems whose standard model is evaluated exactly; finite domains of up to three individuals")

prop("P13", "Every run gives one truthful status, honours its limits and accounts for clauses",
     "Whatever limits are set (time, memory, processed, unprocessed, generated or deleted clauses), a run ends within the time limit "
     "with a small margin, prints at most one final SZS status, exits with the code documented for it, and claims a resource limit only if "
     "that limit was reached; the result never contradicts the truth. With strategy schedules over several processes the result of a "
     "successful worker is passed on once and unchanged, even if other workers are killed, and no process is left behind. The clause counts "
     "printed agree with each other and with the clause sets printed.",
     ["configurations", "schedules", "crash_points"], "all combinations of limits, problems and schedules, any worker killed at any time",
     TESTS + "the tests run without tight limits and look only at the verdict.",
     ["PROVER/eprover.c", "CONTROL/cco_proofproc.c", "CONTROL/cco_scheduling.c", "BASICS/clb_os_wrapper.c", "INOUT/cio_signals.c",
      "CLAUSES/ccl_proofstate.c", "BASICS/clb_error.c"],
     "saturation loop with soft and hard limits, signal handlers, forked workers reporting through pipes, statistics counters",
     "trace monitor: status, exit code, elapsed time, counters and process table of runs under limits and injected kills",
     "conservation laws and truth of known problems checked on every observed run; margins of several seconds for clocks")

prop("P14", "Reading and printing keep names, roles, selections and meaning in every syntax",
     "Every well-formed input in TPTP-3 (FOF, TFF, CNF), TPTP-2 or LOP syntax is read as what its text says, whatever its white "
     "space, comments, parentheses, quoting, escapes, annotations and include directives with selections; printed formulas and clauses "
     "keep names, roles, number and order, and reading the printed text again, in any supported syntax, gives the same formulas. "
     "Numerals denote the same number exactly if their values are equal. A TPTP-3 "
     "text that is not well formed is rejected with an error message, in finite time.",
     ["inputs"], "all well-formed inputs in the supported syntaxes",
     TESTS + "the example files use plain names and one layout.",
     ["INOUT/cio_scanner.c", "CLAUSES/ccl_tformulae.c", "CLAUSES/ccl_formula_wrapper.c", "CLAUSES/ccl_clauses.c", "CLAUSES/ccl_eqn.c",
      "CLAUSES/ccl_formulasets.c", "TERMS/cte_termfunc.c", "TERMS/cte_signature.c",
      "TERMS/cte_functypes.c"],
     "token scanner with include handling, recursive-descent parsers and printers for three syntaxes",
     "round-trip monitor: printed output and rejections against an independent parser and finite-structure evaluation",
     "output of the real programs on generated texts; formulas compared in all small structures")

prop("P15", "Grounding keeps a near-propositional problem equisatisfiable",
     "For every near-propositional problem and every option, eground's output is satisfiable exactly if the input is, in clause and in "
     "DIMACS form (whose header counts are right); without splitting every ground clause follows from the input, and, if no constraints on "
     "instances are used, every instance follows from the output.",
     ["inputs", "configurations"], "all near-propositional problems and reduction, splitting and output options",
     TESTS + "no test runs eground at all.",
     ["CLAUSES/ccl_grounding.c", "CLAUSES/ccl_g_lithash.c", "CLAUSES/ccl_propclauses.c", "CLAUSES/ccl_splitting.c", "PROVER/eground.c"],
     "instance enumeration restricted by literal hashes, unit propagation on the ground set, splitting with fresh predicates",
     "differential monitor: printed ground sets against a SAT solver on all instances",
     "output of the real program judged by an independent SAT solver; up to five constants")

prop("P16", "Axiom selection keeps exactly the formulas its filter defines",
     "For every problem, a SInE filter selects the goals (and hypotheses, if requested) and the axioms reached through the "
     "symbols the D-relation assigns to them within the given depth and size, level by level; relevancy pruning keeps the formulas "
     "connected to the goals within the given number of steps. Selected formulas are unchanged, nothing else appears, e_axfilter and "
     "eprover agree, and after dropping a formula the prover never reports (counter-)satisfiability.",
     ["inputs", "configurations"], "all problems and filter specifications",
     TESTS + "a wrong selection usually only makes a proof longer or impossible.",
     ["CLAUSES/ccl_sine.c", "CLAUSES/ccl_f_generality.c", "CLAUSES/ccl_relevance.c", "CONTROL/cco_sine.c", "HEURISTICS/che_axfilter.c",
      "PROVER/e_axfilter.c"],
     "symbol generality counts, D-relation per formula, breadth-first selection with activation flags; relevance levels by symbol index",
     "differential monitor: printed selections against a reference selection",
     "selections of the real programs against an independent implementation of the definition")
