#!/usr/bin/env python3-vt
"""Writes properties.jsonl and MANIFEST.json from the table below (run after adding a property)."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, level="exploration", **anch):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  technique=technique, note=note, level=level, anch=anch))


TESTS = "The suite runs --auto on a few dozen example files and compares one status word; "

prop("P01", "No refutation of a satisfiable problem; every derived formula is sound",
     "If a problem has a model, the prover never reports that it is unsatisfiable or that its conjecture is a theorem, under any "
     "strategy. Every clause or formula it derives on the way is true in each model of the problem, once the symbols introduced "
     "by the prover itself are interpreted suitably.",
     ["inputs", "configurations"], "all problems with a model, all strategies, all derivation steps taken",
     TESTS + "an unsound inference or simplification only shows when a wrong clause happens to finish a proof.",
     ["CONTROL/cco_proofproc.c", "CONTROL/cco_paramodulation.c", "CLAUSES/ccl_paramod.c", "CLAUSES/ccl_rewrite.c",
      "CLAUSES/ccl_subsumption.c", "CLAUSES/ccl_splitting.c", "CLAUSES/ccl_context_sr.c", "CLAUSES/ccl_satinterface.c",
      "CONTROL/cco_eqnresolving.c", "CONTROL/cco_factoring.c", "PROVER/eprover.c"],
     "generating inferences, simplifications and preprocessing each add formulas to the proof state",
     "online trace monitor: planted-model evaluation of every derived formula",
     "runtime observation of complete derivation traces against a planted model; trusts the finite-model evaluator",
     observe_at=["inference trace on standard output"])

prop("P02", "No claim of satisfiability for an unsatisfiable problem",
     "If a problem has no model (or its conjecture follows from the axioms), the prover never reports that it is satisfiable or "
     "countersatisfiable, under any strategy. When a chosen option makes the search incomplete, running out of clauses is reported "
     "as giving up.",
     ["inputs", "configurations"], "all unsatisfiable problems, all strategies including restricted ones",
     TESTS + "a lost inference or clause shows only for the ordering, selection and option combination that needs it.",
     ["PROVER/eprover.c", "CONTROL/cco_proofproc.c", "HEURISTICS/che_litselection.c", "HEURISTICS/che_to_weightgen.c",
      "ORDERINGS/cto_kbolin.c", "ORDERINGS/cto_lpo.c", "CLAUSES/ccl_paramod.c", "CLAUSES/ccl_pred_elim.c", "CLAUSES/ccl_bce.c",
      "CLAUSES/ccl_sine.c"],
     "saturation with redundancy elimination, literal selection, term orderings, and the final status decision",
     "verdict monitor over problems of known status x sampled strategies",
     "observed verdicts of generated problems whose truth is known by construction or by an independent decision procedure")

prop("P03", "Printed proofs are well-formed derivations whose every step is justified",
     "When the prover prints a proof, it is a well-founded derivation that ends in the empty clause and whose leaves are formulas of "
     "the input, cited by their names, or definitions of new symbols. Every step follows from the parents it cites (or, "
     "where marked as such, negates the conjecture or preserves satisfiability).",
     ["inputs", "configurations"], "all provable problems, strategies and proof detail levels",
     TESTS + "no test reads a proof.",
     ["CLAUSES/ccl_derivation.c", "CLAUSES/ccl_inferencedoc.c", "CONTROL/cco_paramodulation.c", "CLAUSES/ccl_formulafunc.c",
      "CLAUSES/ccl_rewrite.c", "CLAUSES/ccl_def_handling.c"],
     "each clause and formula records its derivation; the proof is the ancestor graph of the empty clause",
     "offline proof checker with finite countermodel search per step",
     "independent checker over recorded proof objects; a wrong step is seen if it has a countermodel with at most 3 elements")

prop("P04", "Clausification preserves the models of the input",
     "In every structure, the input formulas (with the conjecture negated) are true exactly if the clauses produced from them can be "
     "made true by interpreting only the newly introduced symbols. This holds for every setting of definitional renaming, "
     "miniscoping and formula preprocessing.",
     ["inputs", "configurations"], "all first-order formulas and CNF settings",
     TESTS + "a wrong polarity, scope or renaming shows only for particular connective nestings.",
     ["CLAUSES/ccl_tcnf.c", "CLAUSES/ccl_tformulae.c", "CLAUSES/ccl_formulafunc.c", "CLAUSES/ccl_fcvindexing.c"],
     "simplification, definitions, negation normal form, miniscoping, Skolemization, distribution",
     "differential evaluation of input and clauses in sampled structures (SAT over new symbols)",
     "exact per-structure equivalence on sampled structures with at most 3 elements")

prop("P05", "Simplification and deletion never lose information",
     "At any point at which a search is stopped, the clauses the prover still holds (processed and unprocessed) imply every input "
     "clause. Subsumption, rewriting, contextual cutting, condensation, tautology and orphan deletion and interreduction only ever remove "
     "what follows from the rest.",
     ["inputs", "configurations", "histories"], "all clause sets, simplification options and interruption points",
     TESTS + "a wrongly deleted clause rarely changes the verdict of an easy theorem.",
     ["CLAUSES/ccl_subsumption.c", "CLAUSES/ccl_rewrite.c", "CLAUSES/ccl_context_sr.c", "CLAUSES/ccl_condensation.c",
      "CLAUSES/ccl_tautologies.c", "CLAUSES/ccl_splitting.c", "CONTROL/cco_forward_contraction.c", "CONTROL/cco_proofproc.c",
      "CLAUSES/ccl_fcvindexing.c"],
     "forward and backward contraction of the given clause and of the processed and unprocessed sets",
     "state-conservation monitor on the final clause sets, decided by countermodel search",
     "observed final states; a lost clause is seen if the rest has a model with at most 3 elements without it")

exec(open(os.path.join(V, "tools", "more_props.py")).read()) if os.path.exists(os.path.join(V, "tools", "more_props.py")) else None

CMD = "./check.py %s %s"
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=[dict(name=p["mechanism"], where=p["files"][0])], **p["anch"]))) + "\n")
NA = globals().get("NOT_APPLICABLE", [])
m = dict(version=1, setup_cmd="./setup.sh",
         hooks=dict(guard="VERIF_MONITOR", enable="-DVERIF_MONITOR (lib/ebuild.py, variant mon); no hook is compiled into /repo so "
                    "far: the monitors observe output, wrap library calls at link time, or link against the repository's libraries",
                    source_commits=[]),
         checks=[dict(property=p["id"], quick_cmd=CMD % (p["id"], "quick"), thorough_cmd=CMD % (p["id"], "thorough"),
                      technique=p["technique"], level=p["level"], level_note=p["note"]) for p in P],
         not_applicable=NA, notes="See DESIGN.md. Known findings and repaired defects: known-findings.jsonl.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    assert all(os.path.exists(os.path.join("/repo", x)) for x in p["files"]), (p["id"], [x for x in p["files"] if not os.path.exists("/repo/" + x)])
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    sc = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(V, "properties.jsonl")):
        jsonschema.validate(json.loads(l), sc)
except FileNotFoundError:
    pass
print(len(P), "properties")
