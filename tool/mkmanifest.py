#!/usr/bin/env python3
"""Source of MANIFEST.json (run it to regenerate the file)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
NA = {
    "C26": "The claim is false for the code as it stands in ways that are not small to repair (non-invertible ciphertexts and commitments raised to negative exponents reach `expect`s deep inside infallible functions), and the contracts of the verification functions (C13-C20) therefore state invertibility as a precondition; see DESIGN.md. A postcondition 'never panics' without it cannot be discharged.",
    "C27": "A statement about whole executions of several parties over the session layer of `manul`, which is absent in this sandbox (only the interface of its rounds is modelled): no contract on a function of this crate expresses it. Its parts that concern single rounds are C29 (key initialization, auxiliary data), C30 (signing) , C31 (refresh); whole honest sessions are run, bounded, by C32; the building blocks of all protocols are C13-C25.",
    "C28": "Timing and residual memory are not expressible as functional contracts over the semantics of the program (the verifier's values carry no notion of time or of freed memory).",
}
# level "proof": every contract and theorem of the property is discharged on every run
PROOF = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C29", "C30", "C31"}
TECH = "contract-based deductive verification: contracts on the crate's functions checked against the MIR of /repo's sources (own VC generator, normal forms + z3); bounded conformance run of the real code as cross-check and source of failing inputs"
TECHR = "contract-based deductive verification: contracts of the protocol rounds and of the verification of evidence, checked against the MIR of /repo's sources over a model of the interface of `manul` (own VC generator, normal forms + z3, Lean)"
ROUNDS = {"C29", "C30", "C31"}
TECH0 = "bounded conformance check of the real code against the property's contract (stand-in; contracts of these functions are not yet within the verifier's reach)"
# the acceptance relation and the transcript are discharged; that honest provers are accepted is still bounded
PART = set()
TECH1 = TECH + " (the completeness half is bounded)"
checks = []
for x in props.P:
    i = x["id"]
    if i in NA:
        continue
    pr = i in PROOF
    checks.append({"property": i, "quick_cmd": f"python3-vt vc/run.py {i} --tier quick", "thorough_cmd": f"python3-vt vc/run.py {i} --tier thorough", "technique": TECHR if i in ROUNDS else TECH if pr else TECH1 if i in PART else TECH0,
                   "level": "proof" if pr else "other",
                   "level_note": ("Obligations of every function under contract are generated from the current MIR and discharged for all inputs; assumed: contracts of the dependencies, the MIR translation, the algebraic model of residues and points (DESIGN.md). Parts listed as undecided in the evidence rest on the bounded run only." if pr else
                                  "verify accepts exactly the stated relation and hashes every listed input: discharged for all inputs from the current MIR. Honest provers being accepted: bounded conformance run." if i in PART else
                                  "Bounded: complete sessions of the real protocols over a small session runner, for random keys, parties and messages; not counted as proved." if i == "C32" else "Bounded: concrete inputs only, compared with values computed from the property in Python; not counted as proved.")})
m = {"version": 1, "setup_cmd": "python3-vt vc/run.py --setup", "hooks": {"guard": "none", "enable": "no hook is needed: the crate under verification is generated from /repo/src on every run (tool/gencrate.py)", "source_commits": []},
     "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]}
json.dump(m, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w"), indent=1)
