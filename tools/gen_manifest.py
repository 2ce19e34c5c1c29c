#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "static semantic analysis of type-checked MIR: path-condition and value-origin summaries compared with the reviewed behaviour"
CHECKS = {p: T for p in "P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P15 P16 P17 P18 P19 P20 P23 P24 P25 P26 P27".split()}
CHECKS["P09"] = ("static order-observation analysis: every iteration over a randomly seeded hash collection is classified from the types in the "
                 "MIR by what consumes it; clocks, randomness, environment and addresses are banned calls")
PY = ("static semantic analysis of the Python syntax trees: symbolic path summaries (conditions, results, effects) of every function, compared with "
      "the reviewed behaviour after normalisation and inlining of helpers; class fields, constants and module code compared likewise")
for p in "P22 P31 P32 P33".split():
    CHECKS[p] = PY
CHECKS["P21"] = ("static comparison of the JSON grammar derived from the MIR of the Rust Serialize implementations with the pydantic classes of the Python "
                 "syntax tree (tags, union membership, field names, kinds, optionality); plus symbolic path summaries of the Python conversions against the reviewed ones")
CHECKS["P23"] = T + "; published JSON definitions compared with the operation names in the code, with the Python copy and with the reviewed definitions"
PYNOTE = ("Python is summarised path by path without types: values of attributes and calls are terms, loops are compared as collection expressions or by "
          "their bodies, inlining is bounded (three tiers), and a function whose two summaries cannot be computed within the path limit is not decided "
          "(none today). Numbers computed at run time are terms, not values.")
NOTES = {"P21": PYNOTE + " Hand-written Serialize implementations are only compared where they delegate to a derived one.",
         "P22": PYNOTE, "P31": PYNOTE, "P32": PYNOTE, "P33": PYNOTE,
         "P09": "Consumers are classified by operation and by the type collected into; loops over unordered collections are reviewed by hand and "
                "counted per file and element type. Whether a reviewed loop body stays order-insensitive is covered by the contracts of the property it belongs to."}
NOTE = ("Conformance of every covered function's summary (results, errors, effects and their conditions) to the reviewed behaviour, "
        "modulo private helpers, control-flow shape and iteration style; plus rules over the same facts. Quantities computed in loops, order of effects and "
        "arithmetic on runtime values are abstracted.")
NA = {
    "P28": "Absence of panics in decoders depends on runtime data (indices, counts and nesting read from the input, depth of recursion) that the "
           "current code guards by construction of earlier data; a static bound would need relational invariants over file contents. Dozens of asserts and "
           "index operations are reachable and cannot be discharged or refuted by an abstraction in reach.",
    "P29": "Semantic preservation of whole passes quantifies over program executions; there is no formal semantics of HUGR in the repository and no static "
           "argument in reach relates the input and output graphs. The structural obligations of passes are claimed under P15, P16 and P25.",
    "P30": "Equality of folded numbers with the mathematical result is arithmetic over runtime operands; deciding it needs execution or a solver, which is "
           "another family. Which operation, signedness, operand order and checks are used is claimed under P17.",
}
def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "python3 checks/setup.py", "checks": [], "not_applicable": []}
    for p in ids:
        if p in CHECKS:
            m["checks"].append({"property": p, "quick_cmd": f"python3 checks/check.py {p}",
                                "thorough_cmd": f"python3 checks/check.py {p}",
                                "technique": CHECKS[p], "level": "other", "level_note": NOTES.get(p, NOTE)})
        else:
            m["not_applicable"].append({"property": p, "reason": NA.get(p, "No check has been built yet.")})
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(m["checks"]), [x["property"] for x in m["not_applicable"]])
main()
