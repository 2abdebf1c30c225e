"""writes MANIFEST.json"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from matflow.checks import RULE
FLOW = "abstract interpretation of the LLVM IR (constant propagation, pointer/extent domain, algebraic value numbering"
PART = ", trace partitioning on element comparisons)"
T = {}
for p in ("C01", "C02", "C03", "C04", "C05", "C12", "C13", "C23", "C29"): T[p] = FLOW + ")"
for p in ("C06", "C07", "C08", "C09", "C10", "C11", "C14", "C15", "C16", "C27"): T[p] = FLOW + PART
T["C17"] = "effect analysis over the abstractly interpreted IR (stores to operands, mutable globals, environment calls)"
T["C18"] = "effect analysis over the abstractly interpreted IR (allocation calls per path) with a call-graph rule"
T["C19"] = "bounds and initialisation analysis (pointer/extent domain over the IR, per path)"
T["C22"] = "termination analysis over the abstractly interpreted IR (progress of abstract states per path)"
T["C24"] = "type-flow analysis: narrowing conversions on values that depend on element data"
T["C20"] = "compile-fail witnesses and static_asserts over result types"
T["C21"] = "compile and symbol-table witnesses over compilers and standards, include-closure query"
T["C25"] = "static_asserts on layout plus value-flow analysis of subscripting and copying"
T["C28"] = "include-closure query and effect analysis over the abstractly interpreted IR of print in both macro settings"
NOTE = ("Sound for each analysed instance (operation, element type, shape) over all element values in exact arithmetic wherever the evidence says the scenario was exhausted; bounded in shapes and types "
        "(the headers' own integer literals seed extra ones); where trace partitioning is capped, coverage is partial and counted. Trusts clang's IR and the models of external library functions. Value-number equality is "
        "modulo a 61-bit prime (error probability below 1e-12 per run). No alarm without an input inside the partition that shows the discrepancy.")
N = {p: NOTE for p in T}
N["C20"] = "Exact for the enumerated programs (2396 result types, 163 ill-shaped programs with conforming counterparts); other shape combinations are covered only by similarity."
N["C21"] = "Exact for the enumerated units, two compilers and five standards; a missing standard header is found by a source query because another standard library might not include it transitively."
N["C25"] = "Exact for the enumerated element types and shapes with two compilers; value-flow part as for C01."
N["C28"] = "Include closures exact for the installed compilers and standard library; the effect analysis covers every path of the enumerated instances (element types and shapes)."
m = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.dont_write_bytecode=True; import matflow.engine\" && clang++ --version >/dev/null && opt --version >/dev/null && g++ --version >/dev/null",
     "checks": [{"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s --thorough" % p, "technique": T[p], "level": "other", "level_note": N[p]} for p in sorted(T)],
     "not_applicable": [{"property": "C26", "reason": "Bounds on accumulated rounding error depend on run-time magnitudes and on the condition number of the input; no sound static argument in reach bounds them for pivot-free elimination (the error is unbounded for tiny pivots). The checks decide all algebraic properties in exact arithmetic and C24 that no precision is lost by conversion; that is not an error bound."}],
     "notes": "No hooks in /repo. KNOWN_FINDINGS.txt lists one standing finding (C06, integer determinants from 4x4) and the repaired defects."}
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
