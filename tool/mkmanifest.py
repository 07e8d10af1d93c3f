#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "P01": ("resolved-AST argument-position and precision tables for every BLAS/LAPACK binding, plus normal-form comparison of every caller",
            "Decides which routine, which precision and which operand sits in which position; not the numerical result."),
    "P02": ("must-check dataflow over LAPACK status and workspace values in function normal forms",
            "Decides that every status reaches a throw guard and that queried, allocated and declared workspace agree; not that LAPACK itself reports failures."),
    "P03": ("typestate (create/join, lock/unlock, init/destroy) over resolved pthread calls, plus normal-form comparison of the thread drivers",
            "Decides pairing, counts and record lifetime in the shape of the code; not absence of all data races in user callbacks."),
    "P04": ("normal-form (gated value numbering) comparison of every task-distribution function, all back ends",
            "Decides that each back end computes the confirmed partition formula; sequences of work stealing are not modelled."),
    "P05": ("effect analysis of assertion operands, and equivalence of the program analysed with and without NDEBUG",
            "Whole-program over the analysed instantiations; assertion-only differences are allowed."),
    "P06": ("discarded-exception, swallowing-handler and process-exit rules over the resolved program; normal-form comparison of throw conditions",
            "Decides that errors detected are thrown under the confirmed conditions; failing system calls listed as known findings stay listed."),
    "P07": ("normal-form comparison of every throw and assertion guard in the library",
            "Decides that each check rejects exactly the confirmed set of values, before the effects it protects."),
    "P08": ("normal-form comparison of every reader and writer; writer/reader record-table agreement by class",
            "Decides names, order, type and destination of records, not text formatting of floating-point values."),
    "P09": ("member-coverage rule on copy, swap, clear, compare; normal-form comparison of whole-object operations",
            "Decides that each member takes part; value semantics of element types are assumed."),
    "P10": ("ownership rules (release in destructor, no copy of owners, balanced HDF5 handles per path), plus normal-form comparison of every new/delete/close",
            "Decides pairing on the paths of each function and class; external libraries are trusted."),
    "P11": ("normal-form comparison of every CRS builder and transform",
            "Decides the offsets, counts and columns written, as symbolic sums over loops."),
    "P12": ("normal-form comparison of every kernel's loop ranges, subscripts and contributions; row/column extent rule",
            "Decides index space and contributions symbolically for all sizes; floating-point rounding is not modelled."),
    "P13": ("conjugation terms in normal forms of all complex instantiations; real/complex sibling agreement",
            "Decides which operand is conjugated on each path."),
    "P14": ("symbol, keyword and operation tables extracted from dispatch chains, against the documented table and the confirmed normal forms",
            "Decides the mapping from names to operations; user-supplied primitives are outside."),
    "P15": ("published-constant tables, state-ownership and who-may-call rules for entropy sources; normal-form comparison of generators",
            "Decides seed-only dependence and the recurrence; statistical quality is out of reach."),
    "P16": ("argument-flow and type-table rules over resolved MPI calls in the message-passing build; normal-form comparison",
            "Decides what is passed to MPI; MPI itself is trusted (a stub header declares it)."),
    "P17": ("definite-initialisation of members and locals over the resolved program",
            "Decides every constructor and every path of each function; storage behind external calls is assumed initialised by them."),
    "P18": ("normal-form comparison of every geometry method, and site-exchange symmetry of normal forms",
            "Decides the formulas and their symmetry where the normal form is closed; user-supplied geometry data is outside."),
    "P19": ("type-checking of explicit instantiations of every public template in every configuration; one-definition rule for headers",
            "Decides that the listed instantiations compile in each configuration; linking against absent libraries is not attempted."),
    "P20": ("normal-form comparison of encoder/decoder pairs and table-inverse rules",
            "Decides the encoding formulas and table bijectivity."),
    "P21": ("normal-form comparison of each recurrence (coefficients, starts, offsets, stopping tests)",
            "Decides the formula applied, not convergence."),
    "P22": ("search-result typestate (forward dataflow); normal-form comparison of every parser function and default value",
            "Decides the grammar the code accepts as a state machine of effects; the Boost.Spirit grammar definition is compared as an expression."),
    "P23": ("normal-form comparison of service functions, global state and its initial values; set/restore pairing rules",
            "Decides the quantity reported and the state restored in the shape of the code."),
    "P24": ("normal-form comparison of enumeration and ordering helpers",
            "Decides bounds, order and comparisons symbolically."),
}
NA = {
    "N01": "quantifies over floating-point convergence of iterative eigensolvers; no structural clause beyond P21 and P02 decides it",
    "N02": "depends on run-time decimal conversion of each value; the structural part (record names, order, element types) is decided under P08",
    "N03": "a statistical property of the generated values; only determinism and the recurrence (P15) are visible in the source",
    "N04": "numerical identity up to rounding; argument passing and status handling (P01, P02) are the structural parts",
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if i in T:
        checks.append({"property": i, "quick_cmd": "./check %s --tier quick" % i, "thorough_cmd": "./check %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": "static analysis: " + T[i][0], "level": "other", "level_note": T[i][1]})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks were added to /repo. Fixes are listed in known_findings.json and DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
