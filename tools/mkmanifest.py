#!/usr/bin/env python3
"""Source of MANIFEST.json (run to regenerate it)."""
import json, sys
TECH = {
 "tree": "grammar-based program generation with an expected tree and variable table per program, random layout, shrinking",
}
T = {}
def t(ids, tech, note):
    for i in ids.split():
        T[i] = (tech, note)
NOTE = "random search, 500k programs quick and 15M thorough, sizes up to about 150 tree nodes; constructs the parser does not support (DESIGN.md) are not generated"
t("C04", TECH["tree"] + "; flat operator chains against an operator-precedence reference parser", NOTE)
t("C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C24 C25", TECH["tree"], NOTE)
t("C28", TECH["tree"] + "; large and deeply nested programs", "random search, 600k programs quick and 20M thorough; lists to 3000 elements, nesting to 150")
t("C01", "fuzzing with random bytes, token soup, mutated programs and grammar-based programs under a work limit; no crash, no hang", "random search, 1.2M texts quick and 30M thorough, up to some thousand characters")
t("C02", "metamorphic: the same source parsed twice, in other orders, in other threads and after other parses must give equal results", "random search over texts and histories of parses; threads are real, schedules are not controlled")
t("C03", "generated sources, paths and failing texts; the source information of result and error compared with what was given", "random search")
t("C17", "stateful: histories of eval and binding parses against a model of the variable tables", "random search over histories")
t("C18", "metamorphic: two layouts of the same generated program must give equal trees", "random search; layout changes are those of src/layout.rs")
t("C19", "generated programs with an expected text range per node; locations of the tree checked against it and against the source", "random search")
t("C20", "excerpts of generated texts and ranges against a reference implementation", "random search; ranges beginning at a newline are checked only for not panicking")
t("C21", "generated programs cut inside an open construct, and wrong or complete programs, against the kind of the error", "random search over programs and cut positions")
t("C22", "fault planting in generated programs (missing, surplus, swapped closers, missing operators and operands), pairs of invalid and valid templates in random contexts, and reference models of parameter lists, method context, forwarding and numbered parameters", "random search; the invalid forms the parser knowingly accepts (DESIGN.md) are not planted")
t("C23", "metamorphic: a concatenation of generated programs against its parts", "random search")
t("C26", "model-based: operation sequences on the variable table against an insertion-ordered set", "random search over operation sequences")
t("C27", "differential: the command-line program against the library on generated sources, files and options", "random search, 40k runs quick, 1M thorough")
try:
    from extra import EXTRA
    for k, v in EXTRA.items(): T[k] = v
except ImportError:
    pass
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks = []
for i in props:
    if i in T:
        checks.append({"property": i, "quick_cmd": "./run.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + i,
                       "technique": T[i][0], "level": "exploration", "level_note": T[i][1]})
na = [{"property": i, "reason": "the check is not built yet"} for i in props if i not in T]
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "--cfg verif_hooks", "enable": "RUSTFLAGS=\"--cfg verif_hooks\" cargo build (run.sh does it)", "source_commits": ["0f851bc0c5bfd913183fb48d614f31012364e9e8"]},
     "checks": checks, "not_applicable": na}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
