#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl (committed; run by hand when the properties change)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NA = json.load(open(os.path.join(here, "tools/not_applicable.json")))
skip = {x["property"] for x in NA}
lrp = ("symbolic execution of the compiled crate, paths and assertions decided by z3, counterexamples replayed natively",
       "Every path of the compiled code over the stated grammar shapes (symbols symbolic) and token bounds is decided by z3; "
       "nothing is claimed for other shapes or longer inputs. Trusted: z3, the symbolic scalar and the reference theory in /verif/symx "
       "(every 8th path is re-run natively with the model's values and must behave the same).")
tech = {
    "C19": ("symbolic execution of the macro-expanded lexer over symbolic bytes, paths and assertions decided by z3, each path replayed by the compiled lexer",
            "Every text of the stated lengths and contexts is decided; longer texts and non-ASCII identifiers are not. Trusted: z3, the interpreter of the "
            "expanded lexer (its answer is compared with the compiled lexer on one text of every path), the reference reading in /verif/wopx/obs."),
    "C20": ("symbolic execution of the notation's parser over symbolic token kinds and name equalities, decided by z3; one source of each path through the compiled builder",
            "Every sequence of token kinds within the stated bounds is decided against the notation. What the builder makes of a path's kinds is observed on one "
            "source per path, relying on the builder not looking at how names are spelled. Trusted: z3, the symbolic scalar, the reference reading."),
}
tech["C23"] = ("symbolic execution of both parsers of the notation over symbolic token kinds, decided by z3; one source of each path through both compiled parsers",
               "Every sequence of token kinds within the stated bounds is decided; the syntax trees are compared on one source per path. Trusted: z3, the symbolic scalar.")
gen = ("symbolic execution of the generated code over symbolic tokens, and of the notation's parser over symbolic token kinds, decided by z3, counterexamples replayed natively",
       "The generated parsers of the stated programs are decided for every token sequence within their bounds; the productions and aliases of every source within the stated "
       "token bounds are compared with the reference, one source per path of kinds. Trusted: z3, the symbolic scalar, the reference reading and its expansion of alternatives.")
tech["C21"] = tech["C22"] = gen
checks = []
for p in props:
    i = p["id"]
    if i in skip:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i} quick",
        "thorough_cmd": f"./check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": tech.get(i, lrp)[0],
        "level": "model_checking",
        "level_note": tech.get(i, lrp)[1],
    })
m = {"version": 1, "setup_cmd": "./check.sh setup", "checks": checks, "not_applicable": NA,
     "notes": "No hooks: the crate's public API is enough. Repairs in /repo are listed in known-findings.txt."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
