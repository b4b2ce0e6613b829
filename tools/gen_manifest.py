#!/usr/bin/env python3
"""Writes MANIFEST.json for every property that run.py has a check for."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import run
TECH = {
    "C01": "model-based property testing: trie search vs. full dynamic-programming distance to every dictionary word",
    "C02": "stateful property testing of the cost table against a plain map",
    "C03": "model-based property testing against a reference search engine",
    "C04": "metamorphic (filtered vs. unfiltered search) and model-based property testing",
    "C05": "metamorphic property testing of two indexing histories",
    "C06": "model-based property testing against the reference engine plus bonuses",
    "C07": "round-trip and differential fuzzing of byte strings against an independent UTF-8 decoder",
    "C08": "stateful property testing of words against plain strings",
    "C09": "differential fuzzing of the splitter against a byte-wise model",
    "C10": "stateful property testing of the word store against a map",
    "C11": "stateful property testing of the dictionary index against plain sets",
    "C12": "stateful property testing of value semantics against plain containers",
    "C13": "stateful property testing of result lists against a stable sort",
    "C14": "stateful differential property testing: C API vs. C++ API in lockstep",
    "C15": "stateful property testing of generated Python programs against a Python model",
    "C16": "random API histories under AddressSanitizer with resource accounting",
    "C17": "generated and shipped data files against an independent parser and ICU decomposition",
    "C18": "fault injection at every storage call of generated histories",
    "C19": "differential property testing of the three build configurations",
    "C20": "metamorphic property testing of searches",
    "C21": "metamorphic property testing of interleaved and concurrent instances (ThreadSanitizer)",
    "C23": "stateful property testing of the trie: full walks against a set of prefixes",
    "C24": "stateful property testing with injected allocation failures: every failing request in turn",
    "C25": "differential property testing of whole programs, driven by generated files and event scripts, against the library used directly",
    "C22": "stateful property testing of configuration objects against plain models",
}
NOTE = ("Searched with generated cases, not exhaustively: a fixed number of cases per run, a pure function of VERIF_SEED. "
        "Trusts the reference models in /verif/harness, ICU, the compilers and the sanitizers.")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in run.SPECS or (i == "C15" and os.path.exists(V + "/pyprop.py")):
        checks.append(dict(property=i, quick_cmd="python3 run.py %s --tier quick" % i, thorough_cmd="python3 run.py %s --tier thorough" % i,
                           technique=TECH[i], level="exploration", level_note=NOTE))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks are needed: the checks use the public headers and compile /repo's sources themselves. known_findings.txt lists the defects found and fixed.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
