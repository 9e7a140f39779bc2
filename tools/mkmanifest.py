#!/usr/bin/env python3
"""Write MANIFEST.json from the list of properties and the harnesses present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "stateful differential property-based testing: generated histories on an OPTIMIZED and a BASIC calculator, results compared after every evaluation",
 "C02": "differential property-based testing: generated parallel splits and merge orders against the serial evaluation",
 "C03": "round-trip and stateful property-based testing: generated objects saved and loaded in the same and another process, then continued with the same operations",
 "C04": "property-based testing against an exhaustive-search reference model of pair images",
 "C05": "property-based testing against an exhaustive-search reference model of bonds, masks and cones",
 "C06": "differential property-based testing: symmetry-reduced crystal against the structure written out in P1, and against an independent expansion",
 "C07": "property-based testing against brute-force enumeration of integer triples",
 "C08": "property-based testing with algebraic laws and an independent metric model",
 "C09": "property-based testing against an independent implementation of the PDF pair sum",
 "C10": "property-based testing against an independent implementation of the Debye sum",
 "C11": "stateful property-based testing of mask command histories against a last-command-wins model, with metamorphic partition relations",
 "C12": "property-based testing against an independent implementation of the bond valence sum",
 "C13": "property-based testing against an independent implementation of hard-sphere overlaps and numerical derivatives",
 "C14": "metamorphic property-based testing: equivalent descriptions of one structure",
 "C15": "stateful property-based testing of containers against a sequence model, and of differences by reconstruction",
 "C16": "stateful property-based testing: attribute access against getters and setters on twin objects",
 "C17": "property-based testing against direct summation and exact grid arithmetic",
 "C18": "stateful property-based testing of table histories against an independent model with independently parsed data",
 "C19": "stateful property-based testing of table histories against an override-map model",
 "C20": "property-based testing against documented formulas and numerical integration",
 "C21": "stateful property-based testing: rejected calls injected in one of two twin histories",
 "C22": "stateful property-based testing of registries and envelope sets against a map model",
 "C23": "property-based testing: generated external crystals against an independently expanded structure",
 "C24": "differential property-based testing of wrapped and unwrapped structures",
 "C25": "property-based testing with algebraic laws and extended-precision references",
 "C26": "stateful differential property-based testing: used calculators against fresh ones configured alike",
 "C27": "property-based testing and byte-level generated text against an independent parser; stateful environment histories",
 "C28": "stateful property-based testing with exactly counting derived calculators against an exhaustive reference; differential testing of user-defined structures and components",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
NA = {}
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "harness", i.lower() + ".cpp")):
        checks.append({"property": i,
            "quick_cmd": "python3 check.py %s" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": TECH[i], "level": "exploration",
            "level_note": "Holds on every generated case (seeded by VERIF_SEED, counts in the evidence file); absence of a violation elsewhere is not shown. Trusts the reference model in /verif/harness, g++ and the C++ library; the thorough tier adds address and undefined-behaviour sanitizers."})
    else:
        na.append({"property": i, "reason": NA.get(i, "the check for this property is not built yet")})
m = {"version": 1, "setup_cmd": "python3 build.py opt",
     "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo's sources as they are", "source_commits": []},
     "checks": checks, "not_applicable": na}
with open(os.path.join(V, "MANIFEST.json"), "w") as fp:
    json.dump(m, fp, indent=1)
    fp.write("\n")
print(len(checks), "checks", len(na), "not applicable")
