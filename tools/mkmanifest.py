#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist in ccnv/props."""
import importlib, json, os, sys
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, ".")
TECH = {
 "C01": "generated specifications, compile-and-link oracle",
 "C02": "generated specifications with one rule-breaking edit, verdict oracle",
 "C03": "grammar-based and mutation fuzzing under AddressSanitizer/UBSan",
 "C04": "stateful property-based testing against a heap model",
 "C05": "stateful property-based testing against a heap model, recording allocator",
 "C06": "stateful property-based testing, recording allocator and AddressSanitizer",
 "C07": "property-based testing against a reference traversal interpreter",
 "C08": "property-based testing against a reference traversal interpreter",
 "C09": "property-based testing against a reference phase driver",
 "C10": "property-based testing with injected error signals, reference phase driver",
 "C11": "property-based testing of tree histories against a reference lifetime predicate",
 "C12": "property-based testing with injected ill-typed children, reference type predicate",
 "C13": "property-based testing against set algebra",
 "C14": "property-based testing against a demand-driven evaluator",
 "C15": "property-based testing against a reference circularity and completeness test",
 "C16": "metamorphic testing: pairs of notations of one specification",
 "C17": "metamorphic testing: repeated generation over varied directories",
 "C18": "model-based stateful testing against a map, sanitizers",
 "C19": "property-based testing against reference string functions, sanitizers",
 "C20": "property-based testing against a reference phase driver",
 "C21": "stateful property-based testing against a message model, sanitizers",
 "C22": "property-based testing, values read back from the compiled headers",
 "C23": "differential testing of two generations of cocogen on generated inputs",
 "C33": "property-based testing of the unchanged skeletons, calls seen through instrumentation, against a reference driver and evaluator",
 "C32": "stateful property-based testing: histories of edits and builds of generated projects, run against the reference driver",
 "C31": "property-based testing of generated runs against the trace of a reference phase driver",
 "C30": "metamorphic testing: spellings of one command line, compared with each other and with a model of the options",
 "C29": "property-based testing, DOT graphs parsed and compared with a reference computation of dependencies",
 "C28": "stateful property-based testing of palm's helpers under ASan against a reference model",
 "C27": "fault injection (allocations, files, devices) into generated runs, compared with the run without faults",
 "C26": "property-based testing, DOT and listing parsed and compared with a reference built from the generated specification",
 "C25": "property-based testing, generated programs that misuse every access macro, reference type predicate",
 "C24": "property-based testing, C type assertions compiled against generated headers",
}
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("ccnv/props/%s.py" % i.lower()):
        c = importlib.import_module("ccnv.props." + i.lower()).check
        checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "env VERIF_TIER=thorough ./check " + i, "technique": TECH[i],
                       "level": "exploration",
                       "level_note": "Search over generated cases, no proof: " + c.rule + "." + (" Assumes: " + "; ".join(c.assumptions) + "." if c.assumptions else "")})
    else:
        na.append({"property": i, "reason": "the check is not built yet"})
m = {"version": 1, "setup_cmd": "python3 -m compileall -q ccnv >/dev/null 2>&1; gcc --version >/dev/null && cmake --version >/dev/null && ninja --version >/dev/null",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: checks build /repo's working tree in a scratch directory. VERIF_TIER selects quick or thorough. "
              "Replay: ./check ID FILE. Known findings: known_findings.txt."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
