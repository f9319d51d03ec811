#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the checks that the harness registers."""
import glob, json, os, re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "structured fuzzing of fragment sets (mutated declarations, YAML trees and bytes), no-crash oracle with watchdog",
    "C02": "metamorphic property-based testing: repeated and cross-process parses, permuted declarations",
    "C03": "property-based testing: generated declarations against the parsed model",
    "C04": "grammar-based generation of type expressions against the generated syntax tree, and of invalid strings",
    "C05": "differential property-based testing: implied type against the same declaration with explicit type",
    "C06": "property-based testing: generated name clashes over libraries against a reference resolver, injected bad references",
    "C07": "metamorphic property-based testing: single fragment against the same declarations split over files",
    "C08": "property-based testing of instances against a reference model of the type semantics",
    "C09": "property-based testing: instances of heirs against parents, injected widenings",
    "C10": "metamorphic property-based testing: declarations with and without further declarations that refer to them",
    "C11": "property-based testing: invariants over the unwrapped model, repeated unwrapping, differential verdicts",
    "C12": "property-based testing with injected non-conforming values at generated sites, reference model as oracle",
    "C13": "property-based testing with injected custom facet faults at generated sites, reference model as oracle",
    "C14": "property-based testing with injected annotation faults at generated sites, reference resolver as oracle",
    "C15": "differential property-based testing: type validation against an independent draft-07 evaluator",
    "C16": "round-trip property-based testing of generated JSON schemas",
    "C17": "model-based property testing of clones: comparison, aliasing and mutation sequences",
    "C18": "stateful property-based testing of hook operation sequences against a list model, fault injection at every hook point",
    "C19": "property-based testing with single and multiple injected faults of known file and lines",
    "C20": "property-based testing of recursive types against a reference model that unrolls definitions",
    "C21": "round-trip property-based testing of generated data values in many YAML and JSON styles and includes",
    "C22": "property-based testing of operation histories on a shared model, concurrently under the race detector",
    "C23": "differential property-based testing: generated calls of the built tool against the library's verdicts and traces",
    "C24": "model-based property-based testing: generated lookups against a reference name resolution",
    "C25": "property-based testing of histories and concurrent use of several models against fresh processes, under the race detector",
    "C26": "property-based testing of generated headers and places of reference against a table of kinds",
}
NOTE = ("Randomised exploration: no violation among the generated cases of the run, which are bounded in size (a few files, types and levels of nesting). "
        "Trusts the reference semantics in harness/, the Go toolchain and rapid; limits of the generators are listed in DESIGN.md.")
src = "\n".join(open(f).read() for f in glob.glob(os.path.join(HERE, "harness", "*.go")))
have = sorted(set(re.findall(r'register(?:\[[^]]*\])?\("(C\d\d)"', src)))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [{
        "property": i,
        "quick_cmd": "python3 check.py %s --tier quick" % i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": TECH[i],
        "level": "exploration",
        "level_note": NOTE,
    } for i in ids if i in have],
    "not_applicable": [{"property": i, "reason": "the check is still being built"} for i in ids if i not in have],
    "notes": "No hooks: the harness is a separate module that imports /repo through a replace directive and uses its public API only.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(m["checks"]), "checks")
