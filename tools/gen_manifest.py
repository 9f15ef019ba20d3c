"""Writes MANIFEST.json from the checks that exist in hk/checks."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
AI = "interprocedural abstract interpretation of the source (provenance terms, path facts, heap shapes)"
TECH = {
 "C01": "typestate analysis (open/closed) over abstract paths of dump/load with an exception edge at every opaque call",
 "C02": "typestate analysis of manager registration over abstract paths with exception edges",
 "C03": "effect analysis: mutating HDF5 operations on values derived from the file being read",
 "C04": "table extraction from the loader registers plus node-kind analysis of every writer path against the readers",
 "C05": "dataflow correspondence: provenance terms of stored constituents substituted into the abstract readers",
 "C06": "dataflow correspondence of item positions from writers through the containers' append",
 "C07": "abstract interpretation of key encoding and decoding with term rewriting of the round trip, per key kind",
 "C08": "dataflow (taint) analysis of dataset options to every create_dataset call",
 "C09": "event-order (typestate) analysis of the memo on every abstract path of _dump and _load",
 "C10": "effect-order analysis (guard dominates write) and constant propagation of file modes",
 "C11": "alias/effect analysis: mutation events on values reachable from the dumped object, options and defaults",
 "C12": "escape analysis of HDF5 handles into reader results",
 "C13": "dataflow analysis of the recorded class to the constructor of every reader result",
 "C14": "exception-flow analysis: injected failures at every opaque operation must reach the caller",
 "C15": "abstract interpretation of the registration functions per tag class; effects on tables must be guarded",
 "C16": "dataflow analysis of loader options between constructor, file attributes and lookup tables",
 "C17": "abstract interpretation of managers, type resolution, lookup, recursion and recover readers on a model file with ImportError/ModuleNotFoundError/AttributeError edges at the unpickling sites",
 "C18": "abstract interpretation of load's dispatch with path facts; attribute and table coverage comparison",
 "C19": "typestate analysis of the collector switch over abstract paths with exception edges",
 "C20": "dataflow analysis of groups and names: every write rooted in the requested path",
 "C21": "abstract interpretation of the fallback lookup and pickling paths",
 "C22": "abstract interpretation of the packing decision per item class at first and later positions",
 "C23": "provenance analysis of the legacy readers on abstract files whose datasets and attributes hold symbols",
}
NOTE = ("Decided from /repo's current source without executing it. Covers every path of the analysed functions up to one abstract "
        "iteration per loop (plus joins); trusts the hand-written model of Python, h5py and numpy operations in hk/; an obligation the "
        "analysis cannot complete is listed as 'not decided' in the evidence and raises no alarm.")
NA = {
 "N01": "equality of bit patterns is a fact about numpy/h5py/HDF5 conversions at run time; a source analysis of hickle can only show that values reach the library unconverted, which C05, C13 and C22 already decide",
 "N02": "depends on the order in which the HDF5 library and the kernel put pages on disk, which is not in this source; hickle has no commit protocol a static rule could check",
 "N03": "depends on thread interleavings inside h5py and numpy and on module state of those libraries; hickle has no synchronisation whose discipline could be checked statically",
 "N04": "needs the order in which HDF5 resolves references at run time; current code does not promise it (cycles raise on load)",
 "N05": "a quantitative bound over run time and HDF5's allocation, out of reach of a static argument",
}
checks, na = [], []
for p in PROPS:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "hk", "checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=TECH[i], level="other", level_note=NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="python3 -c 'import ast'", checks=checks, not_applicable=na,
               notes="All checks are static analyses (package hk, Python standard library only). See DESIGN.md."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
