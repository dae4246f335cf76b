#!/usr/bin/env python3
"""Fills tools/DESIGN.in into DESIGN.md (run by hand after all checks have
run: the figures come from evidence/*.json; the output is committed)."""
import json, os, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def load(f): return json.load(open(os.path.join(ROOT, f)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
ORACLE = {
 "C01": "an independent computation of the keyed hash (the standard library's, called by the harness) decides for every string whether it must be accepted; a map of issued tokens to identities",
 "C08": "the reference model, and copies of every buffer taken at the moment it was handed over",
 "C09": "the reference model; goroutines, connections, timers and file locks left behind are counted",
 "C10": "a linearizability search over the reference model (all orders that respect real time), including the final state and all deadlines",
 "C11": "the race detector, the scheduler's deadlock detection, panics",
 "C12": "a linearizability search over the reference model; destructions of an identity may take sessions one after the other; the server's expiry of every key is compared",
 "C13": "the set of two acceptable states (before and after the operation in progress) of the reference model",
 "C14": "the reference model and a search of the raw store, the provider's fields and the package variables for strings of dead sessions",
 "C15": "a reference handle that keeps the set of answers the statement allows per key, and the coder itself applied in a fresh variable",
 "C16": "the standard library's HMAC and hash functions, called by the harness; a map for the registry",
 "C17": "a fold over the option list",
 "C18": "one reference model for each name",
 "C19": "the set of acceptable states of the reference model: nothing happened, or everything; the error must be reported unless everything happened",
 "C20": "a set of everything issued; the documented form",
 "C21": "the coder's standard library functions in a fresh variable",
 "C22": "the reference model, in which refused operations do nothing",
}
out = []
for p in props:
    e = load("evidence/%s.json" % p["id"]); c = e["coverage"]
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append("* *Enumerated, and bounds:* %s." % c["bounds"])
    out.append("* *Oracle:* %s." % ORACLE.get(p["id"], "the reference model, on every answer and on the complete state at the end"))
    out.append("* *Cost (quick):* %d jobs, %s executions, %s transitions, %s distinct states; %.0f s." % (
        c["jobs_total"], "{:,}".format(c.get("traces_validated_against_impl", 0)), "{:,}".format(c.get("transitions", 0)), "{:,}".format(c.get("states", 0)), e["wall_s"]))
    if e.get("assumptions"): out.append("* *Assumed:* %s." % "; ".join(e["assumptions"]))
    out.append("* *Why the tests cannot:* %s.\n" % p["why_tests_cant"])
F = load("known_findings.json")["findings"]
fixes = "\n".join("%d. %s `%s`: %s" % (i + 1, f["property"], f["commit"], f["what"]) for i, f in enumerate(F))
caught = load("tools/caught.json")
rows = ["| planted bug | property | needs | caught by | how it shows |", "|---|---|---|---|---|"]
n = 0
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    s = os.path.basename(os.path.dirname(d)); m = json.load(open(d)); n += 1
    c = caught.get(s, {})
    rows.append("| `%s` | %s | %s | %s | %s |" % (s, m["property"], m["needs"].replace("|", "/"), c.get("check", "not yet"), c.get("how", "").replace("|", "/")[:110]))
t = open(os.path.join(ROOT, "tools/DESIGN.in")).read()
for k, v in (("@@PROPS@@", "\n".join(out)), ("@@FIXES@@", fixes), ("@@NFIX@@", str(len(F))), ("@@NSEED@@", str(n)), ("@@SEEDS@@", "\n".join(rows))):
    t = t.replace(k, v)
open(os.path.join(ROOT, "DESIGN.md"), "w").write(t)
print("unchecked seeds:", [os.path.basename(os.path.dirname(d)) for d in glob.glob(os.path.join(ROOT, "seeded/*/meta.json")) if os.path.basename(os.path.dirname(d)) not in caught])
