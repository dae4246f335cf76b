#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand; the output is committed)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = "exhaustive enumeration of operation sequences of the real code under a controlled clock and scheduler, against a reference model"
SCH = "exhaustive preemption-bounded exploration of thread schedules of the real code, linearizability against a reference model"
T = {
 "C01": "exhaustive enumeration of altered tokens and configurations executed on the real code, against an independent signature oracle",
 "C02": SEQ, "C03": SEQ, "C04": SEQ, "C05": SEQ, "C06": SEQ, "C07": SEQ, "C08": SEQ,
 "C09": SEQ + "; preemption-bounded exploration of close against everything else",
 "C10": SCH,
 "C11": "exhaustive preemption-bounded exploration of thread schedules of the real code in a race-detector build whose hand-offs are hidden from the detector; deadlock, panic and race detection",
 "C12": "exhaustive preemption-bounded exploration of server-command interleavings of the real code against a model of the server, linearizability against a reference model",
 "C13": "exhaustive enumeration of crash points, torn and lost unsynced file writes of histories of the real code, recovered state against a reference model",
 "C14": SEQ + "; preemption-bounded exploration of reclamation schedules",
 "C15": SEQ, "C16": "exhaustive enumeration of methods, keys, texts and registry histories and schedules of the real code, against independent implementations",
 "C17": "exhaustive enumeration of ordered option selections executed on the real code, against a minimal reference model",
 "C18": SEQ, "C19": "exhaustive enumeration of single storage faults in histories of the real code, against a reference model",
 "C20": SEQ + "; preemption-bounded exploration of concurrent issuers",
 "C21": "exhaustive enumeration of values, coders, stores and paths executed on the real code, against the standard encodings",
 "C22": SEQ,
}
NOTE = "Complete within the bounds the evidence file states (operation alphabets, depth, preemption or fault bound); what is explored is the repository's own code, instrumented at every run. Trusted: the instrumentation and scheduler (harness/vs), the reference model (harness/cmd/mc/model.go)%s."
X = {"C12": ", the model of the redis server (harness/fakeredis)", "C13": ", the recorder of the database's file writes (harness/vfs)", "C19": ", the redis and file models with their faults"}
NA = json.load(open(os.path.join(ROOT, "tools", "unclaimed.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash ./setup.sh", "checks": [], "not_applicable": []}
for i in ids:
    if i in NA:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
        continue
    m["checks"].append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
        "technique": T[i], "level": "model_checking", "level_note": NOTE % X.get(i, ", the model of the redis server where redis is involved")})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed")
