#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of built checks below."""
import json, os
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.join(here,"..")
props=[json.loads(l) for l in open(os.path.join(root,"properties.jsonl"))]
DB="model-based histories (stateful PBT) of the storage layer and of a whole server driven over the network, against a reference model, with full audit of stored state"
SRV="model-based histories (stateful PBT) of a whole server driven over the network by raw peers, against a reference model; concurrent crowds with invariants over the recorded history"
T={}
for i in "P01 P02 P03 P04 P05 P06 P13 P14 P15 P16".split(): T[i]=("exploration",DB)
for i in "P07 P08 P09 P10 P11 P12".split(): T[i]=("exploration",SRV)
T["P17"]=("exploration","property-based testing of every conversion and of storage over edge-biased 64-bit values; concurrent id generation checked against ordering and time invariants")
T["P18"]=("exploration","round-trip and differential PBT of every message kind against an independently written codec for the documented shape, plus byte-level mutation fuzzing of the decoders")
T["P19"]=("exploration","structured fuzzing of HTTP requests and consumer messages in the middle of good traffic, with state-unchanged and liveness oracles")
T["P21"]=("exploration","round-trip and differential PBT of trace contexts against an independently written W3C codec, and end to end through the real server program at generated log levels")
T["P24"]=("exploration","stateful PBT of the real producer client against a real server through a fault-injecting proxy; every result is compared with the server's own state")
T["P20"]=("exploration","stateful PBT of the object store client on memory, file, HTTP and GCS backends with injected faults, against a map of what may be stored")
T["P23"]=("exploration","stateful PBT of the real consumer client against a scripted websocket server (replies in any order, requesters gone before and after the reply, seven ways to lose a connection, stalled reconnects), and crowds of users against a real server with cut connections and restarts")
T["P22"]=("exploration","generated databases at every historic schema level, opened by the current code and compared with a model of their contents, then worked to completion")
T["P25"]=("exploration","stateful PBT of the real Python package: generated operations, formats and ways of waiting in a real producer process, generated faults in real consumer processes, against a server and a file store; results, exceptions, statuses and lookups are judged against the submitted operations")
T["P27"]=("exploration","model-based histories against the real server program; once nothing is under way, every published counter, gauge and duration sum is compared with the reference model")
T["P26"]=("exploration","generated crowds of concurrent producers, cancels, observers and misbehaving consumers; invariants over the recorded history and a drain requirement")
T["P28"]=("exploration","generated combinations of valid and invalid settings of the real server program, each probed for its observable effect; stopped under load and restarted; an external writer holds the database lock for the health oracle")
NA={}
NOTE={"exploration":"Seeded generated-input search against an explicit oracle; no violation among the generated cases, not a proof. Trusts SQLite, the OS and the harness's reference model.",
"fault_enumeration":"Every injected fault point of each generated history is tried; histories themselves are sampled. Trusts SQLite's recovery code and the harness's reference model."}
checks=[{"property":p["id"],"quick_cmd":f"./check.sh {p['id']} quick","thorough_cmd":f"./check.sh {p['id']} thorough","technique":T[p["id"]][1],"level":T[p["id"]][0],"level_note":NOTE[T[p["id"]][0]],"evidence_file":f"evidence/{p['id']}.json"} for p in props if p["id"] in T]
m={"version":1,"setup_cmd":"./setup.sh","hooks":{"guard":"none","enable":"the checks need no hooks: they build /repo's crates as they are","source_commits":[]},"checks":checks,
"not_applicable":[{"property":p["id"],"reason":NA.get(p["id"],"check not built yet")} for p in props if p["id"] not in T]}
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1)
