#!/usr/bin/env python3
"""Writes MANIFEST.json; CLAIMED are the properties that have a check."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = "Held on the executions the check produced and counted in its evidence file; "
T = {
 "C01": ("differential monitor: library encoder/decoder against an independent codec", "trusts the harness' own codec of the wire format and go-elements' hash of headers and transactions"),
 "C02": ("mutation workload with panic, allocation and read-count monitors", "inputs on which the go-elements dependency over-allocates are left out (known finding) as classified by an independent structure walker"),
 "C03": ("scripted peers in virtual time; metamorphic oracle over segmentations and unusable messages", "replies and stores of a run must be those of the run with whole, usable messages only"),
 "C04": ("scripted peers in virtual time; recording stores; no-effect oracle", "effects are what the node sends, writes to its stores, keeps in the mem-pool or notifies"),
 "C05": ("scripted peers in virtual time; trace oracle over everything the node sends", "protocol reference model of the harness"),
 "C06": ("scripted honest peers in virtual time; convergence oracle within bounded virtual time", "bounded progress stands for eventually"),
 "C07": ("hostile peers, failing store in virtual time; invariant checked at every store write", "store contents are observed through the store's own interface after every call"),
 "C08": ("scripted peers in virtual time; trace oracle matching writes, requests and stored filters", "reference model of the harness"),
 "C09": ("scripted peers in virtual time; expected answer computed from the stored chain", "reference model of the harness"),
 "C10": ("scripted peers in virtual time; timed trace oracle of pings, pongs and closes", "virtual time of testing/synctest"),
 "C11": ("scripted peers in virtual time with failing writes; exactly-once oracle", "reference model of the harness"),
 "C12": ("mem-pool histories in virtual time against a multiset model; exactly-once event oracle", "order of events of one subscriber is not judged"),
 "C13": ("race detector, leak detection in synctest bubbles, crash and hang monitors under stress", "Go race detector; leaks are goroutines that outlive the bubble"),
 "C14": ("store histories against a sequential model, both stores; linearizability (porcupine) and race detector under concurrency", "the database is an in-process SQL engine stand-in of the harness"),
 "C15": ("store histories against a sequential model, both stores; race detector under concurrency", "the database is an in-process SQL engine stand-in of the harness"),
 "C16": ("fault injection at every driver call; atomicity and error-report oracle", "the database is an in-process SQL engine stand-in of the harness"),
 "C17": ("scanner in virtual time against generated chains; expected report multiset", "reference model of the harness"),
 "C18": ("scanner in virtual time with failing stores and block source; exactly-once after recovery", "bounded progress stands for eventually"),
 "C19": ("race detector, leak detection and virtual-time monitors over random lifecycles", "Go race detector; processor use is observed as calls made and as virtual time that cannot advance"),
 "C20": ("generated descriptors; expected report set; panic monitor", "scripts of a descriptor are derived with btcd's bip32 independently of the descriptor package"),
 "C21": ("HTTP and web-socket clients against the real handlers; one-answer oracle", "in-memory connections in virtual time"),
 "C22": ("clients and webhooks against the real handlers and scanner in virtual time; exactly-once routing oracle", "in-memory connections"),
 "C23": ("hostile clients, race detector, bounded progress of the good ones, shutdown and leak monitors", "in-memory connections in virtual time; Go race detector"),
 "C24": ("whole daemon over loopback TCP with scripted peer, explorer and clients", "generous real-time bounds"),
 "C25": ("HTTP explorer that misbehaves in many ways; oracle compares with the chain served", "bodies on which the go-elements dependency over-allocates are left out"),
 "C26": ("client processes over generated sequences against a model, with full disks, kills and commands at once; recording web-socket server", "loopback sockets; an unprivileged user with a scratch home"),
 "C27": ("goroutine accounting, connection and weak-pointer monitors over rounds of peers and clients that come and go", "in-memory connections in virtual time; goroutines are told apart by stack"),
 "C29": ("nodes in virtual time over several lives on the same stores, and real daemons, with scripted failures; convergence oracle over both stores", "bounded progress (minutes) stands for eventually; recording and emulated stores"),
 "C28": ("daemon processes with drawn environments; login, network, explorer, address and output compared with the settings", "emulated database, peer and explorer on loopback"),
}
CLAIMED = open(os.path.join(V, "tools", "claimed.txt")).read().split()
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep", "^verif"], capture_output=True, text=True).stdout.split()
na = {}
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "verif", "enable": "go build/test -tags verif", "source_commits": hook},
     "checks": [{"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py %s --thorough" % p, "technique": "runtime monitoring: " + T[p][0],
                 "level": "exploration", "level_note": NOTE + T[p][1] + "."} for p in props if p in CLAIMED],
     "not_applicable": [{"property": p, "reason": na.get(p, "its monitor is not built yet")} for p in props if p not in CLAIMED]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed")
