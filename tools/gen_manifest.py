#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]

REF = "Trusts the reference codecs in harness/ref (written from the protocol documents, checked against captures of HAProxy in the repository's tests) and rapid's generators. Finds violations in what is generated; proves no absence."
NET = " The server under test runs unmodified over in-memory connections (harness/memnet) whose segmentation, failures and clock the harness owns."
T = {
 "P01": ("property-based testing: round trip and differential against a reference varint codec", ""),
 "P02": ("property-based testing: round trip and differential against a reference typed-data codec", ""),
 "P03": ("property-based testing: model of which writes fit, every buffer size, guard bytes", ""),
 "P04": ("property-based testing: operation sequences decoded by a reference action decoder", ""),
 "P05": ("property-based testing: model of message boundaries under partial reads", ""),
 "P06": ("generation-based fuzzing of the scanners, differential against a reference decoder", ""),
 "P07": ("property-based testing: reflection-made structs against a model of the field mapping", ""),
 "P08": ("model-based testing: pooled objects against new ones, sequentially and concurrently under the race detector", " Concurrent schedules are sampled, not enumerated."),
 "P09": ("property-based testing: generated HELLOs against a decision model of the handshake", NET),
 "P10": ("stateful property-based testing: concurrent connections against per-connection models, race detector", NET + " Schedules are sampled by yields and delays."),
 "P11": ("property-based testing: gated handlers above worker and queue capacity, exactly-once and progress oracle", NET + " Schedules are sampled."),
 "P12": ("property-based testing: frame sizes around both limits against an acceptance model", NET),
 "P13": ("fault-injecting property-based testing: hostile streams, I/O failures and panics next to modelled healthy connections", NET),
 "P14": ("property-based testing in virtual time: context life cycle against a model of the connection's", NET + " Virtual time: testing/synctest."),
 "P15": ("metamorphic property-based testing: the same bytes under different segmentations", NET),
 "P16": ("property-based testing: round trip and differential against a reference definition codec", " Array data types are excluded (known finding)."),
 "P17": ("property-based testing: round trip and differential against a reference entry codec", " Array data types are excluded (known finding)."),
 "P18": ("generation-based fuzzing of the stick-table decoders, differential against a reference decoder, allocation bound", ""),
 "P19": ("stateful property-based testing: session histories against a model receiver", NET),
 "P20": ("stateful property-based testing: concurrent writers, the remote's stream decoded by the reference, race detector", NET + " Schedules are sampled."),
 "P21": ("property-based testing in virtual time: traffic patterns against a timing model", NET + " Virtual time: testing/synctest."),
 "P22": ("stateful property-based testing in virtual time: life-cycle event log against an automaton, goroutine census", NET + " Virtual time: testing/synctest."),
 "P23": ("generation-based fuzzing of peer sessions, differential against a reference session model, memory bound", NET),
 "P24": ("property-based testing: generated handshakes and control messages against a reply model", NET),
 "P25": ("model-based testing: operation sequences against a byte queue", ""),
 "P26": ("fault-injecting property-based testing: failing sends among good ones, the remote's stream decoded by the reference", NET),
 "P27": ("property-based testing: frames decoded by the reference, failing writers and callbacks", ""),
 "P28": ("stateful property-based testing over real loopback sockets in real time, race detector", " Real schedules and timeouts: what is explored differs from run to run; what takes more than 30 s twice in a row counts as never happening."),
 "P30": ("stateful property-based testing: short generated exchanges repeated hundreds to thousands of times against the models of P10, P19 and P20, with a census of goroutines and live objects", " What a fixed number of workers, queue slots and pools keep is not counted; growth by less than one object per two repetitions, or 16 bytes per repetition, is not seen."),
 "P31": ("property-based testing: texts parsed and compared with the values, and metamorphically between entries that differ in one component", ""),
 "P32": ("stateful property-based testing: histories forwarded between sessions, the receivers' streams decoded by the reference", NET + " Schedules are sampled."),
 "P33": ("property-based testing: random transfers through a pipe in virtual time; random reads", ""),
 "P34": ("fault-injecting property-based testing: generated configurations and process behaviours against a fake HAProxy that records them", " Real processes in real time: cases this machine is too slow for are left undecided."),
 "P35": ("stateful property-based testing: generated sequences of Serve calls, connections, failures and cancellations against a model", NET),
 "P29": ("stateful property-based testing of connection histories in virtual time; goroutines counted, reachability observed through weak pointers after garbage collection", " A few connections may stay reachable through dead stack slots, worker variables and queue slots, so leaks of less than that bound are not seen."),
}
src = "".join(open(V + "/harness/checks/" + f).read() for f in os.listdir(V + "/harness/checks"))
checks, na = [], []
for i in ids:
    if 'ID: "%s"' % i in src.replace("ID:   ", "ID: "):
        tech, note = T[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=tech, level="exploration", level_note=REF + note))
    else:
        na.append(dict(property=i, reason="the check is not built yet"))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na)
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
