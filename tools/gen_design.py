#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md (between BEGIN/END markers)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]

# oracle, bounds, why the tests of the repository cannot settle it
D = {
"P01": ("`ref` varint codec; guard bytes around every destination", "none on values; 1-4 integers a case", "the tests have a handful of values; the boundary values (240, 2288, 264432, ...) and every truncation are where mistakes sit"),
"P02": ("`ref` typed-data encoder and decoder, accessor by accessor", "values up to 70 000 bytes, 8 entries", "type x width x sign x length combinations"),
"P03": ("a model of which calls fit (from `ref` lengths); guard bytes", "all buffer sizes if at most 120, else those around entry ends", "a buffer that is one byte too small for each part of each kind of entry"),
"P04": ("`ref` action decoder against the list of calls that succeeded", "10 calls, values up to 70 000 bytes", "growth at every offset and amount"),
"P05": ("the generated list of messages", "6 messages, up to 255 arguments", "where the consumer stops x what follows"),
"P06": ("`ref` decoder step by step; what it leaves open (integers beyond 64 bits) only for safety", "5 entries or 4 messages before mutation", "truncation or corruption at every byte"),
"P07": ("a model of the mapping documented at `Unmarshal`", "6 fields, 3 calls", "combinations of preset, absent, null, repeated, reused; aliasing shows only when the input is overwritten"),
"P08": ("the same script on newly made objects", "60 operations, 6 concurrent scripts", "leftovers need a particular previous use and a particular pool hit"),
"P09": ("a decision model of the handshake, then a NOTIFY as proof of life", "8 connections", "entry order, integer type, extreme sizes"),
"P10": ("per-connection model of handler calls and ACK bytes; nothing further may be sent", "24 connections x 5 NOTIFYs", "cross-talk between pooled objects needs particular interleavings"),
"P11": ("exactly-once counters and progress: at rest, as many handlers run as there is work or workers (learnt from the run, not assumed)", "72 connections, rarely 1030; in the fair part 32 at a time", "lost wake-ups and starvation appear only above worker and queue capacity"),
"P12": ("an acceptance model of both limits; ACK bytes", "frames up to 2^31 claimed, 200 000 sent", "off by one at a negotiated limit"),
"P13": ("well-behaved connections are held to the P10 model throughout; allocation is measured in part claims", "3 waves, 8 hostile connections each", "the damage appears on other connections, later"),
"P14": ("a model of connection, context, listener and Serve after every step, in virtual time", "40 steps", "ways to end x what handlers are doing x other connections"),
"P15": ("what the bytes call for (conforming exchanges); the same bytes sent in two ways (any bytes)", "", "tests send a message per write"),
"P16": ("`ref` definition codec", "array data types left out (known finding)", "all key types x data-type sets x parameters"),
"P17": ("`ref` entry codec", "array data types left out (known finding)", "value ranges and forms of dictionary values"),
"P18": ("`ref` decoder where it is decided, safety and allocation bound everywhere", "inputs up to a few KB", "claims of lengths, truncation at every byte"),
"P19": ("model receiver; every update is compared again after the session", "40 messages, 4 tables", "histories; state carried from message to message"),
"P20": ("the remote decodes everything with `ref`: whole messages, per-goroutine order, ids on the wire", "10 goroutines x 20 items", "interleavings with heartbeats and replies"),
"P21": ("timing model in virtual time (exact)", "14 messages, gaps to 60 s", "needs minutes of waiting in real time"),
"P22": ("an automaton over the event log of each handler, the state of context and connection, goroutine census", "6 sessions", "ways to end x moment"),
"P23": ("reference session model; well-behaved sessions next to it; allocation", "6 hostile sessions x 12 messages", "hostile input is not in the tests"),
"P24": ("reply model, looked at after each message", "30 messages", "each control type in each state"),
"P25": ("a byte queue", "40 operations, 48 bytes", "sequences, in particular growth after partial reads"),
"P26": ("as P20, with the items that fail left out; heartbeat and reply afterwards", "connection may fail after any byte", "failures in between concurrent sends"),
"P27": ("`ref` frame decoder; writers that fail after n bytes", "6 frames up to beyond 64 KiB", "counts and failures at each write"),
"P28": ("the P10 and P19/P20 models over loopback TCP; whether a call returns is decided with a patience of 30 s, tried twice", "6 connections; real time", "in-memory connections do not take the `*net.TCPConn` branches, and resets and half-closes come from the kernel"),
"P30": ("the models of P10, P19 and P20 in every repetition; goroutines, live heap objects and bytes in small objects after each quarter", "4000 repetitions, 70 000 entries or updates in one go; growth below one object per two repetitions or 16 bytes per repetition is not seen", "accumulation shows after thousands of messages only"),
"P31": ("texts of numbers and addresses are parsed back; equal text if and only if equal component, between pairs that differ little", "24 data types, 3000 byte strings", "ambiguities need pairs of values"),
"P32": ("P19's model at the receivers, `ref` decoder; the kept updates compared before and after", "3 sources, 3 receivers, 30 messages each", "decoder, session, encoder and writer together"),
"P33": ("bytes are a function of their position; each end against what the other reports as sent", "8 writes of up to 70 000 bytes per end", "sizes, and closes between any two steps"),
"P34": ("a fake HAProxy (the check's own program under that name on the PATH of the case) records what it is given; the configuration is compared section by section; processes, files and goroutines counted afterwards", "texts of 5 lines; real processes, so what this machine is too slow for (3 s) is left undecided", "fields in combination, and HAProxies that come up late, partly or never"),
"P35": ("after each operation, a model of calls, listeners, connections and handler contexts, with P10's and P19's models for what is exchanged", "3 agents or peers, 40 operations", "tests call Serve once per object"),
"P29": ("counts: sockets closed, goroutines as before, connections and handlers unreachable (weak pointers after GC)", "hundreds of connections; up to workers + queue slots + a margin may stay reachable (SPOP), none (peers)", "leaks show over many connections only"),
}
out = []
for p in props:
    i = p["id"]
    f = V + "/evidence/%s.json" % i
    o, b, w = D[i]
    out.append("### %s %s\n" % (i, p["title"]))
    rule = cost = ""
    if os.path.exists(f):
        e = json.load(open(f))
        rule = e["coverage"]["rule"]
    out.append("* Generated: %s" % rule)
    out.append("* Oracle: %s.%s" % (o, " Bounds: %s." % b if b else ""))
    out.append("* Beyond the tests: %s.\n" % w)
gen = {"properties": "\n".join(out)}
rows = ["| bug | property | caught by its check | needs |", "|---|---|---|---|"]
known_missed = set()
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    rows.append("| %s | %s | yes | %s |" % (d, m["property"], m["needs"].replace("|", "/")))
gen["seeded"] = "\n".join(rows)
s = open(V + "/DESIGN.md").read()
for k, v in gen.items():
    s = re.sub(r"(<!-- BEGIN %s -->\n).*?(<!-- END %s -->)" % (k, k), lambda m: m.group(1) + v + "\n" + m.group(2), s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
