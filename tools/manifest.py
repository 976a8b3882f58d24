#!/usr/bin/env python3
"""Writes MANIFEST.json: python3 tools/manifest.py"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = ("TLA+ specification ShrApi checked with TLC; executions of the real library (random and directed call sequences) "
       "validated call by call against the specification")
CONC = SEQ + ("; concurrent histories of real processes under a controlled scheduler (random, priority based and systematic with bounded "
       "preemptions, processes killed at switching points) checked by TLC for an explanation by ShrApi (ShrConcTrace)")
TOOL = ("TLA+ specification ToolRelay of shr-tool pub, sub and tee; executions of the real tool over loopback TCP with cut and merged "
        "transfers, varying readers and message sizes, validated with TLC (RelayTrace)")
CLI = ("TLA+ specification ToolCli of the shr-tool commands; random command sequences run with the real tool (ASan/UBSan) and validated "
       "command by command with TLC (CliTrace)")
BW = ("TLA+ specification BwApi of the wait/wake library; histories of real processes calling lib/bw.c under a controlled scheduler "
      "(systematic with bounded preemptions, random, killed at every switching point) checked by TLC for an explanation (BwConcTrace)")
TOUR = "; every edge of the complete state graphs of small rings (ShrModel) walked on the real library"
RING = "; storage layout model ShrRing explored completely against ShrApi's abstract ring"
WAIT = "; wait/wake protocol model BlockWake explored completely, wrong designs refuted"
INIT = "; creation racing creation and opening, with deaths, explored completely (InitOpen), wrong designs refuted"
STABLE = "; model of the pages that reach the file (StableRing) explored completely, wrong designs refuted"
SYS = "; the generated call sequences inject failing system calls"
CHECKS = {
    "C01": CONC + TOUR + RING, "C02": CONC + TOUR + RING, "C03": CONC + TOUR + RING, "C04": CONC + TOUR + RING, "C05": CONC + TOUR + RING,
    "C06": CONC + TOUR, "C07": CONC + TOUR, "C08": CONC + TOUR + WAIT, "C09": CONC + WAIT, "C10": CONC, "C11": CONC + WAIT,
    "C12": CONC + TOUR + INIT, "C13": CONC + TOUR, "C14": CONC + TOUR, "C15": CONC + WAIT, "C16": CONC + INIT, "C17": SEQ + TOUR + SYS,
    "C18": SEQ + TOUR + "; the file image at each msync is what a power failure leaves and is reopened" + STABLE, "C19": TOOL, "C20": TOOL, "C21": CLI,
    "C22": BW + WAIT, "C23": SEQ + TOUR + SYS,
}
NOTE = ("Every recorded call of the real code (built from the working tree, ASan/UBSan) is checked by TLC against the specification; "
        "bounded by the number, length and parameters of the generated executions. Trusts TLC, the harness' libc interposition and the kernel.")
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "true",
     "checks": [{"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                 "technique": CHECKS[i], "level": "model_checking", "level_note": NOTE} for i in ids if i in CHECKS],
     "not_applicable": [{"property": i, "reason": "check under construction"} for i in ids if i not in CHECKS],
     "notes": "See DESIGN.md. Checks need no hooks in /repo: libc calls of the library are interposed when the harness is linked."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
