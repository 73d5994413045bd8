#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAY = "TLA+ specification: TLC checks the per-step predicate, TLC-generated behaviours (random and enumerated) replayed into the real terminal"
T = {
 "C01": ("the byte-level specification is total, so every input has a specified outcome; behaviours of all families, whole streams in one read and 4096-byte reads, and mutated byte streams whose executions TLC re-checks"),
 "C02": "shape of every row of both buffers, cursor and margins, after every step and resize",
 "C03": "P03 (cells, wrap, pinning) plus cell-exact conformance, every Unicode scalar value on both buffers",
 "C04": "P04 (arithmetic of each motion) plus conformance, every position x region x motion on small screens",
 "C05": "P05 (set of named cells) plus conformance, every position x content x function x count on small screens",
 "C06": "P06 (row moves) plus conformance, every row x region x function x count on small screens",
 "C07": "P07 (last parameter naming an attribute wins) plus conformance of every cell's style",
 "C08": "P08 (feeding pieces = feeding the whole) plus the same behaviours delivered byte-wise, at random cuts, in one read, and cut by the 4096-byte buffer",
 "C09": "P09 plus conformance over all CSI prefix x parameters x intermediates x finals, ESC sequences, OSC/DCS payload bytes, sequences and strings of up to 131073 bytes (pumping abstraction checked by TLC)",
 "C10": "a recording frontend that refreshes only what is announced equals the screen after every step; values last heard equal the values; scrolled-off rows are the specified ones",
 "C11": "P11 (a row written as text and SGR reads back) plus round trip of the real ANSILine into a fresh real terminal, compared with the specified cells; TTYFrontend output re-interpreted",
 "C12": "TLA+ table of encodings, checked by TLC for unambiguity, compared with the real encoder over the enumerated domain",
 "C13": "TLA+ specification of mouse reports, enumerated by TLC, compared with the real reports over the enumerated domain",
 "C14": "P14 (exact reply bytes) plus conformance of the bytes written to the backend in every step, in one piece",
 "C15": "TLA+ model of the lock discipline (every interleaving, six rejected designs); recorded executions of concurrent API use linearised by TLC against the terminal specification; every call at every place where the loop waits; race detector on the same executions",
 "C16": "TLA+ model of the read loop and writer with scripted backends; TLC-generated backend scripts replayed into the real loop",
 "C17": "P17 plus conformance of both buffers, enumerated words of switches and motions",
 "C18": "P18 (overlap kept, cursor clamped) plus conformance, every size to every size",
 "C19": "P19 (bitwise and stack laws) plus conformance of flags, stack and reports; all flag pairs, all depths, 65537 pushes",
 "C20": "P20 (the buffer only matters to a write starting inside a character) plus both buffers driven in lockstep by the same behaviours and compared with each other",
}
CLAIMED = open(os.path.join(V, "bin", "claimed.txt")).read().split()
NOTE = ("Conformance on the behaviours explored (about 10^6 steps quick), not a proof: every step's cells, cursor, margins, style, modes, replies and notifications "
        "are compared with the specification. Trusts TLC, the harness in /verif/harness, and the uniseg library's widths. This property: ")
m = {"version": 1, "setup_cmd": "python3 bin/setup.py",
     "hooks": {"guard": "verif", "enable": "no hooks are needed: the harness is an in-package test compiled through go test -overlay", "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "Specification in TLA+ (spec/), checked with TLC. See DESIGN.md; repaired defects in KNOWN_FINDINGS.md."}
for p in sorted(T):
    if p in CLAIMED:
        m["checks"].append(dict(property=p, quick_cmd="python3 bin/check.py %s quick" % p, thorough_cmd="python3 bin/check.py %s thorough" % p,
                                evidence_file="evidence/%s.json" % p, technique=REPLAY if p not in ("C12", "C13", "C15", "C16") else "TLA+ specification, TLC enumeration, conformance of the real code (replay / trace validation)",
                                level="model_checking", level_note=NOTE + T[p] + "."))
    else:
        m["not_applicable"].append(dict(property=p, reason="the check is still being built (see DESIGN.md)"))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
