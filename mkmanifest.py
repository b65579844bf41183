#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
T = "deterministic simulation with fault injection: "
TECH = {
 "C01": T + "seeded arrival schedules and descriptor faults; differential against the undisturbed run",
 "C02": T + "seeded line noise, schedules and descriptor faults; exactly-once/in-order oracle over the delivered history",
 "C03": T + "seeded damage (loss, duplication, flips, truncation, splices) then intact traffic; bounded-recovery oracle",
 "C04": T + "seeded ends of the line (EOF, permanent errors, hang-up, silence) at every kind of position; liveness oracle",
 "C05": T + "seeded caller buffers around frame sizes under descriptor faults; guarded buffers and exact-result oracle",
 "C06": T + "seeded corruption of messages in transit; reference decoder as oracle",
 "C07": T + "seeded hostile peers; sanitisers, work bound in basic blocks, memory ledger",
 "C08": T + "seeded histories of building, receiving, sending and failing; allocation and descriptor ledger",
 "C09": T + "seeded sender histories, simulated line, receiver; model of the file as oracle",
 "C10": T + "seeded short and failing writes; strict frame checker and model as oracle",
 "C11": T + "seeded histories with failed transmissions; differential against a sender without history",
 "C12": T + "seeded foreign encodings from simulated meters; reference decoder as oracle",
 "C13": T + "seeded meters, also two lines interleaved; reference decoder as oracle",
 "C14": T + "whole program on a simulated serial line; reference decoder and exact decimal arithmetic as oracle",
 "C15": T + "whole program on hostile streams; output visible whenever it waits, exit status, sanitisers",
 "C16": T + "whole program on a simulated terminal driver with arbitrary prior settings and failing calls",
 "C17": T + "threads under a seeded scheduler switching at basic blocks; differential against each thread alone",
 "C18": T + "scripted entropy faults, both build variants; history check for repeats and uninitialised bytes",
}
NOTE = ("Every failure is a replayable scenario. A pass covers the runs listed in the evidence file: seeded search, not proof. "
        "Trusted: the simulator's model of descriptors, time, terminal, stdio and entropy; the reference decoder and encoder; clang and its sanitisers.")
PURE = "a pure function of its arguments: no schedule, time, I/O, fault or second party for this technique to vary, so simulation could only repeat what a unit or fuzz test does"
checks = []
for p in sorted(TECH):
    checks.append({"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
                   "evidence_file": f"evidence/{p}.json", "technique": TECH[p], "level": "exploration", "level_note": NOTE})
m = {"version": 1, "setup_cmd": "bash sim/build.sh", "checks": checks,
     "not_applicable": [
        {"property": "C19", "reason": "CRC: " + PURE + ". Its use on received and sent data is covered by C06, C10 and C12."},
        {"property": "C20", "reason": "Hexadecimal conversion: " + PURE + "."},
        {"property": "C21", "reason": "Value to double: " + PURE + ". What the tool prints from it is covered by C14."},
     ],
     "notes": "No hooks in /repo: the seams are put in at link time (objcopy --redefine-syms on the objects built from /repo's working tree). Replay: python3 check.py replay FILE [-v]."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
