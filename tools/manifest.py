#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property in properties.jsonl."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
NOTE = {
    "H": "Stateless exhaustive exploration of the real httlib-hpack encoder and decoder: every operation sequence / octet string / fragmentation within the bounds in DESIGN.md is executed and compared step by step with an independent RFC 7541 model; plus explicit-state search of the product of implementation and model with state matching.",
    "F": "Exhaustive enumeration on the real httlib-huffman code: all short octet strings, plus a state-cover (W-method) suite over the 256-node reference automaton at every bit phase, at all five speeds, against an independent bit-level model.",
    "P": "Stateless exhaustive exploration of the real httlib-protos encoder and decoder: all values/fields/messages/octet strings/chunkings/writer faults within the bounds in DESIGN.md, compared with an independent proto3 wire-format model.",
}
TECH = {
    "H": "bounded exhaustive exploration of the implementation against a reference model (operation sequences, octet strings, state-matching search)",
    "F": "bounded exhaustive enumeration plus W-method state cover of the reference automaton, on the implementation",
    "P": "bounded exhaustive exploration of the implementation against a reference model (values, streams, chunkings, writer faults)",
}
THREADS = ("H17", "F08", "P11")
ALONE = ("F09", "P12")
A_TECH = "exhaustive enumeration of call histories and interleavings on the implementation, each projection compared with the same calls alone in a process of their own"
A_NOTE = "Every sequence of calls, or interleaving of the operations of several objects, within the bounds in DESIGN.md is executed on the real code, and every result is compared with that of the same call (or the same object with the same operations) in a fresh process (which the other checks compare with the reference models)."
MEMORY = ("H18", "F10", "P13")
M_TECH = "exhaustive enumeration of operation words repeated for thousands of rounds on the implementation, monitored by a counting allocator"
M_NOTE = "Every word of operations within the bounds in DESIGN.md is repeated on the real code with contents that never recur; the bytes alive after every power of two of rounds are compared with a bound that does not grow with the rounds."
T_TECH = "systematic exploration of thread schedules of the real code under a controlled scheduler (preemption-bounded at every machine instruction)"
T_NOTE = "Two threads run real calls of the library under a controlled scheduler (breakpoints planted at the machine instructions the call executes); every schedule with one preemption (thorough: two) is executed, in warmed-up and in fresh processes, and the outcome of both calls and of the objects afterwards is compared with that of the same call running alone in a process of its own (which the other checks compare with the reference models)."
checks = []
for l in (root / "properties.jsonl").read_text().splitlines():
    p = json.loads(l)["id"]
    checks.append({
        "property": p,
        "quick_cmd": f"./check.sh {p} quick",
        "thorough_cmd": f"./check.sh {p} thorough",
        "technique": T_TECH if p in THREADS else M_TECH if p in MEMORY else A_TECH if p in ALONE else TECH[p[0]],
        "level": "model_checking",
        "level_note": T_NOTE if p in THREADS else M_NOTE if p in MEMORY else A_NOTE if p in ALONE else NOTE[p[0]],
    })
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: everything is observed through the public API. The fix: commits in /repo are listed in known_findings.txt."}
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
