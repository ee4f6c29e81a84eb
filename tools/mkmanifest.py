#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
TREE = "deterministic simulation with fault injection: seeded programs on the real library inside one process under simulated time, heap and I/O, each event compared to an executable reference model"
DISK = "deterministic simulation with fault injection: seeded scenes, values, damage and fault sequences on the real library over a simulated file system with crash semantics, checked against the values that were stored"
NOTES = {
 1: "callbacks that add, remove, free, rename and panic at any moment", 2: "names with digit suffixes, leading zeros and overflows; renames from callbacks",
 3: "random relative, absolute, dotted and stale paths from and to any node", 4: "pointers held across removals and re-additions; wrong types and traits",
 5: "scenes added from any callback, freed or panicking half way; loaded scenes", 6: "removals nested in terminal() of other removals, queued termination",
 7: "nodes added, removed and moved while the frame runs", 8: "modes and pause state changed between any two nodes of a frame",
 9: "simulated clocks: stalls in callbacks, jumps of the wall clock in both directions, frames cut short by panics", 10: "termination queued, forced, or by panics and freed roots at any point of a frame",
 11: "nested owners, clones, saved and loaded scenes", 12: "registrations interleaved with renaming, removal and re-registration", 13: "re-entrant emission, connection and disconnection, one-shot listeners, removed targets, panicking listeners",
 14: "round trips through text and through the simulated disk under short and interrupted transfers", 15: "crash at every I/O call, lost and torn writes, reordering, I/O errors and full disk; what is on the simulated disk afterwards is loaded",
 16: "saved scenes with bytes, tokens, lines and values damaged, and read errors", 17: "copies that are mutated independently in every order", 18: "messages of every level and shape posted at any moment, with the wall clock being set",
 19: "warnings and panics anywhere in wide and deep trees; crash reports parsed and compared", 20: "failing accesses by live, removed and root owners, inside and outside callbacks", 21: "panics injected into callbacks and listeners, caught at several levels",
 22: "heap in which released nodes become inaccessible and destructors are counted", 23: "values of every exportable type including limits, nested and re-nested, through text and the simulated disk",
 24: "random chains of combinators next to those of the standard library, whose owners live, are removed by other nodes, or remove themselves before the chain fails",
 25: "classes with everything that can be declared and sixteen forms of scenes, linked into each other with random values; constructors and settings that panic; connections of every arity",
 27: "two more trees in the same program, acted on from the driver and from any callback of the first one; what only goes wrong in their company counts as well"}
STORAGE = (15, 16, 23)
CLAIMED = [1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,27]
NA = {26: "what malformed macro input does is decided by the compiler before there is anything to run: no execution, schedule or fault for a simulation to control"}
MACRO = "deterministic simulation with fault injection: seeded programs on classes, scenes and connections made by the macros, with panicking expressions, compared to what is declared"
m = {"version": 1, "setup_cmd": "bash check.sh setup", "checks": [], "not_applicable": [{"property": f"P{n:02}", "reason": r} for n, r in NA.items()],
     "notes": "One binary (sim/), rebuilt from /repo's working tree by check.sh. No hooks in /repo: time, entropy, files, output and memory are intercepted below the standard library."}
for n in CLAIMED:
    m["checks"].append({"property": f"P{n:02}", "quick_cmd": f"bash check.sh P{n:02} quick", "thorough_cmd": f"bash check.sh P{n:02} thorough",
        "technique": MACRO if n == 25 else DISK if n in STORAGE else TREE, "level": "exploration", "level_note": NOTES[n]})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
