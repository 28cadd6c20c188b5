#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property of properties.jsonl that the harness decides."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
have = set()
for f in os.listdir(os.path.join(V, "harness")):
    if not f.endswith(".go"):
        continue
    have |= set(re.findall(r'register\("([A-Z]\d\d)"', open(os.path.join(V, "harness", f)).read()))
T = {
 "B": "exhaustive enumeration of the assignments of the parts of every real builder, and of the sequences of operations on it, against a model of the builder",
 "D": "stateless model checking of the real code: all operation histories up to a depth, against a reference model",
 "D05": "crash-point enumeration: every crash point and torn write of every bounded history on the real code (file operations hooked)",
 "D06": "fault enumeration: every failure at every file operation of every bounded history on the real code",
 "D07": "stateless model checking of schedules: all interleavings of file operations of 2-3 applications up to a preemption bound",
 "D09": "exhaustive enumeration of bounded corruptions (truncations, bytes, length fields) executed on the real code",
 "D10": "enumeration of all operation histories up to a depth and of every failure at every file operation on the real code, with the open files, locks and directory checked after each operation",
 "K": "exhaustive bounded enumeration of inputs executed on the real code, against an independent reference model",
 "A": "exhaustive enumeration of bounded grammars x inputs on the real parser, against a reference interpreter of the grammar",
 "A10": "stateless model checking of schedules: all interleavings of 2-3 calls at their shared accesses up to a preemption bound",
 "A11": "exhaustive enumeration of bounded documents (forms, one-part changes, separators, sequences of parts) on the shipped grammar, against a reference recognizer",
 "I": "exhaustive enumeration of bounded programs on the real compiler/interpreter, against a reference evaluator",
 "Q": "exhaustive enumeration of bounded queries x trees on the real code, against a reference evaluator",
}
NOTE = {
 "B": "Every assignment (values sampled per type, boundaries included) and every sequence within the bounds is executed on every real builder of libs. Which parts are mandatory is a table of the check; empty but not nil names given as bytes are not specified.",
 "D": "Every history within the bounds written in the evidence (bounds, exhaustive) is executed on the real code and compared with the model. Trusts the kernel file system, crypto/sha512, the Go runtime; small scope: nothing is claimed beyond the bounds.",
 "D05": "A crash is the end of the process (kernel keeps what was written), not a loss of power. Every mutating file operation and torn write of the bounded histories is covered.",
 "D06": "Failures are injected in the syscall wrappers of a rebuilt standard library; every operation of the bounded histories is covered with each failure of the list.",
 "D07": "Scheduling points are the file operations; between them an application runs alone. Deleting a database while others commit to it is excluded.",
 "K": "Every instance/input within the bounds is executed; boundary values cover the 64-bit fields. Trusts crypto/sha512.",
 "A": "Every grammar of the families and every input up to the bounds is executed and the whole tree is compared with the reference interpreter written from the documented semantics.",
 "A10": "Scheduling points are added by a generated overlay copy of the sources: each function of libs/asts, libs/queries and libs/interpreters, and each statement of their applications; preemption bounded.",
 "A11": "Every document within the bounds is parsed by the shipped grammar; acceptance and the parts of the tree are compared with an independent recognizer of the documented forms.",
 "I": "Every instruction list within the bounds is compiled and executed, and compared with the reference evaluator.",
 "Q": "Every query of the family and every tree within the bounds is executed, and compared with the reference evaluator.",
}
pick = lambda t, i: t.get(i, t[i[0]])
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
     "notes": "check.sh builds harness/ into /repo's module through a build overlay (nothing is added to /repo), with a standard library whose file operations are hooked. No hook in /repo."}
for i in ids:
    if i in have:
        m["checks"].append({"property": i, "quick_cmd": "bash check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + i,
                            "evidence_file": "evidence/%s.json" % i, "technique": pick(T, i), "level": "model_checking", "level_note": pick(NOTE, i)})
    else:
        m["not_applicable"].append({"property": i, "reason": "the check is not built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "checks")
