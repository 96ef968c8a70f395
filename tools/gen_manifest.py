#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of properties."""
import json, os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]

MODEL = "stateful property-based testing against a reference model (random histories, shrinking); coverage-guided fuzzing of the same harness in the thorough tier"
SCHED = "property-based testing of small concurrent programs under a harness-owned random schedule and virtual clock"
LIN = SCHED + "; linearizability search over the recorded history"
technique = {"C18": LIN, "C19": LIN, "C21": LIN, "C23": LIN,
             "C20": SCHED + "; lost-wakeup and timeout oracles at every idle state",
             "C22": SCHED + "; lost-wakeup and timeout oracles at every idle state",
             "C30": SCHED + " with injected construction and allocation failures; linearizability, lost-wakeup and lifetime oracles",
             "C24": SCHED + "; exactly-once and promptness oracles",
             "C27": "property-based testing of small concurrent programs under a harness-owned random schedule, ThreadSanitizer's happens-before as oracle",
             "C11": "stateful property-based testing with injected constructor failures against a reference model; coverage-guided fuzzing in the thorough tier",
             "C31": "stateful property-based testing with injected allocation failures against a reference model; coverage-guided fuzzing in the thorough tier",
             "C08": "stateful property-based testing with address tracking of every element; coverage-guided fuzzing in the thorough tier",
             "C09": "stateful property-based testing with lifetime- and block-accounting elements and allocator; coverage-guided fuzzing in the thorough tier",
             "C10": "stateful property-based testing, differential against std sequences and algorithms; coverage-guided fuzzing in the thorough tier"}

SEQ = ("Random exploration, no proof: holds for every generated history (counts, labels and samples in the evidence file). Trusts the reference model in props/, "
       "clang's address and undefined-behaviour sanitizers, and that instantiations other than the listed element types and block sizes behave alike.")
CON = ("Random exploration of schedules, no proof: interleavings at the granularity of locks, waits, notifications and atomic accesses (sequentially consistent values), 2-4 threads with a few operations each. "
       "Trusts the replacement primitives of engine/shadow.hpp (injected by macro over the standard ones) and the checker of engine/lin.hpp.")
note = {c: CON for c in ("C18", "C19", "C20", "C21", "C22", "C23", "C24", "C30")}
note["C27"] = ("Random exploration of schedules, no proof. ThreadSanitizer sees only the happens-before edges of the container's own mutexes and atomics, with the memory orders asked for; values read are sequentially consistent, so effects of weak memory appear as race reports, "
               "not as stale values. Library internals of std::future/std::call_once are excluded from the reports.")
note["C25"] = SEQ + " The ratio is judged only over stretches in which both channels have blocks waiting and the ratio is not changed, as the statement says."
note["C28"] = SEQ + " Runs on the replacement primitives of engine/shadow.hpp so that a self-deadlock is a reported failure."

checks = []
for p in props:
    i = p["id"]
    checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": technique.get(i, MODEL),
                   "level": "exploration", "level_note": note.get(i, SEQ)})
json.dump({"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": [],
           "notes": "Every check compiles its harness against /repo's working tree (headers only, no hooks) and runs it; see DESIGN.md. known_findings.txt lists repaired defects; there are no open ones."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
