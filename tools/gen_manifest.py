#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED and NA are the source of truth."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: seeded search, reference model"
PARSE = "seeded random grammars, streams and histories on the real recognizer, compared with independent references; sampled, not exhaustive"
CLAIMED = {
 "V01": "seeded random histories of the real container with iterator, clone and size-hint faults; sampled, not exhaustive",
 "V02": "seeded histories with crash, torn and lost writes of the serialised image; sampled, not exhaustive",
 "P01": "seeded histories with panicking iterators, pauses and abandoned enumerations; out-of-range reads are seen through guard values around each factor; sampled, not exhaustive",
 "E01": "seeded texts typed into or parsed by the real example calculators, with refused keys, failing actions and callbacks, against a shunting-yard and a bracketing reference; sampled, not exhaustive",
 "E02": "seeded C programs and near-programs read by the real example grammar and recognizer, with refused tokens, failing actions and callbacks, against a reference recogniser for the standard's phrase structure and a check of every derivation's actions",
 "L01": "the recognizer with its log feature under a switching, filling and failing sink, in lockstep with the recognizer without it; sampled, not exhaustive",
 "W01": "seeded histories of calls, each history in a process of its own, compared with fresh processes and with a recording logger; sampled, not exhaustive",
 "G01": "seeded grammars through generations of save and restore over a simulated disk that tears and loses writes, sessions on all generations in lockstep; sampled, not exhaustive",
 "D01": "seeded sequences of lists given to the bundled driver, with failing forest callbacks and resets, against a naive reference recognizer; sampled, not exhaustive",
 **{k: PARSE for k in ["R01","R02","R03","R04","R05","R06","R07","R08","R09","R10","R11","R12","R13","F01","F02","F03","F04","F05","F06"]},
}
PENDING = "not yet claimed: machinery under construction"
NA = {
 "N01": "grammar preparation is a pure single-call function of its input (and lives mostly in the external cfg crate, which is absent here): no schedule, time, I/O, fault or multi-step history for a simulator to control",
 "N03": "the loader is a pure function of one text and does not compile against anything available here (missing external lexer and cfg crates)",
}
if __name__ == "__main__":
    ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
    m = {
     "version": 1,
     "setup_cmd": "bash bin/setup.sh",
     "checks": [{
        "property": i,
        "quick_cmd": f"bash bin/check.sh {i} quick",
        "thorough_cmd": f"bash bin/check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": T,
        "level": "exploration",
        "level_note": CLAIMED[i],
     } for i in ids if i in CLAIMED],
     "not_applicable": [{"property": i, "reason": NA.get(i, PENDING)} for i in ids if i not in CLAIMED],
     "notes": "Replay one run: bash bin/replay.sh <replay file>. Every check builds its harness crate under /verif/sim from /repo's working tree (path dependencies and [lib] path wrappers); no hooks in /repo are needed.",
    }
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
    open(V + "/MANIFEST.json", "a").write("\n")
