#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NA = {
 "C23": "Mutant generation is a pure function of the source text (syn visitor): no schedule, clock, I/O, fault or history that a simulator could vary enters into it. The simulator would only act as an input generator, which is another technique.",
 "C24": "Overlap of a parsed diff with mutant spans is a pure function of two texts; both are read once, before anything concurrent starts. Nothing for a scheduler or fault injector to decide.",
 "C25": "Matching of globs, regular expressions and package names is a pure function of the options and the tree. (The simulations of C01, C05, C13, C20 and C22 do compare the selected set with a reference for the filters they use, but do not search over filter expressions.)",
 "C26": "Rewriting the manifest is a pure function of its text. (C14 compares the rewritten files of each simulated copy, but does not search over manifests.)",
}
NOTE = {
 "C11": " Two runs setting up the directory at the same instant is a known finding (known_findings.txt) and is not reported again.",
 "C07": " Runs ended by SIGKILL, or whose restoring write itself was made to fail, are outside the property.",
 "C19": " A crash is process death (SIGKILL) at any system call or basic block; loss of unsynced pages by a machine crash is not simulated, as the program never claims to sync.",
}
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"python3 dst/check.py {i} quick",
        "thorough_cmd": f"python3 dst/check.py {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation of the real binary with fault injection, seeded search, history checked against a reference model",
        "level": "exploration",
        "level_note": "Held in every seeded execution of the real program under the simulator (schedules, virtual time, failing calls, signals, crashes, "
                      "cargo behaviours); a sample, not a proof. Trusts the simulator, the reference model and that cargo commands act only as modelled." + NOTE.get(i, ""),
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: all seams are libc calls interposed by LD_PRELOAD and compiler-inserted basic-block callbacks. /repo has only fix: commits. "
              "Known findings and fixes: known_findings.txt. Replay: python3 replay.py replays/FILE.json."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
