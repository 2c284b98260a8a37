#!/usr/bin/env python3
"""check.py PROP [quick|thorough]: seeded search for a violation of one property.

Exit 0: held in every simulated run.  1: violated, with a replay file.  2: the check could not give an answer."""
import collections
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import minimise
import oracles
import run
import scenarios

RUNS = {"quick": 4000, "thorough": 60000}
WALL = {"quick": 180.0, "thorough": 750.0}
# properties whose runs are much slower or whose violations are rarer
WEIGHT = {"C09": 1.5, "C16": 1.5, "C19": 1.5, "C11": 0.8, "C12": 0.7, "C13": 0.6}
FAULT_KINDS = {1: "failing system call", 2: "signal", 3: "clock jump", 4: "stalled thread"}
CPU = None


def init(counter):
    global CPU
    cpus = sorted(os.sched_getaffinity(0))
    with counter.get_lock():
        n = counter.value
        counter.value += 1
    CPU = cpus[n % len(cpus)]
    try:
        os.sched_setaffinity(0, {CPU})
    except OSError:
        CPU = None


def measure(x):
    st = collections.Counter()
    il = []
    kinds = collections.Counter()
    for ep in x.eps:
        s = ep.stats
        for k in ("yields", "edges", "switches", "preempts", "points", "short", "spurious", "stall", "children"):
            st[k] += int(s[k])
        st["procs"] += len(ep.spec["procs"])
        st["vtime_ms"] += int((max([v[1] for v in ep.h.exits.values()] or [1000.0]) - min([v[1] for v in ep.h.starts.values()] or [1000.0])) * 1000)
        for f in ep.h.faults:
            k = FAULT_KINDS.get(f[3], "?")
            if f[3] == 1:
                k += " " + run.OPNAMES[f[5]] + " errno " + str(f[7])
            elif f[3] == 2:
                k += f" {f[7]}" if f[7] != 9 else " 9 (crash)"
            kinds[k] += 1
        if int(s["short"]):
            kinds["short read or write"] += int(s["short"])
        if int(s["spurious"]):
            kinds["interrupted call (EINTR)"] += int(s["spurious"])
        if int(s["stall"]):
            kinds["stalled thread"] += int(s["stall"])
        for c in ep.h.children:
            if c.phase == "meta":
                continue
            if c.v == "hang":
                kinds["command hangs"] += 1
            elif c.v == "sig":
                kinds["command dies of a signal"] += 1
            elif c.v == "fail":
                kinds["command fails"] += 1
        il.append(s["ilhash"])
    return st, "-".join(il), kinds


def one(a):
    prop, seed, want_cov = a
    x = None
    try:
        spec = scenarios.make(prop, seed)
        x = run.Experiment(spec, cpu=CPU)
        x.run()
        P = collections.Counter()
        v = oracles.ORACLES[prop](x, P)
        st, il, kinds = measure(x)
        cov = None
        if want_cov:
            n = 0
            for ep in x.eps:
                with open(ep.ctl + "/cov", "rb") as f:
                    n |= int.from_bytes(f.read(), "little")
            cov = n
        return seed, spec["flavour"], v, P, st, il, kinds, cov, getattr(x, "known", None), [ep.stats["hash"] for ep in x.eps], None
    except Exception:
        return seed, "?", [], {}, {}, "", {}, None, None, [], traceback.format_exc()[-1500:]
    finally:
        if x is not None:
            x.close()


def known_sigs(prop):
    """signatures listed for this property in known_findings.txt: 'known: property=C11 signature=setup-race ...'"""
    out = {}
    try:
        for l in open(V + "/known_findings.txt"):
            if l.startswith("known:"):
                d = dict(w.split("=", 1) for w in l.split() if "=" in w)
                if d.get("property") == prop:
                    out[d["signature"]] = l.split("signature=" + d["signature"], 1)[1].strip()
    except FileNotFoundError:
        pass
    return out


def sample(prop, seed):
    s = scenarios.make(prop, seed)
    return {"seed": seed, "flavour": s["flavour"], "features": s["tree"]["feats"], "mutants": len(s["tree"]["mutants"]),
            "episodes": [{"procs": [p["opts"] for p in e["procs"]], "faults": e["faults"],
                          "schedule": {k: v for k, v in e["plan"].items() if not isinstance(v, (dict, list))}}
                         for e in s["episodes"]][:3]}


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    base = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    r = subprocess.run(["bash", V + "/build.sh"])
    if r.returncode:
        print("the tree does not build", flush=True)
        sys.exit(2)
    tb = time.time() - t0
    n = int(os.environ.get("VERIF_RUNS", 0)) or int(RUNS[tier] * WEIGHT.get(prop, 1))
    seeds = [base * 10_000_000 + i for i in range(n)]
    nproc = len(os.sched_getaffinity(0))
    ctr = mp.Value("i", 0)
    ev = collections.Counter()
    P, kinds, fl, st = collections.Counter(), collections.Counter(), collections.Counter(), collections.Counter()
    ils, hashes = set(), {}
    cov = 0
    bad, errs, known = [], [], {}
    t1 = time.time()
    pool = mp.Pool(nproc, init, (ctr,))
    try:
        it = pool.imap_unordered(one, [(prop, s, i % 8 == 0) for i, s in enumerate(seeds)])
        while True:
            try:
                seed, f, v, p, s, il, k, c, kn, hs, err = it.next(timeout=120)
            except StopIteration:
                break
            except mp.TimeoutError:
                errs.append("a simulated run did not come back within 120 s")
                break
            ev["runs"] += 1
            if err:
                errs.append(f"seed {seed}: {err}")
                if len(errs) > 40 and len(errs) * 2 > ev["runs"]:
                    break
                continue
            P.update(p)
            fl[f] += 1
            st.update(s)
            kinds.update(k)
            if s["switches"] > 0 or s["children"] > 3:
                ils.add(il)
            if len(hashes) < 24:
                hashes[seed] = hs
            if c is not None:
                cov |= c
            for kk in kn or []:
                known.setdefault(kk[0], (seed, kk[1]))
            if v:
                bad.append((seed, v))
                if len(bad) >= 3:
                    break
            if time.time() - t1 > WALL[tier]:
                ev["stopped at the time limit"] = 1
                break
    finally:
        pool.terminate()
        pool.join()
    run.sweep()
    t_search = time.time() - t1
    # exact repetition: the same seeds again, in other processes
    rep = 0
    with mp.Pool(nproc, init, (mp.Value("i", 0),)) as p2:
        for r in p2.imap_unordered(one, [(prop, s, False) for s in sorted(hashes)], 1):
            if r[10] is None and r[9] == hashes[r[0]]:
                rep += 1
            else:
                ev["not repeated exactly"] += 1
    run.sweep()
    sigs = known_sigs(prop)
    for k, (seed, msg) in sorted(known.items()):
        if k in sigs:
            print(f"KNOWN-FINDING: property={prop} {sigs[k]} (for example seed {seed}: {msg})".replace("\n", " "))
        else:
            bad.append((seed, [msg]))
    status = 0
    nviol = len(bad)
    bad.sort()
    replay = None
    for seed, v in bad:
        m = minimise.minimise(prop, seed, v, budget=60 if tier == "quick" else 240)
        if m is None:
            errs.append(f"seed {seed}: a violation was not repeated when the seed was run again: {v[0]}")
            continue
        os.makedirs(V + "/replays", exist_ok=True)
        replay = f"{V}/replays/{prop}-{seed}.json"
        with open(replay, "w") as f:
            json.dump(m, f, indent=1)
        print(f"seed {seed}: {m['violations'][0]}")
        print(f"minimised: {m['summary']}")
        print(f"VIOLATION property={prop} replay={replay}", flush=True)
        status = 1
        break
    for e in errs[:3]:
        print("harness:", e, file=sys.stderr)
    if status == 0 and (ev["runs"] == 0 or len(errs) * 4 > ev["runs"]):
        print(f"no answer: {len(errs)} of {ev['runs']} simulated runs could not be carried out", file=sys.stderr)
        status = 2
    wall = time.time() - t0
    evidence = {
        "property": prop, "tier": tier, "seed": base, "level": "exploration", "wall_s": round(wall, 1), "violations": nviol,
        "coverage": {
            "evaluations": ev["runs"],
            "distinct_nontrivial": len(ils),
            "rule": "One evaluation is one simulated experiment made from one seed: a generated source tree, options, behaviour of every "
                    "cargo command, schedule and fault plan, through one or more runs of the real binary. Distinct and non-trivial: a "
                    "different sequence of (task switched to, kind of operation switched at), counted by its hash, among experiments "
                    "that switched between tasks or started commands beyond cargo metadata.",
            "samples": [sample(prop, s) for s in seeds[:2]],
            "simulated_runs_per_hour": int(ev["runs"] / max(t_search, 0.001) * 3600),
            "runs_of_the_binary": st["procs"],
            "commands_simulated": st["children"],
            "simulated_time_hours": round(st["vtime_ms"] / 3.6e6, 2),
            "yield_points": st["yields"], "task_switches": st["switches"], "preemptions_inside_code": st["preempts"],
            "basic_blocks_executed": st["edges"],
            "instrumented_edges_reached": bin(cov).count("1"),
            "faults_injected": dict(sorted(kinds.items())),
            "scenario_kinds": dict(sorted(fl.items())),
            "probes": dict(sorted((str(k), v) for k, v in P.items())),
            "seeds_repeated_exactly": rep, "seeds_not_repeated_exactly": ev["not repeated exactly"],
            "harness_errors": len(errs),
            "build_s": round(tb, 1),
            "real_components": ["the whole cargo-mutants binary built from /repo's working tree (option parsing, config, source discovery, mutant "
                                "generation, copying, scheduling, process control, output, console), with std, nix, ctrlc, jobserver, "
                                "fs2, tempfile", "the kernel's file system (tmpfs) below the injected faults"],
            "simulated_components": ["thread scheduling", "clocks, sleeps and timeouts", "signals", "cargo and its children, process groups and wait",
                                     "file locks", "getrandom", "directory order", "system call failures, short transfers and EINTR"],
        },
        "assumptions": ["cargo commands are represented by their exit status, duration, output, reaction to signals and children",
                        "memory is sequentially consistent between preemption points (basic blocks of cargo-mutants, system calls)"],
    }
    if replay:
        evidence["coverage"]["replay"] = replay
    os.makedirs(V + "/evidence", exist_ok=True)
    with open(f"{V}/evidence/{prop}.json", "w") as f:
        json.dump(evidence, f, indent=1)
    print(f"{prop} {tier}: {ev['runs']} simulated runs, {len(ils)} distinct interleavings, {nviol} violations, {len(errs)} harness errors, {wall:.0f} s")
    sys.exit(status)


if __name__ == "__main__":
    main()
