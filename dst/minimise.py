"""Reduce a violating experiment: episodes, faults, disturbance knobs, options, and the schedule (explicit switches)."""
import collections
import copy
import re
import time

import oracles
import run
import scenarios


def category(msg):
    return re.sub(r"\S*[/@]\S*|[\d.]+", "#", msg)[:32]


def clean(spec):
    def f(x):
        if isinstance(x, dict):
            return {k: f(v) for k, v in x.items() if not (isinstance(k, str) and k.startswith("_"))}
        if isinstance(x, (list, tuple)):
            return [f(v) for v in x]
        return x
    return f(spec)


def execute(prop, spec):
    """-> (violations, [hash per episode], [recorded switches per episode])"""
    x = run.Experiment(clean(spec))
    try:
        x.run()
        v = oracles.ORACLES[prop](x, collections.Counter())
        if not v and getattr(x, "known", None):
            v = [m for _, m in x.known]
        hs = [ep.stats["tracehash"] for ep in x.eps]
        sw = []
        for ep in x.eps:
            l = []
            for q in run.rd(ep.ctl + "/sched").split("\n"):
                w = q.split()
                if len(w) == 2:
                    l.append([int(w[0]), int(w[1])])
            sw.append(None if ep.stats["swoverflow"] == "1" else l)
        return v, hs, sw
    except Exception:      # an edit may leave an experiment that makes no sense
        return [], [], []
    finally:
        x.close()


def minimise(prop, seed, v0, budget=60):
    T = time.time()
    cats = {category(m) for m in v0}
    spec = scenarios.make(prop, seed)
    orig = clean(copy.deepcopy(spec))
    tries = [0]

    def bad(s):
        tries[0] += 1
        v, hs, sw = execute(prop, s)
        if any(category(m) in cats for m in v):
            return v, hs, sw
        return None

    r = bad(spec)
    if r is None:
        r = bad(spec) or bad(spec)
        if r is None:
            return None
    best, res = spec, r

    def attempt(edit):
        nonlocal best, res
        if time.time() - T > budget:
            return False
        s = clean(copy.deepcopy(best))
        if edit(s) is False:
            return False
        q = bad(s)
        if q:
            best, res = s, q
            return True
        return False
    # episodes from the end, then from the start
    while len(best["episodes"]) > 1 and attempt(lambda s: s["episodes"].pop() and None):
        pass
    while len(best["episodes"]) > 1 and attempt(lambda s: s["episodes"].pop(0) and None):
        pass
    for n in range(len(best["episodes"])):
        i = 0
        while i < len(best["episodes"][n]["faults"]):
            if not attempt(lambda s: s["episodes"][n]["faults"].pop(i) and None):
                i += 1

        def knob(k, val):
            def ed(s):
                pl = s["episodes"][n]["plan"]
                if pl.get(k, val) == val:
                    return False
                pl[k] = val
            return ed
        for k, val in (("p_stall", 0), ("p_short", 0), ("p_spurious", 0), ("noise_pct", 0), ("stubborn_pct", 0), ("grand_pct", 0), ("tok_pct", 0),
                       ("mk_target_pct", 0), ("readdir_shuffle", 0), ("term_delay_max", 0), ("edge_mean", 0)):
            attempt(knob(k, val))
        for p in range(len(best["episodes"][n]["procs"])):
            for k in list(best["episodes"][n]["procs"][p]["opts"]):
                attempt(lambda s: s["episodes"][n]["procs"][p]["opts"].pop(k, None) and None)
    # schedule: make it explicit, then remove switches in halving chunks
    explicit = False
    if all(x is not None for x in res[2]):
        def ed(s):
            for ep, sw in zip(s["episodes"], res[2]):
                ep["sched"] = sw
        explicit = attempt(ed)
    nsw0 = sum(len(ep.get("sched") or []) for ep in best["episodes"])
    if explicit:
        for n in range(len(best["episodes"])):
            chunk = max(1, len(best["episodes"][n]["sched"]))
            while chunk >= 1 and time.time() - T < budget:
                i = 0
                while i < len(best["episodes"][n]["sched"]) and time.time() - T < budget:
                    def ed(s):
                        del s["episodes"][n]["sched"][i:i + chunk]
                    if not attempt(ed):
                        i += chunk
                chunk //= 2
    # the reported run is the minimised one, run once more
    v, hs, sw = execute(prop, best)
    if not any(category(m) in cats for m in v):
        best = spec
        v, hs, sw = execute(prop, best)
        if not v:
            v = v0
    nsw = sum(len(ep.get("sched") or []) for ep in best["episodes"])
    return {"property": prop, "seed": seed, "flavour": spec["flavour"], "violations": v[:20], "tracehash": hs,
            "summary": f"{len(best['episodes'])} episode(s), {sum(len(e['faults']) for e in best['episodes'])} fault(s), "
                       + (f"{nsw} of {nsw0} task switches" if explicit else "seeded schedule") + f", {tries[0]} runs to minimise",
            "spec": clean(best), "original_spec": orig}
