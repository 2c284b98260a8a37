"""The property oracles.  Each takes a finished experiment and a Counter of probes and returns violations (strings)."""
import collections
import json
import os
import re
import tomllib

import model as M
from model import PRun, attr, mut_key, json_key, by_key
from gen import mutated

MAYBE_KILL = 0.05   # polling interval
GRACE = 60.0        # within which a command that ignores SIGTERM has to be gone


def is_list(o):
    return bool(o.get("list") or o.get("list_files"))


def prep(exp):
    """All processes of all episodes as PRun, with the --iterate record found on disk before each."""
    if getattr(exp, "pruns", None) is not None:
        return exp.pruns
    out = []
    prev = None
    for n, ep in enumerate(exp.eps):
        row = []
        for p in range(len(ep.spec["procs"])):
            pr = PRun(ep, p)
            pr.epn = n
            pr.single = len(ep.spec["procs"]) == 1
            pr.disk_skip = set()
            pr.islist = is_list(pr.o)
            if pr.o.get("iterate") and prev is not None and not ep.spec.get("rm"):
                d = prev.outs.get(pr.parent, {}).get("mutants.out")
                for f in ("caught.txt", "unviable.txt", "previously_caught.txt"):
                    pr.disk_skip.update((pr.text(f, d or {}) or "").splitlines())
            oc = ep.spec["plan"].get("op_cost_max", 0)
            pr.slack = 0.3 + ep.stall + 5000 * oc * 1e-9
            row.append(pr)
        out.append(row)
        prev = ep
    exp.pruns = out
    return out


def probe_failed(pr):
    """An existence check of something in the source tree was made to fail: it then counts as absent, as Path::exists() has it, and
    what is to be tested is not known."""
    return any(f[5] in (R_OP("STAT"), R_OP("REALPATH")) and f[6].startswith(pr.h.root + "/ws") for f in pr.errf)


def runs(exp, single=True, selection=False):
    for row in prep(exp):
        for pr in row:
            if not pr.islist and (pr.single or not single) and not (selection and probe_failed(pr)):
                yield pr


def sel_of(pr):
    """Mutants this run has to test, or for shards: those it claims, which must be among the selected."""
    s = [m for m in pr.sel if m["name"] not in pr.disk_skip]
    if pr.o.get("shard"):
        mj = pr.js("mutants.json")
        if isinstance(mj, list):
            ks = {json_key(j) for j in mj}
            s = [m for m in s if mut_key(m) in ks]
    return s


def short(s, n=6):
    s = sorted(s)
    return ", ".join(s[:n]) + (f" … ({len(s)})" if len(s) > n else "")


def json_names(pr, lst):
    bk = by_key(pr.tree)
    out = []
    for j in lst:
        m = bk.get(json_key(j))
        out.append(m["name"] if m else "unknown:" + repr(json_key(j)))
    return out


def multiset_diff(exp, got):
    a, b = collections.Counter(exp), collections.Counter(got)
    miss, extra = list((a - b).elements()), list((b - a).elements())
    return miss, extra


def outcome_entries(pr, oc):
    """-> (baseline entries, [(name, entry)])"""
    base, muts = [], []
    bk = by_key(pr.tree)
    for x in oc["outcomes"]:
        sc = x["scenario"]
        if sc == "Baseline":
            base.append(x)
        else:
            m = bk.get(json_key(sc["Mutant"]))
            muts.append((m["name"] if m else "unknown:" + repr(json_key(sc["Mutant"])), x))
    return base, muts


def complete_results(pr, d=None, verdicts=True):
    """Problems with the results of a run that ended normally with a passing or skipped baseline."""
    e = []
    want = [m["name"] for m in sel_of(pr)]
    mj = pr.js("mutants.json", d)
    if not isinstance(mj, list):
        return ["mutants.json is missing or does not parse"]
    miss, extra = multiset_diff(want, json_names(pr, mj))
    if miss or extra:
        e.append(f"mutants.json: missing {short(miss)}; extra {short(extra)}")
    if not want:
        return e
    oc = pr.js("outcomes.json", d)
    if not isinstance(oc, dict):
        return e + ["outcomes.json is missing or does not parse"]
    base, muts = outcome_entries(pr, oc)
    miss, extra = multiset_diff(want, [n for n, _ in muts])
    if miss or extra:
        e.append(f"outcomes.json: missing {short(miss)}; extra {short(extra)}")
    nb = 0 if pr.o.get("baseline_skip") else 1
    if len(base) != nb:
        e.append(f"outcomes.json has {len(base)} baseline entries, expected {nb}")
    by = collections.Counter(x["summary"] for _, x in muts)
    lists = {k: pr.lines(k, d) for k in M.LISTS}
    for k in M.LISTS:
        t = pr.text(k, d)
        if t is None:
            e.append(f"{k} is missing")
        elif t and not t.endswith("\n"):
            e.append(f"{k} does not end with a newline")
    for summ, fn in M.SUMMARY_LIST.items():
        exp = [n for n, x in muts if x["summary"] == summ]
        miss, extra = multiset_diff(exp, lists[fn])
        if miss or extra:
            e.append(f"{fn}: missing {short(miss)}; extra {short(extra)}")
    cnt = {"total_mutants": len(muts), "missed": by["MissedMutant"], "caught": by["CaughtMutant"],
           "timeout": by["Timeout"], "unviable": by["Unviable"], "success": by["Success"]}
    for k, v in cnt.items():
        if oc.get(k) != v:
            e.append(f"outcomes.json {k}={oc.get(k)} but there are {v} such entries")
    return e


# ------------------------------------------------------------------ C01
def C01(exp, P):
    e = []
    for pr in runs(exp, selection=True):
        if pr.out is None:
            continue
        seen = collections.Counter()
        tested = {}
        for n, cs in pr.mut_cmds.items():
            k = collections.Counter(c.phase for c in cs)
            for ph, cnt in k.items():
                if cnt > 1:
                    e.append(f"{ph} command of mutant {n} was run {cnt} times")
            tested[n] = cs
        if not pr.benign:
            # interrupted or failed runs: never twice, never wrong
            oc = pr.outcomes
            if isinstance(oc, dict):
                _, muts = outcome_entries(pr, oc)
                dup = [n for n, c in collections.Counter(n for n, _ in muts).items() if c > 1]
                if dup:
                    e.append(f"outcomes.json has duplicate entries: {short(dup)}")
            for f in M.LISTS:
                if not pr.killed:
                    dup = [n for n, c in collections.Counter(pr.lines(f)).items() if c > 1]
                    if dup:
                        e.append(f"{f} has duplicate lines: {short(dup)}")
            P["stopped early"] += 1
            continue
        if pr.base_state in ("failed", "none") and pr.sel:
            continue
        want = {m["name"] for m in sel_of(pr)}
        P["complete runs"] += 1
        P["mutants tested"] += len(tested)
        miss, extra = want - set(tested), set(tested) - want
        if miss:
            e.append(f"selected but never tested: {short(miss)}")
        if extra:
            e.append(f"tested but not selected: {short(extra)}")
        e += complete_results(pr)
    # shards of one sweep: together exactly once
    sh = [pr for pr in runs(exp) if pr.o.get("shard")]
    if sh and all(pr.benign for pr in sh):
        k = sh[0].o["shard"][1]
        if sorted(pr.o["shard"][0] for pr in sh) == list(range(k)) and all(pr.o["shard"][1] == k for pr in sh):
            allt = [n for pr in sh for n in pr.mut_cmds]
            miss, extra = multiset_diff([m["name"] for m in sh[0].sel], allt)
            P["shard sweeps"] += 1
            if miss or extra:
                e.append(f"{k} shards together: never tested {short(miss)}; tested more than once {short(extra)}")
    return e


# ------------------------------------------------------------------ C02
def nonsrc(h, tree, snap):
    s = h.snaps[snap]
    skip = set(tree["codes"]) | set(tree["alias"].values())
    return {k: v for k, v in s.items() if k not in skip}


def C02(exp, P):
    e = []
    for pr in runs(exp, single=False):
        h = pr.h
        first = {}
        nbase = 0
        bycwd = {}
        seen_mut = False
        for c in pr.cmds:
            a = pr.attr(c)
            P["commands"] += 1
            if a[0] == "bad":
                e.append(f"{c.phase} command {c.c} in {c.cwd}: {a[1]}")
            elif a[0] == "base":
                nbase += 1
                if seen_mut or nbase > len(M.phases(pr.o)) or pr.o.get("baseline_skip"):
                    e.append(f"{c.phase} command {c.c} ran on an unmutated tree although it is not a baseline command")
            else:
                seen_mut = True
            if c.endsnap >= 0 and c.endsnap != c.snap and not c.orphan:
                e.append(f"the tree changed while {c.phase} command {c.c} ran in {c.cwd}")
            if c.snap >= 0:
                ns = nonsrc(h, pr.tree, c.snap)
                f = first.setdefault(c.cwd, ns)
                if f != ns:
                    diff = [k for k in set(f) | set(ns) if f.get(k) != ns.get(k)]
                    e.append(f"files other than the mutated one changed in {c.cwd}: {short(diff)}")
            bycwd.setdefault(c.cwd, []).append(c)
        for cwd, cs in bycwd.items():
            for x, y in zip(cs, cs[1:]):
                if x.i1 is None or x.i1 > y.i0:
                    e.append(f"commands {x.c} and {y.c} run at the same time in {cwd}")
        # consecutive phases of one scenario see the same tree
        if pr.single and pr.out:
            oc = pr.outcomes
            if isinstance(oc, dict):
                toks = {}
                _, muts = outcome_entries(pr, oc)
                for n, x in muts:
                    t = pr.text(x["log_path"]) or ""
                    for k in re.findall(r"SIMTOKEN (\d+) begin", t):
                        c = h.by_c.get(int(k))
                        if c is None or c.phase in ("meta",):
                            continue
                        a = pr.attr(c)
                        P["attributed commands"] += 1
                        if a[0] == "mut" and a[1]["name"] != n:
                            e.append(f"a {c.phase} command attributed to {n} ran on the tree of {a[1]['name']}")
    return e


# ------------------------------------------------------------------ C03
def C03(exp, P):
    e = []
    for pr in runs(exp):
        if pr.out is None:
            continue
        for n, cs in pr.mut_cmds.items():
            b = None
            for c in cs:
                if c.phase == "test":
                    if b is None or pr.status(b) != "Success" or b.ireap > c.i0:
                        e.append(f"test of {n} ran although its build had not succeeded")
                else:
                    b = c
        oc = pr.outcomes
        if not isinstance(oc, dict):
            continue
        base, muts = outcome_entries(pr, oc)
        for n, x in [("Baseline", b) for b in base] + muts:
            cs = pr.base_cmds if n == "Baseline" else pr.mut_cmds.get(n, [])
            P["verdicts " + x["summary"]] += 1
            if n != "Baseline":
                v = pr.verdict(cs)
                if v != x["summary"]:
                    e.append(f"{n} recorded as {x['summary']} but its commands say {v}: "
                             + str([(c.phase, pr.status(c)) for c in cs]))
                    continue
                for c in cs:
                    if pr.status(c) == "Timeout" and not over_limit(pr, c):
                        e.append(f"{n} recorded as timed out but its {c.phase} command was not over its limit")
            rec = [(p["phase"].lower(), p["process_status"]) for p in x["phase_results"]]
            act = [(c.phase, pr.status(c)) for c in cs]
            if rec != act:
                e.append(f"{n}: recorded phases {rec}, actual {act}")
                continue
            for p, c in zip(x["phase_results"], cs):
                av = p["argv"]
                if av[1:] != c.argv:
                    e.append(f"{n}: recorded argv {av} but ran {c.argv}")
            if n == "Baseline":
                want = "Success" if all(s == "Success" for _, s in act) else \
                    "Timeout" if any(s == "Timeout" for _, s in act) else "Failure"
                if x["summary"] != want and not (want == "Failure" and x["summary"] in ("Failure", "Unviable")):
                    e.append(f"baseline recorded as {x['summary']}, its commands say {want}")
        # conversely, finished mutants are recorded (all of them in a run that ended normally)
        if pr.benign and pr.base_state in ("ok", "skip"):
            rec = {n for n, _ in muts}
            for n, cs in pr.mut_cmds.items():
                v = pr.verdict(cs)
                if v and n not in rec:
                    e.append(f"{n} finished as {v} but is not recorded")
    return e


def over_limit(pr, c):
    """Could this command have been killed for its time limit?  (lenient lower bound)"""
    k = pr.timed(c)
    lo, _ = phase_limit(pr, c)
    if k is None or lo is None:
        return False
    return k[1] - c.t0 >= lo - pr.slack


def base_durs(pr):
    """phase -> (shortest, longest) duration the tool can have measured for the baseline phase"""
    d = {}
    for c in pr.base_cmds:
        if c.ireap is not None and c.t1 is not None:
            d[c.phase] = (c.t1 - c.t0, c.reap - c.t0 + pr.slack)
    return d


def phase_limit(pr, c):
    """(earliest, latest) limit of a command in seconds, from the options; (None, None) if unlimited; 0 = unspecified."""
    o = pr.o
    base = pr.attr(c)[0] == "base" and not o.get("baseline_skip")
    if c.phase == "test":
        if o.get("timeout") is not None:
            return float(o["timeout"]), float(o["timeout"])
        if base:
            return None, None
        if o.get("baseline_skip"):
            return 300.0, 300.0
        mult = 5.0 if o.get("timeout_mult") is None else float(o["timeout_mult"])
        mn = 20.0 if o.get("min_timeout") is None else float(o["min_timeout"])
        d = base_durs(pr).get("test")
        if d is None:
            return 0.0, 1e18
        return max(mn, d[0] * mult), max(mn, d[1] * mult + 1.0)
    if o.get("build_timeout") is not None:
        return float(o["build_timeout"]), 1e18 if base else float(o["build_timeout"])   # (the documentation leaves the baseline open)
    if base or o.get("build_timeout_mult") is None:
        return None, None
    if c.phase == "check" or o.get("baseline_skip"):
        return 0.0, 1e18  # not specified
    d = base_durs(pr).get("build")
    if d is None:
        return 0.0, 1e18
    m = float(o["build_timeout_mult"])
    return d[0] * m, d[1] * m + 1.0


# ------------------------------------------------------------------ C04
def panicky(pr):
    return any(f[5] in (R_OP("THREAD"), R_OP("PIPE")) for f in pr.errf)


def R_diff_name(d):
    import run
    return run.diff_name(d)


def R_OP(n):
    import run
    return run.OPNAMES.index(n)


def C04(exp, P):
    e = []
    for pr in runs(exp, selection=True):
        if pr.exit is None:
            continue
        if pr.errf and (pr.o.get("shard") or pr.o.get("iterate")):
            continue
        sel = sel_of(pr)
        P[f"exit {pr.code if not pr.sig else 'signal'}"] += 1
        if pr.sig:
            if pr.sig != 9 and any(s[4] == "handler" and s[3] == pr.sig for s in pr.sigs):
                e.append(f"died of signal {pr.sig} although its handler was installed")
            elif not any(s[3] == pr.sig for s in pr.sigs):
                e.append(f"died of signal {pr.sig} that nobody sent")
            continue
        exp_code = pr.expected_code() if sel else 0
        bs = pr.base_state
        done = not sel or bs == "failed" or (bs in ("ok", "skip") and all(pr.verdict(pr.mut_cmds.get(m["name"], [])) for m in sel))
        if pr.benign:
            if not done:
                e.append(f"exit {pr.code}, but the run was not complete (baseline {bs})")
            elif pr.code != exp_code:
                e.append(f"exit status {pr.code}, expected {exp_code}")
            continue
        if pr.code in (0, 2, 3):
            if not done or pr.code != exp_code:
                e.append(f"exit status {pr.code} from a run that was stopped (baseline {bs}, complete={done}, expected {exp_code if done else 1})")
        elif pr.code == 4:
            if bs != "failed":
                e.append("exit status 4 although the baseline did not fail")
        elif pr.code == 101 and (panicky(pr) or pr.conf):
            pass
        elif pr.code != 1:
            e.append(f"unexpected exit status {pr.code}: {pr.ep.stderr[pr.p][-300:]}")
    return e


# ------------------------------------------------------------------ C05
def C05(exp, P):
    e = []
    for pr in runs(exp, selection=True):
        ph = M.phases(pr.o)
        skip = pr.o.get("baseline_skip")
        muts = [c for c in pr.cmds if pr.attr(c)[0] != "base"]
        base = pr.base_cmds
        if pr.h.limit:
            e += never_stopped(pr, base)
            continue
        if skip:
            P["baseline skipped"] += 1
            if base:
                e.append("a command ran on the unmutated tree although the baseline is skipped")
            continue
        firstm = min((c.i0 for c in muts), default=None)
        good = [c for c in base if c.ireap is not None and pr.status(c) == "Success"]
        if firstm is not None:
            P["baseline then mutants"] += 1
            ok = [c.phase for c in base if c.ireap is not None and c.ireap < firstm and pr.status(c) == "Success"]
            if ok != ph:
                e.append(f"mutated code was run before the baseline had passed (baseline phases passed: {ok})")
        if pr.base_state == "failed":
            P["baseline failed"] += 1
            if muts:
                e.append("mutants were run after the baseline failed")
            oc = pr.outcomes
            if pr.benign:
                if pr.code != 4:
                    e.append(f"baseline failed but exit status is {pr.code}: {pr.ep.stderr[pr.p][-300:]}")
                if not isinstance(oc, dict) or [x["scenario"] for x in oc["outcomes"]] != ["Baseline"]:
                    e.append("baseline failed but outcomes.json does not hold exactly the baseline outcome")
                for f in M.LISTS:
                    if pr.text(f):
                        e.append(f"baseline failed but {f} is not empty")
        elif pr.benign and sel_of(pr) and pr.base_state != "ok":
            e.append(f"the baseline was not run to completion (state {pr.base_state})")
    return e


# ------------------------------------------------------------------ C06
def C06(exp, P):
    e = []
    for row in prep(exp):
        for pr in row:
            if pr.o.get("in_place"):
                return e
    created_parents = set()
    for row in prep(exp):
        ep = row[0].ep
        h = ep.h
        root = h.root
        parents = set()
        for pr in row:
            parents.add(os.path.normpath(pr.parent.replace("@", root)))
        own_tmp = set()
        for (i, t, p, task, op, path, path2, err, fl) in h.fs:
            if err != 0:
                continue
            P["file system changes audited"] += 1
            for q in (path, path2):
                if q is None:
                    continue
                q = os.path.normpath(q)
                if q.startswith(root + "/tmp/"):
                    continue
                ok = False
                for par in parents:
                    if q == par + "/mutants.out" or q == par + "/mutants.out.old" or q.startswith(par + "/mutants.out/") \
                            or q.startswith(par + "/mutants.out.old/"):
                        ok = True
                    if q == par and op == "mkdir":
                        ok = True
                if q.startswith("/dev/") and not q.startswith(root + "/"):
                    ok = True
                if not ok:
                    e.append(f"{op} of {q.replace(root, '@')} by the run (outside output and temporary directories)")
        created_parents |= {par for par in parents}
        before, after = ep.ws_before, ep.ws
        for k in sorted(set(before) | set(after)):
            full = root + "/ws/" + k
            if any(full == par or full.startswith(par + "/mutants.out") for par in created_parents if par != root + "/ws"):
                continue
            if before.get(k) != after.get(k):
                e.append(f"source tree changed: {k} is {brief(after.get(k))}, was {brief(before.get(k))}")
                break
        want = None
        for (i, t, n) in h.wsnaps:
            P["source tree compared while commands run"] += 1
            got = h.snaps[n]
            got = {k: v for k, v in got.items() if not (v[0] == "D" and f"{root}/ws/{k}" in created_parents)}
            if want is None:
                want = ws_snap(before, root)
            if got != want:
                d = [k for k in set(got) | set(want) if got.get(k) != want.get(k)]
                e.append(f"the source tree differs while a command starts or ends: {short(d)}")
                break
        own = {k.split("/")[0] for k in exp.spec["tree"].get("home", {})}
        own |= {R_diff_name(pr["opts"]["in_diff"])[5:] for ep_ in exp.spec["episodes"] for pr in ep_["procs"] if pr["opts"].get("in_diff") is not None}
        home = [x for x in ep.home if f"{root}/home/{x}" not in created_parents and x not in own]
        if home:
            e.append(f"files appeared in the home directory: {home}")
        okx = {d.split("/")[0] for d in exp.spec.get("mkdirs", [])} | {os.path.relpath(x, root).split("/")[0] for x in created_parents}
        for x in ep.extra:
            if x not in okx:
                e.append(f"unexpected {x} created beside the tree")
    return e


def ws_snap(before, root):
    """The entries of a scanned tree as the simulator's snapshots describe them."""
    out = {}
    for k, v in before.items():
        if any(x in ("mutants.out", "mutants.out.old") for x in k.split("/")):
            continue
        if v[0] == "d":
            out[k] = ("D", f"{v[1]:o}", "0", "0")
        elif v[0] == "l":
            out[k] = ("L", "0", "0", "@" + v[1][len(root):] if v[1] == root or v[1].startswith(root + "/") else v[1])
        elif v[0] == "o":
            out[k] = ("O", "0", "0", "0")
        else:
            out[k] = ("F", f"{v[1]:o}", str(len(v[2])), f"{fnv(v[2]):016x}")
    return out


def fnv(b):
    h = 0xcbf29ce484222325
    for x in b:
        h = (h ^ x) * 0x100000001b3 & 0xffffffffffffffff
    return h


def brief(x):
    if x is None:
        return "absent"
    if x[0] == "f":
        return f"file {x[1]:o} {len(x[2])} bytes"
    return str(x)


# ------------------------------------------------------------------ C07
def restoring_fault(pr, f):
    """Did an injected error hit the write that restores file f (or one after it)?"""
    h = pr.h
    tgt = pr.tree["alias"].get(f, f)
    paths = {h.root + "/ws/" + f, h.root + "/ws/" + tgt}
    npth = {p.replace(" ", "?") for p in paths}
    fl = [x for x in pr.errf if x[6] in npth]
    if not fl:
        return False
    if len(fl) > 1:
        return True
    i = fl[0][0]
    op = fl[0][5]
    last = None
    for c in pr.cmds:
        a = pr.attr(c)
        if a[0] == "mut" and a[1]["file"] in (f, tgt) and c.i1 is not None and c.i1 < i:
            last = c.i1
    if last is None:
        return False
    opens = [x for x in h.fs if last < x[0] < i and x[4].startswith("open") and x[5] in npth and x[7] == 0]
    if op == R_OP("WRITE") or op == R_OP("FTRUNC") or op == R_OP("CLOSE"):
        return len(opens) == 1
    return len(opens) == 0


def C07(exp, P):
    e = []
    for pr in runs(exp):
        if not pr.o.get("in_place") or pr.exit is None:
            continue
        muts = set()
        for c in pr.cmds:
            for s in (c.snap, c.endsnap):
                if s < 0:
                    continue
                a = attr(pr.h, pr.tree, s)
                if a[0] == "bad" and not c.orphan:
                    e.append(f"during command {c.c}: {a[1]}")
        P["in-place runs"] += 1
        if pr.sig:
            P["killed (not checked)"] += 1
            continue
        P[f"in-place exit {pr.code}"] += 1
        before, after = pr.ep.ws_before, pr.ep.ws
        par = pr.parent.replace("@/ws", "").strip("/")
        for k in sorted(set(before) | set(after)):
            if before.get(k) == after.get(k):
                continue
            if k == "target" and before.get(k) is None:
                continue
            if pr.parent.startswith("@/ws/") and (k == par or k.startswith(par + "/mutants.out")):
                continue
            inv = {v: kk for kk, v in pr.tree["alias"].items()}
            f = inv.get(k, k)
            if restoring_fault(pr, f):
                P["restoring write refused by the file system"] += 1
                continue
            e.append(f"{k} was not restored: {brief(after.get(k))}, was {brief(before.get(k))} (exit {pr.code})")
    return e


# ------------------------------------------------------------------ C08
def never_stopped(pr, cmds):
    """Commands that hang beyond their limit in a run that was given up."""
    e = []
    for c in cmds:
        hi = phase_limit(pr, c)[1] if pr.attr(c)[0] != "bad" else None
        if hi is not None and c.t1 is None and not c.kills and pr.h.tlimit > c.t0 + hi + 3600 + pr.slack:
            e.append(f"{c.phase} command {c.c} hangs and is never stopped although its limit is {hi:.3f}s")
    return e


def C08(exp, P):
    e = []
    for pr in runs(exp):
        if pr.handled or pr.killed:
            continue
        if pr.h.limit:
            for c in pr.cmds:
                if pr.timed(c) and c.t1 is None:
                    e.append(f"timed-out {c.phase} command {c.c} is never got rid of; the run does not go on")
            e += never_stopped(pr, pr.cmds)
            continue
        for c in pr.cmds:
            if pr.attr(c)[0] == "bad":
                continue
            k = pr.timed(c)
            lo, hi = phase_limit(pr, c)
            if k:
                P["killed for timeout"] += 1
                if lo is None:
                    e.append(f"{c.phase} command {c.c} was killed although it has no time limit")
                elif k[1] - c.t0 < lo - (0.05 + pr.slack - 0.3):
                    e.append(f"{c.phase} command {c.c} was killed after {k[1] - c.t0:.3f}s, before its limit of {lo:.3f}s")
                for g in c.grands:
                    if (g.t1 is None or g.i1 > k[0]) and not any(x[0] >= k[0] for x in g.kills):
                        e.append(f"process {g.c} of the group of timed-out command {c.c} was not killed")
                if c.ireap is None and not pr.errf:
                    e.append(f"timed-out command {c.c} was never waited for")
                if c.stubborn:
                    P["timed-out command ignores SIGTERM"] += 1
                    if c.t1 is not None and c.t1 - k[1] > GRACE + pr.slack:
                        e.append(f"timed-out command {c.c}, which ignores SIGTERM, ran on for {c.t1 - k[1]:.1f}s")
            if hi is not None and c.t1 is not None:
                live = (k[1] if k else c.t1) - c.t0
                if live > hi + MAYBE_KILL + pr.slack:
                    e.append(f"{c.phase} command {c.c} ran {live:.3f}s although its limit was {hi:.3f}s")
                if live > hi - 0.2 and not k:
                    P["ended just below the limit"] += 1
            if hi is not None and c.poll4 > c.t0 + hi + 0.01:
                e.append(f"{c.phase} command {c.c} was found still running {c.poll4 - c.t0:.3f}s after its start, and three more times, before it "
                         f"was stopped or ended; its limit was {hi:.3f}s")
            if c.t1 is not None and c.ireap is not None and c.reap - c.t1 > MAYBE_KILL + pr.slack:
                e.append(f"the end of {c.phase} command {c.c} was noticed only {c.reap - c.t1:.3f}s later")
        oc = pr.outcomes if pr.out else None
        if isinstance(oc, dict) and pr.benign:
            base, muts = outcome_entries(pr, oc)
            rec = dict(muts)
            for n, cs in pr.mut_cmds.items():
                if any(pr.timed(c) for c in cs):
                    if n not in rec or rec[n]["summary"] != "Timeout":
                        e.append(f"{n} was killed for its limit but is recorded as {rec[n]['summary'] if n in rec else 'nothing'}")
            for x, cs in [(b, pr.base_cmds) for b in base] + [(x, pr.mut_cmds.get(n, [])) for n, x in muts]:
                for p, c in zip(x["phase_results"], cs):
                    if c.t1 is None or c.reap is None:
                        continue
                    if not (c.t1 - c.t0 - 0.001 <= p["duration"] <= c.reap - c.t0 + pr.slack):
                        e.append(f"recorded duration of {c.phase} is {p['duration']:.3f}s; it really ran {c.t1 - c.t0:.3f}s (reaped after {c.reap - c.t0:.3f}s)")
            want = {m["name"] for m in sel_of(pr)}
            if pr.base_state in ("ok", "skip") and want - set(pr.mut_cmds):
                e.append(f"after a timeout the run did not go on: untested {short(want - set(pr.mut_cmds))}")
    return e


# ------------------------------------------------------------------ C09
def C09(exp, P):
    e = []
    for pr in runs(exp, single=False):
        if not pr.handled or pr.killed:
            continue
        i, T = pr.handled[0][0], pr.handled[0][1]
        if any(s[0] < i for s in pr.sigs):
            continue
        P[f"interrupted by signal {pr.handled[0][3]}"] += 1
        td = pr.ep.spec["plan"].get("term_delay_max", 0) / 1e9
        new = collections.Counter()
        for c in pr.cmds:
            # (the thread that takes note of the signal may have been stalled, or waited for its turn)
            if c.i0 > i and c.t0 >= T + pr.ep.stall + 0.03:
                new[c.cwd] += 1
        for cwd, n in new.items():
            P["command launched across the signal"] += n
            if n > 1:
                e.append(f"{n} commands were started in {cwd} after the signal")
        pl = pr.ep.spec["plan"]
        if "bigtree" in pr.tree["feats"] and not pr.ep.stall and pl["p_switch"] >= 2000:
            # every task gets its turn often enough for the signal to have been taken note of after some files
            n = collections.Counter(x[5][len(pr.h.root):].split("/")[2] for x in pr.h.fs if x[0] > i and x[2] == pr.p and x[4] == "open"
                                    and x[8] & 0o100 and not x[7] and x[5].startswith(pr.h.root + "/tmp/"))
            P["interrupted while or before copying a large tree"] += bool(n)
            for d, k in n.items():
                P["copied after the signal: " + ("0-3" if k < 4 else "4-29" if k < 30 else "30+") + " files"] += 1
                if k > 120:
                    e.append(f"{k} files were still copied to {d} after the signal")
        cut = {}
        for c in pr.cmds:
            if c.i1 is not None and c.i1 < i:
                continue
            st = max(T, c.t0)
            k = pr.timed(c)
            if k is None and not pr.errf:
                if c.t1 is None or c.t1 - st > MAYBE_KILL + pr.slack:
                    e.append(f"{c.phase} command {c.c} was running at the signal but was neither terminated nor ended by itself")
            if k is not None and k[0] > i:
                P["running command terminated"] += 1
                if k[1] - st > MAYBE_KILL + pr.slack:
                    e.append(f"{c.phase} command {c.c} was terminated only {k[1] - st:.3f}s after the signal")
                lo, _ = phase_limit(pr, c)
                if lo is None or k[1] - c.t0 < lo - pr.slack:
                    cut[c.c] = c
                for g in c.grands:
                    if (g.t1 is None or g.i1 > k[0]) and not any(x[0] >= k[0] for x in g.kills):
                        e.append(f"process {g.c} of the group of interrupted command {c.c} was not sent a signal")
            if c.ireap is None and not pr.errf:
                e.append(f"{c.phase} command {c.c} outlived the interrupted run (never waited for)")
        if pr.exit is None:
            e.append("the interrupted run did not exit")
            continue
        late = pr.exit[1] - T
        P["exit after signal <1s" if late < 1 else "exit after signal >=1s"] += 1
        if any(c.stubborn and (c.i1 is None or c.i1 > i) for c in pr.cmds):
            P["interrupted command ignores SIGTERM"] += 1
            td += GRACE
        if late > td + 1.0 + 2 * pr.slack:
            e.append(f"exit only {late:.2f}s after the signal")
        if pr.code == 0 and not (not sel_of(pr) or pr.complete):
            e.append("an interrupted, incomplete run exited with status 0")
        if pr.single and pr.out and isinstance(pr.outcomes, dict):
            _, muts = outcome_entries(pr, pr.outcomes)
            rec = dict(muts)
            for n, cs in pr.mut_cmds.items():
                if any(c.c in cut for c in cs):
                    if n in rec:
                        e.append(f"{n} was interrupted mid-test but is recorded as {rec[n]['summary']}")
                    for f in M.LISTS:
                        if n in pr.lines(f):
                            e.append(f"{n} was interrupted mid-test but is listed in {f}")
    return e


# ------------------------------------------------------------------ C10
REMOVAL = ("UNLINK", "RMDIR", "OPENDIR", "READDIR", "STAT", "OPENR", "CHMOD")


def C10(exp, P):
    e = []
    for row in prep(exp):
        if len(row) != 1:
            continue
        pr = row[0]
        ep = pr.ep
        if pr.exit is None or pr.sig:
            return e   # later episodes inherit its leftovers
        if pr.islist:
            continue
        P[f"exit {pr.code}"] += 1
        used = sorted({c.cwd for c in pr.cmds})
        tops = sorted({k.split("/")[0] for k in ep.tmp})
        made = {x[5].split("/")[-1] for x in pr.h.fs if x[4] == "mkdir" and x[7] == 0 and os.path.dirname(x[5]) == pr.h.root + "/tmp"}
        P["scratch directories"] += len(made)
        if pr.o.get("leak_dirs"):
            if pr.o.get("in_place"):
                continue
            for u in used:
                b = os.path.basename(u)
                if b not in tops:
                    e.append(f"--leak-dirs, but build directory {b} is gone")
                elif not pr.errf:
                    for f, code in pr.tree["codes"].items():
                        x = ep.tmp.get(f"{b}/{f}")
                        if x and x[0] == "f" and M.norm(x[2]) != code:
                            e.append(f"leaked build directory still contains a mutation in {f}")
            P["leaked directories checked"] += len(used)
            return e
        refused = any(f[6].startswith(pr.h.root + "/tmp") and f[5] in [R_OP(x) for x in REMOVAL] for f in pr.errf) \
            or any(f["kind"] == 1 and f.get("persist") and f["cls"] != "SRC" and any(x in f["ops"] for x in REMOVAL) for f in ep.spec["faults"])
        if tops and not refused:
            e.append(f"temporary directories left behind (exit {pr.code}): {short(tops)}")
        if tops:
            return e
    return e


# ------------------------------------------------------------------ C11
def C11(exp, P):
    """Ownership of mutants.out instances replayed from the trace."""
    e = []
    kf = []
    for row in prep(exp):
        ep = row[0].ep
        h = ep.h
        root = h.root
        byp = {pr.p: pr for pr in row}
        for parent in {pr.parent for pr in row}:
            par = os.path.normpath(parent.replace("@", root))
            OUT, OLD = par + "/mutants.out", par + "/mutants.out.old"
            # interval of taking over the directory, per process
            setup = {}
            for x in h.fs:
                if x[5].startswith(OUT) or x[5] == par and x[4] == "mkdir":
                    s = setup.setdefault(x[2], [x[0], None])
                    if s[1] is None and x[5] == OUT + "/debug.log" and x[4] == "open" and x[7] == 0:
                        s[1] = x[0]
            for p, s in setup.items():
                if s[1] is None:
                    s[1] = h.exits[p][0] if p in h.exits else 10**9

            def overlap(p, q):
                a, b = setup.get(p), setup.get(q)
                return a and b and a[0] <= b[1] and b[0] <= a[1]

            # a process whose set-up raced with another's is not protected by the lock afterwards, against anyone
            raced = {p for p in setup for q in setup if p != q and overlap(p, q)}

            def report(i, p, owner, msg):
                if owner in raced or p in raced and i > setup[p][1]:
                    raced.add(owner)
                    kf.append(msg)
                else:
                    e.append(msg)
            owner_out = owner_old = None      # process whose directory is at that path (None: from before)
            where = {}
            lastuse = {}
            for x in h.fs:
                if x[5].startswith(OUT) and x[7] == 0:
                    lastuse[x[2]] = x[0]
            for pr in row:
                for c in pr.cmds:
                    if not c.orphan:
                        lastuse[pr.p] = max(lastuse.get(pr.p, 0), c.i1 or c.i0)

            def live(p, i):
                # still using its directory: it will write there again, or a command of it is still to end
                return p is not None and lastuse.get(p, -1) > i
            for x in h.fs:
                i, t, p, task, op, path, path2, err, fl = x
                if err:
                    continue
                path = os.path.normpath(path)
                if path == OUT and op == "mkdir":
                    owner_out = p
                    where[p] = "mutants.out"
                elif op == "rename" and path == OUT:
                    if live(owner_out, i) and owner_out != p:
                        report(i, p, owner_out, f"process {p} moved away the output directory of process {owner_out}, which is still running")
                    if owner_out is not None:
                        where[owner_out] = "mutants.out.old"
                    P["rotations"] += 1
                    owner_old, owner_out = owner_out, None
                elif path == OLD or path.startswith(OLD + "/"):
                    if live(owner_old, i) and owner_old != p:
                        report(i, p, owner_old, f"process {p}: {op} in the rotated output directory of process {owner_old}, which is still running")
                    if owner_old is not None and op in ("unlink", "rmdir"):
                        where[owner_old] = None
                    if path == OLD and op == "rmdir":
                        owner_old = None
                elif path.startswith(OUT + "/"):
                    if live(owner_out, i) and owner_out != p and not (path == OUT + "/lock.json" and op == "open" and not fl & 0o1000):
                        report(i, p, owner_out, f"process {p}: {op} of {path.replace(root, '@')}, which belongs to running process {owner_out}")
            if len(row) > 1:
                P["concurrent episodes"] += 1
            # never two in use at once: commands of two processes overlapping
            span = {}
            for pr in row:
                if pr.parent == parent and pr.cmds:
                    span[pr.p] = (min(c.i0 for c in pr.cmds), max((c.i1 or 10**9) for c in pr.cmds if not c.orphan) if any(not c.orphan for c in pr.cmds) else 0)
            ps = sorted(span)
            for a in ps:
                for b in ps:
                    if a < b and span[a][0] < span[b][1] and span[b][0] < span[a][1]:
                        if a in raced or b in raced:
                            raced |= {a, b}
                        if not byp[a].killed and not byp[b].killed:
                            report(10**9, b, b if b in raced else a, f"processes {a} and {b} test mutants in the same output directory at the same time")
            for pr in row:
                if pr.parent != parent or pr.exit is None or pr.islist:
                    continue
                racing = pr.p in raced
                if pr.benign and len(row) > 1:
                    P["concurrent runs finished"] += 1
                    if pr.code not in (0, 2, 3, 4):
                        m = f"process {pr.p} failed beside other runs with status {pr.code}: {pr.ep.stderr[pr.p][-200:].strip()}"
                        (kf if racing else e).append(m)
                        continue
                if pr.code in (0, 2, 3) and where.get(pr.p, "?") is not None and pr.sel:
                    w = where.get(pr.p)
                    if w is None:
                        (kf if racing else e).append(f"process {pr.p} exited {pr.code} without an output directory of its own")
                        continue
                    d = ep.outs[parent][w]
                    if d is None:
                        (kf if racing else e).append(f"results of process {pr.p} are gone from {w}")
                        continue
                    probs = complete_results(pr, d)
                    if probs:
                        (kf if racing else e).append(f"process {pr.p} exited {pr.code} but its results in {w} are not complete: {probs[0]}")
            # the previous results are moved whole
        # sequential episodes: previous results -> mutants.out.old unchanged
    rows = prep(exp)
    for a, b in zip(rows, rows[1:]):
        if len(b) != 1 or b[0].islist or b[0].exit is None or b[0].ep.spec.get("rm"):
            continue
        pb = b[0]
        if pb.parent not in a[0].ep.outs:
            continue
        before = a[0].ep.outs[pb.parent]["mutants.out"]
        made = any(x[4] == "rename" and x[7] == 0 and x[5].endswith("/mutants.out") for x in pb.h.fs)
        if before is not None and made:
            after = pb.ep.outs[pb.parent]["mutants.out.old"]
            P["sequential rotations checked"] += 1
            dk = [k for k in set(before) | set(after or {}) if k != "lock.json" and before.get(k) != (after or {}).get(k)]
            if dk:
                e.append(f"results of the previous run were not moved whole to mutants.out.old: {short(dk)} differ")
    if kf:
        P["known race: two runs set up mutants.out at the same time"] += 1
        exp.known = [("setup-race", kf[0])]
    return e


# ------------------------------------------------------------------ C12
def C12(exp, P):
    e = []
    state = {}   # parent -> (must, may)
    for row in prep(exp):
        pr = row[0]
        ep = pr.ep
        if ep.spec.get("rm"):
            state[pr.parent] = (set(), set())
        must, may = state.get(pr.parent, (set(), set()))
        if pr.exit is None:
            return e
        sel = {m["name"] for m in pr.sel}
        it = pr.o.get("iterate")
        lo, hi = (sel - may, sel - must) if it else (sel, sel)   # has to / may be tested
        if pr.islist:
            if pr.code == 0 and not pr.errf and not pr.sigs and pr.o.get("list"):
                got = listed(pr)
                if got is not None:
                    chk(e, P, "--list", set(got), lo, hi)
            continue
        made = [x[0] for x in pr.h.fs if x[4] == "mkdir" and x[7] == 0 and x[5].endswith("/mutants.out")]
        rotated = [x[0] for x in pr.h.fs if x[4] == "rename" and x[7] == 0 and x[5].endswith("/mutants.out")]
        tested = set(pr.mut_cmds)
        P["runs in histories"] += 1
        if it:
            P["iterations"] += 1
            P["skips available"] += len(must & sel)
        if tested - hi:
            e.append(f"tested again although already caught or unviable: {short(tested - hi)}")
        if tested - sel:
            e.append(f"tested but not selected: {short(tested - sel)}")
        mj = pr.js("mutants.json") if made else None
        if isinstance(mj, list):
            chk(e, P, "mutants.json", set(json_names(pr, mj)), lo, hi)
        if pr.benign and pr.base_state in ("ok", "skip"):
            chk(e, P, "the run", tested, lo, hi)
        if pr.benign and pr.base_state == "none" and lo:
            e.append(f"nothing was tested although {short(lo)} had to be")
        # new state
        if not made:
            if rotated:
                state[pr.parent] = (set(), may)
            continue
        newmust, newmay = set(), set()
        lasts = {}
        for c in pr.cmds:
            lasts[c.cwd] = c.i0
        for n, cs in pr.mut_cmds.items():
            v = pr.verdict(cs)
            if v in ("CaughtMutant", "Unviable"):
                newmay.add(n)
                if pr.benign or (not pr.errf and lasts[cs[-1].cwd] > cs[-1].i0):
                    newmust.add(n)
        if it:
            w = [x[0] for x in pr.h.fs if x[4] == "open" and x[7] == 0 and x[5].endswith("/previously_caught.txt") and x[2] == pr.p]
            written = w and any(x[0] > w[0] for x in pr.h.fs if x[2] == pr.p) and not any(f[6].endswith("previously_caught.txt") for f in pr.errf)
            newmay |= may
            if written:
                newmust |= must
            elif pr.benign and must:
                e.append("the record of previous iterations was not written")
        state[pr.parent] = (newmust, newmay)
    return e


def chk(e, P, what, got, lo, hi):
    P["skip sets compared"] += 1
    if lo - got:
        e.append(f"{what}: skipped although not recorded as caught or unviable: {short(lo - got)}")
    if got - hi:
        e.append(f"{what}: not skipped although already caught or unviable: {short(got - hi)}")


def listed(pr):
    """Names listed by a --list process, in order, or None."""
    t = pr.ep.stdout[pr.p]
    if pr.o.get("json"):
        try:
            return json_names(pr, json.loads(t))
        except (ValueError, KeyError, TypeError):
            return None
    if pr.o.get("diff"):
        return None
    return strip_ansi(t).split("\n")[:-1]


def strip_ansi(t):
    return re.sub(r"\x1b\[[0-9;?]*[A-Za-z]", "", t)


# ------------------------------------------------------------------ C13
def C13(exp, P):
    e = []
    fulls, shards = [], {}
    sel = None
    for row in prep(exp):
        pr = row[0]
        if pr.exit is None or pr.errf or pr.sigs:
            return e
        sel = [m["name"] for m in pr.sel]
        if pr.islist:
            if pr.code != 0:
                e.append(f"--list exited with status {pr.code}: {pr.ep.stderr[0][-200:]}")
                continue
            got = listed(pr)
            if got is None:
                e.append("unreadable listing")
                continue
            if pr.o.get("shard"):
                shards.setdefault(pr.o["shard"][0], []).append(got)
                k = pr.o["shard"][1]
            else:
                fulls.append(got)
        else:
            k = pr.o["shard"][1]
            shards.setdefault(pr.o["shard"][0], []).append(sorted(pr.mut_cmds) if pr.sel else [])
            mj = pr.js("mutants.json")
            if isinstance(mj, list) and pr.base_state in ("ok", "skip"):
                if sorted(json_names(pr, mj)) != sorted(pr.mut_cmds):
                    e.append(f"shard {pr.o['shard']} tested other mutants than it recorded in mutants.json")
    for a, b in zip(fulls, fulls[1:]):
        P["full listings compared"] += 1
        if a != b:
            e.append(f"two listings of the same tree differ: first difference {next((x, y) for x, y in zip(a + [None], b + [None]) if x != y)}")
    if fulls and sel is not None:
        miss, extra = multiset_diff(sel, fulls[0])
        if miss or extra:
            e.append(f"listing: missing {short(miss)}; extra {short(extra)}")
    if shards:
        P[f"shard sweeps k={k}"] += 1
        for i, ls in shards.items():
            for x in ls[1:]:
                if x != ls[0]:
                    e.append(f"shard {i}/{k} differs between two runs")
        if sorted(shards) == list(range(k)):
            sizes = [len(ls[0]) for ls in shards.values()]
            if max(sizes) - min(sizes) > 1:
                e.append(f"shard sizes differ by more than one: {sizes}")
            miss, extra = multiset_diff(sel, [n for ls in shards.values() for n in ls[0]])
            if miss or extra:
                e.append(f"{k} shards together: missing {short(miss)}; more than once or not selected {short(extra)}")
    return e


# ------------------------------------------------------------------ C14
def expected_copy(pr):
    """path -> entry of the source tree that must be in the copy."""
    o = pr.o
    ig = o.get("gitignore")
    ig = True if ig is None else ig
    has_git = ".git" in pr.ep.ws_before
    out = {}
    for k, v in pr.ep.ws_before.items():
        parts = k.split("/")
        if v[0] == "o" or any(x in ("mutants.out", "mutants.out.old") for x in parts):
            continue
        if not o.get("copy_vcs") and any(x in M.VCS for x in parts):
            continue
        if ig and has_git and parts[0] != ".git" and any(k == x or k.startswith(x + "/") for x in pr.tree["ignored"]):
            continue
        out[k] = v
    return out


def toml_equal(a, b, base, root):
    """b is a with relative `path`s possibly made absolute against base."""
    if isinstance(a, dict) and isinstance(b, dict):
        if a.keys() != b.keys():
            return False
        for k in a:
            if k == "path" and isinstance(a[k], str) and isinstance(b[k], str):
                if not path_ok(a[k], b[k], base, root):
                    return False
            elif k == "paths" and isinstance(a[k], list):
                if len(a[k]) != len(b[k]) or not all(path_ok(x, y, base, root) for x, y in zip(a[k], b[k])):
                    return False
            elif not toml_equal(a[k], b[k], base, root):
                return False
        return True
    return a == b


def path_ok(a, b, base, root):
    if a == b:
        return not a.startswith("..")
    return os.path.normpath(os.path.join(base, a)) == os.path.normpath(b)


REWRITTEN = {"Cargo.toml": "meta/Cargo.toml", ".cargo/config.toml": "meta/cargo_config.toml", ".cargo/config": None}


def same_toml(got, src, root):
    """Is `got` the TOML `src` but for relative paths made absolute?"""
    try:
        return toml_equal(tomllib.loads(src.decode()), tomllib.loads(got.decode()), root + "/ws", root)
    except (tomllib.TOMLDecodeError, UnicodeDecodeError):
        return False


def C14(exp, P):
    e = []
    for pr in runs(exp):
        if pr.o.get("in_place"):
            continue
        if any(".git" in f[6] or f[6].endswith((".ignore", "/git/ignore")) or f[5] == R_OP("STAT") or f[5] == R_OP("REALPATH") for f in pr.errf):
            continue
        h = pr.h
        if pr.benign and pr.sel and pr.exit is not None and pr.code not in (0, 2, 3, 4):
            e.append(f"nothing failed, but the run exited with status {pr.code}: {pr.ep.stderr[pr.p][-300:]}")
        want = None
        seen = set()
        optional = set()
        if pr.parent.startswith("@/ws/"):
            q = pr.parent[len("@/ws/"):]
            while q:
                optional.add(q)
                q = q.rpartition("/")[0]
        for c in pr.cmds:
            if c.cwd in seen or c.snap < 0:
                continue
            seen.add(c.cwd)
            P["copies compared"] += 1
            if pr.errf:
                P["copies compared in runs with a failing call"] += 1
            s = h.snaps[c.snap]
            a = pr.attr(c)
            mutf = a[1]["file"] if a[0] == "mut" else None
            mutf = {mutf, pr.tree["alias"].get(mutf)}
            if want is None:
                want = expected_copy(pr)
            for k in sorted(set(want) | set(s)):
                w, g = want.get(k), s.get(k)
                if w is None:
                    if g[0] == "O":
                        continue
                    if k in optional and g[0] == "D":
                        continue
                    e.append(f"the copy contains {k}, which it should not")
                    continue
                if g is None:
                    if k == "target" and w[0] == "d":
                        continue
                    e.append(f"{k} is missing from the copy {os.path.basename(c.cwd)} in which {c.phase} ran")
                    continue
                if w[0] == "d":
                    if g[0] != "D":
                        e.append(f"{k} should be a directory in the copy")
                elif w[0] == "l":
                    if g[0] == "F" and k in REWRITTEN:
                        # what has to be rewritten may not be written through the link
                        q = os.path.normpath(os.path.join(os.path.dirname(h.root + "/ws/" + k), w[1]))[len(h.root) + 4:]
                        if same_toml(h.blob(g[3]), pr.ep.ws_before[q][2], h.root):
                            P["manifests rewritten in place of a symlink"] += 1
                        else:
                            e.append(f"contents of {k} differ in the copy from what the symlink in the source points to")
                    elif g[0] == "F" and k in mutf and w[1].startswith("/"):
                        pass    # a link out of the copy is replaced before the mutant is written
                    elif g[0] != "L":
                        e.append(f"{k} should be a symlink in the copy")
                    elif g[3] not in (w[1], w[1].replace(h.root, "@", 1)):
                        e.append(f"symlink {k} points to {g[3]}, not {w[1]}")
                else:
                    if g[0] != "F":
                        e.append(f"{k} should be a file in the copy")
                        continue
                    if int(g[1], 8) != w[1]:
                        e.append(f"{k} has mode {g[1]} in the copy, {w[1]:o} in the source")
                    b = h.blob(g[3])
                    if b == w[2]:
                        continue
                    if k in mutf:
                        continue
                    if k in REWRITTEN or any(REWRITTEN.get(x) == k for x in want):
                        P["rewritten manifests compared"] += 1
                        if same_toml(b, w[2], h.root):
                            continue
                    e.append(f"contents of {k} differ in the copy ({len(b)} bytes, source {len(w[2])})")
    return e


# ------------------------------------------------------------------ C15
def apply_patch(code, diff):
    """Apply a unified diff to text; None if it does not apply."""
    src = code.split("\n")
    out = []
    pos = 0
    lines = diff.split("\n")
    i = 0
    while i < len(lines) and not lines[i].startswith("@@"):
        i += 1
    nonl = code and not code.endswith("\n")
    while i < len(lines):
        m = re.match(r"@@ -(\d+)(?:,(\d+))? \+(\d+)(?:,(\d+))? @@", lines[i])
        if not m:
            if lines[i].strip():
                return None
            i += 1
            continue
        a, an = int(m[1]), int(m[2] or 1)
        start = a - 1 if an else a
        if start < pos:
            return None
        out += src[pos:start]
        pos = start
        i += 1
        bn = int(m[4] or 1)
        ca = cb = 0
        while i < len(lines) and (ca < an or cb < bn):
            l = lines[i]
            if l.startswith("\\"):
                i += 1
                continue
            tag, txt = (l[0], l[1:]) if l else (" ", "")
            if tag == " ":
                if pos >= len(src) or src[pos] != txt:
                    return None
                out.append(txt)
                pos += 1
                ca += 1
                cb += 1
            elif tag == "-":
                if pos >= len(src) or src[pos] != txt:
                    return None
                pos += 1
                ca += 1
            elif tag == "+":
                out.append(txt)
                cb += 1
            else:
                return None
            i += 1
        while i < len(lines) and lines[i].startswith("\\"):
            i += 1
    out += src[pos:]
    return "\n".join(out)


def C15(exp, P):
    e = []
    for pr in runs(exp):
        if pr.out is None or pr.killed or pr.errf:
            continue
        oc = pr.outcomes
        if not isinstance(oc, dict):
            continue
        base, muts = outcome_entries(pr, oc)
        logs, diffs = collections.Counter(), collections.Counter()
        bn = {m["name"]: m for m in pr.tree["mutants"]}
        for n, x in [("baseline", b) for b in base] + muts:
            lp = x.get("log_path")
            logs[lp] += 1
            t = pr.text(lp)
            if t is None:
                e.append(f"log {lp} of {n} is missing")
                continue
            P["logs checked"] += 1
            cs = pr.base_cmds if n == "baseline" else pr.mut_cmds.get(n, [])
            toks = re.findall(r"SIMTOKEN (\d+) (\w+)", t)
            want = []
            own = {str(c.c) for c in cs}
            for c in cs:
                want += [(str(c.c), "begin"), (str(c.c), "stderr"), (str(c.c), "end")]
            other = [k for k in toks if k[0] not in own]
            if other:
                e.append(f"log {lp} of {n} contains output of another scenario's command {other[0][0]}")
            elif toks != want:
                e.append(f"log {lp} of {n} does not hold the complete output of its commands: {len(toks)} of {len(want)} parts")
            if n not in t and not (n == "baseline" and "baseline" in t.lower()):
                e.append(f"log {lp} does not contain the scenario name {n}")
            for c in cs:
                for a in c.argv:
                    if a not in t:
                        e.append(f"log {lp} lacks the command line of {c.phase} ({a})")
                        break
            if n == "baseline":
                continue
            dp = x.get("diff_path")
            if dp is None:
                e.append(f"no diff recorded for {n}")
                continue
            diffs[dp] += 1
            d = pr.text(dp)
            if d is None:
                e.append(f"diff {dp} of {n} is missing")
                continue
            m = bn.get(n)
            if m:
                code = pr.tree["codes"][m["file"]]
                P["diffs checked"] += 1
                if apply_patch(code, d) != mutated(code, m):
                    e.append(f"diff {dp} is not the change made by {n}")
                if d.strip() not in t:
                    e.append(f"log {lp} does not contain the diff of {n}")
        for k, v in list(logs.items()) + list(diffs.items()):
            if v > 1:
                e.append(f"{k} is shared by {v} scenarios")
    return e


# ------------------------------------------------------------------ C16
def must_fail(pr, f):
    """This injected error has to end the run with status 1."""
    i, t, idx, kind, proc, op, path, val = f
    import run
    name = run.OPNAMES[op]
    root = pr.h.root
    base = os.path.basename(path)
    if base == "debug.log" or not path.startswith(pr.h.root + "/") and path != "-" or ".git" in path or base == ".ignore":
        return False
    par = os.path.normpath(pr.parent.replace("@", root))
    inout = path.startswith(par + "/mutants.out")
    intmp = path.startswith(root + "/tmp/")
    inws = path.startswith(root + "/ws/")
    if name in ("FORK", "EXEC"):
        return True
    if inws and not inout and path[len(root) + 4:] not in expected_copy(pr):
        return False        # not part of what is copied
    if name in ("OPENR", "READ"):
        if inout:
            return base == "previously_caught.txt" or (pr.o.get("iterate") and base in ("caught.txt", "unviable.txt"))
        return inws or path.startswith(root + "/home/") and base.endswith(".diff")
    if name in ("OPENW", "WRITE", "FTRUNC"):
        return inout or intmp or inws
    if name == "MKDIR":
        return inout or (intmp and not path.endswith("/"))
    if name in ("RENAME", "SYMLINK", "READLINK"):
        return True
    if name == "CHMOD":
        return intmp
    if name in ("OPENDIR", "READDIR"):
        # (the walk of the source tree opens mutants.out before leaving it out)
        return (inws or path == root + "/ws") and not (path + "/").startswith(par + "/mutants.out/")
    return False


def C16(exp, P):
    e = []
    import run
    for pr in runs(exp, selection=True):
        if pr.exit is None or pr.sig or pr.handled:
            continue
        mf = [f for f in pr.errf if must_fail(pr, f)]
        for f in pr.errf:
            P["failing " + run.OPNAMES[f[5]]] += 1
        if mf:
            f = mf[0]
            P["runs that had to fail"] += 1
            what = f"{run.OPNAMES[f[5]]} of {f[6].replace(pr.h.root, '@')} failed with errno {f[7]}"
            if pr.code != 1 and not (pr.code == 101 and pr.conf):
                if not (pr.code == 4 and pr.base_state == "failed" and is_after_baseline(pr, f)):
                    e.append(f"{what} but the run exited with status {pr.code}: {pr.ep.stderr[pr.p][-200:]}")
            elif not pr.ep.stderr[pr.p].strip() and not pr.conf:
                e.append(f"{what}: the run exited with status 1 without an error message")
        if pr.code in (0, 2, 3):
            P["runs reporting results"] += 1
            pb = complete_results(pr)
            if pb:
                e.append(f"the run exited with status {pr.code} but its results are not complete: {pb[0]}")
    return e


def is_after_baseline(pr, f):
    return False


# ------------------------------------------------------------------ C17
def C17(exp, P):
    e = []
    for pr in runs(exp):
        cap = max(1, min(pr.o.get("jobs") or 1, len(pr.sel)))
        ev = []
        for c in pr.cmds:
            if c.orphan:
                continue
            ev.append((c.i0, 1, c))
            if c.ireap is not None:
                ev.append((c.ireap, -1, c))
        ev.sort(key=lambda x: x[0])
        n = peak = 0
        for i, d, c in ev:
            n += d
            peak = max(peak, n)
        P[f"peak concurrency {peak} of {cap}"] += 1
        if peak > cap:
            e.append(f"{peak} commands ran at once; limit is {cap}")
        cw = {c.cwd for c in pr.cmds}
        if len(cw) > cap:
            e.append(f"{len(cw)} build directories were used; limit is {cap}")
        root = pr.h.root
        if not pr.o.get("in_place"):
            live = mx = 0
            for x in pr.h.fs:
                if x[7] == 0 and os.path.dirname(x[5].rstrip("/")) == root + "/tmp" and os.path.basename(x[5].rstrip("/")).startswith("cargo-mutants-"):
                    if x[4] == "mkdir":
                        live += 1
                        mx = max(mx, live)
                    elif x[4] == "rmdir":
                        live -= 1
            if mx > cap:
                e.append(f"{mx} scratch directories existed at once; limit is {cap}")
        # jobserver
        js = pr.o.get("jobserver")
        js = True if js is None else js
        tasks = pr.o.get("jobserver_tasks") or pr.ep.spec["plan"].get("ncpus", 4)
        for c in pr.cmds:
            if js:
                if c.js != "jsok" or c.jsino != 0:
                    e.append(f"command {c.c} has no usable handle to the one jobserver ({c.js}, pool {c.jsino})")
                elif c.jstok != tasks:
                    e.append(f"the jobserver pool holds {c.jstok} tokens, expected {tasks}")
            elif c.js != "nojs":
                e.append(f"command {c.c} was given a jobserver although it is disabled")
        P["jobserver handles checked"] += len(pr.cmds)
        # work conservation
        if pr.benign and pr.base_state in ("ok", "skip") and not pr.ep.stall:
            starts = sorted((c.i0, c.t0) for n, cs in pr.mut_cmds.items() for c in cs[:1])
            bycwd = {}
            for c in pr.cmds:
                if pr.attr(c)[0] == "mut":
                    bycwd.setdefault(c.cwd, []).append(c)
            lastq = starts[-1] if starts else None
            for cwd, cs in bycwd.items():
                for x, y in zip(cs, cs[1:]):
                    if x.reap is not None and y.t0 - x.reap > 0.2 + pr.slack:
                        e.append(f"worker {os.path.basename(cwd)} was idle for {y.t0 - x.reap:.2f}s between commands")
                x = cs[-1]
                if lastq and x.reap is not None and lastq[1] - x.reap > 0.2 + pr.slack:
                    e.append(f"worker {os.path.basename(cwd)} stopped {lastq[1] - x.reap:.2f}s before the last mutant was started")
            # a worker which never got a mutant is a worker lost, unless the queue was empty before its copy was ready
            if bycwd and len(bycwd) < cap:
                first = min(c.t0 for cs in bycwd.values() for c in cs)
                if lastq[1] - first > 1.5 + 2 * pr.slack:
                    e.append(f"only {len(bycwd)} of {cap} workers tested mutants although the queue lasted {lastq[1] - first:.1f}s")
    return e


# ------------------------------------------------------------------ C18
def C18(exp, P):
    e = []
    for row in prep(exp):
        ep = row[0].ep
        h = ep.h
        if h.limit:
            spin = any(f[5] == R_OP("FLOCK") for f in h.faults)
            hangs = [c for c in h.cmds() if c.t1 is None and unlimited_hang(row, c)]
            if spin or hangs:
                continue
            e.append({1: "deadlock: no task can ever run again", 2: "the run did not end in bounded (virtual) time",
                      3: "the run did not end within the step limit"}[h.limit] + " " + "; ".join(h.stuck[:3]))
            continue
        for pr in row:
            P["runs ended"] += 1
            if pr.errf:
                P["runs ended after a failing call"] += 1
            if not (pr.benign and pr.single and pr.cmds) or pr.base_state not in ("ok", "skip") or pr.islist:
                continue
            m = max(1, min(pr.o.get("jobs") or 1, len(pr.sel)))
            base = sum((c.reap - c.t0) for c in pr.base_cmds)
            sc = [sum((c.reap - c.t0) for c in cs if c.reap) for cs in pr.mut_cmds.values()]
            if not sc:
                continue
            W = sum(sc)
            per = 0.15
            # list scheduling: work over workers plus the longest item, plus set-up, polling and tear-down
            copies = 0.2 + sum(int(ep.stats.get("op." + k, 0)) for k in ("OPENR", "OPENW", "READ", "WRITE", "COPYRANGE", "STAT", "UNLINK", "MKDIR", "READDIR", "CLOSE")) \
                * ep.spec["plan"].get("op_cost_max", 0) * 1e-9
            bound = base + W / m + max(sc) + per * (len(sc) / m + 4) + copies * 2 + 1.0 + 4 * ep.stall
            span = pr.exit[1] - h.starts[pr.p][1]
            P["makespans checked"] += 1
            if span > bound:
                e.append(f"the run took {span:.1f}s; {W:.1f}s of work on {m} workers should take at most {bound:.1f}s")
    return e


def unlimited_hang(row, c):
    for pr in row:
        if pr.p == c.p:
            lo, hi = phase_limit(pr, c)
            return lo is None or hi > 1e17
    return False


# ------------------------------------------------------------------ C19
def C19(exp, P):
    e = []
    for pr in runs(exp):
        if pr.exit is None or pr.out is None:
            continue
        if pr.errf and not pr.sig:
            continue
        root = pr.h.root
        P["ended by signal" if pr.sig else "ended by itself"] += 1
        started = [c for c in pr.cmds if pr.attr(c)[0] == "mut"]
        mj = pr.js("mutants.json")
        if started:
            P["killed while testing mutants" if pr.sig else "finished testing"] += 1
            if not isinstance(mj, list):
                e.append("mutants had been run but mutants.json is missing or does not parse")
            else:
                miss, extra = multiset_diff([m["name"] for m in sel_of(pr)], json_names(pr, mj))
                if miss or extra:
                    e.append(f"mutants had been run but mutants.json is not complete: missing {short(miss)} extra {short(extra)}")
        verd = {n: pr.verdict(cs) for n, cs in pr.mut_cmds.items()}
        lastc = {}
        for c in pr.cmds:
            lastc[c.cwd] = c
        inlist = {}
        for summ, fn in M.SUMMARY_LIST.items():
            for l in pr.lines(fn):
                inlist[l] = summ
                P["list lines checked"] += 1
                if verd.get(l) != summ:
                    e.append(f"{fn} names {l} whose testing {'ended as ' + str(verd.get(l)) if l in verd else 'never started'}")
        for n, cs in pr.mut_cmds.items():
            v = verd[n]
            if v in M.SUMMARY_LIST and lastc[cs[-1].cwd] is not cs[-1]:
                if inlist.get(n) != v:
                    e.append(f"{n} finished as {v} before a later one was started, but is not in {M.SUMMARY_LIST[v]}")
        t = pr.text("outcomes.json")
        if t is not None:
            oc = pr.outcomes
            opens = [x for x in pr.h.fs if x[4] == "open" and x[7] == 0 and x[5].endswith("/outcomes.json")]
            later = opens and any(x[0] > opens[-1][0] and x[3] == opens[-1][3] and x[2] == pr.p for x in pr.h.fs)
            if not isinstance(oc, dict):
                P["outcomes.json torn by the crash"] += 1
                if later or not pr.sig:
                    e.append("outcomes.json does not parse although it was not being rewritten")
            else:
                P["outcomes.json compared with the lists"] += 1
                _, muts = outcome_entries(pr, oc)
                rec = {n: x["summary"] for n, x in muts if x["summary"] in M.SUMMARY_LIST}
                for n, x in muts:
                    if verd.get(n) != x["summary"]:
                        e.append(f"outcomes.json records {n} as {x['summary']} but it ended as {verd.get(n)}")
                d = set(rec.items()) ^ set(inlist.items())
                if len(d) > (1 if pr.sig else 0):
                    e.append(f"outcomes.json and the lists disagree on {short([str(x) for x in d])}")
        elif started and not pr.o.get("baseline_skip"):
            e.append("mutants were being run but there is no outcomes.json with the baseline")
    return e


# ------------------------------------------------------------------ C20
def C20(exp, P):
    e = []
    for pr in runs(exp, selection=True):
        env0 = pr.ep.spec.get("env", {})
        for c in pr.cmds:
            a = pr.attr(c)
            if a[0] == "bad":
                continue
            base = a[0] == "base"
            pk = M.base_pkgs(sel_of(pr)) if base else M.test_pkgs(pr, a[1])
            head, rest, tail = M.expected_argv(pr, c.phase, pk)
            P[("baseline " if base else "mutant ") + c.phase] += 1
            av = list(c.argv)
            ph = M.phases(pr.o)
            if c.phase not in ph:
                e.append(f"a {c.phase} command was run: {av}")
                continue
            if av[:len(head)] != head:
                e.append(f"command line {av} should start with {head}")
                continue
            body = av[len(head):]
            if tail and body[-len(tail):] != tail:
                e.append(f"{c.phase} command line {av} should end with {tail}")
                continue
            if tail:
                body = body[:-len(tail)]
            ex = collections.Counter(rest)
            got = collections.Counter(x for x in body if x not in ("--verbose", "-v"))
            if ex != got:
                e.append(f"{'baseline' if base else 'mutant'} {c.phase} command: unexpected {sorted((got - ex).elements())}, missing {sorted((ex - got).elements())}")
            if c.env.get("INSTA_UPDATE") != "no" or c.env.get("INSTA_FORCE_PASS") != "0":
                e.append(f"command {c.c} has INSTA_UPDATE={c.env.get('INSTA_UPDATE')} INSTA_FORCE_PASS={c.env.get('INSTA_FORCE_PASS')}")
            enc = c.env.get("CARGO_ENCODED_RUSTFLAGS")
            e0 = env0.get("CARGO_ENCODED_RUSTFLAGS")
            e0 = e0.replace("\x1f", "^") if e0 is not None else None
            if pr.o.get("cap_lints"):
                P["lint caps"] += 1
                want = (e0.split("^") if e0 else [] if e0 is not None else env0["RUSTFLAGS"].split(" ") if env0.get("RUSTFLAGS") else []) + ["--cap-lints=warn"]
                if (enc or "").split("^") != want:
                    e.append(f"lint caps: rustflags are {enc!r}, expected {want}")
            elif enc != e0 or c.env.get("RUSTFLAGS") != env0.get("RUSTFLAGS"):
                e.append(f"rustflags changed although lint caps were not asked for: {enc!r}")
    return e


# ------------------------------------------------------------------ C21
WORDS = {"MISSED": "MissedMutant", "TIMEOUT": "Timeout", "caught": "CaughtMutant", "unviable": "Unviable"}


def C21(exp, P):
    e = []
    for pr in runs(exp):
        if pr.exit is None or pr.killed or pr.out is None or pr.errf or pr.conf:
            continue
        out = strip_ansi(pr.ep.stdout[pr.p])
        rep = []
        names = {m["name"] for m in pr.tree["mutants"]}
        for l in out.split("\n"):
            m = re.match(r"(MISSED|TIMEOUT|caught|unviable) +(.*?)(?: in [0-9.]+s \w+(?: \+ [0-9.]+s \w+)*)?$", l)
            if m:
                if m[2] not in names and not pr.o.get("all_logs"):
                    if m[2] != "Unmutated baseline":
                        e.append(f"the console reports an unknown mutant: {l}")
                elif m[2] in names:
                    rep.append((m[2], WORDS[m[1]]))
        oc = pr.outcomes
        muts = outcome_entries(pr, oc)[1] if isinstance(oc, dict) else []
        want = []
        for n, x in muts:
            s = x["summary"]
            if s in ("MissedMutant", "Timeout") or (s == "CaughtMutant" and pr.o.get("caught")) or (s == "Unviable" and pr.o.get("unviable")):
                want.append((n, s))
        miss, extra = multiset_diff(want, rep)
        P["reported lines"] += len(rep)
        # a run cut short may have recorded an outcome it had no time to print
        if pr.benign and (miss or extra) or extra:
            e.append(f"console: not reported {miss[:3]}; wrongly reported {extra[:3]}")
        if pr.benign and pr.base_state in ("ok", "skip") and muts:
            ms = re.findall(r"^(\d+) mutants? tested(?: in [^:]*)?: ?(.*)$", out, re.M)
            if pr.o.get("all_logs"):
                ms = ms[-1:]
            if len(ms) != 1:
                e.append(f"{len(ms)} summary lines on the console")
                continue
            P["summary lines"] += 1
            got = {w: int(n) for n, w in re.findall(r"(\d+) (\w+)", ms[0][1])}
            exp_ = {"missed": oc["missed"], "caught": oc["caught"], "unviable": oc["unviable"], "timeouts": oc["timeout"], "succeeded": oc["success"]}
            exp_ = {k: v for k, v in exp_.items() if v}
            if int(ms[0][0]) != len(muts) or got != exp_:
                e.append(f"summary line says {ms[0]}, recorded are {len(muts)} with {exp_}")
            if pr.o.get("no_times") and re.search(r"^\d+ mutants? tested in", out, re.M):
                e.append("times are shown although --no-times was given")
    return e


# ------------------------------------------------------------------ C22
def C22(exp, P):
    e = []
    prev = None
    for row in prep(exp):
        for pr in row:
            if not pr.islist:
                continue
            P["listings"] += 1
            h = pr.h
            ch = [x for x in h.fs if x[2] == pr.p and x[7] == 0]
            if ch:
                e.append(f"listing changed the file system: {ch[0][4]} of {ch[0][5].replace(h.root, '@')}")
            if pr.cmds:
                e.append(f"listing ran a {pr.cmds[0].phase} command")
            if any(f[2] == pr.p for f in h.flocks):
                e.append("listing took a lock")
            if pr.exit is None or pr.errf or pr.sigs:
                continue
            if pr.code != 0:
                e.append(f"listing exited with status {pr.code}: {pr.ep.stderr[pr.p][-300:]}")
                continue
            if pr.o.get("list"):
                got = listed(pr)
                if got is None:
                    continue
                if pr.o.get("iterate") and not pr.single:
                    continue
                want = [m["name"] for m in pr.sel if m["name"] not in pr.disk_skip]
                if pr.o.get("shard"):
                    if set(got) - set(want):
                        e.append(f"listed but not selected: {short(set(got) - set(want))}")
                else:
                    miss, extra = multiset_diff(want, got)
                    if miss or extra:
                        e.append(f"listing: missing {short(miss)}; extra {short(extra)}")
            elif not (pr.o.get("files") or pr.o.get("excludes")):
                pk = set(M.selected_pkgs(pr.tree, pr.o, pr.cwd))
                want = sorted(f for p in pr.tree["pkgs"] if p["name"] in pk for f in p["files"])
                t = pr.ep.stdout[pr.p]
                if pr.o.get("json"):
                    got = sorted(j["path"] for j in json.loads(t))
                else:
                    got = sorted(strip_ansi(t).split("\n")[:-1])
                P["file listings"] += 1
                if got != want:
                    e.append(f"--list-files: missing {short(set(want) - set(got))}; extra {short(set(got) - set(want))}")
    # --list against the run that follows with the same options
    flat = [row[0] for row in prep(exp) if len(row) == 1]
    for a, b in zip(flat, flat[1:]):
        if a.islist and a.o.get("list") and not b.islist and a.code == 0 and b.benign and not a.errf and not a.sigs:
            same = all(a.o.get(k) == b.o.get(k) for k in set(a.o) | set(b.o) if k not in ("list", "json", "diff", "from_env"))
            if not same or a.cwd != b.cwd:
                continue
            got = listed(a)
            mj = b.js("mutants.json")
            if got is None or not isinstance(mj, list):
                continue
            P["listing compared with the run"] += 1
            miss, extra = multiset_diff(json_names(b, mj), got)
            if miss or extra:
                e.append(f"--list and the run disagree: run only {short(miss)}; list only {short(extra)}")
            if b.base_state in ("ok", "skip"):
                if set(got) != set(b.mut_cmds):
                    e.append("the run tested other mutants than were listed")
    return e


def also_runs(check):
    """No property can be had by a run that fails without a reason, or from results that are not of the documented form."""
    def f(exp, P):
        try:
            e = check(exp, P)
        except (KeyError, TypeError, IndexError, ValueError, AttributeError):
            import traceback
            e = ["what the run left is not of the form it should have: " + " | ".join(traceback.format_exc().strip().splitlines()[-3:])]
        if not e:
            for pr in runs(exp, selection=True):
                if pr.benign and sel_of(pr) and pr.code not in (0, 2, 3, 4):
                    e.append(f"nothing failed, but the run exited with status {pr.code}: {pr.ep.stderr[pr.p][-300:]}")
        return e
    return f


ORACLES = {k: also_runs(v) for k, v in globals().items() if re.fullmatch(r"C\d\d", k)}
