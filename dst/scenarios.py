"""Seeded generators of experiments: one integer decides workspace, options, verdicts, schedule parameters and faults."""
import random

import gen
import run

ERRNOS = [5, 28, 122, 13, 24, 30]  # EIO ENOSPC EDQUOT EACCES EMFILE EROFS
MSEC, SECN = 10**6, 10**9
T0 = 0            # times in plans are relative to the start of the episode

COPYFEATS = ["sharedmod", "crlf", "unicode", "nofinalnl", "junk", "symlinks", "exec", "collide", "empty_mods", "vcs", "gitignore",
             "nested_out", "target", "pathdeps", "cargoconfig", "hardlinks", "manlink", "gitx"]


def pick(r, *pairs):
    """weighted choice: pick(r, (w, v), ...)"""
    t = sum(w for w, _ in pairs)
    x = r.random() * t
    for w, v in pairs:
        x -= w
        if x < 0:
            return v
    return pairs[-1][1]


def tree(r, size=None, feats=None, p=0.15, layout=None):
    size = size or pick(r, (2, "tiny"), (5, "small"), (3, "medium"))
    if feats is None:
        feats = [f for f in COPYFEATS if r.random() < p]
        if "gitx" in feats and "gitignore" not in feats:
            feats.append("gitignore")
        if r.random() < p * 0.7:
            feats.append("config")
    return gen.gen_tree(r, size, layout, feats)


def sched(r, heavy=True):
    pl = {"seed_sched": r.getrandbits(62), "seed_misc": r.getrandbits(62), "seed_behav": r.getrandbits(62)}
    pl["p_switch"] = r.choice([0, 100, 500, 2000, 6000]) if heavy else r.choice([0, 200])
    pl["edge_mean"] = r.choice([0, 0, 60, 400, 3000, 20000]) if heavy else 0
    pl["edge_burst"] = r.choice([0, 10, 40])
    pl["op_cost_max"] = r.choice([2000, 20000, 200000])
    pl["readdir_shuffle"] = r.choice([0, 1, 1])
    pl["ncpus"] = r.choice([1, 2, 4, 8, 16])
    pl["cfr_mode"] = pick(r, (6, 0), (1, 1), (1, 2), (1, 3))
    if heavy:
        if r.random() < 0.25:
            pl["p_short"] = r.choice([300, 3000, 9000])
        if r.random() < 0.25:
            pl["p_spurious"] = r.choice([500, 5000])
        if r.random() < 0.12:
            pl["p_stall"] = r.choice([100, 1000])
            pl["stall_max"] = r.choice([20, 300]) * MSEC
    if heavy and r.random() < 0.15:
        pl["tty"] = r.choice([1, 2, 3, 3])
    pl["max_vtime"] = 201000 * SECN
    pl["max_points"] = 1_500_000_000
    return pl


def behave(r, pl, o, hang=True, base=None):
    """Verdict mix, durations and their relation to the limits."""
    z = r.random()
    if z < 0.15:
        b, t = [1000, 0, 0, 0], [0, 1000, 0, 0]      # all caught
    elif z < 0.22:
        b, t = [0, 1000, 0, 0], [1000, 0, 0, 0]      # all unviable
    elif z < 0.30:
        b, t = [1000, 0, 0, 0], [1000, 0, 0, 0]      # all missed
    else:
        b = [r.choice([600, 800, 950]), 200, r.choice([0, 0, 30]), 0]
        t = [r.choice([200, 400]), r.choice([300, 600]), r.choice([0, 0, 40]), 0]
    c = [r.choice([1000, 600, 300]), 300, r.choice([0, 0, 40]), 0]
    if hang and r.random() < 0.5:
        t[3] = r.choice([50, 200])
        if o.get("build_timeout") is not None:
            b[3] = c[3] = r.choice([40, 200])
    pl["beh"] = {"0": b, "1": t, "2": c}
    pl["base"] = base or [0, 0, 0]
    lo, hi = r.choice([(1, 40), (10, 800), (100, 3000), (1, 9000)])
    pl["dur_lo"], pl["dur_hi"] = lo, hi
    blo, bhi = r.choice([(1, 30), (10, 400), (50, 2500), (1, 6000)])
    pl["bdur_lo"], pl["bdur_hi"] = blo, bhi
    if o.get("timeout") is not None and not (base and 3 in base):
        # a baseline may not exceed an explicit limit by accident of the generator
        pl["bdur_hi"] = min(bhi, int(o["timeout"] * 400))
        pl["bdur_lo"] = min(blo, pl["bdur_hi"])
    if o.get("build_timeout") is not None:
        pl["bdur_hi"] = min(pl["bdur_hi"], int(o["build_timeout"] * 400))
        pl["bdur_lo"] = min(pl["bdur_lo"], pl["bdur_hi"])
    if hang:
        lim = o.get("timeout") if r.random() < 0.6 else o.get("build_timeout")
        if lim is not None and r.random() < 0.6:
            pl["near_ms"] = int(lim * 1000)
            pl["near_pct"] = r.choice([20, 60])
    pl["grand_pct"] = r.choice([0, 0, 20, 60])
    pl["tok_pct"] = r.choice([0, 20, 50])
    pl["mk_target_pct"] = r.choice([0, 0, 30, 100])
    pl["term_delay_max"] = r.choice([0, 10 * MSEC, 2000 * MSEC])
    pl["failcode"] = r.choice([101, 0, 0, 1])
    pl["noise_pct"] = r.choice([0, 0, 40])
    pl["stubborn_pct"] = r.choice([0, 0, 0, 0, 15, 60])
    return pl


def opts(r, tr, check_p=0.15, skip_p=0.15, jobs=True, timeouts=True, out_p=0.25, selection=True):
    o = {}
    if jobs:
        j = pick(r, (2, None), (2, 1), (4, 2), (3, 3), (2, 4), (1, 8))
        if j is not None:
            o["jobs"] = j
    if r.random() < check_p:
        o["check"] = True
    if r.random() < skip_p:
        o["baseline_skip"] = True
    if timeouts:
        if r.random() < 0.5:
            o["timeout"] = r.choice([1.0, 2.5, 6.0, 20.0])
        else:
            if r.random() < 0.4:
                o["timeout_mult"] = r.choice([1.5, 2.0, 7.0])
            if r.random() < 0.5:
                o["min_timeout"] = r.choice([0.0, 0.5, 3.0, 10.0])
        z = r.random()
        if z < 0.3:
            o["build_timeout"] = r.choice([1.0, 4.0, 15.0])
        elif z < 0.45:
            o["build_timeout_mult"] = r.choice([1.5, 3.0])
    o["no_shuffle"] = r.random() < 0.5
    if r.random() < out_p:
        o["output"] = r.choice(["@/out", "@/out/deep", "rel_out", "@/ws/sub_out"])
    if r.random() < 0.3:
        o["caught"] = True
    if r.random() < 0.3:
        o["unviable"] = True
    if r.random() < 0.15:
        o["no_times"] = True
    if r.random() < 0.12:
        o["all_logs"] = True
    if r.random() < 0.2:
        o["level"] = r.choice(["debug", "trace", "info", "error"])
    if r.random() < 0.15:
        o["colors"] = r.choice(["always", "never"])
    if r.random() < 0.25:
        o["jobserver"] = r.random() < 0.6
    if o.get("jobserver") is not False and r.random() < 0.25:
        o["jobserver_tasks"] = r.choice([1, 2, 5, 30])
    if r.random() < 0.12:
        o["leak_dirs"] = True
    if r.random() < 0.25:
        o["gitignore"] = r.random() < 0.5
    if r.random() < 0.2:
        o["copy_vcs"] = r.random() < 0.5
    if selection:
        sel_opts(r, tr, o)
    return o


def sel_opts(r, tr, o):
    names = [p["name"] for p in tr["pkgs"]]
    z = r.random()
    if z < 0.25:
        o["workspace"] = True
    elif z < 0.4:
        o["packages"] = r.sample(names, r.randrange(1, len(names) + 1))
    if r.random() < 0.12:
        o["exclude_re"] = [r.choice(["alpha", "with true", "replace run", "-> u32"])]
    if r.random() < 0.08:
        o["examine_re"] = [r.choice(["with", "a", "replace", "bool"])]
    if r.random() < 0.08:
        o["files"] = ["*.rs"] if r.random() < 0.3 else ["lib.rs"]
    if r.random() < 0.06:
        o["excludes"] = ["main.rs"]
    if r.random() < 0.15:
        have = (tr.get("config") or {}).get("error_values", [])
        o["errors"] = [v for v in r.sample(gen.ERRORS, r.choice([1, 1, 2])) if v not in have]
    if tr.get("config") and r.random() < 0.15:
        o["no_config"] = True
    if r.random() < 0.07:
        o["in_diff"] = diff_lines(r, tr)


def diff_lines(r, tr):
    """Lines that a change to the tree touched: file -> sorted line numbers."""
    d = {}
    for p in r.sample(sorted(tr["codes"]), r.randrange(1, len(tr["codes"]) + 1)):
        n = tr["codes"][p].count("\n")
        k = r.choice([1, 2, max(1, n // 4), max(1, n // 2)])
        ls = sorted(r.sample(range(1, n + 1), min(n, k)))
        if ls:
            d[p] = ls
    return d


def tool_opts(r, tr, o):
    names = [p["name"] for p in tr["pkgs"]]
    z = r.random()
    if z < 0.2:
        o["test_workspace"] = True
    elif z < 0.28:
        o["test_workspace"] = False
    elif z < 0.5:
        k = r.sample(names, r.randrange(1, len(names) + 1))
        o["test_package"] = [",".join(k)] if r.random() < 0.5 else k
    if r.random() < 0.3:
        o["test_tool"] = r.choice(["cargo", "nextest"])
    if r.random() < 0.3:
        o["profile"] = r.choice(["mutants", "release"])
    if r.random() < 0.3:
        o["cap_lints"] = r.random() < 0.6
    if r.random() < 0.25:
        o["features"] = r.choice([["a"], ["a", "b"], ["a,b"]])
    if r.random() < 0.15:
        o["no_default_features"] = True
    if r.random() < 0.15:
        o["all_features"] = True
    if r.random() < 0.3:
        o["cargo_args"] = r.choice([["--offline"], ["--locked", "--release"]])
    if r.random() < 0.35:
        o["test_args"] = r.choice([["--lib"], ["--lib", "--no-fail-fast"], ["--", "--skip", "slow"]])


def mkdirs_for(o):
    out = o.get("output")
    if out == "@/out/deep":
        return ["out"]
    return []


def spec1(tr, pl, o, faults=None, cwd=None, env=None, seed=None):
    pr = {"opts": o}
    if cwd:
        pr["cwd"] = cwd
    ep = {"plan": pl, "procs": [pr], "faults": faults or []}
    if env:
        ep["env"] = env
    return {"tree": tr, "mkdirs": mkdirs_for(o), "episodes": [ep]}


def maybe_cwd(r, tr, o):
    """Run from a subdirectory, or name the tree with --dir / --manifest-path."""
    dirs = [p["dir"] for p in tr["pkgs"] if p["dir"]]
    z = r.random()
    if z < 0.12:
        return "@/ws/" + r.choice(dirs) if dirs and r.random() < 0.6 else "@/ws/" + tr["pkgs"][0]["targets"][0][2].rsplit("/", 1)[0]
    if z < 0.2:
        o["dir"] = "@/ws" + ("/" + r.choice(dirs) if dirs and r.random() < 0.5 else "")
        return "@/home"
    if z < 0.25:
        o["manifest_path"] = "@/ws/Cargo.toml"
        return "@/home"
    return None


def timefaults(r, p=0.25):
    fs = []
    if r.random() < p:
        for _ in range(r.randrange(1, 4)):
            f = {"kind": 3, "amount": r.choice([-1, 1]) * r.choice([1, 30, 3600, 86400 * 400]) * SECN}
            if r.random() < 0.4:
                f.update(trig="time", at=T0 + r.randrange(0, 20 * SECN))
            else:
                f.update(trig="child", nth=r.randrange(1, 12), at=r.choice([1, r.randrange(0, 200 * MSEC), r.randrange(0, 3 * SECN)]))
            fs.append(f)
    return fs


# ------------------------------------------------------------------ flavours
def f_core(r, **kw):
    tr = tree(r)
    o = opts(r, tr)
    if r.random() < 0.2:
        tool_opts(r, tr, o)
    cwd = maybe_cwd(r, tr, o)
    pl = behave(r, sched(r), o)
    return spec1(tr, pl, o, timefaults(r), cwd)


def f_jobs(r):
    """Many workers, few long stalls, hot schedules."""
    tr = tree(r, r.choice(["small", "medium", "medium"]), p=0.06)
    o = opts(r, tr, check_p=0.1, out_p=0.1, selection=False)
    o["jobs"] = r.choice([2, 3, 4, 6, 12])
    pl = behave(r, sched(r), o)
    pl["p_switch"] = r.choice([500, 3000, 8000])
    pl["edge_mean"] = r.choice([30, 200, 1500])
    if r.random() < 0.6:
        pl["dur_lo"], pl["dur_hi"] = 1, 3
        pl["bdur_lo"], pl["bdur_hi"] = 1, 3
    if r.random() < 0.5:
        lockstep(r, o, pl)
    return spec1(tr, pl, o)


def lockstep(r, o, pl):
    """All workers finish their commands together, again and again, as many tests of the same length would."""
    ph = r.choice([[1000, 0, 0, 0], [0, 1000, 0, 0]])
    pl["beh"] = {"0": [1000, 0, 0, 0], "1": ph, "2": ph}
    pl["dur_lo"] = pl["dur_hi"] = pl["bdur_lo"] = pl["bdur_hi"] = r.choice([1, 20, 45])
    pl["op_cost_max"] = r.choice([2000, 20000])
    pl.pop("p_stall", None)
    pl.pop("near_ms", None)
    pl["stubborn_pct"] = 0


def f_lockstep(r):
    s = f_jobs(r)
    ep = s["episodes"][0]
    o = ep["procs"][0]["opts"]
    if r.random() < 0.5:
        few(r, s)
    lockstep(r, o, ep["plan"])
    if r.random() < 0.5:
        slow(r, ep)
    return s


def few(r, s):
    """Few mutants: the end of the queue comes soon, with workers left over; a thread is held up at edges that have not been taken often."""
    ep = s["episodes"][0]
    o = ep["procs"][0]["opts"]
    tr = s["tree"] = tree(r, r.choice(["tiny", "tiny", "small"]), p=0.03)
    if len(tr["mutants"]) > 8:
        # leave some of them
        o["in_diff"] = {}
        for m in r.sample(tr["mutants"], r.choice([1, 2, 3])):
            o["in_diff"][m["file"]] = sorted({m["line"], *o["in_diff"].get(m["file"], [])})
    o["jobs"] = r.choice([2, 2, 3, 4])
    ep["plan"]["p_sstall"] = r.choice([5, 20, 60, 200])
    ep["plan"]["estall_max"] = r.choice([3, 30, 300]) * SECN


def slow(r, ep):
    """A thread that gets no time for a while just where it matters: at an operation on the results, or at a rarely seen edge."""
    pl = ep["plan"]
    if r.random() < 0.6 and not pl.get("p_sstall"):
        pl["p_estall"] = r.choice([5, 30, 150])
        pl["estall_max"] = r.choice([30, 300, 3000]) * MSEC
    if r.random() < 0.6:
        for _ in range(r.choice([1, 2, 4])):
            ep["faults"].append({"kind": 4, "ops": r.choice(["WRITE", "OPENW", "WRITE,OPENW,FUTEX,CLOSE", "FORK,WAIT", "UNLINK,RENAME,OPENW"]),
                                 "cls": r.choice(["LIST", "JSON", "STD", "LOG", "TMP", "OTHER", "OUT,LIST,JSON,LOG,STD,TMP,SRC,OTHER"]),
                                 "trig": "nth", "nth": r.choice([r.randrange(1, 12), r.randrange(1, 80)]),
                                 "amount": r.choice([60, 400, 5000, 100000]) * MSEC})


def console_fault(r):
    """Whoever reads the output is gone (a pipe to head, or to a tee stopped by the same Ctrl-C), the terminal was closed, or
    the disk to which the output goes is full."""
    f = {"kind": 1, "err": r.choice([32, 32, 5, 28]), "ops": "WRITE", "cls": "STD", "persist": 1000000}
    if r.random() < 0.5:
        f.update(trig="sig", nth=1)
    else:
        f.update(trig="nth", nth=r.choice([1, r.randrange(1, 8), r.randrange(1, 60)]))
    z = r.random()
    if z < 0.6:
        f["substr"] = "std" + r.choice(["out", "err"])
    return f


def f_console(r, base=None):
    base = base or pick(r, (2, f_core), (2, f_jobs), (3, f_inplace))
    s = base(r)
    ep = s["episodes"][-1]
    ep["faults"].append(console_fault(r))
    if not any(f["kind"] == 2 for f in ep["faults"]) and r.random() < 0.6:
        ep["faults"].append(sig_fault(r, pick(r, (6, 2), (1, 15), (3, 1))))
    if r.random() < 0.3:
        ep["plan"]["tty"] = r.choice([2, 3, 3])
    return s


def f_slow(r):
    s = f_jobs(r)
    if r.random() < 0.5:
        few(r, s)
    slow(r, s["episodes"][0])
    return s


def f_inplace(r):
    tr = tree(r, feats=[f for f in ["crlf", "unicode", "nofinalnl", "junk", "symlinks", "exec", "collide", "vcs", "gitignore",
                                    "target", "srclinks"] if r.random() < 0.25])
    o = opts(r, tr, jobs=False)
    o.pop("gitignore", None)
    o["in_place"] = True
    pl = behave(r, sched(r), o)
    return spec1(tr, pl, o, timefaults(r))


def f_base_fail(r):
    tr = tree(r)
    o = opts(r, tr, skip_p=0)
    if r.random() < 0.15:
        o.pop("jobs", None)
        o.pop("gitignore", None)
        o["in_place"] = True
    b = [0, 0, 0]
    k = r.choice([1, 2, 3])
    if k == 3:
        if o.get("check"):
            o["build_timeout"] = 2.0
            o.pop("build_timeout_mult", None)
        else:
            o["timeout"] = 2.0
            o.pop("timeout_mult", None)
    if o.get("check"):
        b[2] = k
    elif k != 3 and r.random() < 0.5:
        b[0] = k
    else:
        b[1] = k
    pl = behave(r, sched(r), o, base=b)
    return spec1(tr, pl, o)


def sig_fault(r, sig=None, proc=-1):
    sig = sig or pick(r, (6, 2), (2, 15), (1, 1))
    f = {"kind": 2, "err": sig, "proc": proc}
    z = r.random()
    if z < 0.40:
        f.update(trig="child", nth=r.choice([1, 2, 3, 4, 5, 6, 8, 12]), at=r.choice([0, 1, 10**5, r.randrange(0, 10**9), r.randrange(0, 10**10)]))
    elif z < 0.6:
        f.update(trig="time", at=T0 + r.choice([r.randrange(0, 10**8), r.randrange(0, 3 * 10**9), r.randrange(0, 2 * 10**10)]))
    else:
        f.update(trig="nth", ops=r.choice(["*", "*", "OPENW", "WRITE", "FORK", "WAIT", "KILL", "SLEEP", "MKDIR", "OPENW,WRITE,RENAME",
                                           "STAT", "READDIR"]),
                 cls="*", nth=r.choice([r.randrange(1, 40), r.randrange(1, 400), r.randrange(1, 3000)]))
        if r.random() < 0.3:
            # while results are written
            f.update(ops=r.choice(["WRITE", "WRITE,OPENW,FTRUNC", "FTRUNC", "CLOSE"]), cls=r.choice(["LIST", "JSON", "LOG", "OUT"]),
                     nth=r.choice([r.randrange(1, 10), r.randrange(1, 80)]))
    return f


def f_sig(r, base=f_core, sig=None):
    s = base(r)
    s["episodes"][0]["faults"] = [sig_fault(r, sig)]
    if r.random() < 0.2:
        s["episodes"][0]["faults"].append(sig_fault(r, sig))
    return s


def f_sig_inplace(r):
    return f_sig(r, f_inplace)


def f_sig_jobs(r):
    return f_sig(r, f_jobs)


def f_kill(r):
    return f_sig(r, pick(r, (3, f_core), (2, f_jobs)), 9)


def err_fault(r, ops, cls="*", persist_p=0.15, hi=None):
    f = {"kind": 1, "err": r.choice(ERRNOS), "ops": ops, "cls": cls, "trig": "nth",
         "nth": r.choice([r.randrange(1, 6), r.randrange(1, 30), r.randrange(1, hi or 150)])}
    if r.random() < persist_p:
        f["persist"] = r.choice([1, 3, 1000000])
    return f


ERR_TARGETS = [
    (3, ("OPENW", "OUT")), (4, ("WRITE", "OUT")), (2, ("MKDIR", "OUT")), (1, ("OPENW", "OUT,TMP")), (3, ("WRITE", "TMP")),
    (3, ("OPENW", "TMP")), (2, ("MKDIR", "TMP")), (1, ("SYMLINK", "*")), (1, ("READLINK", "SRC")), (2, ("COPYRANGE", "*")),
    (1, ("CHMOD", "TMP")), (2, ("OPENDIR", "SRC")), (2, ("READDIR", "SRC")), (3, ("OPENR", "SRC")), (2, ("READ", "SRC")),
    (2, ("FORK", "*")), (2, ("EXEC", "*")), (1, ("FTRUNC", "OUT")), (1, ("RENAME", "*")), (1, ("THREAD", "*")),
    (1, ("OPENR", "OUT")), (1, ("PIPE", "*")), (3, ("WRITE", "LIST")), (3, ("WRITE", "JSON")), (2, ("WRITE", "LOG")),
    (1, ("OPENW", "LIST")), (1, ("OPENW", "JSON")), (2, ("OPENW", "LOG")), (1, ("WRITE", "DBG")),
]


def f_err(r, base=None):
    s = (base or pick(r, (4, f_core), (2, f_jobs), (1, f_inplace)))(r)
    ops, cls = pick(r, *ERR_TARGETS)
    s["episodes"][0]["faults"] = [err_fault(r, ops, cls)]
    return s


def f_inplace_err(r):
    """Writes to the source tree itself fail, or are cut short and then fail."""
    s = f_inplace(r)
    ep = s["episodes"][0]
    if r.random() < 0.4:
        ep["plan"]["p_short"] = r.choice([3000, 9000])
    ep["faults"] = [err_fault(r, r.choice(["WRITE", "WRITE", "OPENW", "OPENW,WRITE", "STAT", "REALPATH"]), "SRC", persist_p=0.1, hi=40)]
    if r.random() < 0.15:
        ep["faults"].append(sig_fault(r, 2))
    return s


def f_err_setup(r):
    """Failures of the first few calls of their kind: configuration, sources, the first temporary directory, the first log."""
    tr = tree(r, r.choice(["tiny", "small"]), [f for f in ["config", "config", "crlf", "pathdeps", "cargoconfig", "sharedmod"] if r.random() < 0.5])
    o = opts(r, tr)
    pl = behave(r, sched(r), o)
    ops, cls = r.choice([("READ", "SRC"), ("OPENR", "SRC"), ("MKDIR", "TMP"), ("MKDIR", "TMP"), ("MKDIR", "OUT"), ("OPENW", "OUT"), ("OPENW", "LOG"),
                         ("WRITE", "LOG"), ("OPENR", "LOG"), ("WRITE", "JSON"), ("OPENW", "LIST"), ("FORK", "*"), ("EXEC", "*"), ("PIPE", "*"),
                         ("STAT", "SRC"), ("REALPATH", "SRC"), ("READ", "*")])
    f = err_fault(r, ops, cls)
    f["nth"] = r.randrange(1, 6)
    return spec1(tr, pl, o, [f])


def f_err_sig(r):
    """One failing call and one interrupt."""
    s = f_err(r)
    s["episodes"][0]["faults"].append(sig_fault(r))
    return s


def f_sig_copy(r):
    """An interrupt while a large tree is copied."""
    tr = tree(r, "tiny", ["bigtree"] + [f for f in ["junk", "symlinks"] if r.random() < 0.3])
    o = opts(r, tr, timeouts=False, selection=False)
    o["jobs"] = r.choice([1, 1, 2, 3])
    pl = behave(r, sched(r), o, hang=False)
    pl["p_switch"] = r.choice([2000, 6000])
    pl["edge_mean"] = 0
    pl.pop("p_stall", None)
    f = {"kind": 2, "err": r.choice([2, 2, 15]), "proc": -1, "trig": "nth", "cls": "TMP", "ops": r.choice(["OPENW", "OPENW,WRITE", "CHMOD,OPENW"]),
         "nth": r.randrange(1, 250)}
    if r.random() < 0.3:
        f.update(trig="child", nth=r.choice([4, 5, 6]), at=1)
        f.pop("ops")
        f.pop("cls")
    return spec1(tr, pl, o, [f])


def f_err_any(r):
    """Any single failure: also closing, removal, stat, realpath, clock of the file system."""
    s = pick(r, (4, f_core), (2, f_jobs), (1, f_inplace))(r)
    ops = r.choice(["*", "UNLINK", "RMDIR", "STAT", "REALPATH", "FLOCK", "FSYNC", "CLOSE", "READ", "WRITE", "UNLINK,RMDIR"])
    f = err_fault(r, ops if ops != "*" else "OPENR,OPENW,READ,WRITE,MKDIR,RENAME,UNLINK,RMDIR,STAT,OPENDIR,READDIR,FORK",
                  r.choice(["*", "*", "TMP", "OUT", "SRC"]), hi=600)
    s["episodes"][0]["faults"] = [f]
    return s


def f_enospc(r):
    """The disk under one class of paths fills up and stays full (or recovers later)."""
    s = pick(r, (4, f_core), (2, f_jobs), (2, f_inplace))(r)
    s["episodes"][0]["faults"] = [{"kind": 1, "err": r.choice([28, 122, 5]), "ops": r.choice(["WRITE", "WRITE,OPENW,MKDIR,COPYRANGE,SYMLINK"]),
                                   "cls": r.choice(["OUT", "TMP", "OUT,TMP"]), "trig": "nth", "nth": r.randrange(1, 500),
                                   "persist": r.choice([1000000, 5, 50])}]
    return s


def f_timeout(r):
    """Commands near, over and far over their limits."""
    tr = tree(r, p=0.05)
    o = opts(r, tr, check_p=0.2, skip_p=0.15)
    z = r.random()
    if z < 0.5:
        o["timeout"] = r.choice([0.3, 1.0, 2.5, 6.0, 20.0])
        o.pop("timeout_mult", None)
        o.pop("min_timeout", None)
    if o.get("check") or r.random() < 0.5:
        o["build_timeout"] = r.choice([0.3, 1.0, 4.0])
        o.pop("build_timeout_mult", None)
    pl = behave(r, sched(r), o)
    t, b = pl["beh"]["1"], pl["beh"]["0"]
    t[3] = r.choice([150, 400])
    if o.get("build_timeout") is not None:
        b[3] = pl["beh"]["2"][3] = r.choice([50, 300])
    pl["grand_pct"] = r.choice([0, 40, 90])
    if r.random() < 0.4:
        # the machine is slow, or stops for a while
        pl["p_stall"] = r.choice([300, 3000, 20000])
        pl["stall_max"] = r.choice([20, 300, 2000]) * MSEC
    return spec1(tr, pl, o, timefaults(r, 0.4))


def f_mult(r):
    """Limits derived from how long the baseline took, and commands that take about that long."""
    tr = tree(r, r.choice(["tiny", "small"]), [])
    o = opts(r, tr, check_p=0, skip_p=0, timeouts=False, selection=False)
    o["timeout_mult"] = r.choice([1.5, 2.0, 4.0])
    o["min_timeout"] = r.choice([0.0, 0.5, 2.0])
    if r.random() < 0.6:
        o["build_timeout_mult"] = r.choice([1.5, 3.0])
    pl = behave(r, sched(r), o, hang=False)
    pl.update(bdur_lo=300, bdur_hi=r.choice([3000, 30000]), nmul_t=int(o["timeout_mult"] * 1000),
              nmul_b=int(o.get("build_timeout_mult", 0) * 1000), stubborn_pct=0)
    pl["beh"] = {"0": [1000, 0, 0, 0], "1": [500, 500, 0, 0], "2": [1000, 0, 0, 0]}
    return spec1(tr, pl, o, timefaults(r, 0.2))


def f_copy(r, **kw):
    tr = tree(r, r.choice(["tiny", "small"]), p=0.45)
    o = opts(r, tr, timeouts=False, check_p=0.4)
    if r.random() < 0.5:
        o["gitignore"] = r.random() < 0.6
    if r.random() < 0.5:
        o["copy_vcs"] = r.random() < 0.6
    o["jobs"] = r.choice([1, 2, 3, 4])
    if r.random() < 0.2:
        o.pop("jobs")
    pl = behave(r, sched(r), o, hang=False)
    pl["cfr_mode"] = r.randrange(4)
    pl["p_short"] = r.choice([0, 0, 2000, 8000])
    return spec1(tr, pl, o)


def f_odd_names(r):
    """Names that are not UTF-8, which cannot be handled: the run has to stop rather than leave them out."""
    s = f_copy(r)
    tr = s["trees"][0] if "trees" in s else s["tree"]
    d = r.choice(["", "data/", "src/", "odd/deep/"])
    tr["entries"][d + r.choice(["n\udcff", "caf\udce9.txt", "\udc80\udc81"])] = r.choice([
        {"t": "f", "m": 0o644, "c": "odd\n"}, {"t": "d", "m": 0o755}, {"t": "l", "c": "nowhere"}])
    tr["odd_names"] = True
    return s


def f_copy_err(r):
    s = f_copy(r)
    ops = r.choice(["OPENR", "READ", "OPENW", "WRITE", "COPYRANGE", "CHMOD", "MKDIR", "SYMLINK", "READLINK", "OPENDIR", "READDIR", "OPENR,READ",
                    "STAT", "READ,WRITE,COPYRANGE"])
    cls = {"OPENR": "SRC", "READ": "SRC", "OPENDIR": "SRC", "READDIR": "SRC", "READLINK": "SRC"}.get(ops, r.choice(["TMP", "SRC,TMP"]))
    s["episodes"][0]["faults"] = [err_fault(r, ops, cls, hi=100)]
    return s


def f_dir_err(r):
    """A directory somewhere in the source tree cannot be listed."""
    tr = tree(r, "small", ["junk"] + [f for f in ["collide", "exec", "gitignore", "vcs", "nested_out"] if r.random() < 0.4])
    o = opts(r, tr, timeouts=False)
    pl = behave(r, sched(r), o, hang=False)
    return spec1(tr, pl, o, [err_fault(r, r.choice(["OPENDIR", "OPENDIR", "READDIR", "READLINK"]), "SRC", hi=40)])


def f_srclinks(r):
    feats = ["srclinks"] + [f for f in ["crlf", "junk", "symlinks", "unicode"] if r.random() < 0.2]
    for _ in range(20):
        tr = tree(r, r.choice(["small", "medium"]), feats)
        if tr["alias"]:
            break
    o = opts(r, tr, timeouts=False, out_p=0.15, selection=False)
    o["workspace"] = True
    pl = behave(r, sched(r), o, hang=False)
    return spec1(tr, pl, o)


def f_cli(r):
    tr = tree(r, r.choice(["tiny", "small", "medium"]), [f for f in ["config", "collide", "unicode", "crlf"] if r.random() < 0.35])
    o = opts(r, tr)
    tool_opts(r, tr, o)
    cwd = maybe_cwd(r, tr, o)
    pl = behave(r, sched(r), o)
    env = {}
    if r.random() < 0.2:
        env["CARGO_ENCODED_RUSTFLAGS"] = "-Copt-level=1\x1f--cfg=x" if r.random() < 0.5 else "-Copt-level=1"
    elif r.random() < 0.2:
        env["RUSTFLAGS"] = "--cfg flag -Copt-level=1"
    if r.random() < 0.3 and env:
        env.setdefault("RUSTFLAGS", "--cfg other")
        if r.random() < 0.2:
            env["CARGO_ENCODED_RUSTFLAGS"] = ""
    if r.random() < 0.15:
        env["INSTA_UPDATE"] = "always"
        env["INSTA_FORCE_PASS"] = "1"
    return spec1(tr, pl, o, None, cwd, env)


def f_kills_inplace(r):
    return f_sig(r, f_inplace, 9)


# ------------------------------------------------------------------ multi-process
def f_concurrent(r, n=None):
    """Several invocations on one output directory, overlapping in time; a history in it already, or none."""
    tr = tree(r, r.choice(["tiny", "tiny", "small"]), [])
    pl = sched(r)
    o0 = opts(r, tr, out_p=0, selection=False, timeouts=False)
    out = r.choice([None, None, "@/out"])
    pl = behave(r, pl, o0, hang=False)
    if r.random() < 0.6:
        pl["dur_lo"], pl["dur_hi"], pl["bdur_lo"], pl["bdur_hi"] = 1, 30, 1, 30
    procs = []
    n = n or r.choice([2, 2, 3, 4])
    for i in range(n):
        o = opts(r, tr, out_p=0, selection=False, timeouts=False, check_p=0.3)
        o["jobs"] = r.choice([1, 1, 2])
        if out:
            o["output"] = out
        at = r.choice([0, 0, r.randrange(0, 10**6), r.randrange(0, 10**8), r.randrange(0, 3 * 10**8), r.randrange(0, 3 * 10**9)])
        pr = {"opts": o, "at": at}
        if i and r.random() < 0.3:
            pr["after"] = r.randrange(0, i)
            pr["at"] = r.choice([0, r.randrange(0, 10**6), r.randrange(0, 10**8)])
        else:
            pr["at"] += T0
        procs.append(pr)
    eps = []
    if r.random() < 0.6:
        o = dict(procs[0]["opts"])
        eps.append({"plan": behave(r, sched(r), o, hang=False), "procs": [{"opts": o}], "faults": []})
        if r.random() < 0.4:
            eps.append({"plan": behave(r, sched(r), o, hang=False), "procs": [{"opts": o}], "faults": []})
    eps.append({"plan": pl, "procs": procs, "faults": []})
    return {"tree": tr, "mkdirs": [], "episodes": eps}


def f_concurrent_long(r):
    """The first run takes minutes to hours; others wait for it all that time, or give up."""
    s = f_concurrent(r, r.choice([2, 2, 3]))
    ep = s["episodes"][-1]
    k = r.choice([10, 60, 400])
    ep["plan"].update(dur_lo=1000, dur_hi=1000 * k, bdur_lo=1000, bdur_hi=1000 * k)
    for p in ep["procs"]:
        p["opts"].pop("output", None)
        p["opts"]["timeout"] = 4000.0
        p["opts"].pop("timeout_mult", None)
        p["opts"].pop("min_timeout", None)
    if r.random() < 0.3:
        ep["faults"] = [sig_fault(r, pick(r, (3, 2), (2, 9)), r.randrange(len(ep["procs"])))]
    return s


def f_concurrent_sig(r):
    s = f_concurrent(r)
    n = len(s["episodes"][-1]["procs"])
    s["episodes"][-1]["faults"] = [sig_fault(r, pick(r, (3, 2), (2, 9)), r.randrange(n)) for _ in range(r.choice([1, 1, 2]))]
    return s


def f_lockwait_sig(r):
    """Interrupt a run while it waits for the lock of another."""
    s = f_concurrent(r, 2)
    ep = s["episodes"][-1]
    a, b = ep["procs"]
    a["at"], b["at"] = T0, T0 + r.choice([60, 100, 300]) * MSEC
    b.pop("after", None)
    ep["plan"].update(dur_lo=2000, dur_hi=6000, bdur_lo=2000, bdur_hi=5000)
    ep["plan"]["beh"] = {"0": [1000, 0, 0, 0], "1": [500, 500, 0, 0], "2": [1000, 0, 0, 0]}
    ep["faults"] = [{"kind": 2, "err": r.choice([2, 15]), "proc": 1, "trig": "time", "at": b["at"] + r.randrange(50 * MSEC, 3 * SECN)}]
    return s


def f_list_beside(r):
    """Listing while a test run is going on."""
    s = f_concurrent(r, 2)
    ep = s["episodes"][-1]
    tr = s["tree"]
    o = {"list": True} if r.random() < 0.7 else {"list_files": True}
    if r.random() < 0.4:
        o["json"] = True
        if o.get("list") and r.random() < 0.4:
            o["diff"] = True
    if ep["procs"][0]["opts"].get("output"):
        o["output"] = ep["procs"][0]["opts"]["output"]
    if r.random() < 0.3:
        o["iterate"] = True
    if r.random() < 0.3:
        o["shard"] = [0, 2]
    ep["procs"][1] = {"opts": o, "at": T0 + r.randrange(0, 10**9), "cwd": r.choice(["@/ws", "@/ws", "@/ws/" + tr["pkgs"][0]["dir"]])}
    if r.random() < 0.3:
        ep["procs"] = [ep["procs"][1]]
    return s


# ------------------------------------------------------------------ histories
def f_iterate(r):
    """Histories of runs over one output directory: iterate, plain, interrupted, crashed, failed, source edits."""
    feats = [f for f in ["sharedmod", "collide", "unicode", "crlf"] if r.random() < 0.15]
    tr = tree(r, r.choice(["tiny", "small", "small"]), feats)
    mk = []
    out = pick(r, (5, None), (2, "@/out"))
    eps = []
    n = r.randrange(2, 6)
    flaky = r.random() < 0.5
    sb = r.getrandbits(60)
    common = {}
    if r.random() < 0.2:
        common["check"] = True
    if r.random() < 0.4:
        common["timeout"] = 2.0
    for i in range(n):
        o = dict(common)
        o["jobs"] = r.choice([1, 1, 2, 3])
        o["no_shuffle"] = r.random() < 0.5
        if out:
            o["output"] = out
        if i and r.random() < 0.8:
            o["iterate"] = True
        elif r.random() < 0.3:
            o["iterate"] = True
        if r.random() < 0.25:
            o["baseline_skip"] = True
        if r.random() < 0.15:
            sel_opts(r, tr, o)
        pl = behave(r, sched(r), o)
        pl["seed_behav"] = sb if not flaky else r.getrandbits(60)
        ep = {"plan": pl, "procs": [{"opts": o}], "faults": []}
        z = r.random()
        if z < 0.2:
            ep["faults"] = [sig_fault(r, 2)]
        elif z < 0.4:
            ep["faults"] = [sig_fault(r, 9)]
        elif z < 0.5:
            pl["base"] = [0, 1, 1]
        elif z < 0.6:
            ep["faults"] = [err_fault(r, r.choice(["WRITE", "OPENW", "RENAME", "MKDIR", "OPENR", "READ"]), "OUT")]
        if r.random() < 0.3:
            o2 = dict(o)
            o2["list"] = True
            eps.append({"plan": sched(r, False), "procs": [{"opts": o2}], "faults": []})
        if r.random() < 0.1 and i:
            ep["rm"] = ["ws/mutants.out", "ws/mutants.out.old"] if not out else ["out/mutants.out", "out/mutants.out.old"]
        eps.append(ep)
    return {"tree": tr, "mkdirs": mk, "episodes": eps}


def f_shards(r):
    tr = tree(r, r.choice(["small", "medium", "large"]), [f for f in ["collide", "unicode", "crlf"] if r.random() < 0.2])
    k = r.choice([1, 2, 2, 3, 4, 5, 7, 30])
    sel = {}
    sel_opts(r, tr, sel)
    eps = []
    order = list(range(k))
    r.shuffle(order)
    run = r.random() < 0.3 and k <= 4
    for i in order:
        o = dict(sel)
        o["shard"] = [i, k]
        if run:
            o["jobs"] = r.choice([1, 2])
            o["check"] = True
            o["output"] = f"@/o{i}"
            pl = behave(r, sched(r), o, hang=False)
        else:
            o["list"] = True
            if r.random() < 0.3:
                o["json"] = True
            pl = sched(r)
        eps.append({"plan": pl, "procs": [{"opts": o}], "faults": timefaults(r)})
    for _ in range(2):
        o = dict(sel)
        o["list"] = True
        if r.random() < 0.3:
            o["jobs"] = r.choice([1, 4])
        cwd = "@/ws"
        if r.random() < 0.4:
            o["dir"] = "@/ws"
            cwd = r.choice(["@/home", "@/ws/" + tr["pkgs"][0]["targets"][0][2].rsplit("/", 1)[0]])
        eps.append({"plan": sched(r), "procs": [{"opts": o, "cwd": cwd}], "faults": []})
    if run is False and r.random() < 0.5:
        i = r.randrange(k)
        o = dict(sel)
        o.update(list=True, shard=[i, k])
        eps.append({"plan": sched(r), "procs": [{"opts": o}], "faults": []})
    return {"tree": tr, "mkdirs": [], "episodes": eps}


def f_list_run(r):
    """--list (and --list-files), then the run with the same filters; possibly with an iterate record and a shard."""
    tr = tree(r, r.choice(["tiny", "small", "medium"]), [f for f in ["collide", "unicode", "crlf", "config", "vcs", "gitignore"] if r.random() < 0.2])
    if tr.get("config"):
        tr["config"].pop("output", None)
        tr["entries"][".cargo/mutants.toml"]["c"] = gen.config_toml(tr["config"])
    eps = []
    o = opts(r, tr, timeouts=False, out_p=0.2)
    cwd = maybe_cwd(r, tr, o)
    if r.random() < 0.5:
        o1 = dict(o)
        eps.append({"plan": behave(r, sched(r), o1, hang=False), "procs": [{"opts": o1, "cwd": cwd or "@/ws"}], "faults": []})
        if r.random() < 0.7:
            o = dict(o)
            o["iterate"] = True
    if r.random() < 0.4:
        k = r.choice([2, 3])
        o = dict(o)
        o["shard"] = [r.randrange(k), k]
    for _ in range(r.choice([1, 2])):
        ol = dict(o)
        ol["list" if r.random() < 0.8 else "list_files"] = True
        if r.random() < 0.3:
            ol["json"] = True
        eps.append({"plan": sched(r), "procs": [{"opts": ol, "cwd": cwd or "@/ws"}], "faults": []})
        if len(eps) == 2 and not o.get("output") and r.random() < 0.15:
            # only the results before the last ones are there
            eps[-1]["rm"] = ["none"]
            eps[-1]["mv"] = [["ws/mutants.out", "ws/mutants.out.old"]]
    eps.append({"plan": behave(r, sched(r), o, hang=False), "procs": [{"opts": o, "cwd": cwd or "@/ws"}], "faults": []})
    return {"tree": tr, "mkdirs": mkdirs_for(o), "episodes": eps}


def f_list_err(r):
    s = f_list_run(r)
    for ep in s["episodes"]:
        o = ep["procs"][0]["opts"]
        if o.get("list") or o.get("list_files"):
            ep["faults"] = [err_fault(r, r.choice(["OPENR", "READ", "STAT", "OPENDIR"]), "*", hi=60)] if r.random() < 0.7 else [sig_fault(r)]
    return s


def f_rerun(r):
    """The same output directory used by several complete runs in sequence."""
    s = f_core(r)
    s["tree"].pop("config", None)
    ep = s["episodes"][0]
    eps = []
    for _ in range(r.choice([2, 3])):
        e = dict(ep)
        o = dict(ep["procs"][0]["opts"])
        e["plan"] = behave(r, sched(r), o)
        e["procs"] = [dict(ep["procs"][0], opts=o)]
        eps.append(e)
    s["episodes"] = eps
    if "config" in s["tree"]["feats"]:
        return f_core(r)
    return s


FLAV = {
    "C01": [(5, f_core), (3, f_jobs), (1, f_timeout), (1, f_inplace), (1, f_rerun), (1, f_shards), (1, f_iterate), (1, f_sig), (1, f_err), (2, f_lockstep), (2, f_slow), (1, f_console)],
    "C02": [(4, f_core), (3, f_jobs), (1, f_timeout), (2, f_inplace), (1, f_srclinks), (1, f_sig), (1, f_sig_inplace), (2, f_err), (1, f_err_any), (1, f_copy), (1, f_lockstep), (2, f_slow), (1, f_console)],
    "C03": [(4, f_core), (4, f_timeout), (3, f_jobs), (1, f_inplace), (1, f_sig), (1, f_base_fail), (1, f_err), (2, f_slow), (1, f_iterate), (1, f_mult)],
    "C04": [(4, f_core), (2, f_timeout), (2, f_base_fail), (2, f_sig), (2, f_err), (1, f_err_any), (1, f_jobs), (1, f_inplace), (1, f_sig_inplace), (1, f_kill), (1, f_err_sig), (1, f_err_setup), (2, f_iterate), (1, f_shards), (2, f_console)],
    "C05": [(3, f_core), (4, f_base_fail), (1, f_jobs), (2, f_sig), (2, f_err), (1, f_err_any), (1, f_inplace), (1, f_err_setup), (2, f_iterate), (1, f_rerun)],
    "C06": [(4, f_core), (2, f_jobs), (3, f_srclinks), (2, f_copy), (1, f_sig), (1, f_kill), (2, f_err), (2, f_err_any), (1, f_enospc), (1, f_rerun), (2, f_err_setup), (1, f_err_sig), (1, f_iterate), (1, f_console)],
    "C07": [(4, f_inplace), (4, f_sig_inplace), (1, f_base_fail)] + [(4, lambda r: f_err(r, f_inplace)), (2, f_enospc), (2, f_err_any), (5, f_inplace_err), (4, f_console)],
    "C08": [(6, f_timeout), (2, f_core), (1, f_jobs), (2, f_mult), (1, f_base_fail), (1, f_iterate)],
    "C09": [(4, f_sig), (3, f_sig_jobs), (2, f_sig_inplace), (1, f_lockwait_sig), (1, lambda r: f_sig(r, f_timeout)), (1, lambda r: f_sig(r, f_copy)), (2, f_sig_copy), (1, f_err_sig), (3, f_console), (1, f_iterate)],
    "C10": [(3, f_core), (2, f_jobs), (3, f_sig), (2, f_sig_jobs), (3, f_err), (1, f_err_any), (1, f_base_fail), (1, f_copy_err), (1, f_timeout), (1, f_err_sig), (1, f_err_setup), (1, f_sig_copy), (2, f_slow), (2, f_console), (1, f_iterate)],
    "C11": [(4, f_concurrent), (2, f_concurrent_long), (2, f_concurrent_sig), (1, f_rerun), (1, f_lockwait_sig)],
    "C12": [(1, f_iterate)],
    "C13": [(1, f_shards)],
    "C14": [(8, f_copy), (1, f_odd_names), (2, f_srclinks), (6, f_copy_err), (2, f_dir_err), (2, f_core), (2, f_jobs)],
    "C15": [(4, f_core), (4, f_jobs), (2, f_timeout), (1, f_inplace), (1, f_sig), (1, lambda r: f_collide(r)), (1, f_lockstep), (2, f_slow), (1, f_iterate)],
    "C16": [(6, f_err), (2, f_err_any), (2, f_enospc), (2, f_copy_err), (2, f_dir_err), (1, f_core), (1, f_iterate), (3, f_err_setup), (1, f_console)],
    "C17": [(4, f_jobs), (2, f_core), (1, f_timeout), (1, f_err), (2, f_lockstep), (2, f_slow), (1, f_iterate)],
    "C18": [(3, f_core), (3, f_jobs), (2, f_err), (2, f_err_any), (1, f_sig), (2, f_timeout), (1, f_concurrent), (1, f_concurrent_sig), (2, f_lockstep), (1, f_err_setup), (2, f_slow), (2, f_console), (1, f_iterate)],
    "C19": [(6, f_kill), (1, f_sig), (1, f_core), (1, f_err), (1, f_kills_inplace), (1, f_lockstep), (2, lambda r: f_sig(r, f_lockstep, 9)), (2, f_slow), (1, f_console)],
    "C20": [(5, f_cli), (1, f_core), (1, f_base_fail), (1, f_iterate)],
    "C21": [(4, f_core), (3, f_jobs), (1, f_timeout), (1, f_inplace), (1, f_sig), (1, f_base_fail), (1, f_lockstep), (4, f_slow), (1, f_iterate)],
    "C22": [(4, f_list_run), (3, f_list_beside), (1, f_list_err)],
}


def f_collide(r):
    tr = tree(r, r.choice(["small", "medium"]), ["collide"] + (["unicode"] if r.random() < 0.3 else []))
    o = opts(r, tr, selection=False)
    o["workspace"] = True
    pl = behave(r, sched(r), o)
    return spec1(tr, pl, o)


def make(prop, seed):
    r = random.Random(f"{prop}:{seed}")
    f = pick(r, *FLAV[prop])
    s = f(r)
    s["flavour"] = getattr(f, "__name__", "?").strip("<>")
    s["prop"], s["seed"] = prop, seed
    if any(ep.get("tree") for ep in s["episodes"]):
        for ep in s["episodes"]:
            for pr in ep["procs"]:
                pr["opts"].pop("in_diff", None)
    if prop == "C06":
        for ep in s["episodes"]:
            ep["plan"]["watch_src"] = 1
    for ep in s["episodes"]:
        # some options can be given in the environment as well
        if len(ep["procs"]) == 1 and r.random() < 0.15:
            o = ep["procs"][0]["opts"]
            e = [k for k in run.ENV_OPTS if o.get(k) is not None and r.random() < 0.6]
            if e:
                ep["procs"][0] = dict(ep["procs"][0], opts=dict(o, from_env=e))
    return s
