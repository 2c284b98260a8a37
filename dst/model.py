"""Reference model: what a run with given tree and options must do, independent of the implementation."""
import fnmatch
import functools
import json
import math
import re

from gen import mutated
import run as R

SUMMARY_LIST = {"CaughtMutant": "caught.txt", "MissedMutant": "missed.txt", "Timeout": "timeout.txt", "Unviable": "unviable.txt"}
LISTS = ["caught.txt", "missed.txt", "timeout.txt", "unviable.txt"]
VCS = {".git", ".hg", ".bzr", ".svn", "_darcs", ".jj", ".pijul"}


def eff(opts, tree):
    """Effective options: command line merged with the configuration file."""
    c = {} if opts.get("no_config") else tree.get("config") or {}
    o = dict(opts)

    def dflt(k, ck):
        if o.get(k) is None and c.get(ck) is not None:
            o[k] = c[ck]
    dflt("cap_lints", "cap_lints")
    dflt("copy_vcs", "copy_vcs")
    dflt("min_timeout", "minimum_test_timeout")
    dflt("timeout_mult", "timeout_multiplier")
    dflt("build_timeout_mult", "build_timeout_multiplier")
    dflt("profile", "profile")
    dflt("test_tool", "test_tool")
    o["cargo_args"] = list(o.get("cargo_args") or []) + list(c.get("additional_cargo_args") or [])
    o["test_args"] = list(o.get("test_args") or []) + list(c.get("additional_cargo_test_args") or [])
    o["exclude_re"] = o.get("exclude_re") or c.get("exclude_re") or []
    o["examine_re"] = o.get("examine_re") or c.get("examine_re") or []
    o["errors"] = (o.get("errors") or []) + (c.get("error_values") or [])
    if o.get("test_workspace"):
        o["tp"] = "workspace"
    elif o.get("test_package"):
        o["tp"] = [x for s in o["test_package"] for x in s.split(",")]
    elif o.get("test_workspace") is None and c.get("test_workspace"):
        o["tp"] = "workspace"
    elif c.get("test_package"):
        o["tp"] = c["test_package"]
    else:
        o["tp"] = "mutated"
    return o


def selected_pkgs(tree, o, cwd="@/ws"):
    names = [p["name"] for p in tree["pkgs"]]
    if o.get("packages"):
        return [n for n in names if n in o["packages"]]
    if o.get("workspace"):
        return names
    start = cwd
    if o.get("dir") is not None:
        start = o["dir"]
    elif o.get("manifest_path") is not None:
        start = o["manifest_path"].rsplit("/", 1)[0]
    rel = start[len("@/ws"):].strip("/")
    dirs = {p["dir"]: p["name"] for p in tree["pkgs"]}
    has_manifest = set(dirs) | {""}
    while rel not in has_manifest:
        rel = rel.rpartition("/")[0]
    if rel in dirs:
        return [dirs[rel]]
    return list(tree["defaults"])


def selected(tree, o, cwd="@/ws"):
    pk = set(selected_pkgs(tree, o, cwd))
    out = []
    for m in tree["mutants"]:
        if m["pkg"] not in pk:
            continue
        if m["err"] is not None and m["err"] not in (o.get("errors") or []):
            continue
        if o.get("examine_re") and not any(re.search(x, m["name"]) for x in o["examine_re"]):
            continue
        if any(re.search(x, m["name"]) for x in o.get("exclude_re") or []):
            continue
        base = m["file"].rsplit("/", 1)[-1]
        if o.get("files") and not any(fnmatch.fnmatchcase(base, g) for g in o["files"]):
            continue
        if any(fnmatch.fnmatchcase(base, g) for g in o.get("excludes") or []):
            continue
        if o.get("in_diff") is not None:
            end = m["line"] + tree["codes"][m["file"]].count("\n", m["a"], m["b"])
            if not any(m["line"] <= x <= end for x in o["in_diff"].get(m["file"], [])):
                continue
        out.append(m)
    return out


def mut_map(tree):
    mm = tree.get("_mm")
    if mm is None:
        mm = tree["_mm"] = {(m["file"], mutated(tree["codes"][m["file"]], m)): m for m in tree["mutants"]}
    return mm


def norm(b):
    return b.decode("utf-8", "replace").replace("\r\n", "\n")


def attr(h, tree, snap):
    """-> ('base', None) | ('mut', m) | ('bad', why).  Which scenario does this tree state belong to?"""
    cache = h.__dict__.setdefault("_attr", {})
    key = (snap, id(tree))
    if key in cache:
        return cache[key]
    s = h.snaps.get(snap)
    res = None
    if s is None:
        res = ("bad", "no snapshot of the working directory")
    else:
        changed = []
        for f, code in tree["codes"].items():
            e = s.get(f)
            alias = tree.get("alias", {}).get(f)
            if alias and (e is None or e[0] == "L"):
                e = s.get(alias)
            if e is None:
                changed.append((f, None))
                continue
            if e[0] == "L":
                continue
            t = h.__dict__.setdefault("_norm", {}).get(e[3])
            if t is None:
                t = h._norm[e[3]] = norm(h.blob(e[3]))
            if t != code:
                changed.append((f, t))
        if not changed:
            res = ("base", None)
        elif len(changed) > 1:
            res = ("bad", "more than one source file differs: " + ", ".join(x[0] for x in changed))
        else:
            f, t = changed[0]
            m = mut_map(tree).get((f, t)) if t is not None else None
            if m:
                res = ("mut", m)
            elif t is None:
                res = ("bad", f"source file {f} is missing")
            else:
                n = t.count("/* ~ changed by cargo-mutants ~ */")
                res = ("bad", f"{f} matches neither the original nor any single mutant ({n} mutation markers)")
    cache[key] = res
    return res


def phases(o):
    return ["check"] if o.get("check") else ["build", "test"]


class PRun:
    """One cargo-mutants process within an episode."""

    def __init__(self, ep, p):
        self.ep, self.p, self.h, self.tree = ep, p, ep.h, ep.tree
        pr = ep.spec["procs"][p]
        self.cwd = pr.get("cwd", "@/ws")
        self.o = eff(pr["opts"], ep.tree)
        self.parent = R.out_parent(pr["opts"], pr, ep.tree)
        self.cmds = self.h.cmds(p)
        self.exit = self.h.exits.get(p)
        self.code = self.exit[2] if self.exit else None
        self.sig = self.exit[3] if self.exit else None
        errf = [f for f in self.h.faults if f[3] == 1 and f[4] == p]
        self.conf = [f for f in errf if f[6].endswith((f"/stdout.{p}", f"/stderr.{p}"))]   # the console could not be written
        self.errf = [f for f in errf if f not in self.conf]
        self.sigs = [s for s in self.h.signals if s[2] == p]
        self.handled = [s for s in self.sigs if s[4] == "handler"]
        self.killed = bool(self.sig)
        self.benign = not errf and not self.sigs and not self.h.limit and self.exit is not None \
            and not ep.spec["plan"].get("meta_fail") and not (self.tree.get("odd_names") and not self.o.get("in_place"))
        self.slack = 0.3 + ep.stall
        for c in self.cmds:
            pass

    @functools.cached_property
    def sel(self):
        return selected(self.tree, self.o, self.cwd)

    def attr(self, c):
        return attr(self.h, self.tree, c.snap)

    @functools.cached_property
    def base_cmds(self):
        return [c for c in self.cmds if self.attr(c)[0] == "base"]

    @functools.cached_property
    def mut_cmds(self):
        d = {}
        for c in self.cmds:
            a = self.attr(c)
            if a[0] == "mut":
                d.setdefault(a[1]["name"], []).append(c)
        return d

    @functools.cached_property
    def kill_by_pg(self):
        d = {}
        for k in self.h.killpgs:
            if k[2] == self.p:
                d.setdefault(k[3], []).append(k)
        return d

    def timed(self, c):
        """Group-killed by cargo-mutants before being reaped."""
        for k in self.kill_by_pg.get(c.pg, []):
            if k[0] > c.i0 and (c.ireap is None or k[0] < c.ireap):
                return k
        for k in c.kills:
            if c.ireap is None or k[0] < c.ireap:
                return k
        return None

    def status(self, c):
        if c.ireap is None:
            return None
        if self.timed(c):
            return "Timeout"
        if c.end_st == 0:
            return "Success"
        if c.end_st & 0x7f:
            return {"Signalled": c.end_st & 0x7f}
        return {"Failure": c.end_st >> 8}

    def verdict(self, cs):
        """Verdict of a mutant from its own commands; None while unfinished."""
        if not cs:
            return None
        ph = phases(self.o)
        st = [self.status(c) for c in cs]
        if any(s is None for s in st):
            return None
        for c, s in zip(cs, st):
            if c.phase != "test" and isinstance(s, dict) and "Failure" in s:
                return "Unviable"
            if s == "Timeout":
                return "Timeout"
            if s != "Success":
                return "CaughtMutant" if c.phase == "test" and "Failure" in s else "Failure"
        if len(cs) < len(ph):
            return None
        return "Success" if self.o.get("check") else "MissedMutant"

    @functools.cached_property
    def base_state(self):
        """'skip' | 'ok' | 'failed' | 'unfinished' | 'none'"""
        if self.o.get("baseline_skip"):
            return "skip"
        if not self.base_cmds:
            return "none"
        st = [self.status(c) for c in self.base_cmds]
        if any(s is not None and s != "Success" for s in st):
            return "failed"
        if any(s is None for s in st) or len(st) < len(phases(self.o)):
            return "unfinished"
        return "ok"

    @functools.cached_property
    def complete(self):
        """True if every selected mutant has finished testing (given baseline ok)."""
        return all(self.verdict(self.mut_cmds.get(m["name"], [])) for m in self.sel)

    def expected_code(self):
        if not self.sel:
            return 0
        if self.base_state == "failed":
            return 4
        vs = [self.verdict(cs) for cs in self.mut_cmds.values()]
        return 3 if "Timeout" in vs else 2 if "MissedMutant" in vs else 0

    # ---- recorded results (valid when this process was the last user of the directory)
    @functools.cached_property
    def made_out(self):
        """Did this process make the output directory (or is it the one of an earlier run that is found here)?"""
        return any(f[2] == self.p and f[4] == "mkdir" and f[5].endswith("/mutants.out") and not f[7] for f in self.h.fs)

    @functools.cached_property
    def out(self):
        return self.ep.outs[self.parent]["mutants.out"] if self.made_out else None

    def text(self, name, d=None):
        d = self.out if d is None else d
        e = (d or {}).get(name)
        return e[2].decode("utf-8", "replace") if e and e[0] == "f" else None

    def js(self, name, d=None):
        t = self.text(name, d)
        if t is None:
            return None
        try:
            return json.loads(t)
        except ValueError:
            return ValueError

    @functools.cached_property
    def outcomes(self):
        return self.js("outcomes.json")

    def lines(self, name, d=None):
        t = self.text(name, d)
        return [] if t is None else t.split("\n")[:-1]


def mname(j):
    """Name of a mutant from its JSON record."""
    f = j.get("function") or {}
    fn, rt = f.get("function_name", ""), f.get("return_type", "")
    loc = f"{j['file']}:{j['span']['start']['line']}:{j['span']['start']['column']}: "
    return loc, fn, rt, j["replacement"], j["genre"]


def json_key(j):
    f = j.get("function") or {}
    return (j["file"], j["span"]["start"]["line"], j["span"]["start"]["column"], j["replacement"], f.get("function_name", ""), j["genre"])


def mut_key(m):
    return (m["file"], m["line"], m["col"], m["repl"], m["fn"], m["genre"])


def by_key(tree):
    d = tree.get("_bk")
    if d is None:
        d = tree["_bk"] = {mut_key(m): m for m in tree["mutants"]}
    return d


def limits(pr):
    """(build limit, test limit) in seconds for mutants, as the documentation defines them; None = unlimited.
    Needs the recorded baseline durations."""
    o = pr.o
    durs = {}
    oc = pr.outcomes
    if isinstance(oc, dict):
        for x in oc["outcomes"]:
            if x["scenario"] == "Baseline":
                for ph in x["phase_results"]:
                    durs[ph["phase"]] = ph["duration"]
    if o.get("timeout") is not None:
        test = float(o["timeout"])
    elif "Test" in durs:
        mult = o.get("timeout_mult")
        mn = o.get("min_timeout")
        test = max(20.0 if mn is None else float(mn), float(math.ceil(durs["Test"] * (5.0 if mult is None else float(mult)))))
    else:
        test = 300.0
    if o.get("build_timeout") is not None:
        build = float(o["build_timeout"])
    elif o.get("build_timeout_mult") is not None and "Build" in durs:
        build = durs["Build"] * float(o["build_timeout_mult"])
    else:
        build = None
    return build, test, durs


def expected_argv(pr, phase, scenario_pkgs):
    o = pr.o
    tool = o.get("test_tool") or "cargo"
    a = []
    if phase == "check":
        a += ["check", "--tests"]
    else:
        a += ["test"] if tool == "cargo" else ["nextest", "run"]
        if phase == "build":
            a.append("--no-run")
    head = list(a)
    rest = []
    if o.get("profile"):
        rest.append(("--cargo-profile=" if tool == "nextest" and phase != "check" else "--profile=") + o["profile"])
    if scenario_pkgs == "workspace":
        rest.append("--workspace")
    else:
        vers = {p["name"]: p["version"] for p in pr.tree["pkgs"]}
        rest += [f"--package={n}@{vers[n]}" for n in scenario_pkgs]
    if o.get("no_default_features"):
        rest.append("--no-default-features")
    if o.get("all_features"):
        rest.append("--all-features")
    rest += [f"--features={x}" for x in o.get("features") or []]
    rest += o.get("cargo_args") or []
    tail = list(o.get("test_args") or []) if phase == "test" else []
    return head, rest, tail


def test_pkgs(pr, m):
    tp = pr.o["tp"]
    if tp == "workspace":
        return "workspace"
    if tp == "mutated":
        return [m["pkg"]]
    names = {p["name"] for p in pr.tree["pkgs"]}
    return sorted(n for n in tp if n in names)


def base_pkgs(sel):
    return sorted({m["pkg"] for m in sel})
