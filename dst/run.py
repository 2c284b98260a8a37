"""Runs an experiment (a fully explicit description) in the simulator and parses what happened."""
import json
import os
import random
import shutil
import stat
import subprocess
import tempfile
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("DST_BUILD", os.path.join(VERIF, ".build"))
SIM = os.path.join(BUILD, "sim")
BINARY = os.path.join(BUILD, "target/debug/cargo-mutants")
SHM = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"

OPNAMES = ("OPENR OPENW READ WRITE CLOSE MKDIR RENAME UNLINK RMDIR SYMLINK READLINK OPENDIR READDIR STAT COPYRANGE "
           "FTRUNC CHMOD FLOCK FORK EXEC REALPATH THREAD FSYNC LINK PIPE FUTEX SLEEP CLOCK WAIT KILL POLL JOIN EDGE MISC").split()


os.umask(0o022)
TAG = f"{os.getpid():07d}"      # inherited by forked workers


def sweep():
    """Remove what terminated workers of this process left."""
    for d in os.listdir(SHM):
        if d.startswith(f"cms-{TAG}-"):
            shutil.rmtree(f"{SHM}/{d}", ignore_errors=True)


class HarnessError(Exception):
    pass


# ------------------------------------------------------------------ options -> arguments
ENV_OPTS = {"jobs": "CARGO_MUTANTS_JOBS", "min_timeout": "CARGO_MUTANTS_MINIMUM_TEST_TIMEOUT", "output": "CARGO_MUTANTS_OUTPUT"}


def args_of(o, root):
    a = ["cargo-mutants", "mutants"]
    if o.get("from_env"):
        o = {k: v for k, v in o.items() if k not in o["from_env"]}

    def flag(k, s):
        if o.get(k):
            a.append(s)

    def val(k, s):
        if o.get(k) is not None:
            a.append(f"{s}={o[k]}")

    def boolval(k, s):
        if o.get(k) is not None:
            a.append(f"{s}={'true' if o[k] else 'false'}")
    if o.get("jobs") is not None:
        a.append(f"-j{o['jobs']}")
    flag("check", "--check")
    if o.get("baseline_skip"):
        a.append("--baseline=skip")
    val("timeout", "--timeout")
    val("timeout_mult", "--timeout-multiplier")
    val("min_timeout", "--minimum-test-timeout")
    val("build_timeout", "--build-timeout")
    val("build_timeout_mult", "--build-timeout-multiplier")
    flag("in_place", "--in-place")
    flag("no_shuffle", "--no-shuffle")
    flag("shuffle", "--shuffle")
    flag("iterate", "--iterate")
    if o.get("shard"):
        a.append("--shard=%d/%d" % tuple(o["shard"]))
    flag("list", "--list")
    flag("list_files", "--list-files")
    flag("json", "--json")
    flag("diff", "--diff")
    if o.get("output") is not None:
        a.append("--output=" + o["output"].replace("@", root))
    boolval("jobserver", "--jobserver")
    val("jobserver_tasks", "--jobserver-tasks")
    flag("leak_dirs", "--leak-dirs")
    boolval("gitignore", "--gitignore")
    boolval("copy_vcs", "--copy-vcs")
    flag("caught", "--caught")
    flag("unviable", "--unviable")
    flag("no_times", "--no-times")
    flag("all_logs", "--all-logs")
    val("level", "--level")
    val("colors", "--colors")
    val("test_tool", "--test-tool")
    boolval("test_workspace", "--test-workspace")
    for p in o.get("test_package") or []:
        a.append(f"--test-package={p}")
    for p in o.get("packages") or []:
        a.append(f"--package={p}")
    flag("workspace", "--workspace")
    boolval("cap_lints", "--cap-lints")
    val("profile", "--profile")
    for p in o.get("features") or []:
        a.append(f"--features={p}")
    flag("no_default_features", "--no-default-features")
    flag("all_features", "--all-features")
    for p in o.get("cargo_args") or []:
        a.append(f"--cargo-arg={p}")
    for p in o.get("exclude_re") or []:
        a.append(f"--exclude-re={p}")
    for p in o.get("examine_re") or []:
        a.append(f"--re={p}")
    for p in o.get("files") or []:
        a.append(f"--file={p}")
    for p in o.get("excludes") or []:
        a.append(f"--exclude={p}")
    for p in o.get("errors") or []:
        a.append(f"--error={p}")
    flag("no_config", "--no-config")
    if o.get("in_diff") is not None:
        a.append(f"--in-diff={root}/" + diff_name(o["in_diff"]))
    if o.get("dir") is not None:
        a.append("--dir=" + o["dir"].replace("@", root))
    if o.get("manifest_path") is not None:
        a.append("--manifest-path=" + o["manifest_path"].replace("@", root))
    if o.get("test_args"):
        a.append("--")
        a += o["test_args"]
    return a


# ------------------------------------------------------------------ tree materialisation
def metadata_json(tree, ws):
    pk = []
    ids = {}
    for p in tree["pkgs"]:
        d = ws + ("/" + p["dir"] if p["dir"] else "")
        i = f"path+file://{d}#{p['name']}@{p['version']}"
        ids[p["name"]] = i
        pk.append({
            "name": p["name"], "version": p["version"], "id": i, "license": None, "license_file": None,
            "description": None, "source": None, "dependencies": [],
            "targets": [{"kind": [k], "crate_types": [k if k != "test" else "bin"], "name": n, "src_path": f"{ws}/{s}",
                         "edition": "2021", "doc": True, "doctest": True, "test": True} for k, n, s in p["targets"]],
            "features": {}, "manifest_path": f"{d}/Cargo.toml", "metadata": None, "publish": None, "authors": [],
            "categories": [], "keywords": [], "readme": None, "repository": None, "homepage": None,
            "documentation": None, "edition": "2021", "links": None, "default_run": None, "rust_version": None})
    return json.dumps({
        "packages": pk, "workspace_members": list(ids.values()),
        "workspace_default_members": [ids[n] for n in tree["defaults"]], "resolve": None,
        "target_directory": ws + "/target", "version": 1, "workspace_root": ws, "metadata": None})


def write_tree(tree, ws):
    os.makedirs(ws, exist_ok=True)
    for p in sorted(tree["entries"], key=lambda q: (tree["entries"][q]["t"] == "h", q)):
        e = tree["entries"][p]
        full = os.path.join(ws, p)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        if e["t"] == "d":
            os.makedirs(full, exist_ok=True)
        elif e["t"] == "h":
            os.link(os.path.join(ws, e["c"]), full)
        elif e["t"] == "l":
            os.symlink(e["c"].replace("@ws", ws), full)
        elif e["t"] == "p":
            os.mkfifo(full)
        else:
            fd = os.open(full, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
            os.write(fd, e["c"].encode())
            os.fchmod(fd, e["m"])
            os.close(fd)


def diff_name(lines):
    return "home/pr%08x.diff" % zlib.crc32(json.dumps(lines, sort_keys=True).encode())


def diff_text(tree, lines):
    """A diff whose new side has just these lines added: file -> sorted line numbers from 1."""
    out = ["Binary files a/logo.png and b/logo.png differ"]
    for p in sorted(lines):
        code = tree["codes"][p].split("\n")
        out += [f"--- a/{p}", f"+++ b/{p}"]
        ls, i, added = lines[p], 0, 0
        while i < len(ls):
            j = i
            while j + 1 < len(ls) and ls[j + 1] == ls[j] + 1:
                j += 1
            n = j - i + 1
            out.append(f"@@ -{ls[i] - 1 - added},0 +{ls[i]},{n} @@")
            out += ["+" + code[x - 1] for x in ls[i:j + 1]]
            added += n
            i = j + 1
    return "\n".join(out) + "\n"


def touch(tree, ws, seed):
    """Files have arbitrary times of modification, which nothing should depend on."""
    r = random.Random(seed)
    for p in sorted(tree["entries"]):
        t = 1_400_000_000 + r.randrange(300_000_000)
        try:
            os.utime(os.path.join(ws, p), (t, t), follow_symlinks=False)
        except OSError:
            pass


def scan(top, skip=lambda rel: False):
    """path -> ('f', mode, bytes) / ('d', mode) / ('l', target), sorted recursion."""
    out = {}
    if not os.path.isdir(top):
        return out
    stack = [""]
    while stack:
        rel = stack.pop()
        with os.scandir(os.path.join(top, rel) if rel else top) as it:
            for e in it:
                r = rel + "/" + e.name if rel else e.name
                if skip(r):
                    continue
                if e.is_symlink():
                    out[r] = ("l", os.readlink(e.path))
                elif e.is_dir(follow_symlinks=False):
                    out[r] = ("d", e.stat(follow_symlinks=False).st_mode & 0o7777)
                    stack.append(r)
                else:
                    st = e.stat(follow_symlinks=False)
                    if not stat.S_ISREG(st.st_mode):
                        out[r] = ("o", st.st_mode & 0o7777)
                        continue
                    with open(e.path, "rb") as f:
                        out[r] = ("f", st.st_mode & 0o7777, f.read())
    return out


def skip_ws(rel):
    parts = rel.split("/")
    return parts[0] == "mutants.out" or parts[0] == "mutants.out.old" or \
        (len(parts) == 2 and parts[0] == "target" and parts[1].startswith("sim."))


# ------------------------------------------------------------------ history
class Child:
    __slots__ = ("p", "c", "pg", "phase", "cwd", "snap", "pristine", "v", "st", "dur", "js", "jsino", "jstok", "env", "argv",
                 "t0", "t1", "end_st", "killed", "endsnap", "reap", "kills", "grands", "i0", "i1", "ireap", "orphan", "cmd", "leader", "stubborn", "poll4")

    def __init__(self):
        self.t1 = self.reap = self.i1 = self.ireap = None
        self.end_st = None
        self.kills = []
        self.grands = []
        self.killed = 0
        self.endsnap = -2
        self.orphan = False
        self.env = {}
        self.argv = []
        self.snap = -2
        self.pristine = 0
        self.cmd = None
        self.leader = None
        self.stubborn = 0
        self.poll4 = 0.0      # the fourth last time it was found still running


def kv(parts):
    d = {}
    for x in parts:
        k, eq, v = x.partition("=")
        if eq:
            d[k] = v
    return d


class Hist:
    def __init__(self, ctl, root, nproc):
        self.root = root
        self.children = []
        self.grands = {}
        self.by_c = {}
        self.fs = []          # (i, t, p, task, op, path, path2, errno, flags)
        self.flocks = []      # (i, t, p, op, path, ino)
        self.faults = []      # (i, t, idx, kind, proc, op, path, val)
        self.signals = []     # (i, t, p, sig, how)
        self.handlers = {}    # p -> {sig: i}
        self.exits = {}       # p -> (i, t, code, sig)
        self.starts = {}
        self.killpgs = []     # (i, t, p, pg, sig)
        self.threads = []
        self.wsnaps = []      # (i, t, snapshot of the source tree)
        self.limit, self.tlimit = 0, 0.0
        self.stuck = []
        self.bad = []
        self.execfail = []
        self.lines = open(os.path.join(ctl, "trace"), encoding="utf-8", errors="replace").read().split("\n")[:-1]

        def ex(p):
            return root + p[1:] if p.startswith("@") and p[1:2] in ("", "/") else p
        for i, l in enumerate(self.lines):
            q = l.split(" ")
            t = int(q[0]) / 1e6
            ev = q[1]
            if ev == "FS":
                self.fs.append((i, t, int(q[2]), int(q[3]), q[4], ex(q[5]), ex(q[6]) if q[6] != "-" else None, int(q[7][3:]), int(q[8][2:], 8)))
            elif ev == "CHILD":
                d = kv(q[2:])
                c = Child()
                c.p, c.c, c.pg, c.phase, c.cwd, c.t0, c.i0 = int(d["p"]), int(d["c"]), int(d["pg"]), d["phase"], d["cwd"], t, i
                if c.phase == "meta":
                    c.cmd = d["cmd"]
                else:
                    c.snap, c.pristine, c.v, c.st = int(d["snap"]), int(d["pristine"]), d["v"], int(d["st"])
                    c.dur = int(d["dur"])
                    c.stubborn = int(d["stubborn"])
                    c.js, c.jsino, c.jstok = d["js"], int(d["jsino"]), int(d["jstok"])
                    ei = l.index(" env=") + 5
                    ai = l.index(" argv=", ei)
                    c.env = dict(x.replace("~", " ").split("=", 1) for x in l[ei:ai].split("|")[1:])
                    c.argv = l[ai + 6:].split("|")[1:]
                self.children.append(c)
                self.by_c[c.c] = c
            elif ev == "GRAND":
                d = kv(q[2:])
                g = Child()
                g.c, g.pg, g.t0, g.i0, g.leader = int(d["c"]), int(d["pg"]), t, i, int(d["of"])
                self.grands[g.c] = g
                self.by_c[g.c] = g
                self.by_c[g.leader].grands.append(g)
            elif ev == "CHILDEND":
                d = kv(q[2:])
                c = self.by_c[int(d["c"])]
                c.t1, c.i1, c.end_st, c.killed, c.endsnap = t, i, int(d["st"]), int(d["killed"]), int(d["snap"])
            elif ev == "REAP":
                d = kv(q[3:])
                c = self.by_c[int(d["c"])]
                c.reap, c.ireap = t, i
                if not c.kills:
                    c.poll4 = int(d["poll4"]) / 1e9
            elif ev == "KILLPG":
                d = kv(q[3:])
                self.killpgs.append((i, t, int(q[2]), int(d["pg"]), int(d["sig"])))
            elif ev == "KILLED":
                d = kv(q[2:])
                c = self.by_c.get(int(d["c"]))
                if c:
                    c.kills.append((i, t, int(d["sig"]), int(d["state"])))
                    if len(c.kills) == 1:
                        c.poll4 = int(d["poll4"]) / 1e9
            elif ev == "FLOCK":
                self.flocks.append((i, t, int(q[2]), int(q[3][3:]), ex(q[4]), int(q[5][4:])))
            elif ev == "FAULT":
                d = kv(q[3:])
                self.faults.append((i, t, int(q[2]), int(d["kind"]), int(d["proc"]), int(d["op"]), ex(d["path"]), int(d["val"])))
            elif ev == "SIGDELIVER":
                self.signals.append((i, t, int(q[2]), int(q[3][4:]), q[4]))
            elif ev == "SIGHANDLER":
                self.handlers.setdefault(int(q[2]), {})[int(q[3][4:])] = i
            elif ev == "EXIT":
                d = kv(q[3:])
                self.exits[int(q[2])] = (i, t, int(d["code"]), int(d["sig"]))
            elif ev == "PROC":
                self.starts[int(q[2])] = (i, t)
            elif ev == "ORPHAN":
                d = kv(q[2:])
                self.by_c[int(d["c"])].orphan = True
            elif ev == "WS":
                self.wsnaps.append((i, t, int(q[2])))
            elif ev == "THREAD":
                self.threads.append((i, t, int(q[2]), int(q[3][5:])))
            elif ev == "LIMIT":
                self.limit, self.tlimit = int(q[2]), t
            elif ev == "STUCK":
                self.stuck.append(" ".join(q[2:]))
            elif ev in ("HARNESS", "UNSUPPORTED"):
                self.bad.append(l)
            elif ev == "EXECFAIL":
                d = kv(q[2:])
                c = Child()
                c.p, c.c, c.pg, c.phase, c.cwd, c.t0, c.i0, c.t1 = int(d["p"]), int(d["c"]), -1, "execfail", "", t, i, t
                self.by_c[c.c] = c
                self.execfail.append((i, t, int(d["p"])))
        # snapshots
        self.snaps = {}
        cur = None
        for l in open(os.path.join(ctl, "snaps"), encoding="utf-8", errors="surrogateescape").read().split("\n"):
            if l.startswith("SNAP "):
                cur = {}
                self.snaps[int(l[5:])] = cur
            elif l:
                ty, rest = l[0], l[2:]
                a, b, h, path = rest.split(" ", 3)
                cur[path] = (ty, a, b, h)
        self.ctl = ctl
        self._blobs = {}

    def blob(self, h):
        b = self._blobs.get(h)
        if b is None:
            with open(os.path.join(self.ctl, "blobs", h), "rb") as f:
                b = self._blobs[h] = f.read()
        return b

    def cmds(self, p=None):
        return [c for c in self.children if c.phase != "meta" and (p is None or c.p == p)]


class EpResult:
    pass


def rd(path):
    try:
        with open(path, encoding="utf-8", errors="replace") as f:
            return f.read()
    except OSError:
        return ""


class Experiment:
    """Runs the episodes of `spec` in a fresh run directory."""

    def __init__(self, spec, cpu=None, keep=False):
        self.spec, self.cpu, self.keep = spec, cpu, keep
        self.root = tempfile.mkdtemp(prefix=f"cms-{TAG}-", dir=SHM)   # (always of the same length)
        self.eps = []

    def close(self):
        if self.keep:
            return
        # files may be read-only; we are root or owner of all of it
        shutil.rmtree(self.root, ignore_errors=True)

    def run(self):
        spec, root = self.spec, self.root
        ws = root + "/ws"
        for d in ("tmp", "home", "ctl"):
            os.mkdir(f"{root}/{d}")
        for k, c in spec["tree"].get("home", {}).items():
            os.makedirs(os.path.dirname(root + "/home/" + k), exist_ok=True)
            with open(root + "/home/" + k, "w") as f:
                f.write(c)
        for d in spec.get("mkdirs", []):
            os.makedirs(f"{root}/{d}", exist_ok=True)
        tree = spec["tree"]
        write_tree(tree, ws)
        self.ws0 = scan(ws, skip_ws)
        for n, ep in enumerate(spec["episodes"]):
            if ep.get("tree"):
                # a source change between runs
                for p in tree["entries"]:
                    q = os.path.join(ws, p)
                    if os.path.islink(q) or os.path.isfile(q):
                        os.unlink(q)
                tree = ep["tree"]
                write_tree(tree, ws)
                self.ws0 = scan(ws, skip_ws)
            for rm in ep.get("rm", []):
                shutil.rmtree(f"{root}/{rm}", ignore_errors=True)
            for a, b in ep.get("mv", []):
                if os.path.lexists(f"{root}/{a}"):
                    shutil.rmtree(f"{root}/{b}", ignore_errors=True)
                    os.rename(f"{root}/{a}", f"{root}/{b}")
            touch(tree, ws, ep["plan"]["seed_misc"])
            r = self.episode(n, ep, tree)
            r.tree = tree
            self.eps.append(r)
            if r.h.limit or r.rc != 0:
                break
        return self

    def episode(self, n, ep, tree):
        root = self.root
        ws, ctl = root + "/ws", f"{root}/ctl/{n}"
        os.mkdir(ctl)
        with open(ctl + "/metadata.json", "w") as f:
            f.write(metadata_json(tree, ws))
        L = [f"root {root}", f"ws {ws}", f"ctl {ctl}", f"binary {BINARY}", f"shim {SIM}/shim.so"]
        if self.cpu is not None:
            L.append(f"cpu {self.cpu}")
        for k, v in ep["plan"].items():
            if k == "beh":
                for ph, w in v.items():
                    L.append(f"beh {ph} " + " ".join(map(str, w)))
            elif k == "base":
                L.append("base " + " ".join(map(str, v)))
            else:
                L.append(f"{k} {v}")
        for p in tree["codes"]:
            L.append("srcfile " + p)
        for pr in ep["procs"]:
            d = pr["opts"].get("in_diff")
            if d is not None:
                with open(f"{root}/{diff_name(d)}", "w") as f:
                    f.write(diff_text(tree, d))
        env = {"TMPDIR": root + "/tmp", "HOME": root + "/home", "CARGO": "/sim/cargo", "PATH": "/usr/bin",
               "MALLOC_ARENA_MAX": "1"}
        if ep["plan"].get("tty"):
            env["TERM"] = "xterm"
        env.update(ep.get("env", {}))
        for pr in ep["procs"]:
            for k in pr["opts"].get("from_env") or []:
                env[ENV_OPTS[k]] = str(pr["opts"][k])
        for k, v in env.items():
            L.append(f"env {k}={v.replace('@', root)}")
        L.append(f"wall_s {ep.get('wall_s', 60)}")
        for f in ep.get("faults", []):
            L.append("fault " + " ".join(f"{k}={v}" for k, v in f.items()))
        for pr in ep["procs"]:
            cwd = pr.get("cwd", "@/ws").replace("@", root)
            L.append(f"proc {pr.get('after', -1)} {pr.get('at', 0)} {cwd}")
            for a in args_of(pr["opts"], root):
                L.append("arg " + a)
        if ep.get("sched") is not None:
            L.append("explicit_sched 1")
            for pt, t in ep["sched"]:
                L.append(f"sw {pt} {t}")
        with open(ctl + "/plan", "w") as f:
            f.write("\n".join(L) + "\n")
        pr = subprocess.run([SIM + "/simctl", ctl + "/plan", ctl + "/shm"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                            stdin=subprocess.DEVNULL, start_new_session=True)
        r = EpResult()
        r.rc = pr.returncode
        r.out = pr.stdout.decode(errors="replace")
        if r.rc not in (0, 2):
            raise HarnessError(f"simctl exit {r.rc}: {r.out[-2000:]} {rd(ctl + '/stderr.0')[-500:]} "
                               + (rd(ctl + "/trace")[-800:]))
        r.h = Hist(ctl, root, len(ep["procs"]))
        if r.h.bad:
            raise HarnessError("; ".join(r.h.bad[:3]))
        r.spec = ep
        r.ctl = ctl
        r.rc = 0
        r.stats = {}
        for l in rd(ctl + "/stats").split("\n"):
            k, _, v = l.partition(" ")
            if k:
                r.stats[k] = v
        if r.stats.get("tracefull") == "1":
            raise HarnessError("trace overflow")
        r.stall = int(r.stats["stall_ns"]) / 1e9
        r.stdout = [rd(f"{ctl}/stdout.{i}") for i in range(len(ep["procs"]))]
        r.stderr = [rd(f"{ctl}/stderr.{i}") for i in range(len(ep["procs"]))]
        r.ws_before = self.ws0
        r.ws = scan(ws, skip_ws)
        r.tmp = scan(root + "/tmp")
        r.outs = {}
        for pr in ep["procs"]:
            o = pr["opts"]
            parent = out_parent(o, pr, tree)
            if parent not in r.outs:
                base = parent.replace("@", root)
                r.outs[parent] = {k: scan(f"{base}/{k}") if os.path.isdir(f"{base}/{k}") else None
                                  for k in ("mutants.out", "mutants.out.old")}
        r.extra = sorted(x for x in os.listdir(root) if x not in ("ws", "tmp", "home", "ctl"))
        r.home = sorted(os.listdir(root + "/home"))
        return r


def out_parent(o, pr, tree):
    if o.get("output") is not None:
        p = o["output"]
        if not p.startswith("@"):
            p = pr.get("cwd", "@/ws") + "/" + p
        return p
    if (tree.get("config") or {}).get("output") and not pr["opts"].get("no_config"):
        return pr.get("cwd", "@/ws") + "/" + tree["config"]["output"]
    return "@/ws"
