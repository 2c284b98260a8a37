"""Generator of workspaces together with the exact set of mutants they must yield.

The generator is the reference model of discovery for the restricted Rust it writes: it records,
while writing the text, which spans cargo-mutants must replace and by what.
"""
import json
import random

MARK = " /* ~ changed by cargo-mutants ~ */"

# return type -> replacements (as documented)
TYPES = [
    ("bool", ["true", "false"]),
    ("u32", ["0", "1"]),
    ("usize", ["0", "1"]),
    ("i32", ["0", "1", "-1"]),
    ("String", ["String::new()", '"xyzzy".into()']),
    ("&'static str", ['""', '"xyzzy"']),
    ("Option<u8>", ["None", "Some(0)", "Some(1)"]),
    ("Vec<bool>", ["vec![]", "vec![true]", "vec![false]"]),
    ("Widget", ["Default::default()"]),
    ("Option<i32>", ["None", "Some(0)", "Some(1)", "Some(-1)"]),
    ("Vec<Option<u32>>", ["vec![]", "vec![None]", "vec![Some(0)]", "vec![Some(1)]"]),
    ("Result<bool, Oops>", ["Ok(true)", "Ok(false)"]),
    ("io::Result<Option<i32>>", ["Ok(None)", "Ok(Some(0))", "Ok(Some(1))", "Ok(Some(-1))"]),
    ("", ["()"]),
]
# values of --error and error_values
ERRORS = ["Oops::Bad", '"boom"', "Oops::new(3)"]
BINOPS = [("+", ["-", "*"]), ("-", ["+", "/"]), ("*", ["+", "/"]), ("==", ["!="]), ("!=", ["=="]),
          ("&&", ["||"]), ("||", ["&&"]), ("<", ["==", ">", "<="]), (">", ["==", "<", ">="]),
          ("%", ["/", "+"]), ("<<", [">>"]), (">>", ["<<"])]
BOOL_OPS = {"==", "!=", "&&", "||", "<", ">"}


class FileBuilder:
    def __init__(self, path, pkg):
        self.path, self.pkg, self.s, self.muts = path, pkg, "", []

    def w(self, t):
        self.s += t

    def add(self, start, end, fn, ret, repl, genre, orig=None):
        self.muts.append((start, end, fn, ret, repl, genre, orig))

    def finish(self, crlf):
        code = self.s
        out = []
        for (a, b, fn, ret, repl, genre, orig) in self.muts:
            line = code.count("\n", 0, a) + 1
            col = a - (code.rfind("\n", 0, a) + 1) + 1
            if genre == "FnValue":
                desc = f"replace {fn}" + (f" -> {ret}" if ret else "") + f" with {repl}"
            elif genre == "MatchArm":
                desc = "delete match arm"
            elif genre == "MatchArmGuard":
                desc = f"replace match guard with {repl}"
            elif repl == "":
                desc = f"delete {orig} in {fn}"
            else:
                desc = f"replace {orig} with {repl} in {fn}"
            out.append({
                "name": f"{self.path}:{line}:{col}: {desc}",
                "pkg": self.pkg, "file": self.path, "line": line, "col": col,
                "fn": fn, "repl": repl, "genre": genre,
                "a": a, "b": b, "err": repl[4:-1] if repl.startswith("Err(") else None,
            })
        return code, out


def mutated(code, m):
    return code[:m["a"]] + m["repl"] + MARK + code[m["b"]:]


def gen_fn(r, fb, name, qual, indent, unicode_ok):
    pad = "    " * indent
    kind = r.random()
    q = qual + name
    if unicode_ok and r.random() < 0.3:
        fb.w(pad + "// naïve – комментарий 漢字\n")
    if kind < 0.72:
        ret, repls = r.choice(TYPES)
        sig = f"{pad}pub fn {name}()" + (f" -> {ret}" if ret else "")
        style = r.randrange(4)
        if style == 0 and ret:  # one line
            fb.w(sig + " { ")
            a = len(fb.s)
            fb.w(f"helper({r.randrange(100)})")
            b = len(fb.s)
            fb.w(" }\n")
        elif style == 1:
            fb.w(sig + " {\n" + pad + "    ")
            a = len(fb.s)
            for i in range(r.randrange(1, 4)):
                fb.w(f"helper({i});\n{pad}    ")
            fb.w("let s = \"тест\";\n" + pad + "    " if unicode_ok and r.random() < 0.5 else "")
            fb.w(f"helper({r.randrange(100)})")
            b = len(fb.s)
            fb.w("\n" + pad + "}\n")
        else:
            fb.w(sig + " {\n" + pad + "    ")
            a = len(fb.s)
            fb.w(f"helper({r.randrange(100)})" + (";" if not ret else ""))
            b = len(fb.s)
            fb.w("\n" + pad + "}\n")
        rt = ret
        for x in repls + ([f"Err({v})" for v in ERRORS] if "Result<" in ret else []):
            fb.add(a, b, q, rt, x, "FnValue")
    elif kind < 0.92:
        op, repls = r.choice(BINOPS)
        ret = "bool" if op in BOOL_OPS else "u32"
        fb.w(f"{pad}pub fn {name}(a: u32, b: u32) -> {ret} {{\n{pad}    ")
        a = len(fb.s)
        fb.w("helper(a) ")
        oa = len(fb.s)
        fb.w(op)
        ob = len(fb.s)
        fb.w(" helper(b)")
        b = len(fb.s)
        more = []
        while r.random() < 0.35 and len(more) < 2:
            # the same again: mutants told apart only by where they are
            fb.w(r.choice([";\n" + pad + "    ", "; "]) + "helper(b) ")
            more.append(len(fb.s))
            fb.w(op + " helper(a)")
            b = len(fb.s)
        fb.w("\n" + pad + "}\n")
        for x in dict(TYPES)[ret]:
            fb.add(a, b, q, ret, x, "FnValue")
        for oa in [oa] + more:
            for x in repls:
                fb.add(oa, oa + len(op), q, ret, x, "BinaryOperator", op)
    elif kind < 0.945:
        # match: arms beside a wildcard are deleted, guards replaced; spans of several lines
        fb.w(f"{pad}pub fn {name}(a: u32) -> u32 {{\n{pad}    ")
        a = len(fb.s)
        fb.w("match helper(a) {\n")
        parts = []
        for i in range(r.randrange(1, 4)):
            fb.w(pad + "        ")
            oa = len(fb.s)
            fb.w(f"{i} ")
            g = None
            if r.random() < 0.35:
                fb.w("if ")
                ga = len(fb.s)
                fb.w(f"ready({i})")
                g = (ga, len(fb.s))
                fb.w(" ")
            fb.w(r.choice(["=> helper(3)", "=> {\n" + pad + "            helper(4)\n" + pad + "        }", "=> other()"]) + ",")
            parts.append((oa, len(fb.s), g))
            fb.w("\n")
        wild = r.random() < 0.7
        fb.w(pad + "        " + ("_" if wild else "n") + " => helper(9),\n" + pad + "    }")
        b = len(fb.s)
        fb.w("\n" + pad + "}\n")
        for x in dict(TYPES)["u32"]:
            fb.add(a, b, q, "u32", x, "FnValue")
        for oa, ob, g in parts:
            if wild and not g:
                fb.add(oa, ob, q, "u32", "", "MatchArm")
            if g:
                for x in ["true", "false"]:
                    fb.add(*g, q, "u32", x, "MatchArmGuard")
    elif kind < 0.97:
        fb.w(f"{pad}pub fn {name}(a: bool) -> bool {{\n{pad}    ")
        a = len(fb.s)
        oa = a
        fb.w("!")
        ob = len(fb.s)
        fb.w("helper(a)")
        b = len(fb.s)
        fb.w("\n" + pad + "}\n")
        for x in ["true", "false"]:
            fb.add(a, b, q, "bool", x, "FnValue")
        fb.add(oa, ob, q, "bool", "", "UnaryOperator", "!")
    else:
        fb.w(f"{pad}#[mutants::skip]\n{pad}pub fn {name}() -> u32 {{\n{pad}    helper(3)\n{pad}}}\n")


NAMES = ["alpha", "beta", "gamma", "delta", "run", "parse", "is_ok", "value", "total", "size"]


def gen_tree(r, size="small", layout=None, features=()):
    """features: subset of {crlf, unicode, nofinalnl, symlinks, srclinks, vcs, gitignore, junk, exec,
    collide, config, pathdeps, nested_out, target, empty_mods, hardlinks, manlink}"""
    feats = set(features)
    layout = layout or r.choice(["root", "root", "virtual", "rootmember"])
    entries = {}  # path -> {"t","m","c"}
    mutants = []
    alias = {}
    pkgs = []

    def f(p, c, m=0o644):
        entries[p] = {"t": "f", "m": m, "c": c}

    npk = {"root": 1, "virtual": r.randrange(1, 4), "rootmember": r.randrange(2, 4)}[layout]
    base_names = r.sample(["zed", "apple", "core", "mid", "util"], npk)
    maxfn = {"tiny": 1, "small": 2, "medium": 4, "large": 8}[size]
    codes = {}
    ignored, home = [], {}
    for i in range(npk):
        name = base_names[i]
        d = "" if layout == "root" or (layout == "rootmember" and i == 0) else (r.choice(["crates/", "", "x/y/"]) + name)
        ver = r.choice(["0.1.0", "1.2.3", "0.0.1-alpha.1"])
        pre = d + "/" if d else ""
        targets = []
        files = []

        def src(rel, mods, nfn, top=False):
            fb = FileBuilder(pre + rel, name)
            for mname in mods:
                fb.w(f"mod {mname};\n")
            if mods:
                fb.w("\n")
            uni = "unicode" in feats and r.random() < 0.7
            k = 0
            for _ in range(nfn):
                fname = r.choice(NAMES) + (str(k) if r.random() < 0.6 else f"_{k}")
                k += 1
                z = r.random()
                if z < 0.75:
                    gen_fn(r, fb, fname, "", 0, uni)
                elif z < 0.88:
                    fb.w(f"impl Widget{k} {{\n")
                    gen_fn(r, fb, fname, f"Widget{k}::", 1, uni)
                    fb.w("}\n")
                else:
                    fb.w(f"mod inner{k} {{\n")
                    gen_fn(r, fb, fname, f"inner{k}::", 1, uni)
                    fb.w("}\n")
                if r.random() < 0.5:
                    fb.w("\n")
            if r.random() < 0.4:
                fb.w("#[cfg(test)]\nmod test {\n    #[test]\n    fn t() -> bool {\n        helper(1) == 2\n    }\n}\n")
            if not fb.s:
                fb.w("// nothing here\n")
            if r.random() < 0.08:
                # more than one page, and sometimes more than one buffer, of source
                fb.w("\n" + "// padding padding padding padding padding padding padding\n" * r.choice([80, 80, 300]))
            if "nofinalnl" in feats and r.random() < 0.6:
                fb.s = fb.s[:-1]
            code, ms = fb.finish(False)
            crlf = "crlf" in feats and r.random() < 0.7
            text = code.replace("\n", "\r\n") if crlf else code
            f(pre + rel, text, r.choice([0o644, 0o644, 0o600, 0o755]) if "exec" in feats else 0o644)
            codes[pre + rel] = code
            mutants.extend(ms)
            files.append(pre + rel)

        mods = []
        nmods = r.randrange(0, 3) if size != "tiny" else 0
        modnames = r.sample(["m1", "m2", "deep", "io"], nmods)
        if "collide" in feats:
            # src/a/b.rs and src/a__b.rs sanitise to the same log name
            modnames = ["a", "a__b"]
        if r.random() < 0.85 or not i:
            src("src/lib.rs", modnames, r.randrange(1, maxfn + 1), True)
            targets.append(("lib", name, pre + "src/lib.rs"))
            if "collide" in feats:
                st = r.getstate()
                src("src/a__b.rs", [], maxfn)
                r.setstate(st)
                src("src/a/b.rs", [], maxfn)
                src("src/a/mod.rs", ["b"], 1)
            else:
                for mn in modnames:
                    if r.random() < 0.5:
                        src(f"src/{mn}.rs", [], r.randrange(0 if "empty_mods" in feats else 1, maxfn + 1))
                    else:
                        sub = r.random() < 0.4
                        src(f"src/{mn}/mod.rs", ["leaf"] if sub else [], r.randrange(1, maxfn + 1))
                        if sub:
                            src(f"src/{mn}/leaf.rs", [], r.randrange(1, maxfn + 1))
        if r.random() < (0.8 if "sharedmod" in feats else 0.25) or not targets:
            # a module declared by both the library and the program is still one file
            shared = modnames if targets and "sharedmod" in feats else []
            src("src/main.rs", shared, r.randrange(1, maxfn + 1), True)
            targets.append(("bin", name, pre + "src/main.rs"))
        if r.random() < 0.3:
            f(pre + "tests/it.rs", "#[test]\nfn it() -> bool {\n    1 + 1 == 2\n}\n")
            targets.append(("test", "it", pre + "tests/it.rs"))
        pkgs.append({"name": name, "version": ver, "dir": d, "targets": targets, "files": files})

    # manifests
    members = [p["dir"] for p in pkgs if p["dir"]]
    defaults = [p["name"] for p in pkgs]
    for p in pkgs:
        pre = p["dir"] + "/" if p["dir"] else ""
        t = f'[package]\nname = "{p["name"]}"\nversion = "{p["version"]}"\nedition = "2021"\n'
        if "pathdeps" in feats and not p["dir"]:
            t += ('\n[dependencies]\nfar = { path = "../far" }\nserde = "1"\n'
                  'near = { path = "near", version = "1" }\nabs = { path = "/sim/abs/dep" }\n'
                  '\n[dev-dependencies]\nfar2 = { path = "../../far2", features = ["x"] }\n')
        if not p["dir"] and layout != "root":
            t += "\n[workspace]\nmembers = " + json.dumps(members) + "\n"
        f(pre + "Cargo.toml", t)
    if layout == "virtual":
        t = "[workspace]\nmembers = " + json.dumps(members) + "\n"
        if npk > 1 and r.random() < 0.4:
            k = r.randrange(1, npk)
            defaults = base_names[:k]
            t += "default-members = " + json.dumps([p["dir"] for p in pkgs[:k]]) + "\n"
        f("Cargo.toml", t)
    if "pathdeps" in feats and r.random() < 0.6:
        f(".cargo/config.toml", 'paths = ["../other", "vendored"]\n[build]\njobs = 2\n')
    if "cargoconfig" in feats:
        f(".cargo/config.toml", '[build]\njobs = 2\n[net]\noffline = true\n')
    if "junk" in feats:
        f("README.md", "# hello\n\n" + "x" * r.randrange(0, 5000) + "\n")
        f(".hidden/file", "h\n")
        f("data/bin.dat", "".join(chr(r.randrange(1, 127)) for _ in range(r.randrange(1, 3000))), 0o640)
        f("data/empty", "", 0o600)
        if r.random() < 0.2:
            f("data/large.txt", "0123456789abcde\n" * r.choice([3000, 8000, 8000, 70000]))
        entries["emptydir"] = {"t": "d", "m": 0o755}
        entries["data/deep/er/empty"] = {"t": "d", "m": 0o755}
        f("build.sh", "#!/bin/sh\nexit 0\n", 0o755)
        f("Cargo.lock", "# lock\nversion = 3\n")
        if r.random() < 0.1:
            entries["data/" + r.choice(["pipe", "a.sock"])] = {"t": "p", "m": 0o600}
        f("ro.txt", "read only\n", 0o444)
        f("space name/weird [x].txt", "w\n")
    if "symlinks" in feats:
        f("links/real.txt", "real\n")
        entries["links/rel"] = {"t": "l", "c": "real.txt"}
        entries["links/up"] = {"t": "l", "c": "../README.md"}
        if r.random() < 0.6:
            entries["links/dangling"] = {"t": "l", "c": "nowhere/at/all"}
        if r.random() < 0.7:
            entries["links/dirlink"] = {"t": "l", "c": r.choice([".", ".."] if layout != "root" else ["../src", "../src", "..", "."])}
        if r.random() < 0.5:
            entries["links/abs"] = {"t": "l", "c": "/nonexistent/abs"}
    if "target" in feats:
        f("target/debug/stuff.o", "object\n")
        f("target/CACHEDIR.TAG", "tag\n")
        if r.random() < 0.5:
            f("target/tmp/left.txt", "by an earlier test\n")
            entries["target/tmp/empty"] = {"t": "d", "m": 0o755}
    if "nested_out" in feats:
        f("sub/mutants.out/caught.txt", "old\n")
        f("sub/mutants.out.old/x", "old\n")
        f("sub/mutants.outx/keep", "keep\n")
    if "vcs" in feats:
        for v in r.sample([".hg", ".svn", ".bzr", "_darcs", ".jj", ".pijul"], 2):
            f(v + "/store", "vcs\n")
        if r.random() < 0.5:
            f("sub2/.git/HEAD", "ref: x\n")
        else:
            # a submodule: its .git is a file
            f("sub2/.git", "gitdir: ../.git/modules/sub2\n")
        if "gitignore" not in feats and r.random() < 0.3:
            # a linked worktree
            f(".git", "gitdir: /nonexistent/main/.git/worktrees/ws\n")
        f(".gitattributes", "* text\n")
        f(".gitmodules", "\n")
    if "gitignore" in feats:
        f(".git/HEAD", "ref: refs/heads/main\n")
        f(".git/config", "[core]\n")
        f(".gitignore", "/ignored_dir\n*.tmp\n")
        f("ignored_dir/a", "ignored\n")
        f("some.tmp", "ignored\n")
        f("kept.txt", "kept\n")
        f("nogit.ignore", "x\n")
        f(".ignore", "kept.txt\n")
        ignored += ["ignored_dir", "some.tmp"]
        if "gitx" in feats:
            # every other place git reads patterns from
            f(".git/info/exclude", "/infoex\n")
            f("infoex/f", "excluded\n")
            f("infoex2/f", "kept\n")
            f("gx/.gitignore", "*.log\n!keep.log\n/only\n")
            for n in ["a.log", "sub/b.log", "keep.log", "only/f", "sub/only/f"]:
                f("gx/" + n, "x\n")
            f("y.glob", "excluded by the user's own patterns\n")
            home[".config/git/ignore"] = "*.glob\n"
            ignored += ["infoex", "gx/a.log", "gx/sub/b.log", "gx/only", "y.glob"]
    if "bigtree" in feats:
        for i in range(r.choice([200, 400])):
            f(f"assets/{i:03}.dat", "x" * (i % 7))
    if "srclinks" in feats:
        # a source file that is a symlink to another file of the tree, and one reached through a directory link
        cand = [p for p in codes if p.endswith(".rs") and not p.endswith("lib.rs") and not p.endswith("main.rs")]
        if cand:
            p = r.choice(cand)
            e = entries[p]
            entries["shared/" + p.replace("/", "_")] = e
            up = "../" * p.count("/")
            abslink = r.random() < 0.6
            entries[p] = {"t": "l", "c": ("@ws/" if abslink else up) + "shared/" + p.replace("/", "_")}
            alias[p] = "shared/" + p.replace("/", "_")
        dirs = sorted({p.rsplit("/", 1)[0] for p in codes if p.endswith("/mod.rs") and entries[p]["t"] == "f"})
        if dirs and r.random() < 0.7:
            # a directory of source files that is a symlink to another directory of the tree
            d = r.choice(dirs)
            inner = [p for p in entries if p.startswith(d + "/")]
            if all(entries[p]["t"] == "f" for p in inner):
                q = "shared/d_" + d.replace("/", "_")
                for p in inner:
                    entries[q + p[len(d):]] = entries.pop(p)
                    if p in codes:
                        alias[p] = q + p[len(d):]
                entries[d] = {"t": "l", "c": "../" * d.count("/") + q}
    if "manlink" in feats:
        # the manifest, or cargo's configuration, is a symlink to a file kept elsewhere
        for p in ["Cargo.toml", ".cargo/config.toml"]:
            if p in entries and r.random() < 0.8:
                q = "meta/" + p.replace("/", "_").lstrip(".")
                entries[q] = entries[p]
                entries[p] = {"t": "l", "c": ("@ws/" if r.random() < 0.7 else "../" * p.count("/")) + q}
    if "hardlinks" in feats:
        # the same file under two names: a second name of a source file, and of something else
        for p in r.sample(sorted(codes), min(len(codes), r.choice([1, 1, 2]))):
            if entries[p]["t"] == "f":
                entries["hard/" + p.replace("/", "_")] = {"t": "h", "c": p}
        if entries["Cargo.toml"]["t"] == "f":
            entries["hard/manifest"] = {"t": "h", "c": "Cargo.toml"}
    config = None
    if "config" in feats:
        config = gen_config(r)
        f(".cargo/mutants.toml", config_toml(config))
    return {
        "layout": layout, "entries": entries, "pkgs": pkgs, "defaults": defaults,
        "mutants": mutants, "codes": codes, "feats": sorted(feats), "alias": alias,
        "ignored": ignored, "config": config, "home": home,
    }


def gen_config(r):
    """A configuration file in .cargo/mutants.toml, as a dict of its keys."""
    c = {}
    if r.random() < 0.4:
        c["additional_cargo_args"] = r.choice([["--offline"], ["--locked", "--offline"]])
    if r.random() < 0.4:
        c["additional_cargo_test_args"] = r.choice([["--lib"], ["--no-fail-fast", "--", "--nocapture"]])
    if r.random() < 0.3:
        c["cap_lints"] = r.random() < 0.6
    if r.random() < 0.3:
        c["copy_vcs"] = r.random() < 0.6
    if r.random() < 0.4:
        c["minimum_test_timeout"] = r.choice([1.0, 5.0, 33.0])
    if r.random() < 0.4:
        c["timeout_multiplier"] = r.choice([1.5, 3.0, 10.0])
    if r.random() < 0.3:
        c["build_timeout_multiplier"] = r.choice([2.0, 4.0])
    if r.random() < 0.3:
        c["profile"] = "mutants"
    if r.random() < 0.2:
        c["test_tool"] = r.choice(["nextest", "cargo"])
    if r.random() < 0.2:
        c["exclude_re"] = r.choice([["alpha"], ["with true", "beta"]])
    elif r.random() < 0.2:
        c["examine_re"] = r.choice([["with 0"], ["replace"]])
    if r.random() < 0.2:
        c["test_workspace"] = r.random() < 0.7
    if r.random() < 0.15:
        c["output"] = "cfgout"
    if r.random() < 0.25:
        c["error_values"] = r.sample(ERRORS, r.choice([1, 2]))
    return c


def config_toml(c):
    return "# generated\n" + "".join(f"{k} = {json.dumps(v)}\n" for k, v in c.items())
