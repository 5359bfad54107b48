"""Checks that watch the compiler itself: determinism, containment, refusal of broken schemas."""
import hashlib, os, random, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
import vlib
from vlib import V, T, sh, env, cargo, BuildError


def build_libdrv():
    cargo(["build", "--target-dir", str(T / "libdrv")], "library driver", cwd=V / "harness/libdrv", err=vlib.RepoError)
    return T / "libdrv/debug/libdrv"


def build_shim():
    so = T / "shim.so"
    src = V / "harness/shim/shim.c"
    T.mkdir(exist_ok=True)
    r = sh(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", str(so) + ".tmp", str(src), "-ldl"])
    if r.returncode:
        raise BuildError(r.stderr)
    os.replace(str(so) + ".tmp", so)
    return so


def tree(d):
    """path -> content of every file below d (directories as None)."""
    d = Path(d)
    return {str(p.relative_to(d)): (p.read_bytes() if p.is_file() else None) for p in sorted(d.rglob("*"))}


def files(d):
    return {k: v for k, v in tree(d).items() if v is not None}


def cli_run(cli, root, out, schema, cwd=None, timeout=60, **e):
    try:
        return subprocess.run([str(cli), "-r", root, "-o", str(out), str(schema)], cwd=cwd, env=env(**e), capture_output=True, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        return None


def first_difference(a, b):
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            if k not in a or k not in b:
                return f"{k} is written only {'the first' if k in a else 'the other'} time"
            x, y = a[k].decode(errors="replace").splitlines(), b[k].decode(errors="replace").splitlines()
            for i in range(max(len(x), len(y))):
                p, q = (x[i] if i < len(x) else None), (y[i] if i < len(y) else None)
                if p != q:
                    return f"{k} line {i + 1}:\n {p}\n {q}"
    return None


class Scratch:
    def __enter__(self):
        self.d = Path(tempfile.mkdtemp(prefix="zvc"))
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def determinism(run, schemas, repeats):
    """P13: the same schemas, compiled again and again in perturbed surroundings."""
    cli, lib, so = vlib.parallel(vlib.build_cli, build_libdrv, build_shim)

    def one(item):
        name, src = item
        out = []
        rng = random.Random(f"{run.seed}{name}")
        with Scratch() as d:
            r = cli_run(cli, "gen", d / "base", src)
            if r is None or r.returncode != 0:
                return name, [("refused", f"{name}: {r.stderr[-800:] if r else 'timeout'}")], 0
            base = files(d / "base")
            n = 0

            def judge(what, where, r, extra=()):
                nonlocal n
                n += 1
                if r is None or r.returncode != 0:
                    out.append((what, f"{name}: the compiler fails: {r.stderr[-800:] if r else 'timeout'}"))
                    return
                got = {k: v for k, v in files(where).items() if k not in extra}
                x = first_difference(base, got)
                if x:
                    out.append((what, f"{name}: {x}"))
                shutil.rmtree(where)
            for i in range(repeats):
                judge("another process", d / "o", cli_run(cli, "gen", d / "o", src))
                judge("another directory order", d / "o", cli_run(cli, "gen", d / "o", src, SHIM_SHUFFLE=str(rng.randrange(1 << 30)), LD_PRELOAD=str(so)))
            # another place, entries created in another order
            for i in range(max(1, repeats // 3)):
                dst = d / f"other place {i}" / ("x" * rng.randrange(1, 30))
                fs = vlib.schema_files(src)
                rng.shuffle(fs)
                for f in fs:
                    t = dst / f.relative_to(src)
                    t.parent.mkdir(parents=True, exist_ok=True)
                    shutil.copyfile(f, t)
                judge("another place of the schemas", d / "o", cli_run(cli, "gen", d / "o", dst))
                judge("a relative path", d / "o", cli_run(cli, "gen", "o", os.path.relpath(dst, d), cwd=d))
            # other surroundings
            judge("another environment", d / "o", cli_run(cli, "gen", d / "o", src, cwd="/", TZ="Asia/Tokyo", LANG="C", LC_ALL="C", HOME="/nonexistent", USER="x", TMPDIR="/nonexistent", RUST_LOG="trace", CARGO_MANIFEST_DIR="/x", OUT_DIR="/y"))
            # an output directory that holds old output and junk
            o = d / "o"
            junk = {}
            for k, v in base.items():
                p = o / k
                p.parent.mkdir(parents=True, exist_ok=True)
                p.write_bytes(rng.choice([v + b"// old\n", b"garbage", b"", v[: len(v) // 2], v * 2]))
            for k in ("stale.rs", "old/mod.rs", "zz_old/a.rs", "notes.txt"):
                if k not in base:
                    (o / k).parent.mkdir(parents=True, exist_ok=True)
                    (o / k).write_bytes(b"pub mod nothing;\n")
                    junk[k] = 1
            judge("previous contents of the output directory", o, cli_run(cli, "gen", o, src), junk)
            # generating over fresh output
            cli_run(cli, "gen", o, src)
            judge("generating a second time in place", o, cli_run(cli, "gen", o, src))
            # several generations in one process
            outs = [str(d / f"p{i}") for i in range(3)]
            r = subprocess.run([str(lib), "gen", str(src)] + outs, env=env(), capture_output=True, text=True, timeout=120)
            for q in outs:
                judge("another generation in the same process", Path(q), r)
        return name, out, n
    with ThreadPoolExecutor(8) as ex:
        for name, out, n in ex.map(one, schemas):
            for i in range(n):
                run.case((name, i), True, f"{name}: {n} compilations compared")
            run.stat("compilations compared", n)
            for what, detail in out:
                run.violate(f"{name}|output differs: {what}" if what != "refused" else f"{name}|schema not compiled", detail)


def squeeze(b):
    return re.sub(rb"[\s,{}]", b"", b)


def containment(run, schemas):
    """P27: library and command line, root prefixes, and the files touched."""
    cli, lib, so = vlib.parallel(vlib.build_cli, build_libdrv, build_shim)

    def one(item):
        name, src = item
        bad, n = [], 0
        rng = random.Random(f"{run.seed}{name}x")
        with Scratch() as d:
            # the schemas, among files that are not schemas
            s = d / "work" / "schemas"
            shutil.copytree(src, s)
            clean = d / "clean"
            shutil.copytree(src, clean)
            for p, text in {"README.md": "package nothing;\nstruct X { uint8 a; };\n", "notes.txt": "{{{", "old.zs.bak": "struct Broken {", "a.zsx": "!!", "zs": "package zs;", "sub dir/.hidden": "?", "empty/.keep": "", "notes.bzs": "!!!", "d_zs": "package d_zs;\nstruct D { uint8 a; };\n", "zserio": "package z;", "a.zserio.txt": "package {", "folder.zs/readme.txt": "none", "data.bin": "\x00\x01"}.items():
                (s / p).parent.mkdir(parents=True, exist_ok=True)
                (s / p).write_text(text)
            (d / "work" / "sibling").mkdir()
            for p in ("work/sibling/mod.rs", "work/keep.rs", "work/mod.rs", "outer.rs", "lib.rs"):
                (d / p).write_text("// not yours\n")
            for p in s.rglob("*"):
                os.utime(p, (1_500_000_000, 1_500_000_000))
            work = d / "work"

            def state():
                return {str(p.relative_to(d)): (p.stat().st_mtime_ns, p.stat().st_mode, hashlib.sha256(p.read_bytes()).hexdigest() if p.is_file() else "") for p in d.rglob("*")
                        if not str(p.relative_to(d)).startswith(("work/out", "log"))}

            def go(tool, root, out, sch):
                nonlocal n
                n += 1
                (d / "log").unlink(missing_ok=True)
                before = state()
                e = env(SHIM_LOG=str(d / "log"), SHIM_ALLOW=str(d), LD_PRELOAD=str(so))
                cmd = [str(cli), "-r", root, "-o", str(out), str(sch)] if tool == "cli" else [str(lib), root, str(sch), str(out)]
                if tool == "cli" and root == "":
                    cmd = [str(cli), "-o", str(out), str(sch)]
                try:
                    r = subprocess.run(cmd, cwd=work, env=e, capture_output=True, text=True, timeout=60)
                except subprocess.TimeoutExpired:
                    bad.append(("no end", f"{cmd}"))
                    return {}
                if r.returncode:
                    bad.append(("compiler fails", f"{cmd}: {r.stderr[-600:]}"))
                after = state()
                for k in sorted(set(before) | set(after)):
                    if before.get(k) != after.get(k) and k != "work":
                        bad.append(("touches other files", f"{cmd}: {k} {'changed' if k in before and k in after else 'created' if k in after else 'removed'}"))
                o = os.path.normpath(os.path.join(work, out))
                for l in (d / "log").read_text().splitlines() if (d / "log").exists() else []:
                    what, p = l.split("\t", 1)
                    run.stat("file system changes observed")
                    if p != o and not p.startswith(o + "/") and not (what.startswith("mkdir") and o.startswith(p + "/")):
                        bad.append(("writes outside the output directory", f"{cmd}: {l}"))
                return files(o)

            a = go("cli", "gen", "out1", s)
            b = go("lib", "gen", "out2", s)
            x = first_difference(a, b)
            if x:
                bad.append(("command line and library differ", x))
            x = first_difference(a, go("cli", "gen", work / "out9/deeper/and deeper", clean))
            if x:
                bad.append(("files that are not schemas matter", x))
            x = first_difference(a, go(rng.choice(("cli", "lib")), "gen", "out10", rng.choice(("schemas", "./schemas/", "../work/schemas", s / "." / "." ))))
            if x:
                bad.append(("the way the schema directory is named matters", x))
            # (the output directory inside the schema directory is still only the output directory)
            for p, q in (("gen", "abc"), ("gen", ""), ("gen", "some::longer::root_path"), ("gen", "x")):
                # (without a root the top file is a crate's lib.rs)
                g = go(rng.choice(("cli", "lib")), q, "out_" + re.sub(r"\W", "_", q), s)
                if not q and "lib.rs" in g and "mod.rs" not in g:
                    g["mod.rs"] = g.pop("lib.rs")
                mine = {k: re.sub(rb"\bcrate\s*::\s*gen\s*::\s*", b"crate::", v) for k, v in a.items()}
                other = {k: re.sub(rb"\bcrate\s*::\s*" + q.encode().replace(b"::", rb"\s*::\s*") + (rb"\s*::\s*" if q else b""), b"crate::", v) for k, v in g.items()}
                if len(q) != len(p):
                    mine, other = ({k: squeeze(v) for k, v in m.items()} for m in (mine, other))
                x = first_difference(mine, other)
                if x:
                    bad.append((f"root prefix changes more than paths", f"root {q!r}: {x[:600]}"))
                if q and any(re.search(rb"\bcrate::(?!" + q.encode() + rb"\b)", v) for v in g.values()):
                    k = next(k for k, v in g.items() if re.search(rb"\bcrate::(?!" + q.encode() + rb"\b)", v))
                    bad.append(("path without the root prefix", f"root {q!r}: {k}"))
        return name, bad, n
    with ThreadPoolExecutor(8) as ex:
        for name, bad, n in ex.map(one, schemas):
            for i in range(n):
                run.case((name, i), True, f"{name}: {n} compiler runs watched")
            run.stat("compiler runs watched", n)
            for what, detail in bad:
                run.violate(f"{name}|{what}", detail)


# ---- P28 ---------------------------------------------------------------------------------------
FAULTS = {"read": (5, 4, 0, 21), "write": (28, 5, 4, 0, 122), "create": (13, 28, 24, 30, 4), "open": (13, 5, 24, 2), "mkdir": (13, 28, 30), "opendir": (13, 24), "readdir": (5,)}


def faults(run, schemas, budget):
    """P28: file operations of the compiler fail, one at a time."""
    cli, lib, so = vlib.parallel(vlib.build_cli, build_libdrv, build_shim)

    def tools(root, out, src):
        return {"cli": [str(cli), "-r", root, "-o", str(out), str(src)], "lib": [str(lib), root, str(src), str(out)]}

    def one(item):
        name, src = item
        bad, seen = [], []
        rng = random.Random(f"{run.seed}{name}f")
        with Scratch() as d:
            s = d / "schemas"
            shutil.copytree(src, s)
            r = subprocess.run(tools("gen", d / "out", s)["cli"], env=env(LD_PRELOAD=str(so), SHIM_FAULT_IN=str(d), SHIM_TRACE=str(d.parent / (d.name + ".trace"))), capture_output=True, text=True, timeout=60)
            trace = (d.parent / (d.name + ".trace"))
            calls = [l.split("\t") for l in trace.read_text().splitlines()]
            trace.unlink()
            base = files(d / "out")
            if r.returncode or not calls:
                return name, [("compiler fails", r.stderr[-600:])], []
            shutil.rmtree(d / "out")
            by = {}
            for k, (what, p) in enumerate(calls):
                by.setdefault(what, []).append(k)
            # every kind of call in turn, each at first, last and random places
            picks = []
            for what, ks in by.items():
                es = FAULTS.get(what, (13, 5))
                for k in {ks[0], ks[-1]} | set(rng.sample(ks, min(len(ks), max(2, budget // len(by))))):
                    picks += [(what, k, e) for e in rng.sample(es, min(len(es), 2))]
            for what, k, e in picks:
                tool = rng.choice(("cli", "lib"))
                try:
                    r = subprocess.run(tools("gen", d / "out", s)[tool], env=env(LD_PRELOAD=str(so), SHIM_FAULT_IN=str(d), SHIM_FAULT=f"{k}:{e}"), capture_output=True, text=True, timeout=60)
                except subprocess.TimeoutExpired:
                    bad.append((f"{what} fails|the compiler does not end", f"{tool}: call {k} ({calls[k]}) fails with error {e}"))
                    continue
                got = files(d / "out") if (d / "out").exists() else {}
                seen.append((what, k, e, r.returncode == 0))
                x = first_difference(base, got)
                if r.returncode == 0 and x:
                    bad.append((f"{what} fails|success reported", f"{tool}: call {k} ({' '.join(calls[k])}) fails with error {e}: the compiler succeeds, but {x}"))
                elif r.returncode and e in (0,):
                    bad.append((f"{what} transfers a part|the compiler fails", f"{tool}: call {k} ({' '.join(calls[k])}): {r.stderr[-400:]}"))
                shutil.rmtree(d / "out", ignore_errors=True)
            # what is there is not what is needed
            def expect(what, args, prepare=lambda: None):
                prepare()
                for tool in ("cli", "lib"):
                    try:
                        r = subprocess.run(tools(*args)[tool], env=env(), capture_output=True, text=True, timeout=60)
                    except subprocess.TimeoutExpired:
                        bad.append((what + "|the compiler does not end", tool))
                        continue
                    seen.append((what, tool, 0, r.returncode == 0))
                    if r.returncode == 0:
                        bad.append((what + "|success reported", tool))
            first = sorted(base)[rng.randrange(len(base))]
            expect("no such schema directory", ("gen", d / "o1", d / "nowhere"))
            (d / "file").write_text("text")
            expect("the output directory is a file", ("gen", d / "file", s))
            expect("the output directory is below a file", ("gen", d / "file" / "x", s))
            expect("a directory is where a file belongs", ("gen", d / "o2", s), lambda: (d / "o2" / first).mkdir(parents=True))
            if "/" in first:
                expect("a file is where a directory belongs", ("gen", d / "o3", s), lambda: ((d / "o3" / first).parent.parent.mkdir(parents=True), (d / "o3" / first).parent.write_text("text")))
            expect("a schema is not text", ("gen", d / "o4", d / "binary"), lambda: (shutil.copytree(src, d / "binary"), (d / "binary" / "more.zs").write_bytes(b"package more;\nconst string S = \"\xff\xfe\";\n")))
            expect("a schema is a dangling link", ("gen", d / "o5", d / "dangling"), lambda: (shutil.copytree(src, d / "dangling"), (d / "dangling" / "more.zs").symlink_to(d / "nowhere.zs")))
        return name, bad, seen
    with ThreadPoolExecutor(8) as ex:
        for name, bad, seen in ex.map(one, schemas):
            for c in seen:
                run.case((name,) + c[:3], True, f"{name}: {c[0]} (call {c[1]}, error {c[2]}): {'goes on' if c[3] else 'reported'}")
                run.stat(f"{c[0]}: {'no consequence' if c[3] else 'reported'}")
            for what, detail in bad:
                run.violate(f"{name}|{what}", detail)


# ---- P26 ---------------------------------------------------------------------------------------
def blank(text):
    """The text with comments and string literals replaced by spaces (same length)."""
    return re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"', lambda m: re.sub(r"[^\n]", " ", m.group(0)), text, flags=re.S)


def generic_spans(code):
    """Spans of template declarations: what they refer to is only known when they are instantiated."""
    out = []
    for m in re.finditer(r"\b(?:struct|choice|union|subtype|bitmask|enum)\s+\w+\s*<", code):
        i = code.find("{", m.end())
        depth = 0
        for j in range(i, len(code)):
            depth += {"{": 1, "}": -1}.get(code[j], 0)
            if depth == 0:
                break
        out.append((m.start(), j))
    return out


def breakages(texts, rng):
    """(kind, description, file, new text): every result violates the language."""
    code = {f: blank(t) for f, t in texts.items()}
    allcode = "\n".join(code.values())
    decl = re.findall(r"\b(?:struct|choice|union)\s+(\w+)\s*[({]", allcode)
    enums = re.findall(r"\b(?:enum|bitmask)\s+[\w:]+(?:<[^>]*>)?\s+(\w+)", allcode)
    consts = re.findall(r"\bconst\s+[\w:.]+\s+(\w+)\s*=", allcode)
    subs = re.findall(r"\bsubtype\s+[^;]*?(\w+)\s*;", allcode)
    # (a name that also names a field or item could still mean something after the renaming)
    items = set(re.findall(r"\w+", " ".join(re.findall(r"\b(?:enum|bitmask)\b[^{]*\{([^}]*)\}", allcode))))
    once = {n for n in set(decl + enums + consts + subs) - items if not re.search(r"[\w\]>)]\s+" + n + r"\s*(?:;|\[|=|if\b|:)(?!:)", re.sub(r"\b(?:const\s+[\w:.]+|subtype\s[^;]*|instantiate\s[^;]*)\s+" + n + r"\b", "", allcode))}
    out = []

    def edit(kind, what, f, a, b, new):
        t = texts[f]
        out.append((kind, f"{what} at {f}:{t.count(chr(10), 0, a) + 1}: {t[max(0, a - 30):b + 20]!r} with {new!r}", f, t[:a] + new + t[b:]))
    for f, c in code.items():
        gen = generic_spans(c)
        free = lambda i: not any(a <= i < b for a, b in gen)
        for ch in "{}()":
            at = [m.start() for m in re.finditer(re.escape(ch), c)]
            if at:
                i = rng.choice(at)
                edit("syntax", f"without a {ch}", f, i, i + 1, " ")
                i = rng.choice(at)
                edit("syntax", f"one more {ch}", f, i, i, ch)
        at = [m.start() for m in re.finditer(r";", c) if not c[:m.start()].rstrip().endswith(":")]
        if at:
            i = rng.choice(at)
            edit("syntax", "without a ;", f, i, i + 1, " ")
        words = [m for m in re.finditer(r"\b[A-Za-z_]\w*\b", c)]
        if words:
            m = rng.choice(words)
            edit("syntax", "a stray character", f, m.start(), m.start(), rng.choice(["$ ", "` ", "\\ ", "@@ "]))
            m = rng.choice(words)
            edit("syntax", "a stray number", f, m.start(), m.start(), "12 34 ")
        at = [m.start() for m in re.finditer(r"[{;]\s*(?=\w+ \w+;)", c)]
        if at:
            i = rng.choice(at)
            edit("syntax", "a stray keyword", f, i + 1, i + 1, rng.choice([" struct ", " package ", " import ", " if ", " case "]))
        opens = [m.start() for m in re.finditer(r"\{", c)]
        if opens:
            i = rng.choice(opens)
            edit("syntax", "the file ends early", f, i + 1, len(c), "")
        for kind, names in (("type", [n for n in decl + subs if n in once]), ("enum or bitmask", [n for n in enums if n in once]), ("constant", [n for n in consts if n in once])):
            uses = [m for n in set(names) for m in re.finditer(r"(?<![\w.])" + n + r"\b", c) if free(m.start()) and not re.search(r"\b(struct|choice|union|enum|bitmask|subtype|const|instantiate|package|import)\b[^;{}]*$", c[:m.start()][-200:])]
            if uses:
                m = rng.choice(uses)
                edit(f"undefined {kind}", "undefined name", f, m.start(), m.end(), "Undefined" + m.group(0))
        uses = [m for n in set(enums) if n in once for m in re.finditer(r"(?<![\w.])" + n + r"\.(\w+)\b", c) if free(m.start())]
        if uses:
            m = rng.choice(uses)
            edit("unknown item", "unknown item", f, m.start(1), m.end(1), "NO_SUCH_ITEM")
        uses = [m for m in re.finditer(r"\bimport\s+([\w.]+)\.(\*|\w+)\s*;", c)]
        if uses:
            m = rng.choice(uses)
            edit("undefined package", "unknown package", f, m.start(1), m.end(1), "no.such.package")
            m = rng.choice(uses)
            if m.group(2) != "*":
                edit("undefined import", "unknown symbol", f, m.start(2), m.end(2), "NoSuchSymbol")
        fields = set(re.findall(r"[\w\]>)]\s+(\w+)\s*;", c))
        uses = [m for m in re.finditer(r"(?:\[|\bif |\bon |\breturn |lengthof\(|numbits\()(\w+)(?=[\])\s;])", c) if m.group(1) in fields and free(m.start())]
        if uses:
            m = rng.choice(uses)
            edit("undefined symbol", "unknown field", f, m.start(1), m.end(1), "noSuchField")
        n = len(c)
        edit("cyclic constant", "itself", f, n, n, "\nconst uint8 CYC_SELF = CYC_SELF;\n")
        edit("cyclic constant", "two", f, n, n, "\nconst uint8 CYC_A = CYC_B + 1;\nconst uint8 CYC_B = CYC_A - 1;\n")
        edit("cyclic constant", "three, in an array length", f, n, n, "\nstruct CycUser { uint8 a[CYC_A]; };\nconst uint8 CYC_A = CYC_B;\nconst uint8 CYC_B = 2 * CYC_C;\nconst uint8 CYC_C = CYC_A;\n")
    return out


def refusal(run, schemas, each, extra=()):
    """P26: schemas broken in one place, and hand-written invalid ones."""
    cli = vlib.build_cli()
    jobs = []
    for name, src in schemas:
        texts = {str(p.relative_to(src)): p.read_text() for p in vlib.schema_files(src)}
        for k in range(each):
            for kind, what, f, new in breakages(texts, random.Random(f"{run.seed}{name}{k}")):
                jobs.append((name, kind, what, dict(texts, **{f: new})))
    seen, todo = set(), []
    for j in jobs:
        key = hashlib.sha256(repr(sorted(j[3].items())).encode()).hexdigest()
        if key not in seen:
            seen.add(key)
            todo.append((j, key))
    for name, kind, texts in extra:
        todo.append(((name, kind, "hand-written", texts), name))

    def one(j):
        (name, kind, what, texts), key = j
        with Scratch() as d:
            for f, t in texts.items():
                p = d / "zs" / f
                p.parent.mkdir(parents=True, exist_ok=True)
                p.write_text(t)
            r = cli_run(cli, "gen", d / "out", d / "zs", timeout=60)
            return j, (None if r is None else r.returncode), len(files(d / "out")) if (d / "out").exists() else 0, "" if r is None else r.stderr[-300:]
    with ThreadPoolExecutor(8) as ex:
        for ((name, kind, what, texts), key), rc, n, err in ex.map(one, todo):
            run.case(key, True, f"{name}, {kind}: {what}: exit {rc}")
            run.stat(f"tried: {kind}")
            if rc is None:
                run.violate(f"{name}|compiler does not end: {kind}", f"{what}: no end after 60 s")
            elif rc < 0:
                run.violate(f"{name}|compiler dies: {kind}", f"{what}: signal {-rc}: {err}")
            elif rc == 0:
                run.violate(f"{name}|accepted: {kind}", f"{what}: {n} files generated")
