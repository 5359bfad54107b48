"""Build steps shared by the checks. Everything is rebuilt from /repo's working tree; build output goes to /verif/target."""
import hashlib, json, os, re, shutil, subprocess, sys, time
from pathlib import Path

V = Path(__file__).resolve().parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
T = V / "target"
STABLE = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = next((l.split()[0] for l in subprocess.run(["rustup", "toolchain", "list"], capture_output=True, text=True).stdout.splitlines() if l.startswith("nightly")), "nightly")
START = time.time()


class BuildError(Exception):
    """The machinery itself could not be built: inconclusive."""


class RepoError(Exception):
    """/repo's own crates do not build."""


def env(**kw):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTUP_TOOLCHAIN"] = STABLE
    e["CARGO_TERM_COLOR"] = "never"
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    e.update(kw)
    return e


def sh(cmd, timeout=600, cwd=None, envv=None, inp=None):
    return subprocess.run(cmd, cwd=cwd, env=envv or env(), input=inp, capture_output=True, text=True, timeout=timeout, errors="replace")


def cargo(args, what, cwd=None, timeout=850, envv=None, err=BuildError):
    r = sh(["cargo"] + args + ["--offline", "-q"], cwd=cwd, timeout=timeout, envv=envv)
    if r.returncode != 0:
        raise err(f"{what}: cargo {' '.join(args)}\n{r.stderr[-6000:]}")
    return r


def seed():
    return int(os.environ.get("VERIF_SEED", "1"))


def tier():
    return os.environ.get("VERIF_TIER", "quick")


def build_zm():
    cargo(["build", "--target-dir", str(T / "zm")], "schema model", cwd=V / "harness/zmodel")
    return T / "zm/debug/zm"


def build_cli():
    cargo(["build", "-p", "zserio-rs-build", "--target-dir", str(T / "repo")], "zserio-rs-build", cwd=REPO, err=RepoError)
    return T / "repo/debug/zserio-rs-build"


def miri_setup(cmd, e):
    """Sysroot for the interpreter, and the harness built for it."""
    if not (T / "miri-sysroot/lib").exists():
        r = sh(["cargo", "miri", "setup", "--offline", "--target-dir", str(T / "miri-setup")], envv=e, timeout=800)
        if r.returncode != 0:
            raise BuildError("cargo miri setup: " + r.stderr[-3000:])
    e = dict(e, RT_SHARD="999999/1000000")
    r = sh(cmd + ["digest", "1", "0"], envv=e, timeout=800)
    if r.returncode != 0:
        raise BuildError("miri: " + r.stderr[-3000:])


def parallel(*fns):
    """Run build steps side by side; re-raise the first failure."""
    import threading
    res = [None] * len(fns)
    exc = [None] * len(fns)

    def go(i, f):
        try:
            res[i] = f()
        except BaseException as e:  # noqa
            exc[i] = e
    ts = [threading.Thread(target=go, args=(i, f)) for i, f in enumerate(fns)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for e in exc:
        if e:
            raise e
    return res


def schema_files(d):
    return sorted(Path(d).rglob("*.zs"))


def generate(cli, schema_dir, root, out, timeout=120):
    """Run the compiler. Returns (returncode, output)."""
    if out.exists():
        shutil.rmtree(out)
    out.mkdir(parents=True)
    try:
        r = sh([str(cli), "-r", root, "-o", str(out), str(schema_dir)], timeout=timeout)
    except subprocess.TimeoutExpired:
        return 124, "timeout"
    return r.returncode, r.stdout + r.stderr


def gen_workspace(name, cli, zm, roots, shards=8, main_src=None, profile=""):
    """roots: list of (root, schema_dir). Returns (workspace dir, failures[(root, message)])."""
    ws = T / "work" / name
    tag = re.sub(r"\W", "_", name)  # workspaces share a target directory: cargo tells members apart by name only
    ws.mkdir(parents=True, exist_ok=True)
    failures = []
    groups = [[] for _ in range(min(shards, max(1, len(roots))))]
    sizes = [0] * len(groups)
    def one(root, d):
        tmp = ws / "new" / root
        rc, outp = generate(cli, d, root, tmp)
        if rc != 0:
            return (root, outp)
        glue = ws / "new" / f"glue_{root}.rs"
        r = sh([str(zm), "glue", str(d), root, str(glue), str(tmp)])
        if r.returncode != 0:
            raise BuildError(f"glue for {root}: {r.stderr[-2000:]}")
        sync(tmp, ws / "gen" / root)
        write_if(ws / "gen" / glue.name, glue.read_text())
        shutil.rmtree(tmp)
        glue.unlink()
        return None
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda x: one(*x), roots))
    okroots = []
    for (root, d), f in zip(roots, res):
        if f:
            failures.append(f)
        else:
            okroots.append((root, d))
    for root, d in sorted(okroots, key=lambda x: -sum(p.stat().st_size for p in (ws / "gen" / x[0]).rglob("*.rs"))):
        i = sizes.index(min(sizes))
        groups[i].append(root)
        sizes[i] += sum(p.stat().st_size for p in (ws / "gen" / root).rglob("*.rs"))
    members = []
    for i, g in enumerate(groups):
        c = ws / f"shard{i}"
        src = c / "src"
        src.mkdir(parents=True, exist_ok=True)
        lib = ["#![allow(warnings)]"]
        for root in g:
            lib.append(f'#[path = "../../gen/{root}/mod.rs"] pub mod {root};')
            lib.append(f'#[path = "../../gen/glue_{root}.rs"] pub mod glue_{root};')
        lib.append("pub fn register(r: &mut gluecore::Registry) {" + " ".join(f"glue_{x}::register(r);" for x in g) + "}")
        write_if(src / "lib.rs", "\n".join(lib) + "\n")
        write_if(c / "Cargo.toml", f"""[package]
name = "{tag}_{i}"
version = "0.0.0"
edition = "2021"
[dependencies]
zserio = {{ path = "{REPO}/crates/zserio" }}
gluecore = {{ path = "{V}/harness/gluecore" }}
[lib]
doctest = false
""")
        members.append(f"shard{i}")
    main = ws / "main"
    (main / "src").mkdir(parents=True, exist_ok=True)
    deps = "\n".join(f'{m} = {{ path = "../{m}", package = "{tag}_{m[5:]}" }}' for m in members)
    write_if(main / "Cargo.toml", f"""[package]
name = "hgen_{tag}"
version = "0.0.0"
edition = "2021"
[dependencies]
zserio = {{ path = "{REPO}/crates/zserio" }}
gluecore = {{ path = "{V}/harness/gluecore" }}
zmodel = {{ path = "{V}/harness/zmodel" }}
{deps}
[[bin]]
name = "hgen_{tag}"
path = "{main_src or V / 'harness/hgen/main.rs'}"
""")
    write_if(main / "src/reg.rs", "pub fn all(r: &mut gluecore::Registry) {" + " ".join(f"{m}::register(r);" for m in members) + "}\n")
    write_if(ws / "Cargo.toml", f"""[workspace]
resolver = "2"
members = [{', '.join(f'"{m}"' for m in members)}, "main"]
[profile.dev]
opt-level = 0
debug = 1
[profile.dev.package.zserio]
opt-level = 1
[profile.dev.package.zmodel]
opt-level = 1
[profile.dev.package.hgen_{tag}]
opt-level = 0
[profile.unchecked]
inherits = "dev"
overflow-checks = false
debug-assertions = false
{profile}
""")
    if not (ws / "Cargo.lock").exists():
        shutil.copy(REPO / "Cargo.lock", ws / "Cargo.lock")
    return ws, failures


def sync(src, dst):
    """Make dst equal to src, leaving files alone that are equal already (cargo goes by their times)."""
    have = {p.relative_to(dst) for p in dst.rglob("*") if p.is_file()} if dst.exists() else set()
    want = {p.relative_to(src) for p in src.rglob("*") if p.is_file()}
    for f in have - want:
        (dst / f).unlink()
    for f in want:
        if f not in have or (dst / f).read_bytes() != (src / f).read_bytes():
            (dst / f).parent.mkdir(parents=True, exist_ok=True)
            (dst / f).write_bytes((src / f).read_bytes())


def write_if(p, s):
    p = Path(p)
    if not p.exists() or p.read_text() != s:
        p.write_text(s)
