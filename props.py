"""What each check runs."""
import json, os, shutil, tempfile
from pathlib import Path
from concurrent.futures import ThreadPoolExecutor
from check import *
import vlib, ccheck, schemagen, exprgen
from vlib import env


def random_roots(run):
    """Schemas made up from the seed. They live in target/work, which every check may write."""
    base = vlib.T / "work" / "schemas"
    n = run.n(16, 80)
    out = []
    for i in range(n):
        s = 100 * run.seed + i
        d = base / f"r{s}"
        shutil.rmtree(d, ignore_errors=True)
        schemagen.write(s, str(d))
        out.append((f"r{s}", d))
    for i in range(run.n(4, 20)):
        s = 100 * run.seed + i
        d = base / f"k{s}"
        shutil.rmtree(d, ignore_errors=True)
        exprgen.write(s, str(d))
        out.append((f"k{s}", d))
    return out


UNCHECKED = ("--profile", "unchecked")


def gen(run, names=None, rnd=True, **kw):
    """All schemas in one program; `names` are the curated ones this check looks at."""
    extra = random_roots(run)
    if names and rnd:
        names = names + [r for r, _ in extra]
    g = Gen(run, curated() + extra, "w-deep" if run.thorough() else "w-all", watch=names, **kw)
    if names:
        g.extra["HGEN_ONLY"] = ",".join(n + "/" for n in names)
    return g


RULE_VALUES = "Random values of every schema type in range and at range limits, at several start bits; a case is non-trivial when the object holds at least one present field."
RULE_BYTES = "Valid encodings and mutations of them (bit flips, truncation, splices, length bombs) plus noise; mutated inputs count as non-trivial."
RULE_SCALAR = "Every boundary value of each runtime type plus random values, at varying bit positions; distinct by type, value and position."
RULE_ARRAY = "Arrays of every runtime element type (empty, single, constant, monotone, jumping, extreme) in all 8 forms (packed, fixed length, element-aligned); distinct by type, elements, form and position; non-empty ones count."


def codec(run, mode, nq, nt, names=None, rule=RULE_VALUES, rt=(), extra=None):
    run.rule.append(rule)
    if rt:
        b, g = parallel(build_rt, lambda: gen(run, names))
        jobs = rjobs(run, b, *rt)
    else:
        g = gen(run, names)
        jobs = []
    for m in mode.split(","):
        jobs += hjobs(g, m, run.n(nq, nt), extra=extra)
    return g, harness(run, jobs)


def P01(run):
    codec(run, "roundtrip", 150, 6000, ["scalars", "ext", "subtypes"], RULE_SCALAR, [("scalars", run.n(1000, 40000)), ("streams", run.n(4000, 200000))])


def P02(run):
    codec(run, "wire", 150, 6000, ["scalars", "ext", "subtypes"], RULE_SCALAR + " All values of types up to 16 bits and all 65536 float16 patterns with the neighbourhood of each rounding boundary are enumerated.",
          [("wire", run.n(1000, 40000)), ("halves", 1000), ("small", run.n(100, 1000))])


def P03(run):
    g, _ = codec(run, "hostile", 250, 8000, None, RULE_BYTES, [("hostile", run.n(1500, 30000)), ("long", run.n(300, 20000))])
    harness(run, [(f"generated/nested {n} deep", [g.bin, "deep", run.seed, n] + g.args(), {}) for n in (10, 300, 1000, 1000000)])


def P04(run):
    codec(run, "memory", 60, 1500, None, "Encodings with inflated length fields followed by little or no data, with chunk settings from 0 to huge; every allocation is counted by the program's allocator; distinct by type, input and setting.", [("memory", run.n(150, 2500))])


def P05(run):
    codec(run, "bitsize", 250, 8000, None, RULE_VALUES + " " + RULE_ARRAY, [("sizes", run.n(600, 20000))])


def P06(run):
    codec(run, "lists", 250, 8000, None, RULE_ARRAY, [("arrays", run.n(800, 20000))])


def P07(run):
    codec(run, "packed", 300, 10000, None, RULE_ARRAY, [("packed", run.n(800, 25000))])


def P08(run):
    codec(run, "roundtrip", 300, 10000)


REF_PY = "/opt/vp/venv/bin/python"
REF_SUBST = {"same": ["ChooseLeaf=PlainChooseLeaf"]}  # the reference generator cannot tell Choose_Leaf from ChooseLeaf


def reference(run, g, n):
    """The bytes and values of the generated code through the reference implementation."""
    res = harness(run, [("generated/vectors", [g.bin, "vectors", run.seed, n] + g.args(), dict(g.extra, HGEN_SHARD=f"{i}/8")) for i in range(8)])
    per = {}
    watch = set(g.watch or [r for r, _ in g.roots])
    for _, lines in res:
        for d in lines:
            if d.get("schema") in watch:
                per.setdefault(d["schema"], []).append(d)
    work = vlib.T / "work" / "reference"
    shutil.rmtree(work, ignore_errors=True)
    dirs = dict(g.roots)

    def one(root):
        w = work / root
        w.mkdir(parents=True)
        types, vecs = [], []
        for d in per[root]:
            (types if "type" in d else vecs).append(d)
        r = vlib.sh([REF_PY, str(vlib.V / "pyref/refdiff.py"), str(dirs[root]), str(w)] + REF_SUBST.get(root, []), timeout=800, inp="\n".join(json.dumps(d) for d in types + vecs))
        return root, r
    with ThreadPoolExecutor(8) as ex:
        for root, r in ex.map(one, sorted(per)):
            done = False
            for l in r.stdout.splitlines():
                d = json.loads(l)
                if "summary" in d:
                    done = True
                    x = d["summary"]
                    run.stat("reference: vectors", x["vectors"])
                    run.stat("reference: agree on value and bytes", x["agree"])
                    run.stat("reference: bytes compared", x["bytes"])
                    run.stat("reference: skipped", x["skipped"] + len(x["missing"]))
                    run.evals += x["vectors"]
                elif "refused" in d:
                    done = True
                    run.stat("reference: schemas it refuses")
                    run.notes.append(str(d["refused"])[-300:])
                elif "bad" in d:
                    run.violate(f"{root}/{d['t']}|reference: {d["bad"]}", f"{d.get('err', '')} {json.dumps(d.get('ref'))[:500]} {d.get('refbits', '')}\n {json.dumps(d['vec'])[:900]}")
            if not done:
                raise BuildError(f"reference run of {root}: {r.stderr[-2000:]}")


def P09(run):
    g, _ = codec(run, "wire", 300, 8000)
    reference(run, g, run.n(40, 1500))


def P10(run):
    d = tempfile.mkdtemp(prefix="zv10")
    try:
        codec(run, "entry", 60, 1500, None, "Values of every unparameterized type through every entry point, with readers and writers that split, interrupt or fail at every position; distinct by type and value.", extra={"HGEN_TMP": d})
    finally:
        shutil.rmtree(d)


def P11(run):
    """In a build with debug and overflow checks and in one without: a refusal must not depend on the build."""
    run.rule.append("Values made unrepresentable in one place (range, fixed length, parameter, blob size), alone and inside packed lists; distinct by type, value and position.")
    b, bu, g = parallel(build_rt, lambda: build_rt(UNCHECKED), lambda: gen(run))
    gu = gen(run, cargo_args=UNCHECKED, sub="unchecked")
    jobs = rjobs(run, b, ("refuse", run.n(300, 10000))) + [("unchecked " + l, a, e) for l, a, e in rjobs(run, bu, ("refuse", run.n(300, 10000)))]
    jobs += hjobs(g, "refuse", run.n(200, 6000)) + [("unchecked " + l, a, e) for l, a, e in hjobs(gu, "refuse", run.n(200, 6000))]
    harness(run, jobs)


def P12(run):
    codec(run, "align", 400, 12000, ["align", "optalign", "exprs", "optional"], RULE_VALUES, [("align", run.n(20000, 1000000))])


def P14(run):
    codec(run, "exprs", 400, 12000)


def P15(run):
    codec(run, "values", 100, 1000, None, "Every enum item, bitmask item and constant of every schema, and every conversion of the underlying values around them.")


def P16(run):
    codec(run, "exprs", 300, 8000, ["exprs"], "All values up to 70000 (all values of types up to 16 bits), every power of two and its neighbours, and random values, for every integer type.", [("numbits", run.n(300, 100000))])


def P17(run):
    codec(run, "extern", 300, 10000, None, "Random blobs of 0 to 3000 bits at varying bit positions, and objects of every type wrapped as extern; distinct by content, size and position.", [("extern", run.n(20000, 500000))])


def P18(run):
    sanitized(run, "thread", [("threads", run.n(60, 1500))], [("pure", 200)])
    codec(run, "pure", 60, 1500, None, "Units of pseudo random encodes and decodes run in many threads while other threads change the pre-allocation setting; each result is compared with the one of a single thread; distinct by completion.", [("threads", run.n(60, 1500))])


def sanitized(run, kind, modes, gmodes):
    """The same work in programs built with a sanitizer (its runtime library is the oracle)."""
    b = build_rt_san(kind)
    jobs = [(f"{kind} sanitizer/runtime {m}", [b, m, run.seed, n], dict(SAN_ENV, RT_SHARD=f"{i}/4")) for m, n in modes for i in range(4)]
    if run.thorough():
        args, e = san(kind)
        g = gen(run, cargo_args=args, tdir=f"gen-{kind}", sub=SAN_TARGET + "/debug", envv=env(**e), report=False)
        jobs += [(f"{kind} sanitizer/" + l, a, dict(x, **SAN_ENV)) for m, n in gmodes for l, a, x in hjobs(g, m, n)]
    for label, lines in harness(run, jobs, collect=True):
        run.stat(f"runs under the {kind} sanitizer")


def miri():
    return (["cargo", "miri", "run", "--offline", "-q", "--target-dir", str(vlib.T / "miri"), "--manifest-path", str(vlib.V / "harness/rt/Cargo.toml"), "--"],
            env(MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-permissive-provenance", RUSTUP_TOOLCHAIN=vlib.NIGHTLY, MIRI_SYSROOT=str(vlib.T / "miri-sysroot")))


def P19(run):
    run.rule.append("The same pseudo random work (valid values, values that cannot be represented, hostile inputs) in a build with and one without overflow and debug checks, results compared; and Miri interpreting the runtime crate on boundary values and mutated inputs of every type. Distinct by type, value and input.")
    miri_cmd, miri_env = miri()
    b, bu, g, _ = parallel(build_rt, lambda: build_rt(UNCHECKED), lambda: gen(run), lambda: vlib.miri_setup(miri_cmd, miri_env))
    gu = gen(run, cargo_args=UNCHECKED, sub="unchecked")
    # 1. the interpreter, on all types (one part each)
    of = 16
    seeds = [run.seed] if not run.thorough() else [run.seed + k for k in range(6)]
    jobs = [(f"Miri/ub {i} of {of}", miri_cmd + ["ub", str(s), str(run.n(1, 2))], {k: miri_env[k] for k in ("MIRIFLAGS", "RUSTUP_TOOLCHAIN", "MIRI_SYSROOT")} | {"RT_SHARD": f"{i}/{of}"}) for s in seeds for i in range(of)]
    jobs += [("Miri/threads", miri_cmd + ["threads", str(s), "3"], {k: miri_env[k] for k in ("MIRIFLAGS", "RUSTUP_TOOLCHAIN", "MIRI_SYSROOT")}) for s in seeds]
    # 2. checked against unchecked
    n = run.n(2400, 60000)
    modes = [("refuse", run.n(300, 5000)), ("hostile", run.n(600, 10000)), ("sizes", run.n(300, 5000)), ("scalars", run.n(600, 20000)), ("numbits", run.n(100, 2000)), ("arrays", run.n(300, 8000)), ("packed", run.n(300, 8000))]
    pairs = []
    for build, rt, hg in (("checked", b, g), ("unchecked", bu, gu)):
        pairs += [(f"{build}/runtime digest", [rt, "digest", run.seed, n], {"RT_SHARD": f"{i}/8"}) for i in range(8)]
        pairs += [(f"{build}/runtime {m}", [rt, m, run.seed, k], {}) for m, k in modes]
        pairs += [(f"{build}/generated digest", [hg.bin, "digest", run.seed, run.n(80, 2000)] + hg.args(), {"HGEN_SHARD": f"{i}/8"}) for i in range(8)]
    res = {"checked": {}, "unchecked": {}}
    for label, lines in harness(run, pairs + jobs, collect=True):
        build = label.split("/")[0]
        for d in lines:
            if "violation" in d and build == "Miri":
                pass  # judged by the other checks
            elif "arith" in d:
                run.stat("arithmetic panics", d["count"])
                if "crates/zserio/" in d["arith"]:
                    run.violate("runtime|" + d["arith"], f"{label}: {d['arith']} ({d['count']} times)")
            elif "violation" in d and "leak" in d["violation"]:
                run.violate(d["violation"], f"{label}: {d['detail']}")
            elif "violation" in d:
                res[build]["oracle|" + d["violation"]] = d["detail"]
            elif "digest" in d:
                res[build][d["digest"]] = d["value"]
    # 3. address sanitizer
    sanitized(run, "address", [("ub", run.n(60, 1000)), ("hostile", run.n(100, 3000)), ("refuse", run.n(60, 1500)), ("arrays", run.n(60, 1500))], [("hostile", 600), ("roundtrip", 400), ("refuse", 300)])
    c, u = res["checked"], res["unchecked"]
    run.stat("digests compared", len(set(c) & set(u)))
    for k in sorted(set(c) | set(u)):
        if k.startswith("oracle|"):
            if (k in c) != (k in u):
                run.violate(k[7:] + "|only in the " + ("checked build" if k in c else "unchecked build"), c.get(k) or u.get(k))
        elif c.get(k) != u.get(k) and "undefined" not in (c.get(k), u.get(k)):
            run.violate(k + "|checked and unchecked builds differ", f"{c.get(k)} / {u.get(k)}")


def P20(run):
    codec(run, "reject", 250, 8000, None, RULE_BYTES, [("hostile", run.n(800, 20000)), ("long", run.n(1200, 60000))])


def P21(run):
    codec(run, "canon", 250, 8000, None, RULE_BYTES)


def P22(run):
    codec(run, "params", 300, 10000, None, RULE_VALUES)


NAMES = ["names", "pkgs", "subtypes", "templates"]


def P23(run):
    g, _ = codec(run, "wire,values", 400, 12000, NAMES, "Types, constants and enum items whose names collide across packages, reached through every kind of import, qualified name, subtype and template argument; a wrong choice of declaration changes the bytes or the value. Distinct by type and value.")
    reference(run, g, run.n(60, 1500))


def P24(run):
    codec(run, "same", 400, 12000, ["same"], "Pairs of types that differ only in the use of subtypes, templates and instantiations, on the same values and the same mutated inputs; distinct by pair, value and position.")


def P13(run):
    run.rule.append("The same schema directory compiled by other processes, under a shuffling readdir, from other places, in other environments, over old output and repeatedly in one process; output trees compared byte for byte. Distinct by schema and surroundings.")
    ccheck.determinism(run, curated(), run.n(6, 60))


def P27(run):
    run.rule.append("Compiler runs (command line and library) in a scratch tree with unrelated files around; all changing file-system calls are recorded by an interposed library and the tree is hashed before and after; output trees compared. Distinct by schema and configuration.")
    ccheck.containment(run, curated())


def P28(run):
    run.rule.append("Compiler runs (command line and library) in which one file operation on the schemas or the output fails with an error, or transfers only a part of the data, by an interposed library; kinds of operation, place and error vary. Distinct by schema, kind, place and error.")
    ccheck.faults(run, curated(), run.n(10, 400))


def P25(run):
    run.rule.append("Every declaration of the schemas is named by glue code that is compiled with the generated code; distinct by generated item.")
    g = gen(run)
    compiled(run, g)
    alone(run, g)


def alone(run, g):
    """Schemas whose code does not compile today, each in a crate of its own that depends on the runtime only."""
    ws = vlib.T / "work" / "w-alone"
    members = []
    for d in sorted((vlib.V / "uncompiled").iterdir()):
        root = d.name
        tmp = ws / "new" / root
        rc, out = vlib.generate(g.cli, d, root, tmp)
        run.case((root, "accepted", rc == 0), rc == 0, f"{root}: compiler exit {rc}")
        if rc != 0:
            run.stat("refused by the compiler")
            continue
        vlib.sync(tmp, ws / root / "gen" / root)
        shutil.rmtree(tmp)
        (ws / root / "src").mkdir(parents=True, exist_ok=True)
        vlib.write_if(ws / root / "src/lib.rs", f'#![allow(warnings)]\n#[path = "../gen/{root}/mod.rs"] pub mod {root};\n')
        vlib.write_if(ws / root / "Cargo.toml", f'[package]\nname = "alone_{root}"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\nzserio = {{ path = "{vlib.REPO}/crates/zserio" }}\n')
        members.append(root)
    vlib.write_if(ws / "Cargo.toml", "[workspace]\nresolver = \"2\"\nmembers = " + json.dumps(members) + "\n")
    lock = vlib.T / "work" / g.ws.name / "Cargo.lock"
    if lock.exists():
        shutil.copy(lock, ws / "Cargo.lock")
    for root in members:
        r = vlib.sh(["cargo", "check", "--offline", "-q", "-p", "alone_" + root, "--target-dir", str(vlib.T / "alone")], cwd=ws, timeout=600)
        ok = r.returncode == 0
        run.case((root, "compiles", ok), True, f"{root}: {'compiles' if ok else 'does not compile'}")
        if not ok:
            i = r.stderr.find("error")
            if f"gen/{root}/" not in r.stderr:
                raise BuildError(f"{root}: {r.stderr[-2000:]}")
            run.violate(f"{root}|generated code does not compile", r.stderr[i:i + 1500])


def compiled(run, g):
    import re
    for root, _ in g.roots:
        for k, v in ccheck.files(g.ws / "gen" / root).items():
            for i, m in enumerate(re.finditer(rb"pub (struct|enum|fn|const|mod|type|static) (\w+)|^    pub (\w+):", v, re.M)):
                run.case((root, k, i), True, f"{root}/{k}: {m.group(0).decode().strip()}")
                run.stat("compiled: pub " + (m.group(1) or b"field").decode())


def P26(run):
    run.rule.append("Every valid schema broken in one place (brackets, separators, stray tokens, early end, undefined types, symbols, packages and items, cyclic constants), and hand-written invalid schemas; distinct by schema text.")
    extra = [(f.stem, f.stem.split("_")[0], {"p.zs": f.read_text()}) for f in sorted((vlib.V / "invalid").glob("*.zs"))]
    ccheck.refusal(run, [s for s in curated() if s[0] != "services"], run.n(2, 40), extra)
