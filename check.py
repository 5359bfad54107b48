#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] - builds what it needs from /repo's working tree, runs the real code under
monitors and reports. Exit 0: held on everything explored; 1: VIOLATION line; 2: no answer."""
import fnmatch, json, os, re, shutil, signal, subprocess, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor
import vlib
from vlib import V, T, REPO, sh, env, cargo, BuildError, RepoError, parallel

SCHEMAS = sorted(p.name for p in (V / "schemas").iterdir() if p.is_dir())


class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier, self.seed = prop, tier, vlib.seed()
        self.evals = self.distinct = 0
        self.stats, self.samples, self.bad, self.parts = {}, [], [], []
        self.rule, self.assume = [], []
        self.notes = []

    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough() else quick

    def stat(self, k, v=1):
        self.stats[k] = self.stats.get(k, 0) + v

    def violate(self, sig, detail):
        self.bad.append((sig, detail))

    def case(self, key, nontrivial=True, sample=None):
        """One evaluation made by the driver itself; distinct by key."""
        self.evals += 1
        seen = self.__dict__.setdefault("seen", set())
        if nontrivial and key not in seen:
            seen.add(key)
            self.distinct += 1
        if sample is not None and sum(1 for s in self.samples if s.startswith("driver")) < 6:
            self.samples.append("driver: " + sample[:400])


# ---- building ---------------------------------------------------------------------------------
def build_rt(profile_args=(), tdir="rt", toolchain=None, flags=None, target=None, add_target=True):
    args = ["build", "--target-dir", str(T / tdir)] + list(profile_args)
    e = env()
    if toolchain:
        e["RUSTUP_TOOLCHAIN"] = toolchain
    if flags:
        e["RUSTFLAGS"] = flags
    if target and add_target:
        args += ["--target", target]
    cargo(args, "runtime harness", cwd=V / "harness/rt", envv=e)
    sub = "release" if "--release" in profile_args else "unchecked" if "unchecked" in profile_args else "debug"
    return T / tdir / (target or "") / sub / "rt"


SAN_TARGET = "x86_64-unknown-linux-gnu"
SAN_ENV = {"ASAN_OPTIONS": "exitcode=99:detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1", "TSAN_OPTIONS": "exitcode=66:halt_on_error=0"}


def san(kind):
    """Arguments and environment of a build with a sanitizer, the standard library included."""
    return ("--target", SAN_TARGET, "-Zbuild-std"), dict(RUSTUP_TOOLCHAIN=vlib.NIGHTLY, RUSTFLAGS=f"-Zsanitizer={kind}")


def build_rt_san(kind):
    args, e = san(kind)
    return build_rt(args, tdir=f"san-{kind}", toolchain=e["RUSTUP_TOOLCHAIN"], flags=e["RUSTFLAGS"], target=SAN_TARGET, add_target=False)


class Gen:
    """The generated code of some schemas, compiled together with the harness."""
    def __init__(self, run, roots, name, profile="", tdir="gen", cargo_args=(), sub="debug", report=True, envv=None, watch=None):
        self.run, self.roots = run, list(roots)
        zm, cli = parallel(vlib.build_zm, vlib.build_cli)
        self.cli, self.zm, self.extra, self.watch = cli, zm, {}, watch
        todo = list(roots)
        while True:
            self.ws, fails = vlib.gen_workspace(name, cli, zm, todo, profile=profile)
            for root, msg in fails:
                if report and (watch is None or root in watch):
                    run.violate(f"{root}|schema not compiled", msg[-1500:])
                todo = [x for x in todo if x[0] != root]
            r = sh(["cargo", "build", "--offline", "-q", "--keep-going", "--target-dir", str(T / tdir)] + list(cargo_args), cwd=self.ws, timeout=850, envv=envv)
            if r.returncode == 0:
                break
            bad = set(re.findall(r"gen/(\w+)/", r.stderr)) | set(re.findall(r"gen/glue_(\w+)\.rs", r.stderr))
            bad &= {x[0] for x in todo}
            if not bad:
                raise BuildError("generated workspace:\n" + r.stderr[-5000:])
            for root in sorted(bad):
                if report and (watch is None or root in watch):
                    i = r.stderr.find(f"gen/{root}/")
                    i = r.stderr.find(f"glue_{root}.rs") if i < 0 else i
                    run.violate(f"{root}|generated code does not compile", r.stderr[max(0, i - 400):i + 1200])
            todo = [x for x in todo if x[0] not in bad]
            if not todo:
                raise BuildError("no schema left")
        self.roots = todo
        self.bin = T / tdir / sub / ("hgen_" + re.sub(r"\W", "_", name))

    def args(self):
        return [f"{r}={d}" for r, d in self.roots]


def curated(names=None):
    return [(n, V / "schemas" / n) for n in (names or SCHEMAS)]


# ---- running harness programs -------------------------------------------------------------------
def limited(argv):
    """A ceiling on the memory of a harness program, so that code under test that allocates without bound ends itself
    and not its neighbours. Sanitizers and Miri reserve address space of their own and go without."""
    argv = [str(a) for a in argv]
    own = argv[0].startswith(str(T)) and "/san-" not in argv[0]
    return ["prlimit", f"--data={4 << 30}"] + argv if own and shutil.which("prlimit") else argv


def harness(run, jobs, timeout=800, collect=None):
    """jobs: (label, argv, extra env). Collects the JSON lines the programs print."""
    def one(job):
        label, argv, extra = job
        t = time.time()
        try:
            r = subprocess.run(limited(argv), env=env(**extra), capture_output=True, text=True, timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired as e:
            out = e.stdout or b""
            return label, None, out.decode(errors="replace") if isinstance(out, bytes) else out, "timeout", time.time() - t
        return label, r.returncode, r.stdout, r.stderr, time.time() - t
    res = []
    with ThreadPoolExecutor(8) as ex:
        for label, rc, out, err, dt in ex.map(one, jobs):
            lines = []
            done = False
            for l in out.splitlines():
                if not l.startswith("{"):
                    continue
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if "violation" in d and collect is not None:
                    lines.append(d)
                elif "violation" in d:
                    run.violate(d["violation"], d["detail"])
                elif "evaluations" in d:
                    done = True
                    run.evals += d["evaluations"]
                    run.distinct += d["distinct"]
                    for k, v in d["stats"].items():
                        run.stat(k, v)
                    run.samples += [f"{label}: {s}" for s in d["samples"][:2]]
                else:
                    lines.append(d)
            if rc is None:
                raise BuildError(f"{label}: no end after {timeout} s")
            if rc in (66, 99):
                m = re.search(r"(SUMMARY: \w+Sanitizer: [^\n]*)", err)
                run.violate(f"{label}|sanitizer report", (m.group(1) if m else "") + "\n" + err[:3000])
            elif not done:
                if rc == 3 or rc == 101:
                    raise BuildError(f"{label}: harness error: {err[-2000:]}")
                if rc == -9:  # nothing in these programs does that to itself
                    raise BuildError(f"{label}: killed from outside")
                if rc == 1:  # the progress monitor has reported a hang
                    pass
                else:
                    run.violate(f"{label}|the process dies", f"exit {rc} ({signal.Signals(-rc).name if rc < 0 else ''}): {err[-1500:]}")
            run.parts.append({"part": label, "seconds": round(dt, 1)})
            res.append((label, lines))
    return res


def hjobs(g, mode, n, shards=8, extra=None, seed=None):
    return [(f"generated/{mode}", [g.bin, mode, g.run.seed if seed is None else seed, n] + g.args(), dict(g.extra, **(extra or {}), HGEN_SHARD=f"{i}/{shards}")) for i in range(shards)]


def rjobs(run, rt, *modes):
    return [(f"runtime/{m}", [rt, m, run.seed, n], {}) for m, n in modes]


# ---- known findings --------------------------------------------------------------------------------
def known(prop):
    out = []
    f = V / "known-findings.txt"
    if f.exists():
        for l in f.read_text().splitlines():
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def finish(run, level="exploration"):
    rep = V / "evidence" / "replay"
    rep.mkdir(parents=True, exist_ok=True)
    kf = known(run.prop)
    shown, fresh = set(), []
    for sig, detail in run.bad:
        hit = next((k for k in kf if fnmatch.fnmatchcase(sig.replace(" ", "_"), k[0])), None)
        if hit:
            shown.add(hit)
        else:
            fresh.append((sig, detail))
    for pat, what in sorted(shown):
        print(f"KNOWN-FINDING: property={run.prop} {what}")
    ev = {"property": run.prop, "tier": run.tier, "seed": run.seed, "level": level,
          "coverage": {"evaluations": run.evals, "distinct_nontrivial": run.distinct, "rule": " ".join(run.rule), "samples": run.samples[:24],
                       "observed": run.stats, "parts": merge(run.parts)},
          "assumptions": run.assume, "wall_s": round(time.time() - vlib.START, 2), "violations": len(fresh)}
    (V / "evidence" / f"{run.prop}.json").write_text(json.dumps(ev, indent=1))
    for i, (sig, detail) in enumerate(fresh[:20]):
        p = rep / f"{run.prop}-{i}.txt"
        p.write_text(f"{sig}\n{detail}\n\nreplay: cd /verif && VERIF_SEED={run.seed} python3 check.py {run.prop} {run.tier}\n")
        print(f"VIOLATION property={run.prop} replay={p.relative_to(V)}")
        print("  " + sig)
        print("    " + detail[:600].replace("\n", "\n    "))
    if run.evals == 0 and not fresh:
        print("nothing was observed")
        return 2
    return 1 if fresh else 0


def merge(parts):
    d = {}
    for p in parts:
        e = d.setdefault(p["part"], {"processes": 0, "seconds": 0})
        e["processes"] += 1
        e["seconds"] = round(e["seconds"] + p["seconds"], 1)
    return d


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else vlib.tier()
    import props
    run = Run(prop, tier)
    (V / "evidence").mkdir(exist_ok=True)
    try:
        getattr(props, prop)(run)
        rc = finish(run)
    except RepoError as e:
        print("the repository does not build:", str(e)[-3000:])
        rc = 2
    except BuildError as e:
        print("no answer:", str(e)[-5000:])
        rc = 1 if run.bad and finish(run) == 1 else 2
    except Exception:
        traceback.print_exc()
        rc = 1 if run.bad and finish(run) == 1 else 2
    sys.exit(rc)


if __name__ == "__main__":
    sys.modules["check"] = sys.modules["__main__"]
    main()
