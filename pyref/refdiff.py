"""Replay vectors through the zserio reference implementation (Python runtime).

usage: refdiff.py SCHEMA_DIR WORK_DIR < vectors.jsonl ; prints one JSON line per disagreement and a summary.
"""
import sys, os, json, struct, subprocess, importlib, enum
import zserio
import zserio.bitbuffer

JAR = os.path.join(os.path.dirname(zserio.__file__), "compiler", "zserio.jar")

SUBST = [x.split("=", 1) for x in sys.argv[3:]]  # names the reference generator cannot tell apart

def compile_schema(src, work):
    """Generate Python for every package reachable from a synthetic root package."""
    srcd = os.path.join(work, "zs")
    out = os.path.join(work, "py")
    os.makedirs(srcd, exist_ok=True)
    pkgs = []
    for root, _, files in os.walk(src):
        for f in sorted(files):
            if f.endswith(".zs"):
                text = open(os.path.join(root, f), encoding="utf-8").read()
                for a, b in SUBST:
                    text = text.replace(a, b)
                name = ""
                for line in text.splitlines():
                    line = line.strip()
                    if line.startswith("package "):
                        name = line[len("package "):].rstrip(";").strip()
                        break
                p = os.path.join(srcd, *name.split(".")) + ".zs"
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "w", encoding="utf-8").write(text)
                pkgs.append(name)
    open(os.path.join(srcd, "zzroot.zs"), "w").write("package zzroot;\n" + "".join(f"import {p}.*;\n" for p in sorted(pkgs)) + "struct ZzRoot { uint8 a; };\n")
    r = subprocess.run(["java", "-XX:TieredStopAtLevel=1", "-Xshare:auto", "-cp", JAR, "zserio.tools.ZserioToolPython", "-src", srcd, "zzroot.zs", "-python", out,
                        "-allowImplicitArrays", "-withTypeInfoCode", "-setTopLevelPackage", "zgen"] , capture_output=True, text=True)
    if r.returncode != 0:
        return None, (r.stdout + r.stderr)
    for root, _, files in os.walk(out):  # subtypes of extern lack their import
        for f in (x for x in files if x.endswith(".py")):
            t = open(os.path.join(root, f), encoding="utf-8").read()
            if "zserio." in t and "import zserio\n" not in t and "__future__" not in t:
                open(os.path.join(root, f), "w", encoding="utf-8").write("import zserio\n" + t)
    sys.path.insert(0, out)
    return out, pkgs

def norm(s):
    return s.replace("_", "").lower()

class Walker:
    def __init__(self, types):
        self.types = types
        self.cache = {}
    def attr(self, obj, name):
        k = (type(obj), name)
        a = self.cache.get(k)
        if a is None:
            want = norm(name)
            c = [x for x in dir(type(obj)) if not x.startswith("_") and norm(x) == want]
            c.sort(key=lambda x: (len(x), x))
            if not c:
                raise KeyError(f"{type(obj)} has no {name}")
            a = self.cache[k] = c[0]
        return getattr(obj, a)
    def val(self, v, t):
        if v is None:
            return None
        if t == "int":
            return {"i": str(int(v))}
        if t == "bool":
            return bool(v)
        if t == "f32":
            return {"f": struct.unpack(">I", struct.pack(">f", v))[0]}
        if t == "f64":
            return {"d": str(struct.unpack(">Q", struct.pack(">d", v))[0])}
        if t == "str":
            return v
        if t == "bytes":
            return {"b": bytes(v).hex()}
        if t == "ext":
            n = v.bitsize
            b = bytearray(v.buffer[: (n + 7) // 8])
            if n % 8:
                b[-1] &= (0xFF << (8 - n % 8)) & 0xFF
            return {"x": bytes(b).hex(), "n": n}
        if t == "enum":
            return {"e": str(v.value)}
        if t == "mask":
            return {"m": str(v.value)}
        return self.obj(v, self.types[t[2:]])
    def obj(self, o, t):
        p = [self.val(self.attr(o, n), ty) for n, ty in t["params"]]
        fs = []
        sel = 0
        if t["kind"] == "struct":
            for n, ty, arr in t["fields"]:
                v = self.attr(o, n)
                fs.append(None if v is None else [self.val(x, ty) for x in v] if arr else self.val(v, ty))
        else:
            tag = o.choice_tag
            for i, (n, ty, arr) in enumerate(t["fields"]):
                if i == tag:
                    v = self.attr(o, n)
                    fs.append(None if v is None else [self.val(x, ty) for x in v] if arr else self.val(v, ty))
                else:
                    fs.append(None)
            if t["kind"] == "union":
                sel = tag
        return {"p": p, "s": sel, "o": fs}

def unval(v):
    if isinstance(v, dict):
        if "i" in v: return int(v["i"])
        if "f" in v: return struct.unpack(">f", struct.pack(">I", v["f"]))[0]
        if "d" in v: return struct.unpack(">d", struct.pack(">Q", int(v["d"])))[0]
    return v

def main():
    src, work = sys.argv[1], sys.argv[2]
    out, pkgs = compile_schema(src, work)
    if out is None:
        print(json.dumps({"refused": pkgs}))
        return
    types = {}
    stats = dict(vectors=0, agree=0, skipped=0, bytes=0, disagree=0, missing=[])
    w = Walker(types)
    classes = {}
    def cls(tid):
        if tid in classes: return classes[tid]
        pkg, name = tid.rsplit(".", 1)
        r = None
        try:
            d = os.path.join(out, "zgen", *pkg.split("."))
            for f in sorted(os.listdir(d)):
                if f.endswith(".py") and norm(f[:-3]) == norm(name):
                    try:
                        m = importlib.import_module("zgen." + pkg + "." + f[:-3])
                    except SyntaxError:
                        continue  # the reference generates invalid Python for some template arguments
                    for k in dir(m):
                        if norm(k) == norm(name) and isinstance(getattr(m, k), type): r = getattr(m, k)
        except FileNotFoundError:
            pass
        if r is None: stats["missing"].append(tid)
        classes[tid] = r
        return r
    def enumfix(v, ty, c):
        return unval(v)
    for line in sys.stdin:
        for a, b in SUBST:
            line = line.replace(a, b)
        j = json.loads(line)
        if "type" in j:
            types[j["type"]["id"]] = j["type"]
            continue
        t = types[j["t"]]
        c = cls(j["t"])
        if c is None:
            stats["skipped"] += 1
            continue
        stats["vectors"] += 1
        b = bytes.fromhex(j["b"])
        stats["bytes"] += len(b)
        try:
            params = []
            for (n, ty), v in zip(t["params"], j["v"]["p"] if "v" in j else j["p"]):
                if ty in ("enum", "mask") or ty.startswith("c:"):
                    raise LookupError
                params.append(unval(v))
        except LookupError:
            stats["skipped"] += 1
            continue
        try:
            r = zserio.BitStreamReader(b)
            o = c.from_reader(r, *params)
            got = w.obj(o, t)
            pos = r.bitposition
        except zserio.PythonRuntimeException as e:
            got = None
            err = repr(e)
        except KeyError:
            stats["skipped"] += 1  # the reference gives another template instance this name
            continue
        except Exception as e:
            got = None
            err = "EXC " + repr(e)
        if j.get("mut"):
            # a mutated input: report the reference's verdict
            print(json.dumps({"mut": j["id"], "ok": got is not None, "v": got, "err": None if got is not None else err}))
            continue
        if got is None:
            stats["disagree"] += 1
            print(json.dumps({"bad": "reference cannot decode", "t": j["t"], "err": err, "vec": j}))
            continue
        if got != j["v"]:
            stats["disagree"] += 1
            print(json.dumps({"bad": "decoded value differs", "t": j["t"], "ref": got, "vec": j}))
            continue
        try:
            wr = zserio.BitStreamWriter()
            o.initialize_offsets(0)
            o.write(wr)
            enc = wr.byte_array
            bs = o.bitsizeof(0)
        except Exception as e:
            stats["disagree"] += 1
            print(json.dumps({"bad": "reference cannot encode", "t": j["t"], "err": repr(e), "vec": j}))
            continue
        if bytes(enc) != b or wr.bitposition != bs or (len(b) != (bs + 7) // 8):
            stats["disagree"] += 1
            print(json.dumps({"bad": "encoded bytes differ", "t": j["t"], "ref": bytes(enc).hex(), "refbits": bs, "vec": j}))
            continue
        stats["agree"] += 1
    print(json.dumps({"summary": stats}))
main()
