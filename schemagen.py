#!/usr/bin/env python3
"""Random schemas of the supported language. schemagen.py SEED DIR writes the .zs files of one schema set to DIR."""
import random, sys

import decorate
from pathlib import Path

UINTS = {"uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64, "varuint16": 15, "varuint32": 29, "varuint64": 57, "varuint": 64, "varsize": 31}
SINTS = {"int8": 8, "int16": 16, "int32": 32, "int64": 64, "varint16": 15, "varint32": 29, "varint64": 57, "varint": 64}
NAMES = ["Alpha", "Beta", "Gamma", "Delta", "Road", "Lane", "Node", "Point", "Header", "Item", "Entry", "Block", "Link", "Attr", "Shape", "Value", "Range2", "RoadItem", "HTTPInfo", "Data", "Tile", "Ref", "Info", "Part", "Group"]
WORDS = ["a", "b", "count", "size", "kind", "flag", "value", "speedLimit", "x1", "y2", "name", "tags", "items", "isOpen", "dataLen", "numPts", "offset", "level", "ref2", "typ", "low", "high", "mask", "id", "rest", "node", "body", "tail", "extra", "curve"]


class Ty:
    """A type as it is written, with what is known about it. kind: uint, sint, bool, float, string, bytes, extern, enum, mask, comp"""
    def __init__(self, text, kind, decl=None, bits=0):
        self.text, self.kind, self.decl, self.bits = text, kind, decl, bits


class Decl:
    def __init__(self, pkg, name, kind):
        self.pkg, self.name, self.kind = pkg, name, kind
        self.text = ""
        self.params = []      # (Ty, name)
        self.tparams = []
        self.items = []
        self.paths = []       # (suffix path, Ty) of integers, booleans, ... every object of the type has
        self.targ_ok = True
        self.ty = None        # constants, subtypes
        self.depth = 0


class Gen:
    def __init__(self, seed):
        self.seed = seed
        self.r = random.Random(f"schema{seed}")
        self.pkgs = []
        self.decls = {}        # package -> [Decl]
        self.reserved = {}     # package -> names declared there, also by the declaration being made
        self.imports = {}      # package -> [(package, name or None)]

    # ---- literals -------------------------------------------------------------------------
    def lit(self, v):
        r = self.r
        if v < 0:
            return "-" + self.lit(-v)
        k = r.random()
        if k < 0.7:
            return str(v)
        if k < 0.82:
            return r.choice(["0x%x", "0x%X", "0X%x"]) % v
        if k < 0.9:
            return ("0" + oct(v)[2:]) if v else "0"
        return bin(v)[2:] + r.choice("bB") if 0 < v < 2 ** 40 else str(v)

    def limits(self, t):
        if t.kind == "uint":
            return 0, 2 ** t.bits - 1
        return -2 ** (t.bits - 1) + (t.text.startswith("varint") and t.bits < 64), 2 ** (t.bits - 1) - 1

    # ---- types --------------------------------------------------------------------------------
    def uint(self, small=False):
        r = self.r
        k = r.random()
        if small or k < 0.35:
            return Ty("uint8", "uint", bits=8)
        if k < 0.75:
            n = r.choice(list(UINTS))
            return Ty(n, "uint", bits=UINTS[n])
        n = r.choice([1, 2, 3, 5, 7, 8, 9, 12, 16, 17, 31, 32, 33, 48, 63, 64])
        return Ty(f"bit:{n}", "uint", bits=n)

    def sint(self):
        r = self.r
        if r.random() < 0.7:
            n = r.choice(list(SINTS))
            return Ty(n, "sint", bits=SINTS[n])
        n = r.choice([1, 2, 3, 5, 8, 13, 16, 24, 32, 40, 63, 64])
        return Ty(f"int:{n}", "sint", bits=n)

    def simple(self):
        k = self.r.random()
        if k < 0.45:
            return self.uint()
        if k < 0.65:
            return self.sint()
        return Ty(*self.r.choice([("bool", "bool"), ("string", "string"), ("float16", "float"), ("float32", "float"), ("float64", "float"), ("bool", "bool"), ("string", "string"), ("bytes", "bytes"), ("extern", "extern")]))

    def visible(self, p, kinds):
        """Declarations that can be named in package p, with the text that names them."""
        out = []
        local = self.reserved[p]
        count = {}
        for q, n in self.imports[p]:
            for d in self.decls[q]:
                if n is None or n == d.name:
                    count.setdefault(d.name, set()).add(q)
        for d in self.decls[p]:
            if d.kind in kinds:
                out.append((d.name if self.r.random() < 0.95 else f"{p}.{d.name}", d))
        for q, n in self.imports[p]:
            for d in self.decls[q]:
                if d.kind not in kinds or (n is not None and n != d.name):
                    continue
                if d.name not in local and len(count[d.name]) == 1:
                    out.append((d.name, d))
                elif n is None:
                    out.append((f"{q}.{d.name}", d))
        return out

    def named(self, p, text, d):
        """The type a name stands for (None: needs arguments of some kind)."""
        if d.kind == "subtype":
            return Ty(text, d.ty.kind, d.ty.decl, d.ty.bits)
        if d.kind == "enum":
            return Ty(text, "enum", d)
        if d.kind == "mask":
            return Ty(text, "mask", d)
        return Ty(text, "comp", d)

    def any_type(self, p, env, depth, want=None):
        """(type text with arguments, Ty)"""
        r = self.r
        if r.random() < 0.45:
            return self.simple()
        c = [(t, d) for t, d in self.visible(p, {"struct", "choice", "union", "enum", "mask", "subtype"}) if d.depth < 4]
        r.shuffle(c)
        for t, d in c:
            ty = self.use(p, env, t, d)
            if ty:
                return ty
        return self.simple()

    def use(self, p, env, t, d, index=False):
        """The declaration d as a field type: with template and type arguments."""
        if d.kind in ("enum", "mask") or d.kind == "subtype" and not d.params:
            return self.named(p, t, d)
        text = t
        if d.tparams:
            args = [self.targ(p) for _ in d.tparams]
            text += "<" + ", ".join(a.text for a in args) + ">"
        if d.params:
            args = []
            for ty, _ in d.params:
                a = self.arg(p, env, ty, index)
                if a is None:
                    return None
                args.append(a)
            text += "(" + ", ".join(args) + ")"
        return Ty(text, "comp", d.ty.decl if d.kind == "subtype" else d)

    def targ(self, p):
        r = self.r
        c = [(t, d) for t, d in self.visible(p, {"struct", "choice", "union", "enum", "mask", "subtype"}) if not d.tparams and not d.params and d.depth < 3]
        if c and r.random() < 0.5:
            t, d = r.choice(c)
            return self.named(p, t, d)
        return Ty(*r.choice([("uint8", "uint"), ("uint32", "uint"), ("int16", "sint"), ("string", "string"), ("bool", "bool"), ("varuint", "uint"), ("float32", "float"), ("bit:5", "uint"), ("int:12", "sint")]))

    def arg(self, p, env, ty, index=False):
        r = self.r
        if ty.kind == "uint":
            if index and r.random() < 0.6:
                return "@index" if ty.bits >= 8 else f"@index % {2 ** min(ty.bits, 3)}"
            x = self.uexpr(p, env, 1)
            return f"({x}) % {min(2 ** ty.bits, r.choice([3, 6, 11, 200]))}"
        if ty.kind == "bool":
            return self.bexpr(p, env, 1)
        c = [e for e, t in env if t.kind == ty.kind and t.decl is ty.decl and (ty.decl is not None or t.text == ty.text)]
        if ty.kind == "enum" and (not c or r.random() < 0.2):
            n = self.name_of(p, ty.decl)
            return f"{n}.{r.choice(ty.decl.items)}" if n else None
        return r.choice(c) if c else None

    def name_of(self, p, d):
        for t, x in self.visible(p, {d.kind}):
            if x is d:
                return t
        return None

    # ---- expressions --------------------------------------------------------------------------
    # env: [(expression text, Ty)]
    def uexpr(self, p, env, n):
        """An integer expression that is never negative and never overflows 64 bits."""
        r = self.r
        c = [e for e, t in env if t.kind == "uint" and t.bits <= 16]
        k = r.random()
        if n <= 0 or k < 0.3:
            if c and r.random() < 0.8:
                return r.choice(c)
            return self.lit(r.choice([0, 1, 2, 3, 5, 7, 8, 10, 31, 100]))
        a = self.uexpr(p, env, n - 1)
        b = self.uexpr(p, env, n - 1)
        if k < 0.42:
            return f"{a} + {b}"
        if k < 0.5:
            return f"({a}) * {self.lit(r.choice([1, 2, 3, 10]))}"
        if k < 0.57:
            return f"({a}) % {self.lit(r.choice([2, 3, 5, 7, 16]))}"
        if k < 0.62:
            return f"({a}) / {self.lit(r.choice([1, 2, 3]))}"
        if k < 0.68:
            return f"(({a}) {r.choice('&|^')} ({b}))"
        if k < 0.74:
            return f"(({a}) {r.choice(['<<', '>>'])} {r.choice([1, 2, 3])})"
        if k < 0.82:
            return f"({self.bexpr(p, env, n - 1)} ? {a} : {b})"
        if k < 0.88:
            return f"numbits({a})"
        arrs = [e for e, t in env if t.kind == "array"]
        if arrs and k < 0.94:
            return f"lengthof({r.choice(arrs)})"
        ens = [(e, t) for e, t in env if t.kind == "mask"]
        if ens:
            e, t = r.choice(ens)
            return f"(valueof({e}) % 16)"
        cs = [t for t, d in self.visible(p, {"const"}) if d.ty.kind == "uint" and d.ty.bits <= 16]
        return r.choice(cs) if cs else a

    def iexpr(self, p, env, n):
        """Any integer expression."""
        r = self.r
        c = [e for e, t in env if t.kind in ("uint", "sint")]
        k = r.random()
        if n <= 0 or k < 0.25:
            if c and r.random() < 0.8:
                return r.choice(c)
            return self.lit(r.choice([0, 1, 2, 3, 7, 10, 255, 256, 1000, 65535, 2147483647]))
        a, b = self.iexpr(p, env, n - 1), self.iexpr(p, env, n - 1)
        if k < 0.55:
            op = r.choice(["+", "-", "*", "&", "|", "^", "+", "-"])
            b = self.lit(r.choice([2, 3, 10])) if op == "*" else b
            s = f"{a} {op} {b}"
            return s if r.random() < 0.5 and op in "+-*" else f"({s})"
        if k < 0.62:
            return f"{a} {r.choice('/%')} {self.lit(r.choice([1, 2, 3, 7, 10, 64]))}"
        if k < 0.68:
            return f"{r.choice('-~')}({a})"
        if k < 0.74:
            return f"({a} {r.choice(['<<', '>>'])} {r.choice([0, 1, 3, 8])})"
        if k < 0.84:
            return f"({self.bexpr(p, env, n - 1)} ? {a} : {b})"
        ens = [e for e, t in env if t.kind == "enum"]
        if ens and k < 0.9:
            return f"valueof({r.choice(ens)})"
        cs = [t for t, d in self.visible(p, {"const"}) if d.ty.kind in ("uint", "sint")]
        return r.choice(cs) if cs else self.uexpr(p, env, n - 1)

    def bexpr(self, p, env, n):
        r = self.r
        k = r.random()
        bs = [e for e, t in env if t.kind == "bool"]
        if bs and (k < 0.2 or n <= 0):
            return r.choice(bs)
        if k < 0.3 and n > 0:
            return f"!({self.bexpr(p, env, n - 1)})"
        if k < 0.45 and n > 0:
            return f"({self.bexpr(p, env, n - 1)} {r.choice(['&&', '||'])} {self.bexpr(p, env, n - 1)})"
        ens = [(e, t) for e, t in env if t.kind == "enum"]
        if ens and k < 0.6:
            e, t = r.choice(ens)
            nm = self.name_of(p, t.decl)
            if nm:
                return f"{e} {r.choice(['==', '!='])} {nm}.{r.choice(t.decl.items)}"
        ms = [(e, t) for e, t in env if t.kind == "mask"]
        if ms and k < 0.75:
            e, t = r.choice(ms)
            nm = self.name_of(p, t.decl)
            if nm:
                # what isset means for items of several bits is a known finding
                return f"isset({e}, {nm}.{r.choice(t.decl.single)})" if r.random() < 0.6 and t.decl.single else f"({e} & {nm}.{r.choice(t.decl.items)}) == {nm}.{r.choice(t.decl.items)}"
        arrs = [(e, t) for e, t in env if t.kind == "array" and t.decl is None]
        if arrs and k < 0.86:
            e, t = r.choice(arrs)
            return f"(lengthof({e}) > 0 && {e}[0] {r.choice(['==', '<', '>='])} {r.choice([0, 1, 7])})"
        a = self.iexpr(p, env, max(0, n - 1))
        b = self.iexpr(p, env, max(0, n - 1)) if r.random() < 0.4 else self.lit(r.choice([0, 1, 2, 5, 100, 128]))
        return f"{a} {r.choice(['==', '!=', '<', '<=', '>', '>='])} {b}" if r.random() < 0.6 else f"({a} {r.choice(['==', '!=', '<', '<=', '>', '>='])} {b})"

    # ---- declarations --------------------------------------------------------------------------
    def fresh(self, p):
        used = {n.lower() for n in self.reserved[p]}
        theirs = {d.name.lower() for q, n in self.imports[p] for d in self.decls[q] if n in (None, d.name)}
        c = [n for n in NAMES if n.lower() not in used and n.lower() not in theirs]
        same = [d.name for q, n in self.imports[p] for d in self.decls[q] if n is None and d.name in NAMES and all(d.name != x for _, x in self.imports[p])]
        if same and len(self.decls[p]) == 0:  # nothing uses an imported name yet
            c = same
        n = self.r.choice(c or [f"Type{len(self.reserved[p])}"])
        self.reserved[p].add(n)
        return n

    def enum(self, p):
        r = self.r
        d = Decl(p, self.fresh(p), "enum")
        t = self.uint() if r.random() < 0.6 else self.sint()
        while t.bits < 3:
            t = self.uint()
        lo, hi = self.limits(t)
        n, items, v, used = r.randint(1, 6), [], -1, set()
        for i in range(n):
            if r.random() < 0.4:
                w = r.choice([lo, hi, r.randint(lo, hi), r.randint(max(lo, -20), min(hi, 40))])
                s = f" = {self.lit(w)}" if r.random() < 0.8 or w > 2 ** 62 or w < -2 ** 60 else f" = {self.lit(w - 1)} + 1" if w > 0 else f" = {self.lit(w + 3)} - 3" if w + 3 != 0 else f" = {self.lit(w)}"
            else:
                w, s = v + 1, ""
            if w in used or not lo <= w <= hi or (v == hi and not s):
                continue
            used.add(w)
            v = w
            items.append((r.choice(["", "K", "IT_"]) + r.choice("ABCDEFGH") + f"{i}" + r.choice(["", "_X", "z"]), s))
        if not items:
            items = [("ONLY", "")]
        d.items = [a for a, _ in items]
        d.text = f"enum {t.text} {d.name}\n{{\n" + ",\n".join(f"    {a}{s}" for a, s in items) + "\n};\n"
        return d

    def mask(self, p):
        r = self.r
        d = Decl(p, self.fresh(p), "mask")
        t = self.uint()
        while t.bits < 4:
            t = self.uint()
        items, used, v, single = [], set(), 0, []
        for i in range(r.randint(1, 5)):
            if r.random() < 0.3 or (items and v == 0):  # what follows 0 is the reference's 2, here 1
                w = r.choice([1 << r.randrange(t.bits), r.randint(0, 15), 0])
                s = f" = {self.lit(w)}"
            else:
                w, s = (1 if not items else 1 << v.bit_length()), ""
                # the next free bit after the highest one of the previous item
            if w in used or w >= 2 ** t.bits:
                continue
            used.add(w)
            v = w
            items.append((r.choice(["F_", "", "BIT_"]) + r.choice("ABCDEFGH") + f"{i}", s))
            if w.bit_count() == 1:
                single.append(items[-1][0])
        d.items = [a for a, _ in items] or ["ONE"]
        d.single = single if items else ["ONE"]
        d.text = f"bitmask {t.text} {d.name}\n{{\n" + ",\n".join(f"    {a}{s}" for a, s in (items or [("ONE", "")])) + "\n};\n"
        return d

    def const(self, p):
        r = self.r
        used = self.reserved[p] | {d.name for q, n in self.imports[p] for d in self.decls[q]}
        d = Decl(p, next(n for n in iter(lambda: r.choice(["MAX", "MIN", "LIMIT", "DEF", "NUM", "C"]) + "_" + r.choice(["A", "B", "LEN", "SIZE", "X1", "COUNT"]), None) if n not in used), "const")
        self.reserved[p].add(d.name)
        k = r.random()
        if k < 0.45:
            t = self.uint()
            hi = 2 ** t.bits - 1
            v = r.choice([0, 1, hi, r.randint(0, hi), r.randint(0, min(hi, 100))])
            s = self.lit(v)
            cs = [x for x, c in self.visible(p, {"const"}) if c.ty.kind == "uint" and c.ty.bits <= 16]
            if cs and t.bits >= 32 and r.random() < 0.7:
                s = f"{r.choice(cs)} {r.choice(['+', '*', '|', '%'])} {r.choice([1, 2, 3, 77])}"
                s = f"({s}) * 2 + numbits({r.choice(cs)})" if r.random() < 0.3 else s
        elif k < 0.65:
            t = self.sint()
            lo, hi = self.limits(t)
            s = self.lit(r.choice([0, lo + 1, hi, r.randint(lo + 1, hi), -1]))
        elif k < 0.75:
            t = Ty("bool", "bool")
            s = r.choice(["true", "false", "1 < 2", "!(true && false)", "3 == 4"])
        elif k < 0.87:
            t = Ty("string", "string")
            s = r.choice(['""', '"abc"', '"with space"', '"quote \\" here"', '"tab\\t"', '"a" + "b"', '"ä"'])
            if "+" in s or "ä" in s:
                s = '"plain"'
        else:
            t = Ty(r.choice(["float32", "float64", "float16"]), "float")
            s = r.choice(["0.5", "1.5", "2.25", "-8.0", "1e3", "1.5f"])
        d.ty = t
        d.text = f"const {t.text} {d.name} = {s};\n"
        return d

    def subtype(self, p):
        r = self.r
        d = Decl(p, self.fresh(p), "subtype")
        c = [(t, x) for t, x in self.visible(p, {"enum", "mask", "struct", "union", "choice", "subtype"}) if not x.tparams]
        if c and r.random() < 0.5:
            t, x = r.choice(c)
            d.ty = self.named(p, t, x)
            d.depth = x.depth
            d.params = x.params
        else:
            d.ty = self.simple()
        d.text = f"subtype {d.ty.text} {d.name};\n"
        return d

    def params(self, p):
        r = self.r
        out = []
        for n in r.sample(["p", "q1", "par", "ctx"], r.choice([1, 1, 2, 3])):
            k = r.random()
            c = [(t, d) for t, d in self.visible(p, {"enum", "mask"})]
            s = [(t, d) for t, d in self.visible(p, {"struct"}) if not d.params and not d.tparams and d.paths]
            if k < 0.5:
                ty = r.choice([Ty("uint8", "uint", bits=8), Ty("uint16", "uint", bits=16), Ty("uint32", "uint", bits=32), Ty("bit:6", "uint", bits=6), Ty("varsize", "uint", bits=31)])
            elif k < 0.65 or not (c or s):
                ty = Ty("bool", "bool")
            elif (k < 0.85 and c) or not s:
                ty = self.named(p, *r.choice(c))
            else:
                ty = self.named(p, *r.choice(s))
            out.append((ty, n))
        return out

    def env_of(self, name, ty):
        """What an object called name of type ty offers to expressions."""
        out = [(name, ty)]
        if ty.kind == "comp" and ty.decl.kind == "struct" and not ty.decl.tparams:
            out += [(f"{name}.{s}", t) for s, t in ty.decl.paths]
        return out

    def field(self, p, d, env, name, kinds="full", tvars=()):
        """Appends the text of one field, returns what it adds to the environment."""
        r = self.r
        env = list(env)
        new = []
        if tvars and r.random() < 0.6:
            ty = Ty(r.choice(tvars), "tvar")
        else:
            ty = self.any_type(p, env, 0)
        k = r.random()
        pre, post, arr = "", "", ""
        if ty.kind in ("uint", "sint") and ":" in ty.text and r.random() < 0.25 and not tvars:
            x = self.uexpr(p, env, 1)
            ty = Ty(f"{'bit' if ty.kind == 'uint' else 'int'}<({x}) % {r.choice([8, 30, 63])} + 1>", ty.kind, bits=64)
        if kinds == "plain":
            if k < 0.25:
                arr = "[]"
            elif k < 0.33:
                arr = f"[{r.randint(1, 4)}]"
            if arr and r.random() < 0.3:
                pre = "packed "
        else:
            if k < 0.14:
                arr = "[]"
            elif k < 0.2:
                arr = f"[{r.randint(0, 4)}]"
            elif k < 0.3:
                arr = f"[({self.uexpr(p, env, 1)}) % {r.choice([3, 5, 7])}]"
            if arr and r.random() < 0.45:
                pre = "packed "
            if arr and ty.kind == "comp" and ty.decl.params and r.random() < 0.5:
                t = ty.text.split("(")[0].split("<")[0]
                ty2 = self.use(p, env, t, ty.decl, index=True)
                ty = ty2 or ty
            k = r.random()
            if k < 0.13:
                pre = "optional " + pre
            elif k < 0.26:
                post = f" if {self.bexpr(p, env, 2)}"
            elif k < 0.33:
                pre = f"align({r.choice([1, 2, 3, 8, 8, 16, 24, 32, 64, 128])}): " + pre
        line = f"    {pre}{ty.text} {name}{arr}{post};"
        if "optional" not in pre and not post and ty.kind != "tvar":
            if arr:
                if "@index" not in ty.text:
                    new.append((name, Ty(ty.text, "array", None if ty.kind in ("uint", "sint") else ty.decl or "x")))
            else:
                new += self.env_of(name, ty)
        if ty.kind == "comp":
            d.depth = max(d.depth, ty.decl.depth + 1)
        return line, new

    def funcs(self, p, env, n):
        r = self.r
        out, names = [], []
        for i in range(n):
            k = r.random()
            nm = f"fn{r.choice(['Get', 'Calc', 'Is'])}{i}"
            if k < 0.45:
                out.append(f"    function {r.choice(['int64', 'varint'])} {nm}()\n    {{\n        return {self.iexpr(p, env, 3)};\n    }}")
            elif k < 0.6:
                out.append(f"    function uint32 {nm}()\n    {{\n        return {self.uexpr(p, env, 2)};\n    }}")
                names.append((nm + "()", Ty("uint32", "uint", bits=16)))
            elif k < 0.85:
                out.append(f"    function bool {nm}()\n    {{\n        return {self.bexpr(p, env, 3)};\n    }}")
                names.append((nm + "()", Ty("bool", "bool")))
            else:
                c = [(e, t) for e, t in env if t.kind in ("enum", "mask", "string") and t.decl]
                c = [(e, self.name_of(p, t.decl)) for e, t in c]
                c = [x for x in c if x[1]]
                if c:
                    e, t = r.choice(c)
                    out.append(f"    function {t} {nm}()\n    {{\n        return {e};\n    }}")
        return out, names

    def struct(self, p, template=False):
        r = self.r
        d = Decl(p, self.fresh(p), "struct")
        env = []
        head = f"struct {d.name}"
        if template:
            d.tparams = ["T"] if r.random() < 0.7 else ["A", "B"]
            head += "<" + ", ".join(d.tparams) + ">"
        if r.random() < 0.3:
            d.params = self.params(p)
            head += "(" + ", ".join(f"{t.text} {n}" for t, n in d.params) + ")"
            for t, n in d.params:
                env += self.env_of(n, t)
        names = r.sample(WORDS, r.randint(2, 8))
        lines = []
        local = []
        for i, n in enumerate(names):
            k = r.random()
            if k < 0.07 and not template:
                t = r.choice(["uint16", "uint32", "uint32", "uint64"])
                lines.append(f"    {t} {n}Off;")
                if r.random() < 0.6:
                    if r.random() < 0.5:
                        lines.append(f"    bit:{r.randint(1, 7)} {n}Pad;")
                    ln, new = self.field(p, d, env, n, "plain")
                    lines.append(f"    {n}Off:\n" + ln)
                    env += new
                    local += new
                else:
                    lines[-1] = f"    uint8 {n}Num;\n    {t} {n}Offs[{n}Num % 5];"
                    ty = self.simple()
                    if r.random() < 0.4:
                        c = [(x, y) for x, y in self.visible(p, {"struct"}) if not y.params and not y.tparams and y.depth < 3]
                        if c:
                            ty = self.named(p, *r.choice(c))
                            d.depth = max(d.depth, ty.decl.depth + 1)
                    lines.append(f"    bit:{r.randint(1, 7)} {n}Pad;\n    {n}Offs[@index]:\n    {r.choice(['', '', 'packed '])}{ty.text} {n}[{n}Num % 5];")
                continue
            ln, new = self.field(p, d, env, n, "full", d.tparams)
            lines.append(ln)
            env += new
            local += new
        fs, fn = self.funcs(p, env, r.choice([0, 0, 1, 2, 4]))
        d.paths = [] if template else [(e, t) for e, t in local if not e.endswith("()") and t.kind != "array"][:10] + fn
        if d.params:
            d.paths = []
        d.text = f"{head}\n{{\n" + "\n".join(lines) + ("\n\n" + "\n".join(fs) if fs else "") + "\n};\n"
        return d

    def choice(self, p, template=False):
        r = self.r
        d = Decl(p, self.fresh(p), "choice")
        kind = r.choice(["uint", "uint", "enum", "bool", "sint"])
        c = self.visible(p, {"enum"})
        if kind == "enum" and c:
            ty = self.named(p, *r.choice(c))
            pool = list(ty.decl.items)
            if r.random() < 0.4 and self.name_of(p, ty.decl):
                pool = [f"{self.name_of(p, ty.decl)}.{i}" for i in pool]
        elif kind == "bool":
            ty, pool = Ty("bool", "bool"), ["true", "false"]
        elif kind == "sint":
            ty, pool = r.choice([(Ty(t, "sint", bits=8), [-3, -1, 0, 1, 7, 100]) for t in ("int8", "int16", "int64", "varint")])
            pool = [str(x) for x in pool]
        else:
            ty = Ty(*r.choice([("uint8", "uint", None, 8), ("uint16", "uint", None, 16), ("varuint32", "uint", None, 29), ("bit:6", "uint", None, 6)]))
            pool = [self.lit(x) for x in (0, 1, 2, 3, 5, 10, 40)]
        d.params = [(ty, "sel")]
        sel, env = "sel", self.env_of("sel", ty)
        if r.random() < 0.3:
            d.params += [x for x in self.params(p) if x[1] != "sel"][:1]
            env += self.env_of(d.params[-1][1], d.params[-1][0])
        if ty.kind == "uint" and r.random() < 0.2:
            sel = "sel % 4"
        if template:
            d.tparams = ["T"]
        n = r.randint(1, min(4, len(pool)))
        if kind == "bool" and isinstance(pool[0], str) and pool == ["true", "false"]:
            n = 2
        r.shuffle(pool)
        names = r.sample(WORDS, 7)
        lines, i = [], 0
        used, j = [], 0
        while j < len(pool) and i < n:
            labels = [pool[j]]
            j += 1
            if r.random() < 0.25 and j < len(pool):
                labels.append(pool[j])
                j += 1
            head = "\n".join(f"    case {x}:" for x in labels)
            if r.random() < 0.12:
                lines.append(f"{head}\n        ;")
            else:
                ln, _ = self.field(p, d, env, names[i], "plain", d.tparams)
                lines.append(f"{head}\n    {ln}")
            i += 1
        if (j < len(pool) or kind not in ("enum", "bool")) and r.random() < 0.6:
            if r.random() < 0.3:
                lines.append("    default:\n        ;")
            else:
                ln, _ = self.field(p, d, env, names[6], "plain", d.tparams)
                lines.append(f"    default:\n    {ln}")
        fs, _ = self.funcs(p, env, r.choice([0, 0, 1]))
        t = "<" + ", ".join(d.tparams) + ">" if template else ""
        d.text = f"choice {d.name}{t}(" + ", ".join(f"{a.text} {b}" for a, b in d.params) + f") on {sel}\n{{\n" + "\n".join(lines) + ("\n\n" + "\n".join(fs) if fs else "") + "\n};\n"
        return d

    def union(self, p, template=False):
        r = self.r
        d = Decl(p, self.fresh(p), "union")
        env = []
        head = f"union {d.name}"
        if template:
            d.tparams = ["T"]
            head += "<T>"
        if r.random() < 0.2:
            d.params = self.params(p)
            head += "(" + ", ".join(f"{t.text} {n}" for t, n in d.params) + ")"
            for t, n in d.params:
                env += self.env_of(n, t)
        lines = [self.field(p, d, env, n, "plain", d.tparams)[0] for n in r.sample(WORDS, r.randint(1, 5))]
        fs, _ = self.funcs(p, env, r.choice([0, 0, 1])) if env else ([], [])
        d.text = f"{head}\n{{\n" + "\n".join(lines) + ("\n\n" + "\n".join(fs) if fs else "") + "\n};\n"
        return d

    def make(self):
        r = self.r
        n = r.choice([1, 1, 2, 3])
        names = ["main"] + r.sample(["base", "road.geometry", "common.util", "data", "road"], n - 1)
        names.reverse()
        for i, p in enumerate(names):
            self.decls[p] = []
            self.reserved[p] = set()
            self.imports[p] = []
            for q in names[:i]:
                if r.random() < 0.8:
                    local = [d.name for d in self.decls[q]]
                    if r.random() < 0.7:
                        self.imports[p].append((q, None))
                    else:
                        for nm in r.sample(local, min(len(local), 3)):
                            taken = {x for _, x in self.imports[p]}
                            if nm not in taken:
                                self.imports[p].append((q, nm))
            kinds = [r.choice(["struct", "enum", "subtype", "union"]), "const", "enum", "mask", "struct", "struct"] + [r.choice(["const", "enum", "mask", "struct", "struct", "struct", "choice", "union", "subtype", "tstruct", "tchoice", "tunion", "inst", "choice", "struct"]) for _ in range(r.randint(4, 9) if n == 1 else r.randint(2, 6))]
            for k in kinds:
                d = self.inst(p) if k == "inst" else getattr(self, k.lstrip("t") if k[0] == "t" else k)(p, *([True] if k[0] == "t" else []))
                if d is None:
                    continue
                self.decls[p].append(d)
        return names

    def inst(self, p):
        r = self.r
        c = [(t, d) for t, d in self.visible(p, {"struct", "union"}) if d.tparams and not d.params and d.pkg == p]
        if not c:
            return None
        t, x = r.choice(c)
        d = Decl(p, self.fresh(p), "struct")
        d.depth = x.depth + 1
        d.text = f"instantiate {x.name}<" + ", ".join(self.targ(p).text for _ in x.tparams) + f"> {d.name};\n"
        return d

    def write(self, out):
        names = self.make()
        out = Path(out)
        for p in names:
            ds = list(self.decls[p])
            if self.r.random() < 0.4:
                self.r.shuffle(ds)
            f = out / (p.replace(".", "/") + ".zs")
            f.parent.mkdir(parents=True, exist_ok=True)
            decorate.write(f, f"package {p};\n\n" + "".join(f"import {q}.{n or '*'};\n" for q, n in self.imports[p]) + "\n" + "\n".join(d.text for d in ds), self.seed)


def write(seed, out):
    Gen(seed).write(out)


if __name__ == "__main__":
    write(sys.argv[1], sys.argv[2])
