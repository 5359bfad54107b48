#!/usr/bin/env python3
"""Random constants and expressions. exprgen.py SEED DIR writes a package of constants, enum and bitmask items,
lengths, conditions and functions whose values follow from (mostly constant) expressions of every operator."""
import random, sys

import decorate
from pathlib import Path

PREC = {"||": 1, "&&": 2, "|": 3, "^": 4, "&": 5, "==": 6, "!=": 6, "<": 7, "<=": 7, ">": 7, ">=": 7, "<<": 8, ">>": 8, "+": 9, "-": 9, "*": 10, "/": 10, "%": 10}
UINTS = {"uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64, "bit:5": 5, "bit:33": 33, "varuint16": 15, "varuint32": 29, "varuint64": 57, "varuint": 64, "varsize": 31}
SINTS = {"int8": 8, "int16": 16, "int32": 32, "int64": 64, "int:7": 7, "int:40": 40, "varint16": 15, "varint32": 29, "varint64": 57}
EDGE = [0, 0, 1, 1, 2, 3, 5, 7, 8, 9, 10, 31, 32, 33, 63, 64, 100, 127, 128, 255, 256, 1000, 32767, 32768, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53 + 1, 2 ** 62, 2 ** 63 - 1]


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


class X:
    """text, binding strength (11: unary, 12: primary), value (None where it depends on an object)"""
    def __init__(self, text, prec, val, kind):
        self.t, self.p, self.v, self.k = text, prec, val, kind


class Gen:
    def __init__(self, seed):
        self.r = random.Random(f"expr{seed}")
        self.plain = int(seed) % 2 == 1   # only what the reference implementation can evaluate
        self.consts = []   # (name, kind, value)
        self.env = []      # [X] that depend on the object
        self.enums, self.masks = [], []   # (name, [(item, value)])

    def par(self, x, need):
        return x.t if x.p >= need and self.r.random() < 0.8 else f"({x.t})"

    def lit(self, v):
        r = self.r
        k = r.random()
        if k < 0.6:
            return str(v)
        if k < 0.8:
            return r.choice(["0x%x", "0X%X"]) % v
        if k < 0.9:
            return "0" + oct(v)[2:] if v else "0"
        return bin(v)[2:] + r.choice("bB") if 0 < v < 2 ** 40 else str(v)

    def ok(self, v):
        return v is None or -2 ** 63 <= v < 2 ** 63

    def int(self, n):
        for _ in range(30):
            x = self.int1(n)
            if self.ok(x.v):
                return x
        return X("7", 12, 7, "i")

    def int1(self, n):
        r = self.r
        if n <= 0 or r.random() < 0.15:
            k = r.random()
            cs = [c for c in self.consts if c[1] == "i"]
            es = [e for e in self.env if e.k == "i"]
            if es and k < 0.35:
                return r.choice(es)
            if cs and k < 0.6:
                c = r.choice(cs)
                return X(c[0], 12, c[2], "i")
            if self.enums and k < 0.7:
                e, items = r.choice(self.enums + self.masks)
                i, v = r.choice(items)
                return X(f"valueof({e}.{i})", 12, v, "i")
            v = r.choice(EDGE) if r.random() < 0.7 else r.randrange(200)
            return X(self.lit(v), 12, v, "i")
        k = r.random()
        if k < 0.12:
            a = self.int(n - 1)
            op = r.choice("-~+")
            v = None if a.v is None else -a.v if op == "-" else ~a.v if op == "~" else a.v
            s = self.par(a, 12)
            if s.startswith("-"):
                s = f"({s})"
            return X(op + s, 11, v, "i")
        if k < 0.22:
            c, a, b = self.bool(n - 1), self.int(n - 1), self.int(n - 1)
            v = None if None in (c.v, a.v, b.v) else a.v if c.v else b.v
            return X(f"({self.par(c, 1)} ? {self.par(a, 1)} : {self.par(b, 1)})", 12, v, "i")
        if k < 0.3:
            a = self.int(n - 1)
            if a.v is not None and a.v < 0:
                a = X(self.lit(-a.v), 12, -a.v, "i")
            if a.v is None:
                return a
            v = a.v and max(1, (a.v - 1).bit_length())
            return X(f"numbits({a.t})", 12, v, "i")
        op = r.choice(["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "+", "-", "/", "%"])
        a = self.int(n - 1)
        if op in ("<<", ">>"):
            s = r.choice([0, 1, 2, 3, 7, 8, 16, 31, 32, 40])
            b = X(self.lit(s), 12, s, "i")
        elif op in "/%":
            b = self.int(n - 1)
            if b.v == 0 or b.v is None:
                s = r.choice([1, 2, 3, 7, 10, 64])
                b = X(self.lit(s), 12, s, "i")
        else:
            b = self.int(n - 1)
        if self.plain and op in "/%" and (a.v is None or b.v is None or a.v < 0 or b.v < 0):
            op = r.choice("+-*")  # Python, the language the reference generates, rounds towards minus infinity
        if a.v is None or b.v is None:
            v = None
        else:
            v = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "/": tdiv, "%": lambda x, y: x - y * tdiv(x, y),
                 "&": lambda x, y: x & y, "|": lambda x, y: x | y, "^": lambda x, y: x ^ y, "<<": lambda x, y: x << y, ">>": lambda x, y: x >> y}[op](a.v, b.v)
        p = PREC[op]
        return X(f"{self.par(a, p)} {op} {self.par(b, p + 1)}", p, v, "i")

    def bool(self, n):
        r = self.r
        cs = [c for c in self.consts if c[1] == "b"]
        es = [e for e in self.env if e.k == "b"]
        k = r.random()
        if n <= 0:
            if es and k < 0.4:
                return r.choice(es)
            if cs and k < 0.6:
                c = r.choice(cs)
                return X(c[0], 12, c[2], "b")
            v = r.random() < 0.5
            return X("true" if v else "false", 12, v, "b")
        if k < 0.12:
            a = self.bool(n - 1)
            return X("!" + self.par(a, 11), 11, None if a.v is None else not a.v, "b")
        if k < 0.35:
            a, b, op = self.bool(n - 1), self.bool(n - 1), r.choice(["&&", "||"])
            v = None if None in (a.v, b.v) else (a.v and b.v) if op == "&&" else (a.v or b.v)
            p = PREC[op]
            return X(f"{self.par(a, p)} {op} {self.par(b, p + 1)}", p, v, "b")
        if k < 0.42:
            c, a, b = self.bool(n - 1), self.bool(n - 1), self.bool(n - 1)
            return X(f"({self.par(c, 1)} ? {self.par(a, 1)} : {self.par(b, 1)})", 12, None if None in (c.v, a.v, b.v) else a.v if c.v else b.v, "b")
        if k < 0.5 and self.enums:
            e, items = r.choice(self.enums)
            a, b, op = r.choice(items), r.choice(items), r.choice(["==", "!="])
            return X(f"{e}.{a[0]} {op} {e}.{b[0]}", 6, (a == b) == (op == "=="), "b")
        if k < 0.57 and self.masks:
            e, items = r.choice(self.masks)
            a, b = r.choice(items), r.choice([i for i in items if i[1].bit_count() == 1])
            return X(f"isset({e}.{a[0]}, {e}.{b[0]})", 12, a[1] & b[1] == b[1], "b")
        eq = True
        if k < 0.72:
            eq = False  # floats have no == and !=
            a, b = self.float(n - 1), self.float(n - 1)
            if r.random() < 0.3:
                b = a
        else:
            a, b = self.int(n - 1), self.int(n - 1)
            if r.random() < 0.25:
                b = a
            elif a.v is not None and 0 <= a.v < 2 ** 62 and r.random() < 0.4:
                w = max(0, a.v + r.choice([-1, 0, 1]))
                b = X(self.lit(w), 12, w, "i")
        # (the reference implementation takes <= and >= of floats for ==)
        op = r.choice(["<", ">"] + ["<=", ">="] * (eq or not self.plain) + ["==", "!="] * eq)
        p = PREC[op]
        v = None if None in (a.v, b.v) else {"<": a.v < b.v, "<=": a.v <= b.v, ">": a.v > b.v, ">=": a.v >= b.v, "==": a.v == b.v, "!=": a.v != b.v}[op]
        return X(f"{self.par(a, p + 1)} {op} {self.par(b, p + 1)}", p, v, "b")

    def float(self, n):
        r = self.r
        if n <= 0 or r.random() < 0.3:
            cs = [c for c in self.consts if c[1] == "f"]
            es = [e for e in self.env if e.k == "f"]
            if es and r.random() < 0.4:
                return r.choice(es)
            if cs and r.random() < 0.4:
                c = r.choice(cs)
                return X(c[0], 12, c[2], "f")
            v = r.choice([0.0, 0.5, 1.0, 1.5, 2.25, 4.0, 100.125, 3.0])
            t = r.choice([repr(v), repr(v) if "e" in repr(v) else repr(v) + "f", f"{v:e}"])
            return X(t, 12, v, "f")
        if r.random() < 0.15:
            a = self.float(n - 1)
            s = self.par(a, 12)
            if r.random() < 0.25:
                return X("+" + (f"({s})" if s[:1] in "+-" else s), 11, a.v, "f")
            return X("-" + (f"({s})" if s[:1] in "+-" else s), 11, None if a.v is None else -a.v, "f")
        if r.random() < 0.15:
            c, a, b = self.bool(n - 1), self.float(n - 1), self.float(n - 1)
            return X(f"({self.par(c, 1)} ? {self.par(a, 1)} : {self.par(b, 1)})", 12, None if None in (c.v, a.v, b.v) else a.v if c.v else b.v, "f")
        op = r.choice("+-*" if self.plain else "+-*/")  # (the reference rounds quotients, of any numbers)
        a, b = self.float(n - 1), self.float(n - 1)
        if r.random() < 0.25:
            # one of the operands is an integer
            i = self.int(n - 1)
            if i.v is None or abs(i.v) < 10000:
                a, b = (a, i) if r.random() < 0.5 else (i, b)
        if op == "/":
            v = r.choice([0.5, 2.0, 4.0, -8.0])
            b = X(repr(v) if v > 0 else f"({v!r})", 12, v, "f")
        v = None if None in (a.v, b.v) else a.v + b.v if op == "+" else a.v - b.v if op == "-" else a.v * b.v if op == "*" else a.v / b.v
        if v is not None and (abs(v) > 1e6 or v * 1024 != int(v * 1024)):
            return a
        p = PREC[op]
        return X(f"{self.par(a, p)} {op} {self.par(b, p + 1)}", p, v, "f")

    def str(self, n):
        r = self.r
        if n <= 0 or r.random() < 0.4:
            cs = [c for c in self.consts if c[1] == "s"]
            if cs and r.random() < 0.4:
                c = r.choice(cs)
                return X(c[0], 12, c[2], "s")
            v = r.choice(["", "a", "b ", " c", "x  ", "tail ", "Q1", "{}", "%d"])
            return X(f'"{v}"', 12, v, "s")
        a, b = self.str(n - 1), self.str(n - 1)
        return X(f"{self.par(a, 9)} + {self.par(b, 10)}", 9, a.v + b.v, "s")

    def fit(self, v):
        c = [t for t, b in UINTS.items() if 0 <= v < 2 ** b] + [t for t, b in SINTS.items() if -2 ** (b - 1) + t.startswith("varint") <= v < 2 ** (b - 1)]
        return self.r.choice(c) if c else None

    def small(self, n, lo, hi):
        """A constant expression with a value in the range."""
        for _ in range(40):
            x = self.int(n)
            if x.v is not None and lo <= x.v <= hi:
                return x
        v = self.r.randint(lo, hi)
        return X(self.lit(v), 12, v, "i")

    def make(self, nconst=90, nfunc=60):
        r = self.r
        out = ["package kx;\n"]
        enums, masks = [], []
        for k in range(3):
            items, v, used = [], -1, set()
            for i in range(r.randint(3, 8)):
                if r.random() < 0.5:
                    x = self.small(0 if self.plain else r.randint(0, 3), -100 if k else 0, 100)
                    w, s = x.v, f" = {x.t}"
                else:
                    w, s = v + 1, ""
                if w in used or not (0 if not k else -128) <= w <= 127:
                    continue
                used.add(w)
                v = w
                items.append((f"I{i}", w, s))
            if not items:
                items = [("I0", 0, "")]
            out.append(f"enum {['uint8', 'int8', 'int32'][k]} En{k}\n{{\n" + ",\n".join(f"    {a}{s}" for a, _, s in items) + "\n};\n")
            enums.append((f"En{k}", [(a, b) for a, b, _ in items]))
        for k in range(2):
            items, v, used = [], None, set()
            for i in range(r.randint(3, 7)):
                if r.random() < 0.4 or v == 0:
                    x = self.small(0 if self.plain else r.randint(0, 3), 1, 255)
                    if r.random() < 0.5:
                        x = X(f"{r.choice(['1', '0x1', '01'])} << {r.randint(0, 7)}", 8, None, "i")
                        x.v = 1 << int(x.t.split()[-1])
                    w, s = x.v, f" = {x.t}"
                else:
                    w, s = (1 if v is None else 1 << v.bit_length()), ""
                if w in used or w > 255:
                    continue
                used.add(w)
                v = w
                items.append((f"M{i}", w, s))
            if not any(w.bit_count() == 1 for _, w, _ in items):
                items = [("M0", 1, "")]
            out.append(f"bitmask uint8 Bm{k}\n{{\n" + ",\n".join(f"    {a}{s}" for a, _, s in items) + "\n};\n")
            masks.append((f"Bm{k}", [(a, b) for a, b, _ in items]))
        decls = []
        for i in range(nconst):
            d = r.choice([1, 2, 2, 3, 3, 4])
            k = r.random()
            name = f"C_{i}X" if r.random() < 0.5 else f"K{i}"
            if k < 0.5:
                x = self.int(d)
                t = self.fit(x.v)
                if not t:
                    continue
            elif k < 0.8:
                x, t = self.bool(d), "bool"
            elif k < 0.92:
                x = self.float(d)
                t = r.choice(["float16", "float32", "float64"]) if abs(x.v) < 1000 and x.v * 8 == int(x.v * 8) else "float64"
            else:
                x, t = self.str(d), "string"
            self.consts.append((name, x.k, x.v))
            decls.append(f"const {t} {name} = {x.t};\n")
        self.enums, self.masks = enums, masks
        r.shuffle(decls)
        out += decls
        # what the constants are used for
        body = []
        for i in range(12):
            x = self.small(3, 0, 9)
            body.append(f"    {r.choice(['uint8', 'bit:3', 'bool', 'varuint32', 'string'])} a{i}[{x.t}];")
        for i in range(8):
            x = self.small(3, 1, 40)
            body.append(f"    {r.choice(['bit', 'int'])}<{x.t if x.p > 8 else '(' + x.t + ')'}> w{i};")
        for i in range(12):
            body.append(f"    uint8 c{i} if {self.bool(3).t};")
        out.append("struct Fixed\n{\n" + "\n".join(body) + "\n};\n")
        self.env = [X(n, 12, None, k) for n, k in (("a", "i"), ("b", "i"), ("i", "i"), ("j", "i"), ("u", "i"), ("v", "i"), ("p", "b"), ("q", "b"), ("lengthof(arr)", "i"), ("valueof(en)", "i"), ("numbits(a)", "i"), ("numbits(w)", "i"), ("numbits(u)", "i"), ("(w % 1000003)", "i"),
                                                    ("en == En1." + self.enums[1][1][0][0], "b"), ("f", "f"), ("g", "f"))]
        next(x for x in self.env if x.t.startswith('en ==')).p = 6
        fs = []
        for i in range(nfunc):
            d = r.choice([2, 2, 3, 3, 4])
            k = r.random()
            if k < 0.55:
                x, t = self.int(d), r.choice(["int64", "int64", "int32", "uint32", "uint64", "uint8", "varint", "int:40"])
                if x.v is not None:
                    t = self.fit(x.v)
            else:
                x, t = self.bool(d), "bool"
            fs.append(f"    function {t} f{i}()\n    {{\n        return {x.t};\n    }}\n")
        body = []
        for i in range(10):
            body.append(f"    uint8 d{i} if {self.bool(3).t};")
        out.append("struct Dyn\n{\n    uint8 a; uint8 b; int32 i; int16 j; uint32 u; uint16 v; uint64 w; bool p; bool q; En1 en; uint8 arr[]; float64 f; float32 g;\n" + "\n".join(body) + "\n\n" + "\n".join(fs) + "};\n")
        return "\n".join(out)


def write(seed, out):
    out = Path(out)
    out.mkdir(parents=True, exist_ok=True)
    decorate.write(out / "kx.zs", Gen(seed).make(), seed)


if __name__ == "__main__":
    write(sys.argv[1], sys.argv[2])
