"""Comments, line ends and white space in arbitrary places of a schema, which must not change its meaning."""
import random
import re

TOKEN = re.compile(r'"(?:[^"\\]|\\.)*"|/\*.*?\*/|//[^\n]*|\s+|[A-Za-z_0-9.]+|<<|>>|<=|>=|==|!=|&&|\|\||.', re.S)
INLINE = ["/* c */", "/* ; } { */", "/* \" */", "/** doc */", "/* // */", "/*\n * two lines\n */", "/* äöü 中 😀 */", "/** @see \"x\" y */", "/* '' \\ */"]
LINE = ["// c", "// \"open", "// /* open", "//", "/// }", "// */ ;", "// 中"]


def decorate(text, seed):
    r = random.Random(f"decorate{seed}")
    newline = r.choice(["\n", "\n", "\r\n"])
    out = []
    if r.random() < 0.6:
        out.append(r.choice(["/* Licence\n * text */\n", "// Licence\n// text\n", "/** Doc */\n", "/* a *//* b */ // c\n", "\n\n\t"]))
    density = r.choice([0.01, 0.05, 0.15])
    for t in TOKEN.findall(text):
        out.append(t)
        if t.isspace() and r.random() < density:
            x = r.random()
            if x < 0.5:
                out.append(r.choice(INLINE) + " ")
            elif x < 0.75:
                out.append(r.choice(LINE) + "\n")
            else:
                out.append(r.choice(["\t", "\n\n", " \t ", "\f", "\n"]))
    if r.random() < 0.5:
        out.append(r.choice(["// no newline", "/* end */", "\n\n\n", "//"]))
    return "".join(out).replace("\n", newline)


def write(path, text, seed, one_in=3):
    if random.Random(f"whether{seed}{path.name}").randrange(one_in) == 0:
        text = decorate(text, f"{seed}{path.name}")
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(text)
