#!/usr/bin/env python3
"""Writes MANIFEST.json. A property is claimed when props.py has a check for it and TECH describes it."""
import json, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
TECH = {
 "P01": ("runtime monitor: write/read round trips at random bit positions with neighbour canaries", "Oracle: value equality, bit count and neighbour values on the real readers and writers; all 8/16-bit values, boundaries and random values elsewhere."),
 "P02": ("runtime monitor: differential against an independent wire-format specification", "Oracle: an independent bit-level encoder; float16 and small integer types enumerated completely."),
 "P03": ("hostile-input stress under panic hook, watchdog, counting allocator and overflow checks", "Oracle: no panic, abort, hang or read outside the input; mutated and random inputs. Expressions that have no value for the decoded data (division by zero, index out of range) are outside the claim."),
 "P04": ("runtime monitor on a counting allocator", "Every allocation and the live peak are observed while decoding inputs whose announced lengths exceed their data."),
 "P05": ("runtime monitor: reported size compared with bits written", "Random values of all schema types and arrays at all start offsets; includes additivity of the size between start positions."),
 "P06": ("runtime monitor: array round trips in every form", "Oracle: element equality, bits consumed, neighbour canaries."),
 "P07": ("runtime monitor: differential against an independent delta-packing specification", "Oracle: independent packed encoder for scalars and compounds, plus size optimality bound."),
 "P08": ("runtime monitor: value-tree round trips of generated code", "Oracle: value trees of an independent schema model compared field by field with the decoded object."),
 "P09": ("runtime monitor: differential against an independent codec and the zserio reference implementation", "Independent codec (validated against the reference compiler and Python runtime); trusts the schema model where the reference is not run."),
 "P10": ("fault injection at every transfer of readers and writers", "Faulty, short, interrupted and failing readers and writers at every position; results compared with the slice entry points."),
 "P11": ("hostile-value stress with a refusal monitor", "Oracle: encoding fails, or what was written decodes to the very same value."),
 "P12": ("bit-position trace monitor", "Positions of every field are computed by an independent trace specification and compared with the bytes written; padding bits are flipped on decode."),
 "P13": ("trace comparison of compiler runs under perturbed environments", "Output trees of repeated runs are compared byte for byte."),
 "P14": ("runtime monitor: generated expression code against an independent evaluator", "Every function and condition of random objects is compared with an independent evaluator with checked 128-bit arithmetic."),
 "P15": ("runtime monitor: generated constants against an independent evaluator", "Every enum item, bitmask item and constant of hand-written and random schemas."),
 "P16": ("runtime monitor: helpers against exact arithmetic", "Complete for 8/16-bit types, boundaries and random values elsewhere."),
 "P17": ("runtime monitor: blobs at random bit positions", "Oracle: bit-exact content before and after; unwrapped objects equal."),
 "P18": ("concurrency stress with a linear single-thread oracle (plus Miri/TSan in the thorough tier)", "Results of concurrent runs compared with those of one thread; distinct completion orders are counted."),
 "P19": ("Miri, AddressSanitizer, overflow checks, and checked/unchecked differential", "Miri interprets the runtime crate on valid and hostile inputs; digests of checked and unchecked builds are compared."),
 "P20": ("hostile-input stress with an acceptance oracle", "Acceptance and rejection compared with an independent decoder."),
 "P21": ("runtime monitor: decode/encode/decode cycles over mutated inputs", "Oracle: fixpoint after one step; identity on encoder output."),
 "P22": ("runtime monitor: parameters of every nested object against an independent evaluator", "Every parameter field of the decoded object tree is compared; perturbed parameters must be refused."),
 "P23": ("runtime monitor: generated packages with colliding names against an independent resolver", "Bytes and constant values of types whose names collide across packages."),
 "P24": ("runtime monitor: twin types on the same values and inputs", "Bytes and acceptance compared between a type and its expanded twin."),
 "P25": ("compile-and-observe over generated schemas", "Hand-written and random schemas are compiled, and the code is built against the runtime crate and glue that names every declared item."),
 "P26": ("fault injection into schemas with a refusal monitor", "Each valid schema is broken in one place; the compiler must end with a failure."),
 "P27": ("file-system trace monitor on compiler runs", "Output trees of the command line tool and the library are compared, the schema and surrounding directories are hashed before and after."),
 "P28": ("fault injection into the compiler's file operations by an interposed library", "One operation at a time fails or transfers less; oracle: the compiler fails, or the output is complete."),
}
def main():
    import props
    checks, na = [], []
    for l in (V / "properties.jsonl").read_text().splitlines():
        p = json.loads(l)["id"]
        if hasattr(props, p) and p in TECH:
            checks.append(dict(property=p, quick_cmd=f"python3 check.py {p} quick", thorough_cmd=f"python3 check.py {p} thorough", technique=TECH[p][0], level="exploration", level_note=TECH[p][1]))
        else:
            na.append(dict(property=p, reason="no check yet"))
    m = dict(version=1, setup_cmd="python3 setup_all.py", checks=checks, not_applicable=na,
             notes="All checks share target/ (git-ignored); each rebuilds what depends on /repo's working tree.")
    (V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
main()
