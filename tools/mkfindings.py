#!/usr/bin/env python3
"""Writes known_findings.jsonl: the repaired defects (which suppress nothing) and the one recorded defect, entry by entry."""
import json, os
out = []
def fixed(props, commit, what):
    for p in props:
        out.append({"property": p, "status": "fixed", "commit": commit, "what": what, "text": "fixed: property=%s %s %s" % (p, commit, what)})
fixed(["C30"], "6289516", "fields named src, or x_0 beside an array x, were unpacked from the wrong value or did not compile")
fixed(["C24", "C03"], "901ec3a", 'an inclusive byte range written high to low (bytes="3:0") lost seven bits at its high end')
fixed(["C23"], "1e55fcf", "an array range that does not divide into its elements was accepted, dropping the remainder")
fixed(["C15"], "e083167", "an implicit enum type was too small for discriminants below i32::MIN or of mixed sign")
fixed(["C14"], "5ecfe26", "the derive panicked on a discriminant written -0 that an implicit discriminant follows")
fixed(["C23"], "70fd82a", "malformed values of known attributes were silently ignored")
fixed(["C23"], "5e5271e", "an LSB0 field beyond the structure's size was accepted when the derive is built without overflow checks")
fixed(["C28"], "a518b5a", "the alloc configuration did not compile")
fixed(["C01", "C02", "C22", "C23"], "0cff1c0", "byte positions and sizes beyond 2^24 bits were rounded through f32")
fixed(["C01", "C02", "C03", "C04", "C05", "C10", "C12"], "8497670", "unaligned fields of 32 bytes and more lost bits of their 32nd byte")
fixed(["C23", "C24"], "12b502d", "the width of Bits<..> was read from the first digits of its argument: literals other than decimal ones were rejected, and constants and expressions silently misread")
fixed(["C12", "C13", "C25"], "b931177", "generated code called methods of the user's own types that are named like the packing traits' methods instead of the traits, and packed, unpacked or displayed something else or did not compile")
# F1: bytes="a..b" (exclusive) covers one byte too few; an existing unit test of the repository enshrines it, so it is recorded
for numbering in ("msb0", "lsb0"):
    for a in range(0, 8):
        for b in range(a + 1, 9):
            if b == a + 1:
                got = "rejected" if a == 0 else "bits %d:%d" % (8 * a - 1, 8 * a)
            else:
                got = "bits %d:%d" % (8 * a, 8 * (b - 1) - 1)
            out.append({"property": "C24", "status": "open", "case": 'bytes="%d..%d" %s' % (a, b, numbering), "got": got,
                        "what": 'bytes="%d..%d" with %s numbering denotes one byte too few' % (a, b, numbering)})
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "known_findings.jsonl"), "w") as f:
    for o in out:
        f.write(json.dumps(o) + "\n")
