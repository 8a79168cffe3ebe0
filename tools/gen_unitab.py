#!/usr/bin/env python3
"""Writes hs/lib/src/unitab.rs: the four normalization forms of single
characters according to Python's unicodedata (an implementation independent of
the crate under test). Characters unassigned there are left out by the harness."""
import unicodedata as u
R = [(0xA0, 0x17F), (0x1E00, 0x1EFF), (0x2100, 0x214F), (0xFB00, 0xFB4F), (0x340, 0x345), (0x37E, 0x3CE), (0x3040, 0x30FF), (0xFF00, 0xFFEE), (0xF900, 0xFA6D), (0x2460, 0x24FF), (0x3300, 0x33FF), (0x1F00, 0x1FFE), (0x900, 0x9FF), (0x1D15E, 0x1D164), (0x2F800, 0x2FA1D)]
out = ["// Generated by tools/gen_unitab.py.", "/// first, last, per character: NFC, NFD, NFKC, NFKD (empty NFC: unassigned)", "pub const TAB: &[(u32, u32, &[[&str; 4]])] = &["]
def q(s):
    return '"' + "".join("\\u{%x}" % ord(c) for c in s) + '"'
for a, b in R:
    out.append("    (0x%x, 0x%x, &[" % (a, b))
    for c in range(a, b + 1):
        ch = chr(c)
        if u.category(ch) == "Cn":
            out.append('["","","",""],')
        else:
            out.append("[" + ",".join(q(u.normalize(f, ch)) for f in ("NFC", "NFD", "NFKC", "NFKD")) + "],")
    out.append("    ]),")
out.append("];")
# a letter followed by one or two combining marks
M = [0x300, 0x301, 0x302, 0x303, 0x308, 0x323, 0x327, 0x31b, 0x345, 0x20d2]
out.append("pub const MARKS: [&str; %d] = [%s];" % (len(M), ", ".join(q(chr(m)) for m in M)))
out.append("/// per mark (or pair of marks, first times count plus second), per letter A-z: NFC, NFD, NFKC, NFKD")
def rows(sufs, name):
    out.append("pub const %s: &[[[&str; 4]; 58]] = &[" % name)
    for m in sufs:
        out.append("[" + ",".join("[" + ",".join(q(u.normalize(f, chr(b) + m)) for f in ("NFC", "NFD", "NFKC", "NFKD")) + "]" for b in range(0x41, 0x7b)) + "],")
    out.append("];")
rows([chr(m) for m in M], "ONE")
rows([chr(m) + chr(k) for m in M for k in M], "TWO")
open("hs/lib/src/unitab.rs", "w").write("\n".join(out) + "\n")
