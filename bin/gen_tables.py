#!/usr/bin/env python3
"""One-off: write spec/tables.qnt from the tables of the reviewed tree (not run by any check).

usage: gen_tables.py <harness binary>
"""
import struct, subprocess, sys
from decimal import Decimal
import os
binary = sys.argv[1]


def ask(op, *ints):
    p = subprocess.run([binary], input=("%s %d %s\n" % (op, len(ints), " ".join(map(str, ints)))).encode(), stdout=subprocess.PIPE)
    ln = [l for l in p.stdout.decode().splitlines() if l.startswith("@@ ok")][0]
    return [int(t[1:]) if t[0] == "i" else struct.unpack("<d", struct.pack("<Q", int(t[1:], 16)))[0] for t in ln.split()[2:]]


def short32(x):
    for p in range(1, 12):
        s = "%.*e" % (p, x)
        if struct.pack("<f", float(s)) == struct.pack("<f", x):
            return s
    raise ValueError(x)


CH = 32


def pack(vals, single=False):
    ds = [Decimal(short32(v) if single else repr(v)) for v in vals]
    d = max(0, max(-x.as_tuple().exponent for x in ds))
    ns = [int(x.scaleb(d)) for x in ds]
    w = len(str(max(abs(n) for n in ns))) + 1
    off = 10 ** w // 2
    chunks = []
    for i in range(0, len(ns), CH):
        c = ns[i:i + CH]
        chunks.append("1" + "".join(str(n + off).zfill(w) for n in c))   # leading 1 keeps leading zeros
    return "{ w: %d, d: %d, n: %d, c: [%s] }" % (w, d, len(ns), ",\n    ".join(chunks))


out = ['''// -*- mode: Bluespec; -*-
/// Published data.  Generated once by bin/gen_tables.py and reviewed; decimal digits packed in
/// groups of 32 entries of w digits each (after a leading 1), scaled by 10^d and offset by 10^w/2.
module tables {
  import fix.* from "./fix"

  type Packed = { w: int, d: int, n: int, c: List[int] }
  pure def entry(t: Packed, i: int): int = {
    pure val k = i / 32
    pure val len = if (32 * k + 32 <= t.n) 32 else t.n - 32 * k
    pure val x = (t.c[k] / 10^(t.w * (len - 1 - i % 32))) % 10^(t.w)
    rat(x - 10^(t.w) / 2, 10^(t.d))
  }
  pure def unpack(t: Packed): List[int] = range(0, t.n).foldl([], (l, i) => l.append(entry(t, i)))

  /// a sampled spectrum: wavelengths start + i * step, declared end
  type Table = { start: int, end: int, step: int, v: Packed }
''']


def spectrum(name, a):
    start, end, step, n = a[0], a[1], a[2], a[3]
    nm, v = a[4::2], a[5::2]
    assert len(nm) == n and all(nm[i] == start + i * step for i in range(n)), name
    q = lambda x: str(Decimal(repr(x)).normalize()) if x != int(x) else str(int(x))
    fx = lambda x: "%d * ONE" % int(x) if x == int(x) else "rat(%d, 10000)" % round(x * 10000)
    assert round(step * 10000) == step * 10000
    return "  pure val %s: Table = { start: %s, end: %s, step: %s, v: %s }\n" % (name, fx(start), fx(end), fx(step), pack(v))


SP = ["XBAR", "YBAR", "ZBAR", "SD50", "SD55", "SD60", "SD65", "DARKSKIN", "MYR", "MYG", "MYB", "SMW", "SMC", "SMM", "SMY", "SMR", "SMG", "SMB"]
for k, n in enumerate(SP):
    out.append(spectrum(n, ask("tbl_spectrum", k)))
for k in range(24):
    out.append(spectrum("CHART%d" % k, ask("tbl_spectrum", 100 + k)))
out.append("  pure def spectrumTable(k: int): Table =\n    " + " else ".join("if (k == %d) %s" % (k, n) for k, n in enumerate(SP)) +
           " else " + " else ".join("if (k == %d) CHART%d" % (100 + k, k) for k in range(23)) + " else CHART23\n")
for k in range(27):
    out.append("  pure val FAST%d: Packed = %s\n" % (k, pack(ask("tbl_fast", k), True)))
out.append("  pure def fastTable(k: int): Packed =\n    " + " else ".join("if (k == %d) FAST%d" % (k, k) for k in range(26)) + " else FAST26\n")
out.append("  pure val CHARTXYZ: Packed = %s\n" % pack(ask("tbl_xyz")))
out.append("  pure val WHITEXY: Packed = %s\n" % pack(ask("tbl_white")))
NR = 43
for k in range(NR):
    a = ask("tbl_rgb", k)
    assert a[0] == 24
    out.append("  pure val RGB%d: Packed = %s\n" % (k, pack(a[1:])))
out.append("  pure def rgbTable(k: int): Packed =\n    " + " else ".join("if (k == %d) RGB%d" % (k, k) for k in range(NR - 1)) + " else RGB%d\n" % (NR - 1))
out.append("  pure val SIZES: List[int] = %s\n" % [int(x) for x in ask("tbl_sizes")])
out.append("  pure val NAMECODES: List[int] = %s\n" % ask("tbl_names"))
out.append("}\n")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "tables.qnt"), "w").write("".join(out))
