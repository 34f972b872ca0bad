#!/usr/bin/env python3
"""Reference character data for the monitors, from pinned copies of the
Unicode 13.0 files (independent of /repo's generators and data)."""
import lzma
import os
import struct
import sys

CATS = ("Cn Cc Cf Co Cs Ll Lm Lo Lt Lu Mc Me Mn Nd Nl No Pc Pd Pe Pf Pi Po Ps "
        "Sc Sk Sm So Zl Zp Zs").split()
STATUS = ["valid", "mapped", "ignored", "deviation", "disallowed",
          "disallowed_STD3_valid", "disallowed_STD3_mapped"]
N = 0x110000


def lines(d, name):
    with lzma.open(os.path.join(d, name + ".xz"), "rt", encoding="utf-8") as f:
        for l in f:
            l = l.split("#", 1)[0].strip()
            if l:
                yield [x.strip() for x in l.split(";")]


def span(s):
    a, _, b = s.partition("..")
    return int(a, 16), int(b or a, 16)


def main():
    d, out = sys.argv[1:3]
    cat = bytearray(N)
    ccc = bytearray(N)
    nf = bytearray(N)
    excl = bytearray(N)
    lower = {}
    upper = {}
    dec = {}
    first = None
    idx = {c: i for i, c in enumerate(CATS)}
    with lzma.open(os.path.join(d, "UnicodeData.txt.xz"), "rt") as f:
        for l in f:
            p = l.rstrip("\n").split(";")
            cp = int(p[0], 16)
            a = cp
            if p[1].endswith(", First>"):
                first = cp
                continue
            if p[1].endswith(", Last>"):
                a = first
            n = cp - a + 1
            cat[a:cp + 1] = bytes([idx[p[2]]]) * n
            ccc[a:cp + 1] = bytes([int(p[3])]) * n
            if p[5] and not p[5].startswith("<"):
                dec[cp] = [int(x, 16) for x in p[5].split()]
            if p[2] == "Lu" and p[13]:
                lower[cp] = int(p[13], 16)
            if p[2] == "Ll" and p[12]:
                upper[cp] = int(p[12], 16)
    bit = {("NFC_QC", "N"): 1, ("NFC_QC", "M"): 2, ("NFD_QC", "N"): 4,
           ("NFKC_QC", "N"): 16, ("NFKC_QC", "M"): 32, ("NFKD_QC", "N"): 64}
    for p in lines(d, "DerivedNormalizationProps.txt"):
        a, b = span(p[0])
        if p[1] == "Full_Composition_Exclusion":
            excl[a:b + 1] = b"\1" * (b - a + 1)
        elif len(p) > 2 and (p[1], p[2]) in bit:
            for cp in range(a, b + 1):
                nf[cp] |= bit[p[1], p[2]]
    status = bytearray(b"\xff" * N)
    mapping = {}
    for p in lines(d, "IdnaMappingTable.txt"):
        a, b = span(p[0])
        status[a:b + 1] = bytes([STATUS.index(p[1])]) * (b - a + 1)
        if len(p) > 2 and p[2]:
            m = "".join(chr(int(x, 16)) for x in p[2].split()).encode("utf-8")
            for cp in range(a, b + 1):
                mapping[cp] = m
    assert 0xff not in status
    with open(out, "wb") as f:
        f.write(b"FSDYNUCD")
        for t in (cat, ccc, nf, excl, status):
            f.write(t)

        def table(m):
            f.write(struct.pack("<I", len(m)))
            for k, v in sorted(m.items()):
                f.write(struct.pack("<II", k, v))
        table(lower)
        table(upper)
        f.write(struct.pack("<I", len(dec)))
        for k, v in sorted(dec.items()):
            f.write(struct.pack("<III", k, v[0], v[1] if len(v) > 1 else 0))
        f.write(struct.pack("<I", len(mapping)))
        for k, v in sorted(mapping.items()):
            f.write(struct.pack("<II", k, len(v)) + v)


if __name__ == "__main__":
    main()
