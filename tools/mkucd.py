#!/usr/bin/env python3
"""Generate spec/data/ucd.json: the Unicode 13 character database and UTS #46
tables as TLA+ reads them.  Run once when the specification was written; the
result is committed and is the specification's own data: no check runs this or
reads the tables in /repo.

Usage: mkucd.py UNICODE-FOLDER IDNA-FOLDER
"""
import json, os, sys

N = 0x110000
ud, idna = sys.argv[1:3]


def body(path):
    for line in open(path, encoding="utf-8"):
        line = line.split("#", 1)[0].strip()
        if line:
            yield [f.strip() for f in line.split(";")]


def span(s):
    a, _, b = s.partition("..")
    return range(int(a, 16), int(b or a, 16) + 1)


CATS = ("Cn Cc Cf Co Cs Ll Lm Lo Lt Lu Mc Me Mn Nd Nl No Pc Pd Pe Pf Pi Po Ps Sc "
        "Sk Sm So Zl Zp Zs").split()
# bidirectional classes; L for what is not listed
BIDI = "L R AL AN EN ES CS ET ON BN NSM".split()
cat, ccc, bidi = [0] * N, [0] * N, [0] * N
decomp, lower, upper = {}, {}, {}
first = None
for f in body(os.path.join(ud, "UnicodeData.txt")):
    cp = int(f[0], 16)
    if f[1].endswith(", First>"):
        first = cp
        continue
    cps = range(first, cp + 1) if f[1].endswith(", Last>") else [cp]
    for c in cps:
        cat[c] = CATS.index(f[2])
        ccc[c] = int(f[3])
        bidi[c] = BIDI.index(f[4]) if f[4] in BIDI else len(BIDI)
    if f[5] and not f[5].startswith("<"):
        decomp[cp] = [int(x, 16) for x in f[5].split()]
    if f[2] == "Lu" and f[13]:
        lower[cp] = int(f[13], 16)
    if f[2] == "Ll" and f[12]:
        upper[cp] = int(f[12], 16)

flags = [0] * N
BITS = {("NFC_QC", "N"): 1, ("NFC_QC", "M"): 2, ("NFD_QC", "N"): 4,
        ("NFKC_QC", "N"): 16, ("NFKC_QC", "M"): 32, ("NFKD_QC", "N"): 64}
excluded = set()
for f in body(os.path.join(ud, "DerivedNormalizationProps.txt")):
    if f[1] == "Full_Composition_Exclusion":
        excluded |= set(span(f[0]))
    elif len(f) == 3 and (f[1], f[2]) in BITS:
        for c in span(f[0]):
            flags[c] |= BITS[f[1], f[2]]

STATUSES = ["valid", "mapped", "ignored", "deviation", "disallowed",
            "disallowed_STD3_valid", "disallowed_STD3_mapped"]
status, mapping = [None] * N, {}
for f in body(os.path.join(idna, "IdnaMappingTable.txt")):
    for c in span(f[0]):
        assert status[c] is None
        status[c] = STATUSES.index(f[1])
        if len(f) > 2 and f[2]:
            mapping[c] = [int(x, 16) for x in f[2].split()]
assert None not in status

# pairs (first, second) -> primary composite; Hangul is algorithmic
compose = {}
for c, d in decomp.items():
    if len(d) == 2 and c not in excluded:
        compose.setdefault(d[0], []).append([d[1], c])


def paged(values):
    """Two levels: for each page of 256 codepoints, which of the distinct
    pages it is."""
    pages, index, seen = [], [], {}
    for p in range(0, N, 256):
        t = tuple(values[p:p + 256])
        if t not in seen:
            pages.append(list(t))
            seen[t] = len(pages)
        index.append(seen[t])
    return {"index": index, "pages": pages}


def sparse(table):
    """A paged table of places in a list of values, 0 for none."""
    values, where = [], [0] * N
    for c in sorted(table):
        values.append(table[c])
        where[c] = len(values)
    return dict(paged(where), values=values)


out = {"cat": paged(cat), "bidi": paged(bidi), "ccc": paged(ccc), "flags": paged(flags),
       "status": paged(status), "decomp": sparse(decomp), "lower": sparse(lower),
       "upper": sparse(upper), "mapping": sparse(mapping),
       "compose": sparse(compose), "statuses": STATUSES}
dest = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                    "spec", "data", "ucd.json")
with open(dest, "w") as fp:
    json.dump(out, fp, separators=(",", ":"))
    fp.write("\n")
print(os.path.getsize(dest), {k: len(v.get("pages", [])) for k, v in out.items()
                              if isinstance(v, dict)})
