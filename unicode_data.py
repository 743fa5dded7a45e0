"""Turns the repository's UnicodeData file into tables for the harnesses."""
import glob
import os

CATS = ["Lu", "Ll", "Lt", "Lm", "Lo", "Mn", "Mc", "Me", "Nd", "Nl", "No", "Pc", "Pd", "Ps", "Pe", "Pi", "Pf", "Po",
        "Sm", "Sc", "Sk", "So", "Zs", "Zl", "Zp", "Cc", "Cf", "Cs", "Co", "Cn"]


def read(repo):
    files = sorted(glob.glob(os.path.join(repo, "data", "unicode", "UnicodeData*.txt")))
    if not files:
        raise RuntimeError("no UnicodeData file in " + repo)
    rows, first = [], None
    with open(files[-1], encoding="ascii") as f:
        for line in f:
            p = line.rstrip("\n").split(";")
            if len(p) < 15:
                continue
            c = int(p[0], 16)
            if p[1].endswith(", First>"):
                first = c
                continue
            rows.append((c if first is None else first, c, p))
            first = None
    return rows


def runs(pairs):
    """(code point, value) pairs as runs (first, last, stride, value)."""
    out = []
    for c, v in sorted(pairs):
        if out:
            r = out[-1]
            if r[3] == v and r[0] == r[1] and c - r[1] <= 2:
                r[1], r[2] = c, c - r[0]
                continue
            if r[3] == v and r[0] != r[1] and c - r[1] == r[2]:
                r[1] = c
                continue
        out.append([c, c, 1, v])
    # A run with stride 2 must not hide another run between its members.
    out.sort()
    ok = []
    for r in out:
        if ok and r[0] <= ok[-1][1]:
            p = ok.pop()
            ok += [[c, c, 1, p[3]] for c in range(p[0], p[1] + 1, p[2])]
        ok.append(r)
    return sorted(ok)


def generate(inc, repo):
    rows = read(repo)
    t = ["#pragma once", "#include <cstdint>", "struct UcdRun { uint32_t first, last, stride, value; };"]

    def table(name, rs):
        assert all(a[1] < b[0] for a, b in zip(rs, rs[1:])), name
        t.append("static constexpr UcdRun %s[] = {%s};" % (name, ",".join(
            "{0x%X,0x%X,%d,0x%Xu}" % (r[0], r[1], r[2], r[3] & 0xFFFFFFFF) for r in rs)))

    for name, col in (("UCD_UPPER", 12), ("UCD_LOWER", 13), ("UCD_TITLE", 14)):
        pairs = []
        for a, b, p in rows:
            v = p[col] or (p[12] if col == 14 else "")
            if v and a == b and int(v, 16) != a:
                pairs.append((a, int(v, 16) - a))
        table(name, runs(pairs))
    # Categories: runs of one class, with alternating ones kept as single code points.
    cats, last = [], -1
    for a, b, p in rows:
        v = 1 << CATS.index(p[2])
        if a > last + 1:
            cats.append([last + 1, a - 1, 1, 1 << 29])
        if cats and cats[-1][3] == v and cats[-1][1] == a - 1:
            cats[-1][1] = b
        else:
            cats.append([a, b, 1, v])
        last = b
    if last < 0x10FFFF:
        if cats[-1][3] == 1 << 29:
            cats[-1][1] = 0x10FFFF
        else:
            cats.append([last + 1, 0x10FFFF, 1, 1 << 29])
    table("UCD_CLASS", cats)
    # Canonical decompositions in two parts.
    dec = {}
    for a, b, p in rows:
        d = p[5].split()
        if len(d) == 2 and not d[0].startswith("<"):
            dec[a] = (int(d[0], 16), int(d[1], 16))
    t.append("struct UcdPair { uint32_t c, a, b; };")
    t.append("static constexpr UcdPair UCD_DECOMPOSE[] = {%s};" % ",".join(
        "{0x%X,0x%X,0x%X}" % (c, *dec[c]) for c in sorted(dec)))
    t.append("static constexpr UcdPair UCD_COMPOSE[] = {%s};" % ",".join(
        "{0x%X,0x%X,0x%X}" % (c, a, b) for a, b, c in sorted((*v, c) for c, v in dec.items())))
    with open(os.path.join(inc, "ucd.hpp"), "w") as f:
        f.write("\n".join(t) + "\n")


if __name__ == "__main__":
    import sys
    os.makedirs(sys.argv[1], exist_ok=True)
    generate(sys.argv[1], sys.argv[2])
