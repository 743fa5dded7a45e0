"""The jobs that decide each property, by tier."""
import itertools

import unicode_data

BUDGET = {"quick": 600, "thorough": 3000}

ASSUMPTIONS = [
    "clang 18's translation of the sources to LLVM IR at -O0 semantics (plus sroa, inlining and early-cse) is correct",
    "libstdc++'s headers are executed as they are; its compiled parts (allocation, exceptions, memcpy and the like, "
    "character classification in the C locale) are modelled; allocation never fails below 256 MB",
    "z3 4.8.12 is correct (its models are always checked by evaluation, its refutations are trusted)",
]

DEFAULTS = dict(apps=1, merge=0, samples=12, steps=2000000, time=10000, parts=1, solver_ms=20000)


def J(harness, parts=1, **kw):
    """A family of jobs: parameters given as lists are multiplied out."""
    opts = {k: kw.pop(k) for k in list(kw) if k in DEFAULTS}
    keys = list(kw)
    out = []
    for vals in itertools.product(*[v if isinstance(v, (list, range)) else [v] for v in kw.values()]):
        params = dict(zip(keys, vals))
        for part in range(parts):
            j = dict(DEFAULTS, harness=harness, params=params, parts=parts, part=part, **opts) if False else \
                {**DEFAULTS, **opts, "harness": harness, "params": params, "parts": parts, "part": part}
            j["name"] = "%s(%s)" % (harness, ",".join("%s=%d" % kv for kv in params.items())) \
                        + ("[%d/%d]" % (part, parts) if parts > 1 else "")
            out.append(j)
    return out


def expand(spec, tier):
    jobs = []
    for f in spec["jobs"][tier]:
        jobs += f
    # Costly jobs first, so that they do not end last.
    jobs.sort(key=lambda j: -sum(v for k, v in j["params"].items() if k in ("len", "len2", "n")))
    return jobs


# Fixed code points before and after the arbitrary bytes of long texts.
AROUND = {
    "quick": [(9, 0), (0, 9), (17, 16), (33, 2), (3, 40), (70, 0), (0, 70), (260, 5), (5, 260),
              (1030, 3), (3, 1030)],
    "thorough": [(k, 0) for k in range(1, 70)] + [(0, k) for k in range(1, 70)] + [(k, 66 - k) for k in range(1, 66)]
                + [(k, 130 - k) for k in range(1, 130, 3)] + [(k, 3) for k in range(126, 134)]
                + [(k, 0) for k in range(252, 262)] + [(5, k) for k in range(252, 262)] + [(260, 260)]
                + [(k, 3) for k in (511, 512, 515, 1000, 1023, 1024, 1030)] + [(3, k) for k in (511, 512, 515, 1000, 1023, 1024, 1030)],
}


# The same where all the fixed text is ASCII: every position in blocks of 16 (64)
# bytes, and the last ones of blocks of a power of two.
EDGES = [(n - k, 2) for n in (128, 256, 512, 1024) for k in range(4)]
SWEEP = {"quick": {1100: [(k, 40) for k in range(16, 32)] + EDGES, 72: [(k, 40) for k in range(16, 32)],
                   36: [(k, 20) for k in range(8, 16)]},
         "thorough": {1100: [(k, 70) for k in range(64, 128)] + EDGES + [(n - k, 2) for n in (64, 32) for k in range(5)],
                      200: [(k, 70) for k in range(64, 128)], 72: [(k, 40) for k in range(16, 32)],
                      36: [(k, 20) for k in range(8, 16)]}}


# Fixed code points right around a longer arbitrary part.
NEAR = {"quick": [(1, 1)], "thorough": [(1, 1), (2, 2), (3, 1)]}


def long(harness, tier, styles, most=100000, sweep=True, near=3, **kw):
    sweep = next((v for k, v in SWEEP[tier].items() if k <= most), []) if sweep else []
    return [j for style in styles for f, t in AROUND[tier] if f + t <= most
            for j in J(harness, fill=f, tail=t, style=style, **{**({"steps": 20000000} if f + t > 600 else {}), **kw})] \
        + [j for f, t in sweep for j in J(harness, fill=f, tail=t, style=0, **{**({"steps": 20000000} if f + t > 600 else {}), **kw})] \
        + [j for style in (styles if near and "len" in kw else []) for f, t in NEAR[tier]
           for j in J(harness, fill=f, tail=t, style=style, **{**kw, "len": max(kw["len"], near)})]


def around(families):
    """What the jobs with fixed text around the arbitrary part add to the bounds."""
    ps = [j["params"] for f in families for j in f if j["params"].get("fill", 0) or j["params"].get("tail", 0)]
    ps = [p for p in ps if "ops" not in p]
    if not ps:
        return ""
    m = lambda k: max(p.get(k, 0) for p in ps)
    lens = [p["len"] for p in ps if "len" in p] or [p.get("chars", 0) for p in ps]
    return ("; up to %d arbitrary %s between up to %d fixed code points before and %d after them (%d combinations, "
            "%d kinds of fixed text)" % (max(lens), "bytes" if "len" in ps[0] else "code points", m("fill"), m("tail"),
                                         len({(p.get("fill", 0), p.get("tail", 0)) for p in ps}),
                                         len({p.get("style", 0) for p in ps})))


SIZES = ("len", "len2", "len3", "chars", "ops", "fill", "tail", "style", "fill2", "tail2", "style2", "few", "rlen", "again")


def rehearsed(families, modes, most):
    """Jobs of every kind that do everything twice: one per combination of the
    parameters that aren't sizes, the largest of at most "most" bytes."""
    best = {}
    for j in (j for f in families for j in f):
        p = j["params"]
        if p.get("fill") or p.get("tail") or p.get("fill2") or p.get("cont") or j["part"] or p.get("len", 0) > most:
            continue
        k = tuple((a, b) for a, b in p.items() if a not in SIZES)
        size = (p.get("len", 0), p.get("len2", 0) * (p.get("len2", 0) <= 2), p.get("chars", 0), p.get("ops", 0))
        if k not in best or size > best[k][0]:
            best[k] = (size, j)
    return [J(j["harness"], **{**{k: j[k] for k in DEFAULTS if k != "parts"}, **j["params"],
                              "again": list(modes) if "lo" not in j["params"] else list(modes[:1])})
            for _, j in best.values()]


def needles(harness, sizes=(62, 126, 258), **kw):
    """Needles about as long as a cache line, a table of bytes and so on, in texts not much longer."""
    return [j for k in sizes for f, t, f2, t2 in ((k + 1, 2, k, 0), (k + 9, 0, k, 0), (2, k + 3, 0, k))
            for j in J(harness, few=1, fill=f, tail=t, style=3, fill2=f2, tail2=t2, style2=3, **kw)]


BIG = 66000
LENGTHS = [30, 31, 61, 62, 63, 64, 125, 126, 127, 128] + list(range(252, 258)) + [510, 511, 512] + list(range(1018, 1026)) + [4090]


def big(families):
    """Of each kind of jobs with more than a thousand fixed code points two with more than 65536."""
    out, seen = [], set()
    for j in (j for f in families for j in f):
        p = j["params"]
        if max(p.get("fill", 0), p.get("tail", 0)) != 1030 or j["part"]:
            continue
        kind = tuple((k, v) for k, v in p.items() if k not in SIZES), p.get("fill", 0) == 1030
        if kind in seen:
            continue
        seen.add(kind)
        n = {4: 2 * BIG, 5: 2 * BIG, 7: BIG // 4}.get(p.get("style", 0), BIG)
        p = {k: n if k in ("fill", "tail") and v == 1030 else v for k, v in p.items()}
        p["len"] = min(p.get("len", 1), 1)
        if "few" in p:
            p["few"] = 3 if n > BIG else 2
        out.append(J(j["harness"] + ".big", **{**{k: j[k] for k in DEFAULTS if k != "parts"}, "samples": 2, "steps": 500000000, **p}))
    return out


AGAIN = "; all kinds of calls also a second time, after others with other text in the same places or other numbers"

CHECKS = {}
NOT_APPLICABLE = {}


def check(prop, quick, thorough, bounds, reach=(), again=(1, 2, 3), again_len=3, big_ok=lambda p: True, **kw):
    twice = [f for f in rehearsed(quick, again, again_len) if f]
    huge = [f for f in big(quick) if big_ok(f[0]["params"])]
    jobs = dict(quick=quick + twice + huge, thorough=thorough + twice + huge)
    bounds = {t: (bounds if isinstance(bounds, str) else bounds[t]) + around(jobs[t]) + (AGAIN if twice else "")
              for t in jobs}
    CHECKS[prop] = dict(jobs=jobs, bounds=bounds, reach=list(reach) + (["again"] if twice else []), **kw)


check("C01",
      quick=[J("c01", mode=[0, 1], len=[0, 1, 11, 12, 13, 14, 15, 16, 27, 28, 29, 30, 31]), J("c01", mode=2),
             J("c01", mode=3, len=range(0, 5), fill=[0, 7, 13]), J("c01", mode=3, len=3, fill=range(8, 16)),
             J("c01", mode=[0, 1], len=[63, 64, 127, 128, 200]), J("c01", mode=3, len=2, fill=LENGTHS),
             J("c01.big", mode=3, len=2, fill=BIG, steps=500000000, samples=2)],
      thorough=[J("c01", mode=[0, 1], len=range(0, 70)), J("c01", mode=2),
                J("c01", mode=3, len=range(0, 6), fill=0), J("c01", mode=3, len=range(0, 5), fill=range(0, 64)),
                J("c01", mode=[0, 1], len=[63, 64, 127, 128, 200]), J("c01", mode=3, len=2, fill=LENGTHS),
             J("c01.big", mode=3, len=2, fill=BIG, steps=500000000, samples=2)],
      bounds={"quick": "every char32_t value; existing content of 0-31 arbitrary bytes at 13 lengths around the capacity "
                       "changes; sequences of at most 4 arbitrary char32_t values after up to 15 fixed ones",
              "thorough": "every char32_t value; existing content of 0-69 arbitrary bytes; sequences of at most 5 arbitrary "
                          "char32_t values, and of at most 4 after up to 63 fixed ones"},
      reach=["invalid", "valid", "copy", "one", "sequence"])

check("C02",
      quick=[J("c02", len=range(0, 9)), J("c02", len=range(1, 7), chain=1),
             long("c02", "quick", [0, 1, 10], chain=1, len=3), J("c02", len=5, tail=[5, 9, 13, 17, 30], style=[0, 1]), long("c02", "quick", [18], most=80, sweep=False, len=3)],
      thorough=[J("c02", len=range(0, 17)), J("c02", len=range(1, 11), chain=1), J("c02", len=range(11, 14), chain=1, parts=8),
                long("c02", "thorough", [0, 1, 10], chain=1, len=3), J("c02", len=[5, 6], tail=range(1, 70), style=[0, 1, 10])],
      bounds={"quick": "every byte range of at most 8 bytes; repeated decoding of at most 6 bytes through string iterators",
              "thorough": "every byte range of at most 16 bytes; repeated decoding of at most 13 bytes through string iterators"},
      reach=["decoded", "malformed", "empty", "chain"])

check("C03",
      quick=[J("c03", mode=0, len=range(0, 11)), J("c03", mode=1, len=range(0, 11)),
             long("c03", "quick", [0, 1, 2], mode=0, len=3), long("c03", "quick", [1, 10], mode=1, len=4), long("c03", "quick", [18], most=80, sweep=False, mode=1, len=3)],
      thorough=[J("c03", mode=0, len=range(0, 13)), J("c03", mode=0, len=range(13, 17), parts=16),
                J("c03", mode=1, len=range(0, 41)),
                long("c03", "thorough", [0, 1, 2], mode=0, len=3), long("c03", "thorough", [1, 10], mode=1, len=4)],
      bounds={"quick": "every valid string of at most 10 bytes; every byte range of at most 10 bytes",
              "thorough": "every valid string of at most 16 bytes; every byte range of at most 40 bytes"},
      reach=["codepoint", "malformed", "decoded"])

check("C04",
      quick=[J("c04", len=range(0, 6)), J("c04", len=6, parts=8), J("c04", len=range(1, 4), anychar=1),
             J("c04", len=3, fill=[11, 12, 13, 14, 15, 28, 30]),
             long("c04", "quick", [0, 1, 10], len=2), long("c04", "quick", [18], most=300, sweep=False, len=2)],
      thorough=[J("c04", len=range(0, 6)), J("c04", len=range(6, 9), parts=16), J("c04", len=range(1, 6), anychar=1),
                J("c04", len=3, fill=range(1, 66)), J("c04", len=4, fill=range(8, 20)),
                long("c04", "thorough", [0, 1, 10], len=2), long("c04", "thorough", [18], most=300, sweep=False, len=2)],
      bounds={"quick": "every byte string of at most 6 bytes, and of 3 bytes after 11-30 fixed bytes, repaired with U+FFFD; "
                       "of at most 3 bytes with every code point",
              "thorough": "every byte string of at most 8 bytes, and of 3-4 bytes after 1-65 fixed bytes, repaired with "
                          "U+FFFD; of at most 5 bytes with every code point"},
      reach=["valid", "repaired"])

check("C06",
      quick=[J("c06", mode=0, len=range(0, 4), fill=[0, 3]), J("c06", mode=0, len=4, parts=8), J("c06", mode=1, len=range(0, 8)),
             J("c06", mode=2, len=[8, 9, 10], fill=0), J("c06", mode=1, len=3, fill=[12, 13, 14, 15, 16]),
             long("c06", "quick", [0, 1, 10], mode=1, len=2), long("c06", "quick", [0, 1], mode=0, len=1)],
      thorough=[J("c06", mode=0, len=range(0, 6), fill=0), J("c06", mode=0, len=range(0, 5), fill=range(1, 34)),
                J("c06", mode=1, len=range(0, 11)), J("c06", mode=2, len=range(11, 15), parts=16),
                J("c06", mode=1, len=4, fill=range(1, 66)),
                long("c06", "thorough", [0, 1, 10], mode=1, len=2), long("c06", "thorough", [0, 1], mode=0, len=1)],
      bounds={"quick": "every sequence of at most 4 code points; every byte string of at most 7 bytes, valid string of at most "
                       "10 bytes, and byte string of 3 bytes after 12-16 fixed bytes",
              "thorough": "every sequence of at most 5 code points, and of 4 after up to 33 fixed ones; every byte string of at "
                          "most 10 bytes, valid string of at most 14 bytes, and byte string of 4 bytes after 1-65 fixed bytes"},
      reach=["u32", "malformed", "round trip"])

check("C07",
      quick=[J("c07", len=range(0, 10)), J("c07", len=10, parts=8),
             long("c07", "quick", [0, 1, 5], few=1, len=3), J("c07", len=2, fill=[24, 31], style=[0, 1])],
      thorough=[J("c07", len=range(0, 10)), J("c07", len=range(10, 15), parts=16),
                long("c07", "thorough", [0, 1, 5], few=1, len=3), J("c07", len=2, fill=[24, 31], style=[0, 1])],
      bounds={"quick": "every valid string of at most 10 bytes, every index",
              "thorough": "every valid string of at most 14 bytes, every index"},
      reach=["npos", "pos", "codepoint"])

for prop, h in (("C08", "c08"), ("C10", "c10")):
    check(prop,
          quick=[J(h, mode=0, len=range(0, 5)), J(h, mode=1, len=range(0, 5), rlen=[0, 2]),
                 J(h, mode=2, len=range(0, 6), rlen=[0, 1]), J(h, mode=3, len=range(0, 5)),
                 J(h, mode=[0, 3], len=5, parts=4), J(h, mode=1, len=2, rlen=1, fill=[12, 13, 14]),
                 J(h, mode=2, len=2, rlen=3, fill=[11, 12, 13, 14]),
             long(h, "quick", [1, 2, 9], mode=[0, 3], few=1, len=2), long(h, "quick", [1, 2], mode=[1, 2], few=1, len=1, rlen=[1, 20]), J(h, mode=[1, 2], few=1, fill=3, tail=3, style=1, len=1, rlen=1, rfill=[260, 1030])],
          thorough=[J(h, mode=0, len=range(0, 7)), J(h, mode=0, len=range(7, 11), parts=16),
                    J(h, mode=1, len=range(0, 6), rlen=[0, 1, 2, 3]), J(h, mode=1, len=range(6, 8), rlen=2, parts=16),
                    J(h, mode=2, len=range(0, 9), rlen=[0, 1, 2, 3]), J(h, mode=3, len=range(0, 9)),
                    J(h, mode=1, len=2, rlen=[1, 17], fill=range(8, 33)), J(h, mode=2, len=3, rlen=[3, 17], fill=range(8, 66)),
                long(h, "thorough", [1, 2, 9], mode=[0, 3], few=1, len=2), long(h, "thorough", [1, 2], mode=[1, 2], few=1, len=1, rlen=[1, 20]), J(h, mode=[1, 2], few=1, fill=3, tail=3, style=1, len=1, rlen=1, rfill=[260, 1030])],
          bounds={"quick": "every pair of 64-bit indexes on every valid string of at most 5 bytes (substrings), 4 bytes "
                           "(replacement by 0 or 2 arbitrary bytes) or 5 bytes (insertion of 0-1 arbitrary bytes or any "
                           "char32_t); editing of 2 arbitrary bytes after 11-14 fixed ones",
                  "thorough": "every pair of 64-bit indexes on every valid string of at most 10 bytes (substrings), 7 bytes "
                              "(replacement by 2 arbitrary bytes) or 8 bytes (insertion of 0-3 arbitrary bytes or any "
                              "char32_t); editing of 2-3 arbitrary bytes after 8-65 fixed ones"},
          reach=["empty", "slice", "replace", "insert", "no position", "insert one"] + (["mark"] if prop == "C10" else []))

check("C09",
      quick=[J("c09", mode=[0, 1], len=range(0, 8)), J("c09", mode=0, len=3, fill=[12, 13, 14]),
             long("c09", "quick", [0, 1, 2, 9], mode=[0, 1], few=1, len=2)],
      thorough=[J("c09", mode=[0, 1], len=range(0, 9)), J("c09", mode=[0, 1], len=range(9, 12), parts=16),
                J("c09", mode=0, len=5, fill=range(8, 40)),
                long("c09", "thorough", [0, 1, 2, 9], mode=[0, 1], few=1, len=2)],
      bounds={"quick": "every valid string of at most 7 bytes, every index; reversal of 3 arbitrary bytes after 12-14 fixed ones",
              "thorough": "every valid string of at most 11 bytes, every index; reversal of 5 arbitrary bytes after 8-39 fixed ones"},
      reach=["mark", "char", "outside", "inside"])

check("C11",
      quick=[J("c11", mode=[0, 1], len=range(0, 6), len2=range(1, 4)), J("c11", mode=[0, 1], len=[6, 7], len2=range(1, 4), parts=4),
             J("c11", mode=2, len=range(0, 8), len2=range(0, 5)),
             long("c11", "quick", [3, 4, 13], mode=[0, 1], few=1, len=2, len2=2), long("c11", "quick", [3, 13], most=80, mode=[0, 1, 2], few=1, len=2, len2=1, fill2=[3, 9], style2=[3, 13]), long("c11", "quick", [13], most=80, mode=2, len=1, len2=1, fill2=[0, 15, 30], tail2=[0, 15], style2=13), needles("c11", mode=[0, 1, 2], len=2, len2=2)],
      thorough=[J("c11", mode=[0, 1], len=range(0, 6), len2=range(1, 6)),
                J("c11", mode=[0, 1], len=range(6, 11), len2=range(1, 5), parts=8),
                J("c11", mode=2, len=range(0, 20), len2=range(0, 18)),
                long("c11", "thorough", [3, 4, 13], mode=[0, 1], few=1, len=2, len2=2), long("c11", "thorough", [3, 13], most=80, mode=[0, 1, 2], few=1, len=2, len2=1, fill2=[3, 9], style2=[3, 13]), long("c11", "thorough", [13], most=80, mode=2, len=1, len2=1, fill2=[0, 15, 30], tail2=[0, 15], style2=13), needles("c11", sizes=(30, 62, 126, 254, 255, 256, 257, 258, 510, 1022), mode=[0, 1, 2], len=2, len2=2)],
      bounds={"quick": "every byte string of at most 7 bytes, needle of 1-3 bytes (0-4 for prefixes and suffixes), and offset",
              "thorough": "every byte string of at most 10 bytes, needle of 1-4 bytes, and offset; prefixes and suffixes of up to 17 "
                          "bytes of strings of up to 19 bytes"},
      reach=["first", "none", "last", "none last", "starts", "ends"])

check("C12", big_ok=lambda p: p["mode"] in (0, 2, 3),
      quick=[J("c12", mode=0, chars=range(0, 3), len=range(0, 5)), J("c12", mode=[1, 2], len=range(0, 5)),
             J("c12", mode=[3, 4], len=range(0, 4)), J("c12", mode=5, len=range(0, 7)),
             long("c12", "quick", [1, 6], mode=[0, 1, 2, 3], few=1, len=1, chars=1), long("c12", "quick", [1, 6], sweep=False, mode=4, few=1, len=1, chars=1), long("c12", "quick", [1], mode=5, len=2), J("c12", mode=0, chars=[5, 9], len=2), J("c12", mode=0, chars=[4, 17], few=1, len=1)],
      thorough=[J("c12", mode=0, chars=range(0, 4), len=range(0, 7)), J("c12", mode=[1, 2], len=range(0, 7)),
                J("c12", mode=[1, 2], len=7, parts=8), J("c12", mode=[3, 4], len=range(0, 5)), J("c12", mode=[3, 4], len=5, parts=8),
                J("c12", mode=5, len=range(0, 11)),
                long("c12", "thorough", [1, 6], mode=[0, 1, 2, 3], few=1, len=1, chars=1), long("c12", "thorough", [1, 6], sweep=False, mode=4, few=1, len=1, chars=1), long("c12", "thorough", [1], mode=5, len=2), J("c12", mode=0, chars=[5, 9], len=2), J("c12", mode=0, chars=[4, 17], few=1, len=1)],
      bounds={"quick": "every valid string of at most 4 bytes with at most 2 arbitrary characters, a CodepointSet or a predicate; of at most 3 bytes, case-insensitively; of at most 6 bytes (contains)",
              "thorough": "every valid string of at most 6 bytes with at most 3 arbitrary characters, and of at most 7 with a CodepointSet or a predicate; of at most 5 bytes, case-insensitively; of at most 10 bytes (contains)"},
      reach=["first", "no first", "last", "no last", "contains"])

check("C13", big_ok=lambda p: p["mode"] != 1,
      quick=[J("c13", mode=0, len=range(0, 5), len2=range(0, 4), len3=[0, 1, 2]), J("c13", mode=1, len=range(0, 5)),
             J("c13", mode=0, max=1, len=4, len2=[1, 2], len3=1), J("c13", mode=0, len=2, fill=[12, 13, 14], len2=1, len3=2),
             J("c13", mode=0, few=1, len=3, fill=[9, 70, 260], tail=[0, 2], len2=2, len3=[1, 2, 3]),
             long("c13", "quick", [3, 4, 13], mode=0, few=1, len=1, len2=1, len3=[0, 2]), long("c13", "quick", [3, 13], most=80, mode=0, few=1, len=1, len2=1, fill2=[1, 3], style2=3, len3=1), long("c13", "quick", [3, 1], mode=1, few=1, len=0), needles("c13", mode=0, len=1, len2=1, len3=1),
             J("c13", mode=0, few=1, fill=[0, 9], tail=1, style=[3, 4], len=1, len2=1, len3=1, fill3=[260, 1030])],
      thorough=[J("c13", mode=0, len=range(0, 8), len2=range(0, 4), len3=[0, 1, 2]), J("c13", mode=0, len=8, len2=range(1, 5), len3=2, parts=8),
                J("c13", mode=1, len=range(0, 7)), J("c13", mode=1, len=7, parts=8), J("c13", mode=0, max=1, len=range(0, 8), len2=[1, 2], len3=1),
                J("c13", mode=0, len=3, fill=range(8, 34), len2=1, len3=[2, 9]),
                J("c13", mode=0, few=1, len=[3, 4], fill=[9, 17, 33, 70, 130, 260], tail=[0, 2, 9], len2=[2, 3], len3=[1, 2, 3, 4]),
                long("c13", "thorough", [3, 4, 13], mode=0, few=1, len=1, len2=1, len3=[0, 2]), long("c13", "thorough", [3, 13], most=80, mode=0, few=1, len=1, len2=1, fill2=[1, 3], style2=3, len3=1), long("c13", "thorough", [3, 1], mode=1, few=1, len=0), needles("c13", sizes=(30, 62, 126, 254, 258, 510, 1022), mode=0, len=1, len2=1, len3=1),
                J("c13", mode=0, few=1, fill=[0, 9], tail=1, style=[3, 4], len=1, len2=1, len3=1, fill3=[260, 1030])],
      bounds={"quick": "every byte string of at most 4 bytes, needle of at most 3, replacement of at most 2, and every limit; 2 bytes after 12-14 fixed ones; replace_codepoint in every valid string of at most 4 bytes",
              "thorough": "every byte string of at most 8 bytes, needle of at most 4, replacement of at most 2, and every limit; 3 bytes after 8-33 fixed ones; replace_codepoint in every valid string of at most 7 bytes"},
      reach=["none", "one", "several", "invalid", "codepoint"])

check("C14", big_ok=lambda p: p["fill"] > 3,
      quick=[J("c14", mode=0, len=range(0, 6), len2=[1, 2, 3]), J("c14", mode=1, len=range(0, 5), len2=[0, 1, 2]),
             J("c14", mode=2, len=range(0, 6), len2=[1, 2]), J("c14", mode=3, len=range(0, 5), len2=range(0, 3), pieces=range(0, 4)),
             long("c14", "quick", [4, 13], mode=0, few=1, len=1, len2=[1]), long("c14", "quick", [4, 3], most=80, mode=[0, 2], few=1, len=1, len2=1, fill2=[1, 2], style2=4), long("c14", "quick", [4, 1], mode=1, few=1, len=1, len2=1), needles("c14", mode=[0, 2], len=1, len2=1), J("c14", mode=[0, 1], few=1, fill=[520], style=4, len=0, len2=1)],
      thorough=[J("c14", mode=0, len=range(0, 8), len2=[1, 2, 3]), J("c14", mode=0, len=[8, 9], len2=[1, 2, 3], parts=8),
                J("c14", mode=1, len=range(0, 7), len2=[0, 1, 2]), J("c14", mode=2, len=range(0, 9), len2=[1, 2, 3]),
                J("c14", mode=3, len=range(0, 7), len2=range(0, 4), pieces=range(0, 5)), J("c14", mode=3, len=[12, 20, 34], len2=[1, 16], pieces=[2, 3]),
                long("c14", "thorough", [4, 13], mode=0, few=1, len=1, len2=[1]), long("c14", "thorough", [4, 3], most=80, mode=[0, 2], few=1, len=1, len2=1, fill2=[1, 2], style2=4), long("c14", "thorough", [4, 1], mode=1, few=1, len=1, len2=1), needles("c14", sizes=(30, 62, 126, 254, 258, 510, 1022), mode=[0, 2], len=1, len2=1), J("c14", mode=[0, 1], few=1, fill=[520], style=4, len=0, len2=1)],
      bounds={"quick": "every byte string of at most 5 bytes, separator of 1-3 bytes, limit and ignore_empty; characters as separators in valid strings of at most 4 bytes; token iterators over at most 5 bytes; joining at most 3 pieces",
              "thorough": "every byte string of at most 9 bytes, separator of 1-3 bytes, limit and ignore_empty; characters as separators in valid strings of at most 6 bytes; token iterators over at most 8 bytes; joining at most 4 pieces"},
      reach=["limit", "ignored", "pieces", "whole", "characters", "token", "tokens", "join"])

check("C15", big_ok=lambda p: p["fill"] > 3 or p["mode"] == 0,
      quick=[J("c15", mode=[0, 1], len=range(0, 6)), J("c15", mode=2),
             long("c15", "quick", [5, 0, 1], mode=[0, 1], few=1, len=2)],
      thorough=[J("c15", mode=[0, 1], len=range(0, 7)), J("c15", mode=[0, 1], len=[7, 8], parts=16), J("c15", mode=2),
                long("c15", "thorough", [5, 0, 1], mode=[0, 1], few=1, len=2)],
      bounds={"quick": "every valid string of at most 5 bytes, offset, limit and ignore_empty; is_newline on every char32_t",
              "thorough": "every valid string of at most 8 bytes, offset, limit and ignore_empty; is_newline on every char32_t"},
      reach=["is_newline", "first CR LF", "first", "last CR LF", "last", "limit", "ignored", "pieces", "whole", "lines"])

check("C16",
      quick=[J("c16", mode=0, chars=range(0, 3), len=range(0, 6)), J("c16", mode=[1, 2], len=range(0, 7)),
             long("c16", "quick", [11, 3], mode=0, chars=1, len=1), long("c16", "quick", [11, 1], mode=[1, 2], len=1), J("c16", mode=0, chars=[5, 9, 17], len=2)],
      thorough=[J("c16", mode=0, chars=range(0, 4), len=range(0, 7)), J("c16", mode=0, chars=[1, 2], len=[7, 8], parts=8), J("c16", mode=[1, 2], len=range(0, 8)), J("c16", mode=[1, 2], len=[8, 9], parts=8),
                long("c16", "thorough", [11, 3], mode=0, chars=1, len=1), long("c16", "thorough", [11, 1], mode=[1, 2], len=1), J("c16", mode=0, chars=[5, 9, 17], len=2)],
      bounds={"quick": "every valid string of at most 5 bytes with at most 2 arbitrary characters, of at most 6 bytes with predicates",
              "thorough": "every valid string of at most 8 bytes with at most 2 (6 bytes: 3) arbitrary characters, of at most 9 bytes with predicates"},
      reach=["everything", "nothing", "something"])

# The whole range of char32_t in pieces of about equal work, in units of 64.
SPANS = [(0, 8), (8, 16), (16, 32), (32, 64), (64, 96), (96, 128), (128, 192), (192, 640), (640, 1024), (1024, 1100),
         (1100, 1280), (1280, 1900), (1900, 2100), (2100, 17408), (17408, 0)]


def spans(harness, **kw):
    return [j for lo, hi in SPANS for j in J(harness, lo=lo, hi=hi, apps=0, **kw)]


check("C17",
      quick=[spans("c17", mode=[0, 1, 2]), spans("c17", mode=[0, 1, 2], earlier=1)],
      thorough=[spans("c17", mode=[0, 1, 2], earlier=range(0, 7))],
      bounds="none: every char32_t value, each of the three functions",
      again=(), reach=["upper", "lower", "title"], generate=unicode_data.generate)

check("C21",
      quick=[spans("c21", mode=0), spans("c21", mode=0, earlier=[1, 3]), J("c21", mode=1)],
      thorough=[spans("c21", mode=0, earlier=range(0, 7)), J("c21", mode=1)],
      bounds="none: every char32_t value, get_char_class and each of the 18 predicates",
      again=(), reach=["code point", "not a code point", "predicates"], generate=unicode_data.generate)

check("C18",
      quick=[J("c18", mode=[0, 1, 2], len=range(0, 4)), J("c18", mode=[0, 1, 2], len=4, parts=4),
             J("c18", mode=[0, 1, 2], len=2, fill=[11, 12, 13, 14, 15]),
             long("c18", "quick", [0, 1, 6, 12], mode=[0, 1, 2], len=1),
             J("c18", mode=[0, 1, 2], len=4, fill=[1, 2], tail=[1, 2], style=[0, 14])],
      thorough=[J("c18", mode=[0, 1, 2], len=range(0, 5)), J("c18", mode=[0, 1, 2], len=[5, 6], parts=16),
                J("c18", mode=[0, 1, 2], len=3, fill=range(8, 66)),
                long("c18", "thorough", [0, 1, 6, 12], mode=[0, 1, 2], len=1),
                J("c18", mode=[0, 1, 2], len=[4, 5], fill=[1, 2], tail=[1, 2], style=[0, 12, 14])],
      bounds={"quick": "every byte string of at most 4 bytes, and of 2 bytes after 11-15 fixed letters",
              "thorough": "every byte string of at most 6 bytes, and of 3 bytes after 8-65 fixed letters"},
      reach=["malformed", "upper", "lower", "title"], generate=unicode_data.generate)

check("C19",
      quick=[J("c19", mode=2), J("c19", mode=[0, 1], len=range(0, 4), len2=range(0, 4)), J("c19", mode=[0, 1], len=[4], len2=[1, 2]),
             J("c19", mode=3, len=[1, 2], len2=[1, 2], len3=[1, 2]),
             [j for k in range(16, 24) for j in J("c19", mode=[0, 1], fill=k, fill2=k, tail=17, tail2=17, len=2, len2=2, style=0, style2=[0, 14])],
             long("c19", "quick", [0], most=80, mode=[0, 1], len=1, fill2=[9, 17, 70], len2=1, style2=14), long("c19", "quick", [6], most=80, mode=[0, 1], len=1, fill2=[0, 9, 33], tail2=[0, 9], len2=1, style2=16),
             [j for k in (126, 254, 1022) for j in J("c19", mode=[0, 1], fill=k, fill2=[k, k + 1], tail=3, tail2=3, len=2, len2=1, style=0, style2=14)]],
      thorough=[J("c19", mode=2), J("c19", mode=[0, 1], len=range(0, 6), len2=range(0, 6), parts=4),
                J("c19", mode=3, len=[1, 2, 3], len2=[1, 2, 3], len3=[1, 2, 3], parts=4),
                [j for k in range(8, 72) for j in J("c19", mode=[0, 1], fill=k, fill2=k, tail=40, tail2=40, len=2, len2=2, style=0, style2=[0, 14])],
                long("c19", "thorough", [0], most=80, mode=[0, 1], len=1, fill2=[9, 17, 70], len2=1, style2=14), long("c19", "thorough", [6], most=80, mode=[0, 1], len=1, fill2=[0, 9, 33], tail2=[0, 9], len2=1, style2=16)],
      bounds={"quick": "every pair of values up to 0x1FFFFF; every pair of valid strings of at most 3 bytes each, and of 4 and 1-2 bytes; every triple of at most 2 bytes each (transitivity)",
              "thorough": "every pair of values up to 0x1FFFFF; every pair of valid strings of at most 5 bytes each; every triple of at most 3 bytes each (transitivity)"},
      reach=["code points", "same", "before", "after", "starts", "does not start", "ends", "does not end", "transitive"])

check("C20",
      quick=[J("c20", mode=[0, 1], len=range(0, 5), len2=[1, 2]), J("c20", mode=[0, 1], len=[3, 4], len2=3),
             J("c20", mode=2, len=range(0, 4), len2=range(0, 3), len3=[0, 1]), J("c20", mode=2, max=1, len=3, len2=[1, 2], len3=1),
             J("c20", mode=3, len=range(0, 4), len2=[1, 2]), J("c20", mode=4, len=range(0, 4), len2=[0, 1, 2]),
             long("c20", "quick", [0, 6], mode=[0, 1], few=1, len=1, len2=1), long("c20", "quick", [6, 16], most=80, mode=[0, 1, 2], few=1, len=1, len2=1, len3=1, fill2=[1, 4], style2=16), long("c20", "quick", [3, 6], most=80, mode=[2, 3, 4], few=1, len=1, len2=1, len3=1), needles("c20", sizes=(30, 62), steps=20000000, mode=[0, 1, 2, 3], len=1, len2=1, len3=1)],
      thorough=[J("c20", mode=[0, 1], len=range(0, 6), len2=[1, 2, 3], parts=4), J("c20", mode=[0, 1], len=6, len2=[1, 2, 3], parts=8),
                J("c20", mode=2, len=range(0, 5), len2=range(0, 4), len3=[0, 1, 2], parts=4), J("c20", mode=2, max=1, len=[3, 4, 5], len2=[1, 2], len3=1, parts=4),
                J("c20", mode=3, len=range(0, 6), len2=[1, 2, 3], parts=4), J("c20", mode=4, len=range(0, 5), len2=[0, 1, 2], parts=4),
                long("c20", "thorough", [0, 6], mode=[0, 1], few=1, len=1, len2=1), long("c20", "thorough", [6, 16], most=80, mode=[0, 1, 2], few=1, len=1, len2=1, len3=1, fill2=[1, 4], style2=16), long("c20", "thorough", [3, 6], most=80, mode=[2, 3, 4], few=1, len=1, len2=1, len3=1), needles("c20", steps=100000000, mode=[0, 1, 2, 3], len=1, len2=1, len3=1)],
      bounds={"quick": "every valid string of at most 4 bytes and needle of 1-2 (3) bytes, every offset at a code point; replacement and splitting in strings of at most 3 bytes with needles of at most 2, or at most 2 characters",
              "thorough": "every valid string of at most 6 bytes and needle of 1-3 bytes, every offset at a code point; replacement in strings of at most 4 bytes, splitting in strings of at most 5 bytes, with needles of at most 3 bytes or at most 2 characters"},
      reach=["first", "no first", "last", "no last", "other length", "none", "one", "several", "characters", "pieces",
             "whole", "limit", "ignored"])

FNS = range(0, 83)
NORMALIZING = [64, 65, 66]
CODEPOINT_SETS = [52, 55]
MANY_PATHS = [52, 55, 57]
# Those that build strings.
BUILDING = [0, 1, 24, 25, 26, 27, 29, 30, 31, 32, 33, 34, 35, 36, 37, 56, 59, 60, 61, 63, 70, 81]
FN = [f for f in FNS if f not in NORMALIZING]

check("C05",
      quick=[J("c05", fn=FN, len=[1, 3], len2=1), J("c05", fn=FN, len=0, len2=0, null=1),
             J("c05", fn=[f for f in FN if f not in CODEPOINT_SETS], len=2, len2=[0, 2]),
             J("c05", fn=BUILDING, len=2, len2=1, fill=[13, 14]), J("c05", fn=NORMALIZING, len=[0, 2, 3], apps=0),
             J("c05", fn=[f for f in FN if f not in CODEPOINT_SETS], cont=1, len=8, len2=1),
             long("c05", "quick", [1, 10], most=40, sweep=False, fn=[f for f in FN if f not in MANY_PATHS], few=1, near=0, len=1, len2=1),
             long("c05", "quick", [10], most=10, sweep=False, fn=MANY_PATHS, few=1, near=0, len=1, len2=1)],
      thorough=[J("c05", fn=[f for f in FN if f not in CODEPOINT_SETS], len=range(0, 6), len2=range(0, 4)), J("c05", fn=CODEPOINT_SETS, len=range(0, 5)),
                J("c05", fn=FN, len=0, len2=0, null=1), J("c05", fn=[f for f in FN if f not in CODEPOINT_SETS], len=6, len2=1, parts=4),
                J("c05", fn=BUILDING, len=3, len2=1, fill=[5, 11, 12, 13, 14, 15, 28, 29, 30, 31, 60, 61]),
                J("c05", fn=NORMALIZING, len=range(0, 5), apps=0),
                J("c05", fn=[f for f in FN if f not in CODEPOINT_SETS], cont=1, len=[6, 8, 12], len2=1),
                long("c05", "thorough", [1, 10], most=60, sweep=False, fn=[f for f in FN if f not in MANY_PATHS], few=1, near=0, len=1, len2=1),
                long("c05", "thorough", [1, 10], most=20, sweep=False, fn=MANY_PATHS, few=1, near=0, len=1, len2=1)],
      bounds={"quick": "every public function; byte strings of at most 3 bytes (building functions: also 2 bytes after 13-14 fixed "
                       "ones), and of 8 bytes all but the first of which are continuation bytes; second strings of at most 2 bytes, null views; every char32_t, index, count and limit, every offset",
              "thorough": "every public function; byte strings of at most 6 bytes (normalisation and searching for CodepointSets: 4; "
                          "building functions: also 3 bytes after 5-61 fixed ones), and of 6, 8 and 12 bytes all but the first of which are continuation bytes; second strings of at most 3 bytes, null views; "
                          "every char32_t, index, count and limit, every offset"},
      again=(1,), again_len=2, reach=["throws", "returns"])

KINDS = dict(k0=[0, 1, 2], k1=[0, 1, 2])

check("C22",
      quick=[J("c22", mode=3, chars=range(0, 4)), J("c22", mode=[0, 1, 2], ops=[0, 1]), J("c22", mode=0, ops=2, **KINDS), J("c22", mode=1, ops=2, k0=[0, 1], k1=[0, 1]),
             J("c22", mode=2, ops=2), J("c22", mode=0, ops=3, k0=[0, 1], k1=1, k2=[0, 1]),
             J("c22", mode=0, ops=[3, 4], k0=1, k1=1, k2=1, k3=1), J("c22", mode=0, ops=4, k0=0, k1=0, k2=0, k3=0), J("c22", mode=0, ops=1, k0=[0, 1], fill=[6, 20], tail=[0, 7], style=range(0, 5)), J("c22", mode=0, ops=1, k0=2, fill=9, style=range(0, 5)), J("c22", mode=1, ops=1, k0=[0, 1], fill=6, tail=[0, 3], style=range(0, 5)), J("c22", mode=[0, 2], ops=1, k0=1, fill=[0, 5], tail=[6, 12], style=[0, 1])],
      thorough=[J("c22", mode=3, chars=range(0, 9)), J("c22", mode=[0, 1, 2], ops=[0, 1]), J("c22", mode=[0, 1], ops=2, **KINDS), J("c22", mode=2, ops=[2, 3, 4]),
                J("c22", mode=0, ops=3, k2=[0, 1, 2], **KINDS), J("c22", mode=1, ops=3, k0=[0, 1], k1=[0, 1], k2=[0, 1]),
                J("c22", mode=0, ops=2, chars=3, k0=2, k1=[0, 1, 2]),
                J("c22", mode=0, ops=[3, 4], k0=1, k1=1, k2=1, k3=1), J("c22", mode=0, ops=4, k0=0, k1=0, k2=0, k3=0), J("c22", mode=0, ops=1, k0=[0, 1], fill=[6, 20], tail=[0, 7], style=range(0, 5)), J("c22", mode=0, ops=1, k0=2, fill=9, style=range(0, 5)), J("c22", mode=1, ops=1, k0=[0, 1], fill=6, tail=[0, 3], style=range(0, 5)), J("c22", mode=[0, 2], ops=1, k0=1, fill=[0, 5], tail=[6, 12], style=[0, 1]), J("c22", mode=[0, 1, 2], ops=1, k0=[0, 1], fill=[30, 63], tail=[0, 3], style=range(0, 5)), J("c22", mode=0, ops=2, k0=[0, 1], k1=[0, 1], fill=[5, 9, 20], tail=5, style=range(0, 5)), J("c22", mode=0, ops=5, k0=[0, 1], k1=[0, 1], k2=[0, 1], k3=1, k4=1)],
      bounds={"quick": "every sequence of at most 2 operations with any code points (strings of 2) for contains, and of 3 with a "
                       "code point in the middle; at most 1 operation, or 2 of add_range and add_codepoint, for "
                       "case_insensitive_contains; at most 2 added code points for its exactness; every char32_t (values "
                       "up to 0x1FFFFF, case-insensitively) looked for",
              "thorough": "every sequence of at most 3 operations with any code points (strings of 2) for contains, of at most 2 "
                          "operations, or 3 of add_range and add_codepoint, for case_insensitive_contains, of at most 4 added "
                          "code points for its exactness; every char32_t (values up to 0x1FFFFF, case-insensitively) looked for"},
      reach=["sequence", "contained", "not contained", "nothing added", "case-insensitive match", "exact case-insensitive match",
             "no case-insensitive match"])

check("C23",
      quick=[J("c23", mode=0, len=range(0, 4)), J("c23", mode=0, len=2, fill=[9, 13, 14, 15]), J("c23", mode=1, len=range(0, 6)),
             long("c23", "quick", [0, 8, 1], mode=0, len=1), long("c23", "quick", [0, 1, 8], mode=1, few=1, len=1)],
      thorough=[J("c23", mode=0, len=range(0, 4)), J("c23", mode=0, len=4, parts=8), J("c23", mode=0, len=3, fill=range(4, 66)),
                J("c23", mode=1, len=range(0, 7)),
                long("c23", "thorough", [0, 8, 1], mode=0, len=1), long("c23", "thorough", [0, 1, 8], mode=1, few=1, len=1)],
      bounds={"quick": "every byte string of at most 3 bytes, and of 2 bytes after 9-15 fixed ones; searching 5 bytes from every offset",
              "thorough": "every byte string of at most 4 bytes, and of 3 bytes after 4-65 fixed ones; searching 6 bytes from every offset"},
      reach=["escaped", "nothing to escape", "found", "nothing found"])

check("C24",
      quick=[J("c24", mode=[0, 1], len=range(0, 6)), J("c24", mode=0, kind=4, len=0, parts=4), J("c24", mode=0, kind=4, len=0, fill=1, parts=4),
             J("c24", mode=[0, 1], kind=1, len=5), J("c24", mode=0, kind=1, len=6), J("c24", mode=[0, 1], kind=[2, 3, 5], len=[4, 5]), J("c24", mode=0, kind=3, len=[8, 9]),
             J("c24", mode=0, kind=[6, 7], len=[4, 5]), J("c24", mode=0, kind=[9, 10], len=[4, 5]), J("c24", mode=0, kind=11, len=5), J("c24", mode=0, kind=12, len=[4, 5]), J("c24", mode=0, kind=13, len=8), J("c24", mode=0, kind=14, len=[4, 5, 6]),
             J("c24", mode=0, len=3, fill=[11, 12, 13, 14, 15]),
             long("c24", "quick", [0, 1, 7], mode=[0, 1], few=1, len=2)],
      thorough=[J("c24", mode=[0, 1], len=range(0, 7)), J("c24", mode=0, len=7, parts=16), J("c24", mode=0, kind=4, len=[0, 1, 2], parts=8),
                J("c24", mode=0, kind=4, len=0, fill=[1, 2, 15], parts=8),
                J("c24", mode=[0, 1], kind=[1, 2, 3, 5], len=range(4, 9), parts=4), J("c24", mode=0, kind=3, len=[8, 9, 10], parts=4),
                J("c24", mode=0, kind=[6, 7, 9, 10, 11, 12, 14], len=range(4, 8), parts=4), J("c24", mode=0, kind=13, len=[7, 8, 9], parts=4), J("c24", mode=0, len=4, fill=range(5, 66)),
                long("c24", "thorough", [0, 1, 7], mode=[0, 1], few=1, len=2)],
      bounds={"quick": "every byte string of at most 5 bytes; 4-9 arbitrary bytes after the start of each kind of escape; two \\u "
                       "escapes with 8 arbitrary digits; 3 bytes after 11-15 fixed ones",
              "thorough": "every byte string of at most 7 bytes; 4-10 arbitrary bytes after the start of each kind of escape; two "
                          "\\u escapes with 8 arbitrary digits and 2 more bytes; 4 bytes after 5-65 fixed ones"},
      reach=["malformed", "surrogate pair", "no code point", "nothing to unescape", "unescaped", "first", "first malformed", "none"])

check("C25",
      quick=[J("c25", len=range(0, 6)), J("c25", kind=4, len=[0, 1]), J("c25", kind=[1, 2], len=[4, 5, 6]), J("c25", kind=3, len=[7, 8, 9]),
             J("c25", kind=1, len=[8, 9]), J("c25", kind=[5, 6], len=[4, 5, 6]), J("c25", kind=[7, 8], len=[2, 3, 4, 5]), J("c25", kind=12, len=4), J("c25", kind=13, len=8), J("c25", kind=14, len=[4, 5, 6]),
             long("c25", "quick", [0, 1, 7, 15], len=2)],
      thorough=[J("c25", len=range(0, 8)), J("c25", len=8, parts=8), J("c25", kind=4, len=[0, 1, 2, 3]), J("c25", kind=[1, 2, 3, 5, 6, 7, 8, 12, 13, 14], len=range(0, 10), parts=4),
                long("c25", "thorough", [0, 1, 7, 15], len=2)],
      bounds={"quick": "every view of at most 5 bytes; 2-9 arbitrary bytes after the start of each kind of escape; two \\u escapes "
                       "with 8 arbitrary digits",
              "thorough": "every view of at most 8 bytes; up to 9 arbitrary bytes after the start of each kind of escape; two \\u "
                          "escapes with 8 arbitrary digits and 3 more bytes"},
      reach=["nothing left", "malformed", "escape", "character", "skipped newline", "surrogate pair"])

BLOCKS = [(1, 2), (24, 28), (36, 38), (48, 50), (194, 195)]


def blocks(harness, hs=BLOCKS, **kw):
    return [j for lo, hi in hs for j in J(harness, lo=lo, hi=hi, apps=0, **kw)]


check("C26",
      quick=[spans("c26", mode=0), J("c26", mode=[1, 2], len=range(0, 4), apps=0),
             J("c26", mode=[1, 2], len=2, fill=[11, 12, 13, 14, 15], apps=0), blocks("c26", mode=[1, 2], chars=3, marks=1),
             long("c26", "quick", [1, 9], mode=[1, 2], len=1, apps=0),
             spans("c26", mode=[1, 2], chars=1), spans("c26", mode=[1, 2], chars=1, fill=1, tail=1, style=9)],
      thorough=[spans("c26", mode=0), J("c26", mode=[1, 2], len=range(0, 4), apps=0), J("c26", mode=[1, 2], len=[4, 5], apps=0, parts=16),
                J("c26", mode=[1, 2], len=3, fill=range(8, 34), apps=0), blocks("c26", mode=[1, 2], chars=4, marks=1, parts=4),
                long("c26", "thorough", [1, 9], mode=[1, 2], len=1, apps=0),
                spans("c26", mode=[1, 2], chars=1), spans("c26", mode=[1, 2], chars=2), spans("c26", mode=[1, 2], chars=2, fill=5, tail=3, style=9)],
      bounds={"quick": "every char32_t value; every valid string of at most 3 bytes, and of 2 bytes after 11-15 fixed ones; 3 code points from 5 blocks or U+0300-U+037F",
              "thorough": "every char32_t value; every valid string of at most 5 bytes, and of 3 bytes after 8-33 fixed ones; 4 code points from 5 blocks or U+0300-U+037F"},
      reach=["itself", "two", "more", "unchanged", "decomposed", "idempotent"], generate=unicode_data.generate)

check("C27",
      quick=[spans("c27", mode=0), spans("c27", mode=3), J("c27", mode=[1, 2], len=range(0, 4), apps=0),
             J("c27", mode=1, len=3, fill=[12, 13, 14], apps=0), blocks("c27", mode=1, chars=3, marks=1),
             blocks("c27", hs=[(1, 2), (24, 28), (48, 50)], mode=2, chars=3, marks=1),
             long("c27", "quick", [1, 9], mode=[1, 2], len=1, apps=0), J("c27", mode=1, len=4, fill=[1, 2], style=17, apps=0),
             spans("c27", mode=[1, 2], chars=1), spans("c27", mode=1, chars=2)],
      thorough=[spans("c27", mode=0), spans("c27", mode=3), J("c27", mode=[1, 2], len=range(0, 4), apps=0), J("c27", mode=[1, 2], len=[4, 5], apps=0, parts=16),
                J("c27", mode=[1, 2], len=3, fill=range(8, 34), apps=0), blocks("c27", mode=[1, 2], chars=3, marks=1),
                blocks("c27", mode=[1, 2], chars=4, marks=1, parts=8),
                long("c27", "thorough", [1, 9], mode=[1, 2], len=1, apps=0), J("c27", mode=[1, 2], len=[4, 5], fill=[1, 2, 3], tail=[0, 1], style=17, apps=0),
                spans("c27", mode=[1, 2], chars=1), spans("c27", mode=1, chars=2), spans("c27", mode=[1, 2], chars=2), spans("c27", mode=1, chars=3), spans("c27", mode=1, chars=2, fill=5, tail=3, style=9)],
      bounds={"quick": "every pair of code points and every decomposable code point; every valid string of at most 3 bytes, and of 3 bytes after 12-14 fixed ones; 3 code points from 5 blocks or U+0300-U+037F",
              "thorough": "every pair of code points and every decomposable code point; every valid string of at most 5 bytes, and of 3 bytes after 8-33 fixed ones; 4 code points from 5 blocks or U+0300-U+037F"},
      reach=["pair", "composed pair", "decomposable", "unchanged", "composed", "same decomposition"],
      generate=unicode_data.generate)

check("C28",
      quick=[J("c28", mode=0), J("c28", mode=1, ranges=[0, 1, 2])],
      thorough=[J("c28", mode=0), J("c28", mode=1, ranges=[0, 1, 2, 3])],
      bounds={"quick": "every Subrange; every set of at most 2 ranges of code points",
              "thorough": "every Subrange; every set of at most 3 ranges of code points"},
      reach=["range", "one", "several", "negated", "not negated"],
      assumptions=["std::ostream writes strings, characters and decimal numbers as it should: its compiled functions are "
                   "replaced by ones that record what is written (harness/fake_ostream.hpp), and the sampled paths are "
                   "replayed with a std::ostringstream"])

CODEPOINTS = [7, 8, 26, 27, 28, 29, 30, 31, 32, 33, 34]

check("C29",
      quick=[J("c29", fn=0, len=range(0, 6)), J("c29", fn=39, len=[0, 2], steps=200000000), J("c29", fn=range(1, 39), len=[0, 1, 2], len2=1),
             J("c29", fn=[f for f in range(1, 39) if f not in CODEPOINTS], len=3, len2=[1, 2]),
             J("c29", fn=[23, 24, 22, 38, 3, 4, 19], len=4, len2=0),
             long("c29", "quick", [3, 11, 4], most=40, fn=[2, 4, 6, 10, 13, 17, 18, 19, 22, 25, 27, 32], few=1, len=1, len2=1)],
      thorough=[J("c29", fn=0, len=range(0, 9)), J("c29", fn=39, len=range(0, 4), steps=200000000), J("c29", fn=range(1, 39), len=range(0, 4), len2=range(0, 3)),
                J("c29", fn=[f for f in range(1, 39) if f not in CODEPOINTS], len=[4, 5], len2=[1, 2], parts=4),
                long("c29", "thorough", [3, 11, 4], most=80, fn=range(1, 38), few=1, len=1, len2=1)],
      bounds={"quick": "every function with a default argument; strings of at most 3 bytes (trimming, newlines and ranges: 4), second strings of at most 2 "
                       "bytes; every char32_t, every index, every Subrange; texts of 70000 fixed code points before at most 2 arbitrary bytes",
              "thorough": "every function with a default argument; strings of at most 5 bytes, second strings of at most 2 bytes; every char32_t, every index, every Subrange"},
      reach=["subrange", "same", "throws", "defaults", "huge"])

VALID = range(0, 50)

check("C30",
      quick=[J("c30", fn=[f for f in VALID if f not in (43, 44)], len=[0, 2], len2=1), J("c30", fn=[f for f in VALID if f not in (26, 43, 44)], len=3, len2=1),
             J("c30", fn=[12, 14, 17, 18, 21, 22, 27, 36, 37, 38, 25], len=2, len2=2), J("c30", fn=[4, 5, 31, 32], len=4, len2=2), J("c30", fn=[31, 33, 34], len=3, len2=2),
             J("c30", fn=[43, 44], len=[0, 2, 3], apps=0), J("c30", fn=[0, 3, 10, 12, 25, 29, 36, 37, 38, 40, 45, 46], len=4),
             J("c30", fn=[10, 12, 14, 21, 25], style=2, fill=[9, 17, 70], tail=[0, 3], few=1, len=3, len2=1),
             long("c30", "quick", [2], most=80, fn=[10, 12, 14, 15, 21, 25], few=1, len=1, len2=1),
             long("c30", "quick", [1, 9, 7], most=40, fn=[f for f in VALID if f not in (26, 35, 43, 44)], few=1, len=1, len2=1)],
      thorough=[J("c30", fn=[f for f in VALID if f not in (43, 44)], len=range(0, 5), len2=range(0, 4)),
                J("c30", fn=[f for f in VALID if f not in (26, 35, 43, 44)], len=[5, 6], len2=[1, 2], parts=4),
                J("c30", fn=[43, 44], len=range(0, 5), apps=0),
                J("c30", fn=[10, 12, 14, 21, 25], style=2, fill=range(1, 70, 2), tail=[0, 3], few=1, len=3, len2=1),
                long("c30", "thorough", [2], most=200, fn=[10, 12, 14, 15, 21, 25], few=1, len=1, len2=1),
                long("c30", "thorough", [1, 9, 7], most=80, fn=[f for f in VALID if f not in (26, 35, 43, 44)], few=1, len=1, len2=1)],
      bounds={"quick": "every function that returns text or a range; well-formed strings of at most 4 bytes, second strings of at most 2 bytes, every char32_t, index and limit",
              "thorough": "every function that returns text or a range; well-formed strings of at most 6 bytes, second strings of at most 3 bytes, every char32_t, index and limit"},
      reach=["valid", "throws"])
