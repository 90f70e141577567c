"""C26 one text per value, within the given buffer."""
import c_large
import struct
from c_pool import ASAN, tla
from c_array import MAXI
from c_number import value, enc, INTS, LO, HI, WIDTH, MAXTICKS, dbl, sgl, NULL

TYPES = [2, 3] + list(INTS) + [12, 13, 15, 16]


def pick(rng):
    x = rng.random()
    if x < .7:
        while True:
            v = value(rng, rng.choice(TYPES))
            if v[0] == 13 and (v[8] & 127) == 127 and v[7] >= 240 or v[0] == 12 and (v[4] & 127) == 127 and v[3] >= 128:
                continue                  # the text of an infinity or NaN is not specified
            if v[0] in (12, 13) and rng.random() < .5:
                q = rng.choice([1, -1]) * rng.choice([rng.randrange(1000000) / 10 ** rng.randrange(12), float(rng.randrange(10 ** rng.randrange(1, 17))), 0.0])
                v = [v[0]] + (dbl(q) if v[0] == 13 else sgl(q))
            return v
    if x < .75:
        return [rng.choice([1, 101])]
    n = rng.choice([0, 1, 2, 3, 5, 126, 127, 128, 129, 300] if rng.random() < .3 else [0, 1, 2, 3, 5, 9])
    return [rng.choice([17, 100])] + [rng.choice([97, 98, 0, 0x20ac, 0x1f600, 124]) for _ in range(n)]


def gen(rng, thorough):
    out = []
    for _ in range(4000 if thorough else 700):
        s = []
        n = 0
        for _ in range(7):
            v = pick(rng)
            s += [("let", [v]), ("text", [])]
            k = len(v) - 1 if v[0] in (17, 100) else 6 if v[0] in (1, 101) else None
            for _ in range(rng.randrange(1, 4)):
                s.append(("into", [[rng.choice([k, k + 1, k - 1 if k else 0, k + 2]) if k is not None and rng.random() < .8 else rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 19, 20, 21, 22, 24, 31, 32, 64, 128])]]))
            if rng.random() < .2:
                s.append(("concat", []))
            if n > 300 or rng.random() < .2:
                n = rng.choice([0, 1, 3, 120, 127, 128])
                s.append(("start", [[rng.choice([97, 98, 0x20ac, 0])] * n]))
            for _ in range(rng.randrange(3)):
                op = rng.choice(["append", "appendObject", "insert", "insertObject"] + (["appendValue"] if v[0] in TYPES else []))
                p = rng.choice([0, 0, n, n + 1, rng.randrange(n + 1), -1, MAXI, n + 40])
                s.append((op, [] if op in ("append", "appendObject") else [[p]]))
                if op[0] == "a" and op != "appendValue" or 0 <= p <= n:
                    n += 3 if k is None else k              # a lower bound
            if rng.random() < .3:
                s.append(("text", []))
        out.append(s)
    return out


def vset():
    vs = [[2, 0], [2, 1], [1], [101]]
    for c in (0, 65, 0x20ac, 0x1f600):
        vs.append([3] + enc(c, 4))
    for t in INTS:
        for q in (LO[t], HI[t], 0, 1, 9, 10, 99, 100, -1 if LO[t] else 5, -10 if LO[t] else 128):
            vs.append([t] + enc(q, WIDTH[t]))
    for q in (0, MAXTICKS, 864000000000 // 2, 864000000000 - 1, 630822816000000000 + 36000000000 * 13, 36000000000 * 9):
        vs.append([15] + enc(q, 8))
    for q in (0, 1, -1, (1 << 63) - 1, -1 << 63, 864000000000, -864000000000, 863999999999, 36000000000, 10000000, 10010000, -12345678901):
        vs.append([16] + enc(q, 8))
    for s in ("", "a", "ab|c"):
        vs += [[17] + [ord(c) for c in s], [100] + [ord(c) for c in s]]
    return "{%s}" % ",".join("<<%s>>" % ",".join(map(str, v)) for v in sorted(set(map(tuple, vs))))


CHECKS = {
    "C26": dict(stages=[dict(
        name="texts", driver="format.cpp", flags=ASAN, trace="FormatsTrace", consts={"Initial": "<- FormatInit", "Explain": "<- FormatExplain"}, gen=gen,
        mc=[dict(module="FormatsMC", consts=dict(Values=vset(), Sizes="{0,1,2,3,128}", Places="{-1,0,1,2,3}", Beginnings="{<<97>>,<<97,98>>}", MaxLen="0"),
                 invariants=["Distinct", "Short"], properties=["Grows"], limit=400, limit_thorough=5000),
            dict(module="FormatsMC", consts=dict(Values="{<<2,0>>,<<4,251>>,<<17,97,98>>,<<17>>,<<3,124,0,0,0>>,<<100,97>>}", Sizes="{0}", Places="{-1,0,1,2,3,7}",
                 Beginnings="{<<97>>,<<97,98>>}", MaxLen="7"), thorough={"MaxLen": "10"},
                 invariants=["Distinct", "Short"], properties=["Grows"], limit=400, limit_thorough=5000)]),
        c_large.stage(c_large.texts, [], more=[(["base", "fmt"], dict(MaxSteps="3"))])]),
}
