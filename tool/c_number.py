"""C13 text of integers, C14 boxed values."""
import struct
from c_pool import ASAN, tla
from c_array import rbytes, MAXI, halfway

NULL = [-1]
WIDTH = {2: 1, 3: 4, 4: 1, 5: 1, 6: 2, 7: 2, 8: 4, 9: 4, 10: 8, 11: 8, 12: 4, 13: 8, 15: 8, 16: 8}
INTS = range(4, 12)
LO = {t: -(1 << (8 * WIDTH[t] - 1)) if t % 2 == 0 else 0 for t in INTS}
HI = {t: (1 << (8 * WIDTH[t] - 1)) - 1 if t % 2 == 0 else (1 << 8 * WIDTH[t]) - 1 for t in INTS}
MAXTICKS = 3155378975999999999


def enc(v, n):
    return list((v & ((1 << 8 * n) - 1)).to_bytes(n, "little"))


def edge(rng, lo, hi):
    """an integer in [lo, hi], likely at an edge of the range or of a power of two or ten"""
    x = rng.random()
    if x < .1 and hi >= 1 << 30:
        v = rng.choice([1, -1 if lo else 1]) * halfway(rng, hi.bit_length())
    elif x < .3:
        v = rng.choice([lo, hi, 0, lo + rng.randrange(4), hi - rng.randrange(4), rng.randrange(-5, 6)])
    elif x < .5:
        v = rng.choice([1, -1]) * (1 << rng.randrange(64)) + rng.randrange(-2, 3)
    elif x < .7:
        v = rng.choice([1, -1]) * 10 ** rng.randrange(20) + rng.randrange(-2, 3)
    elif x < .85:
        v = rng.choice([1, -1]) * rng.randrange(1 << rng.randrange(1, 65))
    else:
        v = rng.randrange(lo, hi + 1)
    return min(hi, max(lo, v))


WS = [9, 10, 11, 12, 13, 32]
ODD = [0, 46, 44, 43, 45, 95, 101, 69, 120, 88, 47, 58, 0x661, 0xff11, 65, 97, 0x2212, 304, 48 + 65536, 48 + 256]


def literal(rng, t):
    lo, hi = LO.get(t, -300), HI.get(t, 300)
    x = rng.random()
    if x < .55:
        v = edge(rng, lo, hi)
    elif x < .8:
        v = rng.choice([lo, hi]) + rng.choice([-1, 1]) * rng.choice([1, 1, 1, 2, 9, 10, 100, 256, 1 << 32, 1 << 64])
    elif x < .9:
        v = rng.choice([lo, hi, rng.randrange(1, 99)]) * rng.choice([10, 100, 1 << 8, 1 << 16, 1 << 32, 1 << 64])
    else:
        v = rng.choice([1, -1]) * ((rng.randrange(1, 40) << rng.choice([8, 16, 32, 64, 64, 128])) + edge(rng, lo, hi))
    s = str(v)
    if rng.random() < .25:
        s = s.replace("-", "-" + "0" * rng.choice([1, 2, 30])) if v < 0 else "0" * rng.choice([1, 2, 30]) + s
    if rng.random() < .15 and v >= 0:
        s = rng.choice(["+", "-"]) + s
    c = [ord(k) for k in s]
    if rng.random() < .25:
        c = [rng.choice(WS) for _ in range(rng.randrange(3))] + c + [rng.choice(WS) for _ in range(rng.randrange(3))]
    x = rng.random()
    if x < .12:
        c.insert(rng.randrange(len(c) + 1), rng.choice(ODD + WS))
    elif x < .16 and c:
        del c[rng.randrange(len(c))]
    elif x < .2 and c:
        c[rng.randrange(len(c))] = rng.choice(ODD + WS)
    elif x < .22:
        c = rng.choice([[], [32], [43], [45], [32, 45], [45, 32, 49], [43, 45, 49], [48, 120, 49], [49, 101, 50], [45, 45, 49], [49, 0], [0, 49], [49, 0, 50], [49, 32, 50]])
    return c


def wordy(rng):
    w = rng.choice(["True", "False", "true", "FALSE", "tRuE", "fAlSe", " True", "True ", "Tru", "Truee", "1", "0", "", "yes", "TrueFalse", "False\0"])
    return [ord(k) for k in w]


LONG = [31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025]


def stretched(rng, c):
    """the text c with a lot of zeros in front of its digits or of blanks around it"""
    n = rng.choice(LONG) + rng.choice([0, 0, -1, 1])
    k = rng.randrange(3)
    if k == 0:
        i = next((i for i, x in enumerate(c) if 48 <= x < 58), 0)
        return c[:i] + [48] * n + c[i:]
    b = [rng.choice([32, rng.choice(WS)])] * n
    return b + c if k == 1 else c + b


def num_gen(rng, thorough):
    out = []
    for k in range(5000 if thorough else 700):
        s = []
        for _ in range(12):
            t = rng.choice([2, 3] + list(INTS) * 2)
            x = rng.random()
            if x < .3:
                if t == 2:
                    s.append(("show", [[2], [rng.randrange(2)]]))
                elif t == 3:
                    s.append(("show", [[3], [rng.choice([48, 65, 97, 32, 0x20ac, 0x1f600, 126, 10, 0xff, 1])]]))
                else:
                    s.append(("show", [[t], enc(edge(rng, LO[t], HI[t]), WIDTH[t])]))
            elif x < .33 and t > 3:
                s.append(("limit", [[t, rng.randrange(2)]]))
            elif x < .35:
                s.append(("set", [NULL]))
            elif t == 2:
                s.append(("set", [wordy(rng)]))
            elif t == 3:
                s.append(("set", [rng.choice([[], [0], [65], [65, 66], [0x1f600], [32], [49, 0]])]))
            else:
                s.append(("set", [literal(rng, t)]))
            s.append(("parse", [[t]]))
            if t != 2:
                s.append(("tryParse", [[t]]))
            if rng.random() < .5:
                u = rng.choice([2, 3] + list(INTS))
                s.append(("parse", [[u]]))
        out.append(s)
    # long ways to write a number
    for _ in range(200 if thorough else 40):
        s = []
        for _ in range(3):
            t = rng.choice(list(INTS))
            c = literal(rng, t)
            s += [("set", [stretched(rng, c)]), ("parse", [[t]]), ("tryParse", [[rng.choice([t, t, 10])]])]
        out.append(s)
    # every value of the 8-bit types; a stride through the 16-bit types
    for t in (4, 5):
        for c in range(0, 256, 32):
            out.append([o for b in range(c, c + 32) for o in (("show", [[t], [b]]), ("parse", [[t]]))])
    for t in (6, 7):
        step = 13 if thorough else 211
        vals = list(range(rng.randrange(step), 65536, step))
        for c in range(0, len(vals), 40):
            out.append([o for b in vals[c:c + 40] for o in (("show", [[t], enc(b, 2)]), ("tryParse", [[t]]))])
    return out


def dbl(x):
    return list(struct.pack("<d", x))


def sgl(x):
    return list(struct.pack("<f", x))


def fbits(rng, t):
    """bytes of an interesting floating-point value"""
    n = WIDTH[t]
    mb, eb = (52, 11) if t == 13 else (23, 8)
    x = rng.random()
    s = rng.randrange(2)
    top = (1 << eb) - 1
    if x < .15:
        e, m = rng.choice([(0, 0), (0, 1), (0, (1 << mb) - 1), (1, 0), (top - 1, (1 << mb) - 1), (top, 0), (top, 1), (top, 1 << (mb - 1)), (top, (1 << mb) - 1), (top >> 1, 0)])
    elif x < .25:
        e, m = 0, rng.choice([rng.randrange(1, 1 << mb), 1 << rng.randrange(mb)])
    elif x < .6:
        e = (top >> 1) + rng.randrange(-3, 66)
        m = rng.choice([0, rng.randrange(1 << mb), 1 << rng.randrange(mb), (1 << mb) - 1, ((1 << mb) - 1) ^ ((1 << rng.randrange(mb)) - 1)])
        e = min(e, top - 1)
    else:
        e, m = rng.randrange(top + 1), rng.choice([0, 1, (1 << mb) - 1, rng.randrange(1 << mb), 1 << rng.randrange(mb)])
    return enc((s << (mb + eb)) | (e << mb) | m, n)


def value(rng, t):
    if t == 2:
        return [2, rng.randrange(2)]
    if t == 3:
        return [3] + enc(rng.choice([0, 1, 48, 65, 97, 127, 128, 255, 256, 0x7fff, 0x8000, 0xffff, 0x10ffff, rng.randrange(0x110000)]), 4)
    if t in (12, 13):
        return [t] + fbits(rng, t)
    if t == 15:
        return [15] + enc(edge(rng, 0, MAXTICKS), 8)
    if t == 16:
        return [16] + enc(edge(rng, -1 << 63, (1 << 63) - 1), 8)
    return [t] + enc(edge(rng, LO[t], HI[t]), WIDTH[t])


def near_value(rng, v):
    t = v[0]
    if rng.random() < .3 or t in (2, 17, 1):
        return list(v)
    w = int.from_bytes(bytes(v[1:]), "little")
    n = len(v) - 1
    d = rng.choice([1, -1, 1 << rng.randrange(8 * n), -(1 << rng.randrange(8 * n)), 1 << (8 * n - 1)])
    w = (w + d) % (1 << 8 * n)
    if t == 3:
        w = min(w, 0x10ffff)
    if t == 15:
        w = min(w, MAXTICKS)
    return [t] + enc(w, n)


def box_gen(rng, thorough):
    out = []
    types = [2, 3] + list(INTS) + [12, 13, 15, 16]
    for _ in range(6000 if thorough else 900):
        s = []
        for _ in range(6):
            t = rng.choice(types)
            x = value(rng, t) if rng.random() < .95 else rng.choice([[17, 0], [17, 1], [1, 2], [1, 3]])
            r = rng.random()
            y = near_value(rng, x) if r < .5 else value(rng, x[0]) if r < .75 and x[0] in types else NULL if r < .8 else \
                rng.choice([[17, 0], [17, 1], [1, 2], [1, 3]]) if r < .85 else value(rng, rng.choice(types))
            if y != NULL and y[0] != x[0] and rng.random() < .6 and x[0] in INTS and y[0] in INTS:
                y = [y[0]] + (x[1:] + [0] * 8)[:WIDTH[y[0]]]          # the same number in another type
            s.append(("let", [[0], x]))
            s.append(("let", [[1], y]))
            s.append(("equals", [[0]]))
            s.append(("equals", [[1]]))
            if x[0] in types:
                s.append(("compare", [[0]]))
                if y[0] == x[0]:
                    s.append(("equals", [[2]]))
                    s.append(("compare", [[1]]))
            for u in rng.sample([2, 3] + list(INTS) + [12, 13, 15, 16], 6):
                s.append(("as", [[u]]))
            s.append(("type", []))
        out.append(s)
    return out


def boxes():
    b = set()
    for t in INTS:
        for v in {LO[t], HI[t], 0, 1, -1 if LO[t] else HI[t] // 2 + 1}:
            b.add(tuple([t] + enc(v, WIDTH[t])))
    b |= {(2, 0), (2, 1), (3, 65, 0, 0, 0), (3, 172, 32, 0, 0), (17, 0), (1, 2)}
    for x in (0.0, -0.0, 1.5, -1.5, float("inf"), float("nan"), 255.99):
        b.add(tuple([13] + dbl(x)))
    for x in (0.0, -0.0, 2.5, float("-inf"), float("nan")):
        b.add(tuple([12] + sgl(x)))
    for v in (0, 1, MAXTICKS):
        b.add(tuple([15] + enc(v, 8)))
    for v in (-1 << 63, -1, 0, (1 << 63) - 1):
        b.add(tuple([16] + enc(v, 8)))
    return b


NUMC = {"Initial": "<- NumInit", "Explain": "<- NumExplain"}
INV = ["Agree", "Canonical", "Widening"]
CHECKS = {
    "C13": dict(stages=[dict(
        name="numbers", driver="number.cpp", flags=ASAN, trace="NumbersTrace", consts=NUMC,
        mc=[dict(module="NumbersMC", consts={"Alphabet": "{32,43,45,48,49,120}", "MaxLen": "4", "Types": "(2..11)", "Starts": "{}"},
                 thorough={"Alphabet": "{32,9,43,45,48,49,120,0}"}, invariants=INV, limit=400, limit_thorough=6000),
            dict(module="NumbersMC", consts={"Alphabet": "{48,49,50,53,54,55,56}", "MaxLen": "4", "Types": "{4,5}", "Starts": "{<<45>>,<<48>>,<<49>>,<<50>>}"},
                 invariants=INV, limit=400, limit_thorough=6000),
            dict(module="NumbersMC", consts={"Alphabet": "{48,55,56,57}", "MaxLen": "7", "Types": "(4..11)",
                                             "Starts":
                                             "{%s}" % ",".join("<<%s>>" % ",".join(str(ord(c)) for c in x) for x in ("3276", "-3276", "6553"))},
                 invariants=INV, limit=200, limit_thorough=2000)],
        gen=num_gen)]),
    "C14": dict(stages=[dict(
        name="boxes", driver="box.cpp", flags=ASAN, trace="BoxesTrace", consts={"Initial": "<- BoxInit", "Explain": "<- BoxExplain"},
        mc=[dict(module="BoxesMC", consts={"Boxed": "{%s}" % tla(sorted(boxes()))[2:-2]},
                 invariants=["Antisymmetric", "Transitive", "AgreesWithDouble", "ThereAndBack", "SingleExact"], limit=2000, limit_thorough=4000)],
        gen=box_gen)]),
}
