"""C19 integer mathematics and rounding, C21 floating-point values."""
import struct
from c_pool import ASAN, tla
from c_number import enc, edge, fbits, dbl, sgl, stretched, LONG, WIDTH, LO, HI, INTS

NULL = [-1]
SIGNED = (4, 6, 8, 10)


def isnan(t, w):
    x = struct.unpack("<d" if t == 13 else "<f", bytes(w))[0]
    return x != x


def tie(rng):
    """a double near a decimal or binary tie"""
    d = rng.randrange(16)
    k = rng.randrange(-40, 41) if rng.random() < .5 else rng.randrange(-1 << rng.randrange(1, 54), 1 << rng.randrange(1, 54))
    h = rng.choice([0, .5, .5, .5, .25, .75])
    v = (k + h) / 10 ** d
    w = int.from_bytes(struct.pack("<d", v), "little")
    w = max(0, min((1 << 64) - 1, w + rng.choice([0, 0, 0, 1, -1, 2, -2])))
    return d, enc(w, 8)


def operand(rng, t):
    return fbits(rng, t) if t in (12, 13) else enc(edge(rng, LO[t], HI[t]), WIDTH[t])


def moderate(rng):
    """a double between 2^-5 and 2^60 or so, often with few bits"""
    m = rng.randrange(1 << rng.randrange(1, 54))
    return dbl(rng.choice([1, -1]) * m * 2.0 ** -rng.randrange(60))


def math_gen(rng, thorough):
    out = []
    for _ in range(9000 if thorough else 1500):
        s = []
        for _ in range(4):
            t = rng.choice(list(INTS) * 2 + [8, 8, 10, 10, 12, 13, 13, 13])
            x, y, z = (operand(rng, t) for _ in range(3))
            if rng.random() < .3:
                y = list(x)
            if rng.random() < .2:
                z = list(y)
            if rng.random() < .2 and t in INTS:
                y = enc(int.from_bytes(bytes(x), "little") + rng.choice([1, -1, 1 << 31, 1 << 7, 1 << 15, 1 << 63]), WIDTH[t])
            if t in (12, 13):
                while isnan(t, y) or isnan(t, z):
                    y, z = operand(rng, t), operand(rng, t)
            ds = [rng.randrange(16)]
            if t == 13 and rng.random() < .7:
                d, x = tie(rng)
                if rng.random() < .2:
                    x = moderate(rng)
                ds = [d, d, 0] + [rng.choice([0, 1, 2, 15, 14, rng.randrange(16)])]
                y = rng.choice([y, tie(rng)[1], moderate(rng)])
                while isnan(t, y):
                    y = operand(rng, t)
            if t in INTS and rng.random() < .4:             # limits in order, value near them
                y, z = sorted((y, z), key=lambda w: int.from_bytes(bytes(w), "little", signed=t % 2 == 0))
            s.append(("let", [[t], x, y, z]))
            if t in INTS:
                s += [("max", []), ("min", [])]
            if t in SIGNED or t in (12, 13):
                s += [("sign", []), ("abs", [])]
            s.append(("clamp", []))
            if t == 8:
                s.append(("bigMul", []))
            if t in (8, 10):
                s.append(("divRem", []))
            if t in (10, 13):
                s.append(("divide", []))
            if t == 13:
                s += [(o, []) for o in ("round", "floor", "ceiling", "trunc")]
                for d in ds:
                    s.append(("digits", [[d]]))
                    s += [("digits", [[d, m]]) for m in (0, 1, 2, 3, 4)]
                if rng.random() < .3:
                    s.append(("digits", [rng.choice([[-1], [16], [16, 9], [3, 5], [3, -1], [0, 5], [-2147483648], [2147483647, 1], [-1, 7]])]))
        out.append(s)
    # half integers of every magnitude and their neighbours, where a rounding that adds one half itself rounds
    for k in range(-3, 55):
        s = []
        for v in {2.0 ** k, 2.0 ** k + .5, (2.0 ** k - .5), float(rng.randrange(1 << max(k, 0), 2 << max(k, 0))) + .5,
                  float(rng.randrange(1 << max(k, 0), 2 << max(k, 0)) | 1)}:
            for u in (-1, 0, 1):
                w = max(0, int.from_bytes(struct.pack("<d", v), "little") + u) | rng.choice([0, 1 << 63])
                s.append(("let", [[13], enc(w, 8), dbl(1.0), dbl(2.0)]))
                s += [(o, []) for o in ("round", "floor", "ceiling", "trunc")]
                s += [("digits", [[0, m]]) for m in (0, 1, 2, 3, 4)]
        out.append(s)
    # around 1e16, from where on a double has no digits to round
    s = []
    for v in [9999999999999998.0, 1e16, 10000000000000002.0] + [rng.choice([1, -1]) * rng.uniform(1e16, rng.choice([2e16, 1e17, 1e18, 1e20])) for _ in range(24)]:
        s.append(("let", [[13], dbl(v), dbl(1.0), dbl(2.0)]))
        for d in rng.sample(range(16), 3):
            s += [("digits", [[d, m]]) for m in rng.sample(range(5), 2)]
    out.append(s)
    # all pairs of the 8-bit types' interesting values; all SByte and Byte values for the unary functions
    for t in (4, 5):
        for c in range(0, 256, 16):
            s = []
            for b in range(c, c + 16):
                s.append(("let", [[t], [b], [rng.randrange(256)], [rng.randrange(256)]]))
                s += [(o, []) for o in ("max", "min", "clamp")]
                if t == 4:
                    s += [("sign", []), ("abs", [])]
            out.append(s)
    return out


def math_values():
    v = set()
    for t in INTS:
        for x in {LO[t], HI[t], 0, 1, LO[t] + 1 if t % 2 == 0 else 2, -1 if t % 2 == 0 else HI[t] - 1}:
            v.add((t, tuple(enc(x, WIDTH[t]))))
    for x in (0.0, -0.0, .5, -.5, 1.5, -2.5, 2.675, -1e-320, 4503599627370497.5, 9007199254740993.0, -1.7976931348623157e308, float("inf"), float("nan")):
        v.add((13, tuple(dbl(x))))
    for x in (0.0, -0.0, -1.5, 1e-45, 3.4028235e38, float("-inf"), float("nan")):
        v.add((12, tuple(sgl(x))))
    return v


def pairs(v):
    return "{%s}" % ",".join("<<%d,<<%s>>>>" % (t, ",".join(map(str, w))) for t, w in sorted(v))


def near_bits(rng, t, w):
    n = WIDTH[t]
    v = int.from_bytes(bytes(w), "little")
    return enc((v + rng.choice([0, 1, -1, 1 << (8 * n - 1), 1 << rng.randrange(8 * n), -(1 << rng.randrange(8 * n))])) % (1 << 8 * n), n)


def plain(rng, t):
    """a value of moderate size, or now and then an extreme one"""
    if rng.random() < .12:
        while True:
            w = fbits(rng, t)
            v = struct.unpack("<d" if t == 13 else "<f", bytes(w))[0]
            if v - v == 0:
                return w
    x = rng.choice([1, -1]) * rng.choice([
        rng.randrange(1 << rng.randrange(1, 40)) * 2.0 ** -rng.randrange(30),
        rng.randrange(10 ** rng.randrange(1, 9)) * 10.0 ** rng.randrange(-12, 12),
        (rng.randrange(10 ** 5, 10 ** 6) + .5) * 10.0 ** rng.randrange(-11, 6),
        float(10 ** rng.randrange(12)) - rng.choice([0, .5, .05, .005, 1, 5, 50])])
    return dbl(x) if t == 13 else sgl(x)      # at most 1e36


def number_text(rng, t):
    x = rng.random()
    if x < .3:
        w = plain(rng, t)
        v = struct.unpack("<d" if t == 13 else "<f", bytes(w))[0]
        if v in (float("inf"), float("-inf")):
            v = 1.0
        s = rng.choice(["%.17g", "%.9g", "%.6g", "%.20f", "%.3e", "%E", "%.15g"]) % v
        s = s[:60]
    elif x < .5:                                              # exactly or nearly halfway between neighbours
        from fractions import Fraction
        from decimal import Decimal, getcontext
        getcontext().prec = 900
        w = plain(rng, t)
        n = WIDTH[t]
        w[n - 1] &= 127
        top = 0x7fe if t == 13 else 0xfe
        u = int.from_bytes(bytes(w), "little")
        u = min(u, ((top << (52 if t == 13 else 23)) | ((1 << (52 if t == 13 else 23)) - 1)))
        f = "<d" if t == 13 else "<f"
        a = Fraction(struct.unpack(f, bytes(enc(u, n)))[0])
        if u + 1 < ((top + 1) << (52 if t == 13 else 23)):
            b = Fraction(struct.unpack(f, bytes(enc(u + 1, n)))[0])
        else:
            b = a
        h = (a + b) / 2
        d = Decimal(h.numerator) / Decimal(h.denominator)
        s = "%f" % d if abs(d.adjusted()) < 30 else "%e" % d
        s = format(d, "f") if abs(d.adjusted()) < 25 else format(d, "E")
        if len(s) > 120:
            s = s[:120] if "E" not in s else "1.5E" + s.split("E")[1]
        elif "E" not in s and rng.random() < .6:
            s += ("" if "." in s else ".") + rng.choice(["0000", "00000000000000000001", "1"])
    elif x < .7:
        s = "%s%d" % (rng.choice(["", "-", "+"]), rng.randrange(10 ** rng.randrange(1, 25)))
        if rng.random() < .7:
            k = rng.randrange(len(s) + 1) if s[0].isdigit() else rng.randrange(1, len(s) + 1)
            s = s[:k] + "." + s[k:]
        if rng.random() < .6:
            s += rng.choice("eE") + rng.choice(["", "+", "-"]) + "%d" % rng.choice([0, 1, 2, 5, 10, rng.randrange(50), rng.randrange(50)] + ([308, 310, 324, 330, 999] if rng.random() < .3 else []))
    else:
        s = rng.choice(["", ".", "-", "+", "-.", "e5", ".e1", "1e", "1e+", "1e-", "--1", "+-1", "1.2.3", "1 2", "- 1", "5.", ".5", "-.5", "5.e1", "00012", "-0", "0.0e5",
                        "1e5x", "abc", "1,5", "0e999", "1e400", "-1e400", "1e-400", "1e5 5", "1..2", "1e5.", "1e1e1", "1d5", "1f", "1_0", "0.1e-0", "1E+007", "$5", "1%", "(1)"])
    c = [ord(k) for k in s]
    x = rng.random()
    if x < .2:
        c = [rng.choice([9, 10, 11, 12, 13, 32]) for _ in range(rng.randrange(3))] + c + [rng.choice([9, 10, 11, 12, 13, 32]) for _ in range(rng.randrange(3))]
    elif x < .25:
        c.insert(rng.randrange(len(c) + 1), rng.choice([0, 32, 44, 46, 43, 45, 69, 0x661, 0xff11, 0x2212, 48 + 65536]))
    elif x < .28 and c:
        del c[rng.randrange(len(c))]
    if 0 in c and c.index(0) == 0 and rng.random() < .5:
        c = c[1:]
    return c


def long_number(rng, t, most):
    """many digits, many zeros, or many blanks"""
    r = rng.random()
    if r < .3:
        return stretched(rng, number_text(rng, t))
    n = rng.choice([n for n in LONG if n < most])
    if r < .6:
        s = "".join(str(rng.randrange(10)) for _ in range(n))
        k = rng.randrange(len(s) + 1)
        s = s[:k] + "." + s[k:] + ("E%d" % (rng.randrange(-40, 40) - (k if k > 250 else 0)) if rng.random() < .6 else "")
    elif r < .8:                 # a number, zeros for a long while, and another digit
        s = str(rng.choice([1, 2, 9007199254740993, 9007199254740992, 4503599627370496, 4503599627370497, 16777217, rng.randrange(10 ** 17)]))
        s += rng.choice(["", ".5"]) if "." not in s else ""
        s += ("" if "." in s else ".") + "0" * n + rng.choice(["", "1"])
    else:
        s = "0." + "0" * n + str(rng.randrange(1, 10 ** 17)) + rng.choice(["", "e%d" % n])
    return [ord(x) for x in rng.choice(["", "", "-"]) + s]


def float_gen(rng, thorough):
    out = []
    for _ in range(6000 if thorough else 700):
        s = []
        for _ in range(3):
            t = rng.choice([12, 13, 13])
            x = fbits(rng, t) if rng.random() < .7 else plain(rng, t)
            r = rng.random()
            y = near_bits(rng, t, x) if r < .4 else list(x) if r < .5 else fbits(rng, t)
            s.append(("let", [[t], x, y]))
            s += [(o, []) for o in ("class", "cmp", "max", "min")]
            if t == 13:
                s += [(o, []) for o in ("copySign", "maxMagn", "minMagn", "ilogb")]
                for n in rng.sample([0, 1, -1, 2, 10, 52, 53, -52, -53, -54, 1023, -1022, -1074, -1075, 2046, 2098, -2098, 2100, -2100, 3000, -3000, 2147483647, -2147483648, rng.randrange(-1200, 1200)], 3):
                    s.append(("scaleB", [[n]]))
                e = ((x[7] & 127) << 4) | x[6] >> 4
                s.append(("scaleB", [[rng.choice([-e - rng.randrange(-3, 56), 2046 - e + rng.randrange(-2, 3), -e + 1])]]))
            s += [("swap", []), ("cmp", []), ("max", []), ("maxMagn", []) if t == 13 else ("min", [])]
            if t == 13:
                for _ in range(rng.randrange(4)):
                    s.append((rng.choice(["up", "down"]), []))
            if rng.random() < .1:
                s.append(("limits", []))
            if t == 12:
                s.append(("bits", []))
        out.append(s)
    for _ in range(9000 if thorough else 900):
        s = []
        for _ in range(4):
            t = rng.choice([12, 13])
            s.append(("let", [[t], plain(rng, t), plain(rng, t)]))
            s.append(("text", []))
            s.append(("swap", []))
            s.append(("text", []))
            s.append(("set", [number_text(rng, t) if rng.random() < .97 else NULL]))
            s += [("parse", []), ("tryParse", [])]
        out.append(s)
    for _ in range(200 if thorough else 32):
        t = rng.choice([12, 13])
        s = [("let", [[t], plain(rng, t), plain(rng, t)])]
        for _ in range(2):
            s += [("set", [long_number(rng, t, 400 if thorough or rng.random() < .1 else 140)]), ("parse", []), ("tryParse", [])]
        out.append(s)
    return out


def words_of(t, xs):
    return "{%s}" % ",".join("<<%s>>" % ",".join(map(str, w)) for w in sorted(set(tuple(x) for x in xs)))


def dset():
    xs = [0.0, 1.0, 1.5, 123456.5, 9.9999995, 2.0 ** 52, 1e22, 5e-324, 2.2250738585072014e-308, 2.225073858507201e-308, 1.7976931348623157e308, .1, 1e-5, float("inf"), float("nan")]
    return [dbl(x) for x in xs] + [dbl(-x) for x in xs]


def sset():
    xs = [0.0, 1.0, 1.5, 1e-45, 1.1754944e-38, 1.1754942e-38, 3.4028235e38, .1, 16777216.0, float("inf"), float("nan")]
    return [sgl(x) for x in xs] + [sgl(-x) for x in xs]


def seqs(xs):
    return "{%s}" % ",".join("<<%s>>" % ",".join(str(ord(c)) for c in x) for x in xs)


FINV = ["Opposed", "Transitive", "Kinds", "Neighbours", "Extremes", "Logarithm", "Scaling", "OwnNearest", "SixDigits"]
FC = {"Family": '"values"', "Singles": "{}", "Doubles": "{}", "Shifts": "{}", "Alphabet": "{}", "MaxLen": "0", "Starts": "{}"}
CHECKS = {
    "C21": dict(stages=[dict(
        name="floats", driver="floats.cpp", flags=ASAN, trace="FloatsTrace", consts={"Initial": "<- FloatInit", "Explain": "<- FloatExplain"},
        mc=[dict(module="FloatsMC", consts=dict(FC, Singles=words_of(12, sset()), Doubles=words_of(13, dset()),
                                                Shifts="{0,1,-1,52,-53,1023,-1074,2098,-2098}"),
                 invariants=FINV, limit=1000, limit_thorough=8000),
            dict(module="FloatsMC", consts=dict(FC, Family='"text"', Alphabet="{32,43,45,46,48,49,53,57,101}", MaxLen="4", Starts="{}"),
                 thorough={"MaxLen": "5"}, invariants=["SixDigits"], limit=600, limit_thorough=12000),
            dict(module="FloatsMC", consts=dict(FC, Family='"text"', Alphabet="{48,49,53}", MaxLen="22", Starts=seqs(
                [x.rjust(20, "0") for x in ("9007199254740993.", "16777217.", "1e-32", "1.7976931348623158e3", "3.40282356e3", "2.47032822920623e-3", "0.000001")])),
                 invariants=["SixDigits"], limit=400, limit_thorough=3000)],
        gen=float_gen)]),
    "C19": dict(stages=[dict(
        name="maths", driver="maths.cpp", flags=ASAN, trace="MathsTrace", consts={"Initial": "<- MathInit", "Explain": "<- MathExplain"},
        mc=[dict(module="MathsMC", consts={"Types": "(4..13)", "Values": pairs(math_values()),
                                           "Grid": "{<<0>>,<<2>>,<<15>>,<<16>>,<<0,1>>,<<1,2>>,<<2,3>>,<<3,4>>,<<1,5>>}"},
                 invariants=["Bounds", "ClampInside", "ClampIdle", "Euclid", "Commutes", "Between", "Exact"], limit=1500, limit_thorough=8000)],
        gen=math_gen)]),
}
