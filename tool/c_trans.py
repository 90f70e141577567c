"""C24 transcendental functions."""
import math
import struct
from c_pool import ASAN
from c_number import fbits, dbl
from c_math import words_of

INF, NAN = float("inf"), float("nan")
TRIG = ("sin", "cos", "tan")
HYP = ("exp", "sinh", "cosh", "tanh")
LOGS = ("log", "log2", "log10")
ARCS = ("asin", "acos", "atanh")
WIDE = ("atan", "asinh", "cbrt")
UNARY = TRIG + HYP + LOGS + ARCS + WIDE + ("acosh",)


def ulps(x, n):
    if x != x or math.isinf(x):
        return x
    w = int.from_bytes(struct.pack("<d", x), "little")
    v = struct.unpack("<d", ((w + n) % (1 << 64)).to_bytes(8, "little"))[0]
    return x if v != v else v


def jitter(rng, x):
    return ulps(x, rng.choice([0, 0, 1, -1, 2, -2, rng.randrange(-1000, 1000)]))


def scale(rng, lo, hi):
    """a double with an exponent between lo and hi"""
    m = rng.choice([1 + rng.random(), 1 + rng.random(), 1.0, 1.5, 2 - 2.0 ** -52, 1 + rng.randrange(1 << 20) / (1 << 20)])
    try:
        return m * 2.0 ** rng.randrange(lo, hi + 1)
    except OverflowError:
        return 1.0


def arg(rng, kind):
    r = rng.random()
    if r < .06:
        return struct.unpack("<d", bytes(fbits(rng, 13)))[0]
    s = rng.choice([1, -1])
    if r < .16:
        return s * scale(rng, -1074, 1023)
    if kind in TRIG:
        r = rng.random()
        if r < .3:
            return s * scale(rng, -30, 5)
        if r < .65:                      # next to a multiple of a quarter of pi
            k = rng.randrange(1 << rng.randrange(1, 40))
            return s * jitter(rng, k * (math.pi / 4))
        if r < .8:
            return s * scale(rng, 5, 70)
        return s * scale(rng, 400, 1023)
    if kind in HYP:
        r = rng.random()
        if r < .35:
            return s * scale(rng, -32, 3)
        if r < .5:
            return s * rng.choice([rng.uniform(0, 45), rng.uniform(15, 24), rng.uniform(.3, .4)])
        if r < .65:
            return s * rng.uniform(680, 760)
        if r < .8:
            return s * jitter(rng, rng.choice([709.782712893384, 710.4758600739439, 745.1332191019411, 708.3964185322641, 22.0, 40.0, .34657359027997264, 1300.0, 18.714973875118524]))
        return s * jitter(rng, rng.randrange(0, 1030) * math.log(2) / 2)
    if kind in LOGS:
        r = rng.random()
        if r < .4:
            return 1 + rng.choice([1, -1]) * scale(rng, -53, -1)
        if r < .5:
            return 10.0 ** rng.randrange(-5, 24)
        if r < .6:
            return 2.0 ** rng.randrange(-1074, 1024)
        return s * scale(rng, -1074, 1023) if rng.random() < .2 else scale(rng, -1074, 1023)
    if kind in ARCS:
        r = rng.random()
        if r < .4:
            return s * rng.random()
        if r < .7:
            return s * (1 - scale(rng, -53, -1) * .5)
        if r < .76:
            return s * jitter(rng, 1.0)
        return s * scale(rng, -34, -1)
    if kind == "acosh":
        return rng.choice([1 + scale(rng, -52, 3), scale(rng, 0, 30), scale(rng, 20, 60), scale(rng, 30, 1023), jitter(rng, 2.0), jitter(rng, 1.0), jitter(rng, 2.0 ** 28)])
    if kind == "cbrt" and rng.random() < .5:
        k = rng.randrange(1, 1 << rng.randrange(2, 18))
        return s * jitter(rng, float(k) ** 3 * 8.0 ** rng.randrange(-300, 300))
    return s * rng.choice([scale(rng, -32, 4), scale(rng, -3, 60), jitter(rng, rng.choice([1.0, .4375, .6875, 1.1875, 2.4375, 2.0 ** 28, 2.0]))])


def pow_args(rng):
    r = rng.random()
    if r < .2:
        x = rng.choice([1, -1]) * float(rng.randrange(1, 1 << rng.randrange(1, 20)))
        return x, float(rng.randrange(-60, 61))
    if r < .45:
        x = 1 + rng.choice([1, -1]) * scale(rng, -52, -1)
        return abs(x) or .5, rng.choice([1, -1]) * scale(rng, 0, 60)
    if r < .75:                          # results spread over the whole range, and just beyond
        x = scale(rng, -300, 300)
        l = math.log2(x)
        return x, (rng.uniform(-1100, 1050) / l if l else 3.0)
    if r < .85:
        return -scale(rng, -10, 10), float(rng.choice([rng.randrange(-40, 40), 2 ** 53 - 1, 2 ** 53, 2 ** 53 - 2, 0.5, 3.5, 2 ** 52 + 1]))
    return scale(rng, -1074, 1023), rng.choice([1, -1]) * scale(rng, -60, 8)


def atan2_args(rng):
    y = rng.choice([1, -1]) * scale(rng, -60, 60)
    r = rng.random()
    if r < .3:
        return y, rng.choice([1, -1]) * y * rng.choice([1, 2, .5, 3, 1 + 2.0 ** -52])
    if r < .6:
        return y, rng.choice([1, -1]) * abs(y) * scale(rng, -70, 70)
    if r < .8:
        return rng.choice([1, -1]) * scale(rng, -1074, 1023), rng.choice([1, -1]) * scale(rng, -1074, 1023)
    return y, rng.choice([1, -1]) * scale(rng, -2, 2)


def logb_args(rng):
    x = arg(rng, "log")
    b = rng.choice([2.0, 10.0, .5, 3.0, math.e, 16.0, arg(rng, "log"), arg(rng, "log"), 0.0, INF, -INF, 1.0, ulps(1.0, 1), ulps(1.0, -1), -2.0, NAN])
    return x, b


SPECIAL = [0.0, -0.0, INF, -INF, NAN, 1.0, -1.0, 2.0, .5, 3.0, -3.0, 5e-324, -5e-324, 1.7976931348623157e308]


def gen(rng, thorough):
    out = []
    for _ in range(9000 if thorough else 620):
        s = []
        for _ in range(2):
            op = rng.choice(UNARY)
            for o, x in ((op, arg(rng, op)), (op, arg(rng, op))):
                s.append(("let", [dbl(x), dbl(1.0)]))
                s.append((o, [[1]] if rng.random() < .3 else []))
            back = {"sin": "asin", "asin": "sin", "cos": "acos", "acos": "cos", "tan": "atan", "atan": "tan", "sinh": "asinh", "asinh": "sinh", "cosh": "acosh", "acosh": "cosh",
                    "tanh": "atanh", "atanh": "tanh", "exp": "log", "log": "exp"}.get(op)
            if back and rng.random() < .6:
                s += [(op, [[1]]), (back, [[1]]), (op, [])]
        for o, f in (("pow", pow_args), ("atan2", atan2_args), ("logb", logb_args)):
            x, y = f(rng) if rng.random() < .93 else (rng.choice(SPECIAL), rng.choice(SPECIAL))
            s.append(("let", [dbl(x), dbl(y)]))
            s.append((o, [[1]] if rng.random() < .2 else []))
            if rng.random() < .2:
                s += [("swap", []), (o, [])]
        c = rng.choice(("pi", "e"))
        s += [(c, [[1]]), ({"pi": rng.choice(("sin", "cos", "tan")), "e": "log"}[c], [])]
        out.append(s)
    return out


ONE = [0.0, -0.0, 1.0, -1.0, .5, -.7, .1, 3.0, -2.5, 20.0, -36.0, 100.25, 709.78, -745.0, 711.0, 1e10, -1e22, 1.7976931348623157e308, 5e-324, -1e-300, 1e-9, 1 + 2.0 ** -52, 1 - 2.0 ** -53,
       math.pi, -math.pi / 2, 2.0 ** -28, 1000.0, 1e22, INF, -INF, NAN]
MANY = ONE + [2.0 ** -27, 6381956970095103 * 2.0 ** 797, 2.0 ** 52, -1e-5, .9999, 2.718281828459045, 1.4142135623730951, .7071067811865476, 39.99, 1023.0, 3e-308, math.pi / 4, 12345.678, 2.0 ** 1000]
FIRST = [0.0, -0.0, 1.0, -1.0, .5, -3.0, 10.0, 1.7976931348623157e308, -5e-324, 1 + 2.0 ** -52, INF, -INF, NAN]
INV = ["Exponentials", "Logarithms", "Circle", "Hyperbola", "Areas", "Cubes"]


def mc(v, y, ops, limit, big={}):
    return dict(module="TransMC", consts={"Values": words_of(13, v), "Seconds": words_of(13, y), "Asked": "{%s}" % ", ".join('"%s"' % o for o in ops)}, invariants=INV,
                thorough=big, limit=limit, limit_thorough=20 * limit)


CHECKS = {"C24": dict(stages=[dict(
    name="trans", driver="trans.cpp", flags=ASAN, trace="TransTrace", consts={"Initial": "<- TransInit", "Explain": "<- TransExplain"},
    mc=[mc([dbl(x) for x in ONE], [dbl(3.0)], UNARY, 700, dict(Values=words_of(13, [dbl(x) for x in MANY]))),
        mc([dbl(x) for x in FIRST], [dbl(x) for x in FIRST], ("pow", "atan2", "logb"), 600)], gen=gen)])}
