"""C25 exactly defined floating-point operations."""
import struct
from c_pool import ASAN
from c_number import enc, fbits, dbl, sgl, WIDTH
from c_math import words_of


def val(t, w):
    return struct.unpack("<d" if t == 13 else "<f", bytes(w))[0]


def of(t, x):
    try:
        return dbl(x) if t == 13 else list(struct.pack("<f", x))
    except OverflowError:
        return of(t, 1.0)


def plain(rng, t):
    m = 53 if t == 13 else 24
    e = rng.choice([rng.randrange(-20, 20), rng.randrange(-70, 70), rng.randrange(-120, 120)])
    v = rng.choice([rng.randrange(1 << (m - 1), 1 << m), rng.randrange(1, 1 << rng.randrange(1, m)), 1, (1 << m) - 1, (1 << m - 1) + 1])
    return of(t, rng.choice([1, -1]) * v * 2.0 ** (e - (m - 1)))


def near(rng, t, w):
    n = 8 * WIDTH[t]
    v = int.from_bytes(bytes(w), "little")
    return enc((v + rng.choice([0, 1, -1, 2, -2])) % (1 << n), WIDTH[t])


def triple(rng):
    """x, y, z with x * y + z near a rounding boundary, or cancelling"""
    x, y = plain(rng, 13), plain(rng, 13)
    p = val(13, x) * val(13, y)
    if p != p or p in (float("inf"), float("-inf")) or p == 0:
        return x, y, plain(rng, 13)
    r = rng.random()
    if r < .4:
        z = near(rng, 13, of(13, -p))
    elif r < .7:
        z = of(13, rng.choice([1, -1]) * p * 2.0 ** rng.choice([-53, -54, 52, 53, 54, 55, -52, 106, 107, -106, -108, 1]))
    else:
        z = plain(rng, 13)
    return x, y, z


def pair(rng, t):
    """x, y for the remainders"""
    y = plain(rng, t) if rng.random() < .85 else fbits(rng, t)
    r = rng.random()
    v = val(t, y)
    if v != v or v in (0, float("inf"), float("-inf")) or r < .3:
        return (plain(rng, t) if rng.random() < .8 else fbits(rng, t)), y
    if r < .8:                                  # at or next to a whole or half multiple
        k = rng.choice([1, -1]) * (rng.randrange(0, 1 << rng.randrange(1, 50)) + rng.choice([0, .5, .5, .25]))
        return near(rng, t, of(t, max(-1e308, min(1e308, k * v)))), y
    e = rng.randrange(0, 900 if t == 13 and rng.random() < .2 else 100)
    return of(t, max(-1e308, min(1e308, v * (1 + rng.random()) * 2.0 ** e))), y


def gen(rng, thorough):
    out = []
    for _ in range(5000 if thorough else 420):
        s = []
        for _ in range(3):
            t = rng.choice([12, 13, 13, 13])
            if t == 12:
                x, y = pair(rng, 12)
                s.append(("let", [[12], x, y, fbits(rng, 12)]))
                s += [("mod", []), ("turn", []), ("mod", [])]
                continue
            x, y = pair(rng, 13)
            s.append(("let", [[13], x, y, fbits(rng, 13)]))
            s += [(o, [[1]] if rng.random() < .2 else []) for o in ("rem", "mod")]
            x, y, z = triple(rng) if rng.random() < .75 else [fbits(rng, 13) for _ in range(3)]
            s.append(("let", [[13], x, y, z]))
            s.append(("fma", [[1]] if rng.random() < .3 else []))
            if rng.random() < .3:
                s += [("turn", []), ("fma", [])]
            r = rng.random()
            if r < .4:
                x = fbits(rng, 13)
            else:
                v = rng.randrange(1 << rng.randrange(1, 54))
                x = near(rng, 13, of(13, float(v) * v * 4.0 ** rng.randrange(-200, 200)))
            if rng.random() < .9:
                x[7] &= 127
            s.append(("let", [[13], x, y, z]))
            s.append(("sqrt", [[1]] if rng.random() < .3 else []))
            if rng.random() < .2:
                s.append(("sqrt", []))
        out.append(s)
    return out


INF, NAN = float("inf"), float("nan")
DV = [0.0, -0.0, 1.0, -1.5, 3.0, .1, 2.0 ** 53 - 1, -(1 + 2.0 ** -52), 5e-324, -2.2250738585072014e-308, 1.7976931348623157e308, INF, -INF, NAN]
DQ = [0.0, -0.0, 1.0, -1.5, .1, -(1 + 2.0 ** -52), 5e-324, 1.7976931348623157e308, -INF, NAN]
DZ = [0.0, -0.0, 1.0, -1.0, -(2.0 ** -53), 2.25, -1.7976931348623157e308, 5e-324, INF, NAN]
ZQ = [0.0, -0.0, -(2.0 ** -53), 2.25, -1.7976931348623157e308, INF]
SV = [0.0, -0.0, 1.0, -1.5, 3.0, .1, 16777215.0, 1e-45, -1.1754944e-38, 3.4028235e38, INF, -INF, NAN]
INV = ["Rooted", "Squared", "Factors", "Remainders"]


def mc(t, v, z, limit, big={}):
    return dict(module="ExactsMC", consts={"Type": str(t), "Values": words_of(t, v), "Addends": words_of(t, z)}, invariants=INV, thorough=big,
                limit=limit, limit_thorough=20 * limit)


CHECKS = {"C25": dict(stages=[dict(
    name="exacts", driver="exacts.cpp", flags=ASAN, trace="ExactsTrace", consts={"Initial": "<- ExactInit", "Explain": "<- ExactExplain"},
    mc=[mc(13, [dbl(x) for x in DQ], [dbl(x) for x in ZQ], 600, dict(Values=words_of(13, [dbl(x) for x in DV]), Addends=words_of(13, [dbl(x) for x in DZ]))), mc(12, [sgl(x) for x in SV], [sgl(0.0)], 170)], gen=gen)])}
