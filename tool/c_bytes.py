"""C07 BitConverter."""
import c_large
from c_pool import ASAN
from c_array import rbytes, MAXI

WIDTH = {2: 1, 3: 2, 6: 2, 7: 2, 8: 4, 9: 4, 10: 8, 11: 8, 12: 4, 13: 8}


def word(rng, t):
    return [rng.randrange(2)] if t == 2 else rbytes(rng, WIDTH[t])


def gen(rng, thorough):
    out = []
    for _ in range(1500 if thorough else 250):
        s = []
        n = 0
        isnull = True
        for _ in range(25):
            x = rng.random()
            if x < .12:
                isnull = rng.random() < .06
                n = rng.choice([0, 1, 2, 3, 4, 5, 8, 9, 12, 17, 40])
                s.append(("use", [[-1]] if isnull else [[b for _ in range((n + 3) // 4) for b in rbytes(rng, 4)][:n]]))
            elif x < .25:
                t = rng.choice(list(WIDTH))
                s.append(("take", [[t], word(rng, t)]))
                n, isnull = WIDTH[t], False
                s.append(("to", [[t, 0]]))
            elif x < .35:
                t = rng.choice(list(WIDTH))
                s.append(("getBytes", [[t], word(rng, t)]))
            elif x < .7:
                t = rng.choice(list(WIDTH))
                i = rng.choice([rng.randrange(0, n + 2), n - WIDTH[t], n - WIDTH[t] + 1, n - 1, n, -1, MAXI, -MAXI - 1])
                s.append(("to", [[t, i]]))
            elif x < .9:
                i = rng.choice([rng.randrange(0, n + 1), 0, n, n - 1, -1, MAXI, n + 1])
                c = rng.choice([-1, 0, rng.randrange(0, n + 1), max(0, n - i) if abs(i) < 100 else 1,
                                n - i + 1 if abs(i) < 100 and n >= i else 2, MAXI, -2, 1])
                s.append(("text", [[i, c]]))
            else:
                s.append((rng.choice(["doubleBits", "bitsDouble"]), [rbytes(rng, 8)]))
        out.append(s)
    # every byte value as text, every length
    for n in (1, 2, 16, 64, 256):
        out.append([("use", [[(i * 7 + n) % 256 for i in range(256)]])] + [("text", [[k, n]]) for k in range(0, 257 - n, max(1, n // 2))])
    return out


CHECKS = {"C07": dict(stages=[dict(
    name="bits", driver="bits.cpp", flags=ASAN, trace="BitsTrace", consts={"Initial": "<- BitsInit", "Explain": "<- BitsExplain"},
    mc=[dict(module="BitsMC", consts={"Alphabet": "{0,127,128,255}", "MaxLen": "2", "Nums": "{-2,-1,0,1,2,3,2147483647}"},
             thorough={"MaxLen": "3"}, invariants=["RoundTrip", "Local", "TextLen"], limit=150, limit_thorough=3000)],
    gen=gen), c_large.stage(c_large.words, [], more=[(["arr", "fill", "hex"], dict(Types="{5}", Counts="{0,1,3,9}", Poses="{0,1,2}", MaxSteps="3"))])])}
