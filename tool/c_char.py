"""C20 characters and their enumeration."""
import c_large
from c_pool import ASAN

NULL = [-1]


def chars(rng, n=None, ascii=False):
    n = rng.choice([0, 1, 1, 2, 3, 5, rng.randrange(20)]) if n is None else n
    return [rng.randrange(128) if ascii or rng.random() < .7 else rng.choice([0, 0x20ac, 0x1f600, 0xe9, 0xffff, 0x10ffff, 1, 127, 128]) for _ in range(n)]


def gen(rng, thorough):
    out = []
    for _ in range(4000 if thorough else 600):
        s = []
        for k in (0, 1):
            s.append(("set", [[k], chars(rng)]))
        on = set()
        null = [False, False]
        for _ in range(rng.randrange(10, 60)):
            x = rng.random()
            k = rng.randrange(3)
            if x < .1 or not on:
                j = rng.randrange(2)
                if not null[j]:
                    s.append(("open", [[k, j]]))
                    on.add(k)
            elif x < .8:
                s.append(("next", [[rng.choice(sorted(on))]]))
            elif x < .88:
                s.append(("back", [[rng.choice(sorted(on))]]))
            elif x < .93:
                j = rng.randrange(2)
                v = chars(rng)
                s.append(("set", [[j], v]))
                null[j] = False
        out.append(s)
    for _ in range(1500 if thorough else 300):
        s = []
        for _ in range(3):
            k = rng.randrange(2)
            v = chars(rng, ascii=True) if rng.random() < .9 else NULL
            s.append(("set", [[k], v]))
            n = len(v)
            for _ in range(8):
                i = rng.choice([0, -1, n, n - 1, n + 1, rng.randrange(n + 1), -2147483648, 2147483647])
                s.append(("at", [[k, i, rng.randrange(11)]]))
        out.append(s)
    for c in range(0, 128, 8):
        s = [("about", [[x]]) for x in range(c, c + 8)]
        s.append(("set", [[0], list(range(c, c + 8))]))
        s += [("at", [[0, i, f]]) for i in range(8) for f in range(11)]
        out.append(s)
    return out


CHECKS = {
    "C20": dict(stages=[dict(
        name="chars", driver="chars.cpp", flags=ASAN, trace="CharsTrace", consts={"Initial": "<- CharInit", "Explain": "<- CharExplain"},
        mc=[dict(module="CharsMC", consts={"Strings": "{<<65>>,<<48,32>>,<<97,97,0>>}", "Enums": "{0,1}", "Indexes": "{-1,0,1,2,3}", "AllChars": "(0..127)"},
                 thorough={"Strings": "{<<65>>,<<48,32>>,<<97,97,0>>,<<33,97,98,99>>}", "Enums": "{0,1,2}"},
                 invariants=["Yielded"], limit=900, limit_thorough=6000),
            dict(module="CharsMC", consts={"Strings": "{<<-1>>,<<65,9>>}", "Enums": "{}", "Indexes": "{-2147483647,-1,0,1,2,2147483647}", "AllChars": "{}"},
                 invariants=["Yielded"], limit=300, limit_thorough=300)],
        gen=gen), c_large.stage(c_large.walks, [], more=[(["base", "walk"], dict(MaxSteps="3"))])]),
}
