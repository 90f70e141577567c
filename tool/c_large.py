"""Stages with contents of many thousand elements (Large.tla), used by C03, C04, C06, C08, C09 and C12."""
from c_pool import ASAN

WIDTH = {3: 4, 4: 1, 5: 1, 6: 2, 7: 2, 8: 4, 9: 4, 10: 8, 11: 8, 12: 4, 13: 8}
EDGE = [255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537]
BASE = {"Initial": "<- LargeInit", "Explain": "<- LargeExplain"}


def size(rng, top=140000):
    r = rng.random()
    if r < .5:
        return min(top, rng.choice(EDGE) + rng.choice([0, 0, 1, -1, rng.randrange(40)]))
    if r < .6:
        return min(top, 65537 + rng.randrange(40000))
    if r < .8:
        return rng.randrange(top * 3 // 7, top)
    return rng.randrange(1, min(top, 5000))


def within(rng, n):
    """an amount in 0..n"""
    r = rng.random()
    if n <= 0:
        return 0
    if r < .25:
        return rng.choice([0, 1, n, n - 1, n // 2])
    if r < .55:
        c = [e for e in EDGE if e <= n]
        if c:
            return min(n, rng.choice(c) + rng.choice([0, 1]))
    return rng.randrange(n + 1)


def looks(rng, slot, n, near=()):
    ps = {0, n - 1, n // 2} | {rng.randrange(n) for _ in range(12)} if n > 0 else set()
    for x in list(near) + EDGE[-6:]:
        ps |= {x - 1, x, x + 1}
    return ("peek", [[slot] + sorted(p for p in ps if 0 <= p < n)])


def arrays(kinds):
    def gen(rng, thorough):
        out = []
        for _ in range(300 if thorough else 80):
            s = []
            same = rng.random() < .6
            t1 = rng.choice(list(WIDTH))
            t2 = t1 if "copy" in kinds or same else rng.choice(list(WIDTH))
            top = 140000 if rng.random() < .8 else 9000
            n = {1: size(rng, top), 2: size(rng, top)}
            if rng.random() < .5:
                n[2] = n[1]
            t = {1: t1, 2: t2}
            for k in (1, 2):
                s += [("arr", [[k, t[k], n[k]]]), ("fill", [[k, rng.randrange(89)]])]
            near = []
            for _ in range(3):
                op = rng.choice(kinds)
                a = rng.choice([1, 2])
                b = rng.choice([a, a, 3 - a])
                if op in ("copy", "block"):
                    u = 1 if op == "block" else None
                    na, nb = (n[a], n[b]) if u is None else (n[a] * WIDTH[t[a]], n[b] * WIDTH[t[b]])
                    m = within(rng, min(na, nb))
                    i = within(rng, na - m)
                    j = within(rng, nb - m) if rng.random() < .6 else min(nb - m, max(0, i + rng.choice([-8, -1, 1, 2, 7, m // 2, -(m // 2)])))
                    if a == b and rng.random() < .5:      # most of the array onto itself, a little further up or down
                        m = na - rng.choice([1, 2, 7, 8, 9, 64, 1000, na // 4])
                        m = max(0, min(m, na))
                        i, j = rng.choice([(0, na - m), (na - m, 0), (0, min(1, na - m)), (min(1, na - m), 0)])
                    if rng.random() < .1:
                        i, j, m = rng.choice([(i, nb - m + 1, m), (na - m + 1, j, m), (i, j, max(na, nb) + 1)])
                    s.append((op, [[a, i, b, j, m]]))
                    w = 1 if u else WIDTH[t[b]]
                    near += [j * w, (j + m) * w]
                elif op == "clear":
                    m = within(rng, n[a])
                    i = within(rng, n[a] - m)
                    if rng.random() < .1:
                        i = n[a] - m + 1
                    s.append((op, [[a, i, m]]))
                    near += [i * WIDTH[t[a]], (i + m) * WIDTH[t[a]]]
                else:
                    i = within(rng, n[a] * WIDTH[t[a]] + 1)
                    s.append((op, [[a, i, rng.randrange(256)]]))
                    near.append(i)
                for k in (1, 2):
                    s.append(looks(rng, k, n[k] * WIDTH[t[k]], near))
            out.append(s)
        return out
    return gen


def addresses(rng, thorough):
    out = []
    for _ in range(300 if thorough else 80):
        d = rng.choice([(1, 1, size(rng, 70000)), (2, 3, rng.randrange(1, 20000)), (rng.randrange(1, 300), rng.randrange(1, 300), 2),
                        (rng.randrange(1, 70), rng.randrange(1, 70), rng.randrange(1, 70)), (size(rng, 70000), 1, 1),
                        (3, size(rng, 40000), 1), (rng.randrange(1, 400), rng.randrange(1, 400), 1)])
        t = rng.choice(list(WIDTH))
        if rng.random() < .3:      # up to what 32 bits can count
            while True:
                d = tuple(rng.choice([rng.randrange(1, 50), rng.randrange(1, 2000), rng.choice([255, 256, 257, 32767, 32768, 65535, 65536]), 2 ** rng.randrange(20)]) for _ in range(3))
                if 2 ** 22 < d[0] * d[1] * d[2] * WIDTH[t] < 2 ** 31:
                    break
        s = []
        for _ in range(4):
            x = [rng.choice([k - 1, k - 1, rng.randrange(k), k // 2]) for k in d]
            if rng.random() < .1:
                x[rng.randrange(3)] += max(d)
            s.append(("addr", [[t] + list(d) + x]))
        out.append(s)
    return out


def boxes(kinds):
    """elements far into an array, one by one"""
    def gen(rng, thorough):
        out = []
        for _ in range(120 if thorough else 40):
            t = rng.choice([4, 5, 6, 7, 8, 9, 10, 11])
            n = size(rng)
            s = [("arr", [[1, t, n]]), (rng.choice(["fill", "load"]), [[1, rng.randrange(89)]])]
            near = []
            for _ in range(5):
                op = rng.choice(kinds)
                i = within(rng, n * (WIDTH[t] if op == "getByte" else 1))
                if i == n and rng.random() < .8:
                    i = n - 1
                s.append((op, [[1, i] + ([rng.randrange(128)] if op == "boxSet" else [])]))
                near.append(i * (1 if op == "getByte" else WIDTH[t]))
            s.append(looks(rng, 1, n * WIDTH[t], near))
            out.append(s)
        return out
    return gen


def builder(rng, thorough):
    out = []
    for _ in range(120 if thorough else 30):
        s, n, near = [], 0, []
        for _ in range(rng.randrange(3, 6)):
            r = rng.random()
            if n == 0 or r < .3:
                m = size(rng, 70000)
                if rng.random() < .4:
                    s.append(("rep", [[rng.randrange(33, 127), m]]))
                else:
                    s.append(("app", [[rng.randrange(89), m]]))
                near.append(n)
                n += m
            elif r < .5:
                i, m = within(rng, n), size(rng, 70000)
                if rng.random() < .05:
                    s.append(("ins", [[n + 1, 5, 3]]))
                    continue
                s.append(("ins", [[i, rng.randrange(89), m]]))
                near += [i, i + m]
                n += m
            elif r < .7:
                m = within(rng, n)
                i = within(rng, n - m)
                if rng.random() < .1:
                    s.append(("rem", [[n - m + 1, m]]))
                    continue
                s.append(("rem", [[i, m]]))
                near.append(i)
                n -= m
            elif r < .82:
                m = rng.choice([within(rng, n), n + size(rng, 3000)])
                s.append(("len", [[m]]))
                near += [n, m]
                n = m
            else:
                m = within(rng, n)
                i = within(rng, n - m)
                s.append(("map", [[i, m, rng.randrange(33, 122), rng.randrange(33, 122)]]))
                near += [i, i + m]
            if rng.random() < .7:
                s.append(looks(rng, 3, n, near))
        if rng.random() < .5:
            s.append(("str", [[0]]))
            s.append(looks(rng, 4, n, near))
        else:
            m = within(rng, n)
            i = within(rng, n - m)
            s.append(("cut", [[i, m]]))
            s.append(looks(rng, 4, m, [x - i for x in near]))
        out.append(s)
    return out


def capacity(rng, thorough):
    """builder sessions with explicit capacities in between"""
    out = []
    for s in builder(rng, thorough):
        t, n = [], 0
        for op, a in s:
            t.append((op, a))
            x = a[0]
            n = n + x[1] if op in ("app", "rep") else n
            if op in ("app", "rep") and rng.random() < .7:
                t.append(rng.choice([("ensure", [[rng.choice(EDGE) + rng.randrange(2)]]), ("cap", [[2 * n + 200000]]),
                                     ("ensure", [[n + size(rng)]])]))
        out.append(t)
    return out


def strings(rng, thorough):
    out = []
    for _ in range(120 if thorough else 30):
        n = size(rng)
        b, near = n, []
        s = [("app", [[rng.randrange(89), n]]), ("str", [[0]])]
        for _ in range(4):
            r = rng.random()
            if r < .25:
                m = within(rng, n)
                i = within(rng, n - m)
                if rng.random() < .1:
                    s.append(("sub", [[i, n - i + 1]]))
                    continue
                s.append(("sub", [[i, m]]))
                n = m
            elif r < .5:
                i, m = within(rng, n), size(rng, 70000)
                s.append(("sins", [[i, rng.randrange(89), m]]))
                n += m
                near += [i, i + m]
            elif r < .7:
                m = within(rng, n)
                i = within(rng, n - m)
                if i == n:
                    continue
                s.append(("srem", [[i, m]]))
                n -= m
                near.append(i)
            elif r < .85 and n + b < 400000:
                s.append(("scat", [[0]]))
                near.append(n)
                n += b
            else:
                w = rng.choice([n + size(rng, 3000), n, max(0, n - 1), n + 1, size(rng, 70000)])
                s.append(("pad", [[rng.randrange(2), w, rng.randrange(33, 127)]]))
                near += [n, w - n]
                n = max(n, w)
            s.append(looks(rng, 4, n, near))
        out.append(s)
    return out


def searches(rng, thorough):
    """C11: a long text with a few marks in it, searched around the marks"""
    out = []
    for _ in range(160 if thorough else 40):
        n = size(rng)
        s = [rng.choice([("app", [[rng.randrange(89), n]]), ("rep", [[rng.randrange(33, 127), n]])]), ("str", [[0]])]
        if rng.random() < .25:
            w, m = rng.randrange(1, 60), rng.randrange(2, 400)
            kind = rng.randrange(3)
            s = [("many", [[kind, m, w, rng.randrange(89), 200]])]
            n = m * w + (m - 1) * kind
        ms = []
        for _ in range(rng.randrange(1, 4)):
            i, x, w = within(rng, n), rng.choice([300, 300, 400, 60000]), rng.choice([1, 2, 2, 3])
            s.append(("mark", [[i, x, w]]))
            ms = [(p + w if p >= i else p, y, v) for p, y, v in ms] + [(i, x, w)]
            n += w
        for p, x, w in ms:          # two characters that lie half inside what is searched
            i = min(n - 1, p + rng.randrange(2))
            s.append(("find", [[4, x, i, rng.choice([i + 1, 1, min(2, i + 1)])]]))
            s.append(("find", [[1, x, i, min(n - i, rng.choice([1, 2, 3]))]]))
        for _ in range(9):
            p, x, w = rng.choice(ms)
            mode = rng.choice([0, 1, 1, 2, 3, 4, 4, 5])
            c = rng.choice([x, x, x, x, x, x + 1, 300, 200, 500, rng.randrange(33, 122)])
            if mode % 3 == 1 and c < 200:
                c = x
            if mode < 3:
                i = rng.choice([0, 0, max(0, p - 1), p, min(n, p + 1), within(rng, n)])
                m = rng.choice([n - i, n - i, min(n - i, max(0, p - i + rng.choice([0, 1, 2, 3]))), within(rng, n - i)])
                if rng.random() < .05:
                    m = n - i + 1
            else:
                i = rng.choice([n - 1, n - 1, max(0, p - 1), p, p, min(n - 1, p + 1), min(n - 1, p + rng.randrange(3)), min(n - 1, within(rng, n))])
                m = rng.choice([i + 1, i + 1, max(0, min(i + 1, i - p + rng.choice([0, 1, 2]))), within(rng, i + 1)])
                if rng.random() < .05:
                    m = i + 2
            s.append(("find", [[mode, c, i, m]]))
            if rng.random() < .3:
                s.append(("has", [[c if c >= 200 else x, rng.choice([1, 2, w, w + 1])]]))
        out.append(s)
    return out


def compares(rng, thorough):
    """C10: two long texts that differ in one place"""
    out = []
    for _ in range(160 if thorough else 40):
        n = size(rng)
        seed = rng.randrange(89)
        s = [rng.choice([("app", [[seed, n]]), ("rep", [[rng.choice([65, 97, 48, 0x4e00]), n]])]), ("str", [[0]])]
        if rng.random() < .3:
            m = size(rng, 20000)
            s.append(("pad", [[rng.randrange(2), n + m, rng.randrange(33, 127)]]))
            n += m
        for _ in range(4):
            kind = rng.choice([0, 0, 0, 0, 1, 2, 3])
            if n == 0 and kind in (0, 2):
                kind = 1
            p = min(n - 1, within(rng, n))
            s.append(("twin", [[kind, max(p, 0), rng.choice([65, 97, 90, 122, 33, 121, 0x4e01, rng.randrange(33, 122)])]]))
            s.append(("cmp", [[0]]))
        out.append(s)
    return out


def shapes(rng, thorough):
    """C12: edits over the whole of a long text, and texts put together from many pieces"""
    out = []
    for _ in range(120 if thorough else 30):
        r = rng.random()
        if r < .4:
            n = size(rng, 60000)
            s = [("app", [[rng.randrange(89), n]]), ("str", [[0]])]
            near = []
            for _ in range(3):
                q = rng.random()
                if q < .3:
                    s.append(("case", [[rng.randrange(2)]]))
                elif q < .6:
                    s.append(("smap", [[rng.randrange(33, 122), rng.randrange(33, 122)]]))
                else:
                    mode, a, b = rng.randrange(1, 4), size(rng, 40000), size(rng, 40000)
                    s.append(("trim", [[mode, a, b]]))
                    near += [n]
                    if mode == 2:
                        n += b
                    if mode == 3:
                        n += a
                        near = [a]
                    s.append(looks(rng, 4, n, near))
                    break
                s.append(looks(rng, 4, n, near))
        else:
            w = rng.choice([1, 2, 3, rng.randrange(1, 100), rng.randrange(1, 700)])
            m = rng.choice([rng.choice([15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257]),
                            rng.randrange(1, 1200)])
            m = min(m, 60000 // w)
            kind = rng.randrange(3)
            sep = rng.choice([44, 32, 300])
            if rng.random() < .5:
                kind, sep = 1, 300
            s = [("many", [[kind, m, w, rng.randrange(89), sep]])]
            n = m * w + (m - 1) * kind
            near = [k * (w + kind) for k in (16, 32, 64, 100, 128, 255, 256, m - 1)]
            s.append(looks(rng, 4, n, near))
            if kind == 1 and sep == 300:
                new = [rng.randrange(33, 122) for _ in range(rng.choice([0, 1, 2, 3]))]
                s.append(("retile", [[4, 300] + new]))
                n = m * w + (m - 1) * len(new)
                s.append(looks(rng, 4, n, [k * (w + len(new)) for k in (16, 32, 64, 100, 128, 255, 256, m - 1)]))
        out.append(s)
    return out


def strings12(rng, thorough):
    return strings(rng, thorough) + shapes(rng, thorough)


def builder8(rng, thorough):
    """C08: the edits of `builder`, and replacements of many occurrences"""
    out = builder(rng, thorough)
    for _ in range(80 if thorough else 20):
        w = rng.choice([1, 2, 3, rng.randrange(1, 100)])
        m = rng.choice([rng.choice([15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 258]), rng.randrange(1, 600)])
        new = [rng.randrange(33, 122) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
        n = m * w + (m - 1) * len(new)
        out.append([("tile", [[m, w, rng.randrange(89), 300]]), ("count", [[300]]), ("retile", [[3, 300] + new]),
                    looks(rng, 3, n, [k * (w + len(new)) for k in (16, 64, 128, 255, 256, m - 1)])])
    for _ in range(12 if thorough else 4):
        m, w = rng.choice([(65536, 65537), (21500, 200000), (65537, 65537), (43000, 100001), (50000, 43000), (131072, 32769)])
        out.append([("flood", [[m, w]]), looks(rng, 3, m, [])])
    return out


def walks(rng, thorough):
    out = []
    for _ in range(60 if thorough else 15):
        n = size(rng, 140000)
        s = [("app", [[rng.randrange(89), n]]), ("str", [[0]])]
        for _ in range(2):
            s.append(("walk", [looks(rng, 4, n, [])[1][0][1:]]))
        out.append(s)
    return out


def words(rng, thorough):
    """C07: bytes far into an array, and the text of many"""
    out = []
    for _ in range(60 if thorough else 15):
        n = size(rng, 140000)
        s = [("arr", [[1, 5, n]]), ("fill", [[1, rng.randrange(89)]])]
        for _ in range(4):
            s.append(("word", [[1, rng.choice([within(rng, n), max(0, n - 8), max(0, n - 7)])]]))
        m = min(within(rng, n), 40000)
        i = rng.choice([0, n - m, within(rng, n - m)])
        if m:
            s.append(("hex", [[1, i, m] + looks(rng, 1, 3 * m - 1, [3 * e for e in EDGE])[1][0][1:]]))
        out.append(s)
    return out


def texts(rng, thorough):
    """C26: long texts formatted into a buffer with just enough room, or more"""
    out = []
    for _ in range(60 if thorough else 15):
        n = size(rng)
        s = [("app", [[rng.randrange(89), n]]), ("str", [[0]])]
        for slot in (3, 4):
            s.append(("fmt", [[slot, rng.choice([1, 2, 100])] + looks(rng, slot, n, [])[1][0][1:]]))
        out.append(s)
    return out


def seeks(rng, thorough):
    out = []
    for _ in range(120 if thorough else 40):
        n = size(rng)
        i, j = min(n - 1, within(rng, n)), min(n - 1, within(rng, n))
        if n > 1 and rng.random() < .5:
            i, j = n - 1 - rng.randrange(min(n, 300)), n - 1
        s = []
        for _ in range(4):
            p = rng.choice([0, 0, i, min(n, i + 1), max(0, i - 1), within(rng, n)])
            m = rng.choice([n - p, n - p, max(0, min(n - p, j - p + rng.randrange(2))), within(rng, n - p)])
            if rng.random() < .05:
                m = n - p + 1
            s.append(("seek", [[n, i, j, p, m]]))
        out.append(s)
    return out


def stage(gen, ops, types="{5,8}", counts="{0,1,3}", poses="{0,1,2}", steps=4, limit=60, more=()):
    base = {"Types": types, "Counts": counts, "Poses": poses, "MaxSteps": str(steps)}
    quoted = lambda names: "{%s}" % ",".join('"%s"' % o for o in names)
    mc = []
    if ops:
        mc.append(dict(module="LargeMC", consts=dict(base, Ops=quoted(ops)), invariants=["Agree"], limit=limit, limit_thorough=2000))
    for names, consts in more:
        mc.append(dict(module="LargeMC", consts=dict(base, Ops=quoted(names), **consts), invariants=["Agree", "Finds", "Parts"],
                       limit=limit, limit_thorough=2000))
    return dict(name="large", driver="large.cpp", flags=ASAN, trace="LargeTrace", consts=dict(BASE), gen=gen, mc=mc)
