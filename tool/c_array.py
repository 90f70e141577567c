"""C03 array geometry, C04 block operations, C05 boxed access, C06 raw buffers."""
import c_large
from c_pool import ASAN, tla

SIZE = {1: 1, 2: 1, 3: 4, 4: 1, 5: 1, 6: 2, 7: 2, 8: 4, 9: 4, 10: 8, 11: 8, 12: 4, 13: 8, 15: 8, 16: 8, 17: 1}
PRIM = [2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16]
INTS = [4, 5, 6, 7, 8, 9, 10, 11]
NOBJ = 11
OBJECTS = "<<<<17,1>>,<<17,1>>,<<17,2>>,<<17,3>>,<<8,4>>,<<8,4>>,<<10,5>>,<<8,6>>,<<1,7>>,<<1,8>>,<<2,9>>>>"
MAXI = 2147483647
NH, NE, EXT = 3, 2, 64
BASE = {"NH": str(NH), "NE": str(NE), "ExtLen": str(EXT), "Objects": OBJECTS, "Initial": "<- ArrInit",
        "Explain": "<- ArrExplain"}


def rbytes(rng, n):
    r = rng.random()
    if r < .15:
        return [0] * n
    if r < .3:
        return [255] * n
    if r < .45:
        b = [0] * n
        b[-1] = 128
        return b
    if r < .55:
        b = [255] * n
        b[-1] = 127
        return b
    if r < .7:
        return [rng.randrange(256)] + [rng.choice([0, 255])] * (n - 1)
    return [rng.randrange(256) for _ in range(n)]


def halfway(rng, bits):
    """an integer of at most `bits` bits at or next to a rounding tie of a single or a double - or of both: a tie of the
    single that a double cannot tell from its neighbours"""
    m = rng.choice([24, 24, 53])
    k = rng.randrange(1, max(2, bits - m))
    v = (rng.randrange(1 << (m - 1), 1 << m) << k) + (1 << (k - 1))
    v += rng.choice([-1, 0, 1, 1, -1, -(1 << rng.randrange(k)), 1 << rng.randrange(k)])
    return v % (1 << bits)


def value(rng, t):
    """bytes of a valid element of type t"""
    if t in (8, 9, 10, 11) and rng.random() < .3:
        n = SIZE[t]
        v = halfway(rng, 8 * n - (1 - t % 2))
        return list(((-v if t % 2 == 0 and rng.random() < .5 else v) % (1 << 8 * n)).to_bytes(n, "little"))
    if t in (6, 7, 8, 9, 10, 11) and rng.random() < .35:      # at and around the ends of the narrower types
        n = SIZE[t]
        w = rng.choice([x for x in (7, 8, 15, 16, 31, 32, 63) if x < 8 * n])
        v = (1 << w) + rng.choice([-1, 0, 1, rng.randrange(1 << w), rng.randrange(1 << w), rng.randrange(256)])
        return list(((-v if rng.random() < .4 else v) % (1 << 8 * n)).to_bytes(n, "little"))
    if t == 2:
        return [rng.randrange(2)]
    if t == 3:
        c = rng.choice([0, 65, 0x7fff, 0x8000, 0xffff, rng.randrange(0x110000)])
        return [c & 255, c >> 8 & 255, c >> 16, 0]
    if t == 15:
        v = rng.choice([0, 3155378975999999999, rng.randrange(3155378976000000000)]) | rng.randrange(3) << 62
        return list(v.to_bytes(8, "little"))
    return rbytes(rng, SIZE[t])


class Sim:
    """Shapes only: keeps generated calls inside what the driver can do."""
    def __init__(self, rng, types):
        self.rng, self.types = rng, types
        self.a = {}
        self.s = []

    def add(self, op, *args):
        self.s.append((op, list(args)))

    def dims(self, kind=None):
        r = self.rng
        n = kind or r.choice([1, 1, 1, 2, 2, 3])
        return [r.choice([0, 1, 2, 3, 4, 5, 7] if n == 1 else [0, 1, 2, 3, 4] if n == 2 else [0, 1, 2, 3]) for _ in range(n)]

    def new(self, h=None, t=None, dims=None):
        r = self.rng
        h = h or r.randrange(1, NH + 1)
        t = t or r.choice(self.types)
        d = dims or self.dims()
        self.add("new", [h, t], d + [-1] * (3 - len(d)))
        self.a[h] = (t, d)
        return h

    def wrap(self):
        r = self.rng
        h = r.randrange(1, NH + 1)
        t = r.choice([x for x in self.types if x not in (1, 17)] or [5])
        off = 8 * r.randrange(0, 4)
        while True:
            d = self.dims()
            n = 1
            for x in d:
                n *= x
            if n * SIZE[t] + off <= EXT:
                break
        self.add("wrap", [h, t, r.randrange(1, NE + 1), off], d + [-1] * (3 - len(d)))
        self.a[h] = (t, d)
        return h

    def bad_dims(self):
        r = self.rng
        h = r.randrange(1, NH + 1)
        t = r.choice(self.types)
        s = 8 if t in (1, 17) else SIZE[t]
        lim = MAXI // s
        k = r.randrange(7)
        if k == 0:
            d = [r.choice([-1, -2, -2147483648, -5])]
        elif k == 1:
            d = [2, r.choice([-2, -5, -2147483648])]
        elif k == 2:
            d = [2, 2, r.choice([-2, -5, -2147483648])]
        elif k == 3:
            d = [46341, 46341]
        elif k == 4:
            d = [MAXI, MAXI, MAXI]
        elif k == 5:
            d = r.choice([[65536, 65536, r.choice([1, 2, 65536])],
                          [1 << 30, 1 << 30, 16], [49477, 384773, 968973220], [968973220, 384773, 49477], [409891, 7623851, 11806113]])   # small modulo 2^64
        else:
            d = [lim + 1] if s > 1 else [lim, 2]
        self.add(r.choice(["new", "new"]), [h, t], d + [-1] * (3 - len(d)))
        self.a.pop(h, None)

    def overlapping(self):
        """two arrays of the same type over overlapping parts of the same external memory"""
        r = self.rng
        t = r.choice([x for x in self.types if x not in (1, 17)] or [5])
        b = r.randrange(1, NE + 1)
        d = r.choice([1, 1, 2])
        for h in r.sample(range(1, NH + 1), 2):
            off = max(8, SIZE[t]) * r.randrange(0, 2) if SIZE[t] == 8 else SIZE[t] * r.randrange(0, 3)
            n = r.randrange(2, (EXT - off) // SIZE[t] + 1) if d == 1 else r.randrange(3, 8)
            n = min(n, (EXT - off) // SIZE[t])
            self.add("wrap", [h, t, b, off], [n, -1, -1])
            self.a[h] = (t, [n])
        self.add("ext", [b, 0], [(7 * k + 11) % 256 for k in range(EXT)] if t not in (2, 3, 15) else [k // 8 % 2 if t == 2 else 0 for k in range(EXT)])

    def huge_wrap(self):
        """only the shape of these is looked at"""
        r = self.rng
        h = r.randrange(1, NH + 1)
        t = r.choice(self.types)
        s = 8 if t in (1, 17) else SIZE[t]
        lim = MAXI // s
        d = r.choice([[lim], [lim // 2, 2], [lim // 4, 2, 2], [1, lim], [1, 1, lim], [1290, 1290, lim // 1290 // 1290],
                      [lim // 3 + 1, 3] if lim % 3 else [lim, 2], [lim, 1, 2], [2, lim // 2 + 1]])
        self.add("wrap", [h, t, 1, 0], d + [-1] * (3 - len(d)))
        self.add_shape_if_ok(h, d, lim)
        self.add("new", [h, 5], [1, -1, -1])
        self.a[h] = (5, [1])

    def add_shape_if_ok(self, h, d, lim):
        n = 1
        for x in d:
            n *= x
        if n <= lim:
            self.add("shape", [h])
            for k in range(-1, 4):
                self.add("dim", [h, k])

    def idx(self, h, good=.7):
        r = self.rng
        t, d = self.a[h]
        ix = [r.randrange(x) if x else 0 for x in d]
        if r.random() > good:
            k = r.randrange(len(d))
            ix[k] = r.choice([d[k], d[k] + 1, -1, -2, MAXI, -MAXI - 1, d[k] * 2])
            if r.random() < .4:
                j = r.randrange(3)
                ix = ix + [-1] * (3 - len(ix))
                ix[j] = r.choice([-1, 0, 1, 0])
                return ix
        ix = ix + [-1] * (3 - len(ix))
        return ix

    def count(self, h):
        n = 1
        for x in self.a[h][1]:
            n *= x
        return n

    def cell(self, t):
        r = self.rng
        if t == 1:
            return [r.randrange(0, NOBJ + 1)]
        if t == 17:
            return [r.randrange(0, 5)]
        return value(r, t)

    def fill(self, h):
        t = self.a[h][0]
        self.add("init", [h], [b for _ in range(self.count(h)) for b in self.cell(t)])

    def live(self):
        return list(self.a)

    def some(self):
        r = self.rng
        return r.choice(self.live()) if self.a and r.random() > .03 else 0

    def num(self, n):
        r = self.rng
        x = r.random()
        if x < .75:
            return r.randrange(0, n + 1)
        return r.choice([n + 1, n + 2, -1, -2, MAXI, MAXI - 1, MAXI - n, -MAXI - 1, 2 * n, 1 << 30])

    def two(self, n):
        """start, count"""
        r = self.rng
        i = self.num(n)
        if r.random() < .7 and 0 <= i <= n:
            c = r.choice([n - i, n - i, r.randrange(0, n - i + 1), n - i + 1])
        else:
            c = self.num(n)
        return i, c


def setup(rng, types, n=NH):
    s = Sim(rng, types)
    for h in range(1, n + 1):
        s.new(h)
    return s


def geometry_gen(rng, thorough):
    out = []
    for _ in range(900 if thorough else 120):
        s = setup(rng, PRIM + [1, 17])
        for _ in range(40):
            x = rng.random()
            if x < .06:
                s.new()
            elif x < .14:
                s.wrap()
            elif x < .17:
                s.bad_dims()
            elif x < .19:
                s.huge_wrap()
            elif not s.a:
                s.new()
            else:
                h = rng.choice(s.live())
                t = s.a[h][0]
                if x < .22:
                    s.add("delete", [h])
                    del s.a[h]
                elif x < .28:
                    s.fill(h)
                elif x < .32:
                    k = rng.randrange(0, EXT - 8)
                    s.add("ext", [rng.randrange(1, NE + 1), k], [rng.randrange(256) for _ in range(rng.randrange(0, 9))])
                elif x < .62:
                    s.add("poke", [h], s.idx(h), s.cell(t))
                elif x < .88:
                    s.add("peek", [h], s.idx(h))
                elif x < .94:
                    s.add("shape", [h])
                else:
                    s.add("dim", [h, rng.choice([-1, 0, 0, 1, 2, 3, MAXI, -MAXI - 1])])
        out.append(s.s)
    return out


def sweep_gen(rng, thorough):
    """every index tuple around every small shape, for every element type"""
    out = []
    for t in PRIM + [1, 17]:
        for d in ([3], [0], [2, 3], [3, 2], [0, 2], [2, 0], [2, 3, 2], [1, 2, 3], [3, 1, 2], [2, 0, 2]):
            s = Sim(rng, [t])
            s.new(1, t, d)
            s.fill(1)
            s.add("shape", [1])
            for k in range(-1, 4):
                s.add("dim", [1, k])
            top = [x + 1 for x in d] + [1] * (3 - len(d))
            tuples = [(i, j, k) for i in range(-1, top[0]) for j in range(-1, top[1]) for k in range(-1, top[2])]
            if not thorough:
                tuples = rng.sample(tuples, min(len(tuples), 30))
            for ix in tuples:
                s.add("peek", [1], list(ix))
                if rng.random() < .4:
                    s.add("poke", [1], list(ix), s.cell(t))
            out.append(s.s)
    return out


def block_gen(rng, thorough):
    out = []
    for _ in range(1500 if thorough else 220):
        few = rng.sample(PRIM, 2) + [1]
        s = Sim(rng, few if rng.random() < .5 else few[:1])
        one = rng.random() < .75
        for h in range(1, NH + 1):
            s.new(h, None, s.dims(1) if one else None)
            s.fill(h)
        if rng.random() < .3 and s.types[0] != 1:
            s.wrap()
            s.wrap()
        elif rng.random() < .35 and s.types[0] != 1:
            s.overlapping()
        for _ in range(30):
            x = rng.random()
            hs, hd = s.some(), s.some()
            if rng.random() < .35:
                hd = hs
            ns = s.count(hs) if hs else 3
            nd = s.count(hd) if hd else 3
            if x < .5:
                i, n = s.two(ns)
                j = s.num(max(0, nd - n)) if 0 <= n <= nd and rng.random() < .7 else s.num(nd)
                s.add(rng.choice(["copy", "copy", "ccopy"]), [hs, i, hd, j, n])
            elif x < .58:
                s.add("copy3", [hs, hd, s.num(min(ns, nd))])
            elif x < .7 and hs:
                s.add("copyTo", [hs, hd, s.num(max(0, nd - ns))])
            elif x < .82:
                s.add("clear", [hs, *s.two(ns)])
            elif x < .9 and hs:
                s.fill(hs)
            elif hs:
                s.add("poke", [hs], s.idx(hs, 1) if ns else [0, -1, -1], s.cell(s.a[hs][0]))
        out.append(s.s)
    return out


def search_gen(rng, thorough):
    out = []
    for _ in range(700 if thorough else 110):
        s = Sim(rng, [1, 17, 1, 17, 8])
        for h in range(1, NH + 1):
            s.new(h, None, s.dims(1) if rng.random() < .9 else None)
            s.fill(h)
        for _ in range(30):
            h = s.some()
            n = s.count(h) if h else 3
            i, c = s.two(n)
            if rng.random() < .25:
                c = -1
            if rng.random() < .2:
                i = 0
            s.add("indexOf", [h, rng.randrange(0, NOBJ + 1), i, c])
            if rng.random() < .2 and h:
                s.fill(h)
        out.append(s.s)
    return out


def box_gen(rng, thorough):
    out = []

    def box(t, elem):
        r = rng.random()
        if elem in (1,):
            return [-2, rng.randrange(1, NOBJ + 1)]
        if elem == 17:
            if r < .6:
                return [-2, rng.randrange(1, 5)]
            if r < .8:
                return [-2, rng.randrange(5, NOBJ + 1)]
        if r < .06:
            return [-2, rng.choice([1, 3, 4, 9, 10])]
        if elem in (12, 13) and t in (10, 11) and r < .7:
            return [t] + list(halfway(rng, 64 - (1 - t % 2)).to_bytes(8, "little"))
        return [t] + value(rng, t)

    def usable(t, elem):      # floating point to other types is not specified
        return not (t in (12, 13) and elem not in (t, 15, 16, 17))
    for elem in PRIM + [1, 17]:
        for src in PRIM:
            if not usable(src, elem):
                continue
            for _ in range((12 if thorough else 3) * (2 if elem in (12, 13) and src in (10, 11) else 1)):
                s = Sim(rng, [elem])
                s.new(1, elem, s.dims(rng.choice([1, 2, 3])))
                s.fill(1)
                for _ in range(14 if thorough else 9):
                    v = box(src, elem) if rng.random() > .04 else [-1]
                    ix = s.idx(1, .85)
                    if rng.random() < .5:
                        s.add("setValue", [1], v, ix)
                    else:
                        l = [x for x in ix if x != -1] if ix[1:].count(-1) != 1 or ix[2] == -1 else ix
                        if -1 in l or not l or l[0] < 0 or (len(l) < len(s.a[1][1]) and rng.random() < .5):
                            l = [max(0, x) for x in s.idx(1, 1)[:len(s.a[1][1])]]
                        if rng.random() < .04:
                            l = [-1] if rng.random() < .6 else [0, 0, 0, 0]
                        s.add("setValueAt", [1], v, l)
                    s.add("getValue", [1], s.idx(1, .9))
                    if rng.random() < .3:
                        l = [max(0, x) for x in s.idx(1, 1)[:len(s.a[1][1])]]
                        if rng.random() < .15:
                            l[rng.randrange(len(l))] = rng.choice([-5, 9, MAXI])
                        elif rng.random() < .1:
                            l = rng.choice([[-1], (l + [0])[:3], l[:-1] or [-1], (l + [0, 0, 0])[:4]])
                        s.add("getValueAt", [1], l)
                out.append(s.s)
    return out


def raw_gen(rng, thorough):
    out = []
    for _ in range(1500 if thorough else 200):
        few = rng.sample(PRIM, 3)
        s = Sim(rng, few)
        for h in range(1, NH + 1):
            t = rng.choice([1, 17]) if rng.random() < .06 else None
            s.new(h, t, s.dims(1) if rng.random() < .92 else s.dims())
            s.fill(h)
        if rng.random() < .3:
            s.wrap()
            s.wrap()
        elif rng.random() < .3:
            s.overlapping()

        def nb(h):
            return s.count(h) * SIZE[s.a[h][0]] if h else 5
        for _ in range(30):
            x = rng.random()
            hs, hd = s.some(), s.some()
            if rng.random() < .35:
                hd = hs
            if x < .5:
                i, n = s.two(nb(hs))
                j = s.num(max(0, nb(hd) - n)) if 0 <= n <= nb(hd) and rng.random() < .7 else s.num(nb(hd))
                s.add("blockCopy", [hs, i, hd, j, n])
            elif x < .65:
                s.add("getByte", [hs, s.num(max(0, nb(hs) - 1))])
            elif x < .85:
                s.add("setByte", [hs, s.num(max(0, nb(hs) - 1)), rng.randrange(256)])
            elif x < .92:
                s.add("byteLength", [hs])
            elif hs:
                s.fill(hs)
        out.append(s.s)
    return out


FLAGS = ASAN + ["-DNH=%d" % NH, "-DNE=%d" % NE, "-DEXTLEN=%d" % EXT]


def mc(group, shapes, wraps=(), values=(), boxes=(), idx="{-1,0,1,2}", nums="{-1,0,1,2,3}", nh=1, ne=0, objects="<<>>",
       thorough=None, limit=400, limit_thorough=6000, inv=(), props=()):
    st = lambda l: "{" + ", ".join(tla(x) for x in l) + "}"
    return dict(module="ArrayMC", consts={
        "NH": str(nh), "NE": str(ne), "ExtLen": str(EXT), "Objects": objects, "Group": '"%s"' % group, "Shapes": st(shapes),
        "Wraps": st(wraps), "Values": st(values), "Boxes": st(boxes), "Idx": idx, "Nums": nums},
        thorough=thorough or {}, invariants=["MemoryFits", "RowMajor"] + list(inv),
        properties=["OneBlock", "OneCell", "ExternalSurvives"] + list(props), limit=limit, limit_thorough=limit_thorough)


def stage(name, gen, mcs):
    return dict(name=name, driver="array.cpp", flags=FLAGS, trace="ArrayTrace", consts=dict(BASE), gen=gen, mc=mcs)


CHECKS = {
    "C03": dict(stages=[
        stage("geometry", lambda r, t: geometry_gen(r, t) + sweep_gen(r, t), [
            mc("geometry", [(5, (2, -1, -1)), (7, (1, 2, -1)), (5, (0, 2, -1)), (5, (2, 1, 2)), (5, (-1, -1, -1)), (7, (2, 2, -1)),
                            (10, (1073741824, 2, -1))],
               [(5, (2, 2, -1), 1, 0), (7, (2, -1, -1), 1, 0)], [(5, (200,)), (7, (1, 128))], ne=1),
        ]), c_large.stage(lambda r, t: c_large.addresses(r, t) + c_large.boxes(["load", "boxGet", "boxSet"])(r, t), [])]),
    "C04": dict(stages=[
        stage("block", lambda r, t: block_gen(r, t) + search_gen(r, t), [
            mc("block", [(5, (3, -1, -1)), (5, (1, 2, -1)), (6, (2, -1, -1))], nh=1, nums="{-2147483647-1,-1,0,1,2,3,4,2147483647}",
               inv=["CopyLaws"], limit=300),
            mc("block", [(5, (2, -1, -1)), (5, (1, -1, -1)), (4, (2, -1, -1))], nh=2, nums="{-1,0,1,2}", inv=["CopyLaws"],
               thorough={"Nums": "{-1,0,1,2,3}"}, limit=300),
            mc("search", [(1, (3, -1, -1)), (17, (2, -1, -1)), (8, (2, -1, -1))], values=[(1, (1,)), (1, (2,)), (1, (3,)), (17, (2,))],
               idx="{-1,0,1,2}", nums="{-2,-1,0,1,2,3,4}", objects="<<<<17,1>>,<<17,1>>,<<17,2>>>>", limit=200),
        ]), c_large.stage(lambda r, t: c_large.arrays(["copy", "copy", "clear"])(r, t) + c_large.seeks(r, t), ["arr", "fill", "copy", "clear"], types="{5,6}", counts="{1,3}", poses="{0,1}",
                           more=[(["seek"], dict(Counts="{0,1,2,4}", Poses="{0,1,2,3}", MaxSteps="1"))])]),
    "C05": dict(stages=[
        stage("boxed", box_gen, [
            mc("boxed", [(5, (2, -1, -1)), (6, (1, 2, -1)), (2, (2, -1, -1)), (1, (2, -1, -1)), (17, (2, -1, -1)), (13, (1, -1, -1)),
                         (12, (1, -1, -1))],
               boxes=[(-1,), (-2, 1), (-2, 2), (6, 255, 255), (4, 128), (9, 1, 2, 3, 255), (2, 1)],
               objects="<<<<17,1>>,<<17,1>>>>", idx="{-1,0,1,2}"),
        ]), c_large.stage(c_large.boxes(["boxSet", "boxGet"]), [], more=[
            (["arr", "boxSet"], dict(Types="{5,6}", Counts="{1,3}", Poses="{0,1,2}", MaxSteps="3"))])]),
    "C06": dict(stages=[
        stage("raw", raw_gen, [
            mc("raw", [(5, (3, -1, -1)), (7, (1, -1, -1)), (5, (1, 2, -1)), (1, (1, -1, -1))], nh=1,
               nums="{-2147483647-1,-1,0,1,2,3,4,2147483647}", limit=300),
            mc("raw", [(5, (2, -1, -1)), (7, (1, -1, -1))], nh=2, nums="{-1,0,1,2}", limit=300),
        ]), c_large.stage(lambda r, t: c_large.arrays(["block", "block", "setByte"])(r, t) + c_large.boxes(["getByte"])(r, t), ["arr", "fill", "block", "setByte"], types="{5,6}", counts="{1,3}", poses="{0,1}")]),
}
