"""C08 StringBuilder content, C09 StringBuilder capacity."""
import c_large
from c_pool import ASAN, tla
from c_array import MAXI, value

NB = 2
INTS = [4, 5, 6, 7, 8, 9, 10, 11]


class Guide:
    """A rough model that only steers generation to interesting arguments; TLC is the judge."""
    def __init__(self, rng, alphabet, style):
        self.r, self.alpha, self.style = rng, alphabet, style
        self.t = {}
        self.max = {}
        self.s = []

    def add(self, op, *args):
        self.s.append((op, list(args)))

    def text(self, n=None):
        r = self.r
        if n is None:
            n = r.choice([0, 1, 1, 2, 2, 3, 4, 6] if self.style != "long" else [0, 1, 2, 5, 20, 60, 127, 128, 129, 140])
        if r.random() < .2:
            return [r.choice(self.alpha)] * n
        return [r.choice(self.alpha) for _ in range(n)]

    def maybe(self):
        return [-1] if self.r.random() < .05 else self.text()

    def room(self, b):
        return self.max[b] - len(self.t[b])

    def fit(self, b):
        """a text whose length sits around the remaining room, or any text"""
        n = self.room(b)
        if n < 400 and self.r.random() < .45:
            return self.text(max(0, n + self.r.choice([-1, 0, 0, 1])))
        return self.maybe()

    def pos(self, n):
        r = self.r
        x = r.random()
        if x < .8:
            return r.choice([0, n, r.randrange(0, n + 1), r.randrange(0, n + 1)])
        if x < .9:
            return r.choice([n + 1, -1, n - 1])
        return r.choice([n + 2, -2, MAXI, -MAXI - 1, MAXI - 1])

    def span(self, n):
        r = self.r
        i = self.pos(n)
        if r.random() < .75 and 0 <= i <= n:
            return i, r.choice([n - i, r.randrange(0, n - i + 1), min(1, n - i), n - i + 1, 0])
        return i, r.choice([self.pos(n), MAXI, -1, 0, 1])

    def put(self, b, p, t):
        if t != [-1] and 0 <= p <= len(self.t[b]) and len(t) <= self.room(b):
            self.t[b] = self.t[b][:p] + t + self.t[b][p:]

    def create(self, b, cap_focus):
        r = self.r
        k = r.randrange(6)
        self.t.pop(b, None)
        if cap_focus or k == 0:
            m = r.choice([1, 2, 5, 9, 127, 128, 129, 130, 200, 255, 256, 257, 300])
            c = r.choice([0, 0, 1, m, m - 1, m // 2, r.choice([-1, m + 1, 128])])
            if r.random() < .05:
                m = r.choice([0, -1])
            self.add("new2", [b, c, m])
            if 0 <= c <= m and m >= 1:
                self.t[b], self.max[b] = [], m
        elif k == 1:
            self.add("new0", [b])
            self.t[b], self.max[b] = [], MAXI
        elif k == 2:
            c = r.choice([0, 1, 16, 128, 129, 300, -1])
            self.add("new1", [b, c])
            if c >= 0:
                self.t[b], self.max[b] = [], MAXI
        elif k == 3:
            t = self.maybe()
            self.add("newText0", [b], t)
            self.t[b], self.max[b] = ([] if t == [-1] else t), MAXI
        elif k == 4:
            t = self.maybe()
            c = r.choice([0, 1, 10, 128, 129, 200, -1])
            self.add("newText1", [b, c], t)
            if c >= 0:
                self.t[b], self.max[b] = ([] if t == [-1] else t), MAXI
        else:
            t = self.maybe()
            i, n = self.span(0 if t == [-1] else len(t))
            c = r.choice([0, 1, 10, 128, 129, 200, -1])
            self.add("newText3", [b, i, n, c], t)
            u = [] if t == [-1] else t
            if c >= 0 and 0 <= i <= len(u) and 0 <= n <= len(u) - i:
                self.t[b], self.max[b] = u[i:i + n], MAXI

    def step(self, cap_focus):
        r = self.r
        live = list(self.t)
        if not live or r.random() < .02:
            self.create(r.randrange(1, NB + 1), cap_focus)
            return
        b = r.choice(live)
        t = self.t[b]
        n = len(t)
        if n > 420:
            self.add("setLength", [b, r.choice([0, 3, 128, 127])])
            self.t[b] = t[:self.s[-1][1][0][1]]
            return
        if cap_focus and r.random() < .25:
            m = self.max[b]
            v = r.choice([n, n - 1, n + 1, 0, -1, 128, 127, 129, 256, n + 30] + ([m, m - 1, m + 1, m, MAXI] if m < 500 else []))
            self.add(r.choice(["setCapacity", "ensureCapacity"]), [b, v])
            return
        if r.random() < .01:
            self.add("other", [b, r.randrange(4), r.randrange(3)])
            return
        x = r.randrange(30)
        if x < 3:
            u = self.fit(b)
            self.add(r.choice(["appendString", "appendArray", "appendObject"]), [b], u)
            self.put(b, n, u)
        elif x == 3:
            u = self.text()
            k = r.choice([len(u), len(u), r.randrange(0, len(u) + 1)])
            if r.random() < .06 and u:
                k = -1
            self.add("appendRaw", [b, k], u)
            self.put(b, n, u[:max(0, k)])
        elif x == 4:
            u = self.maybe()
            i, k = self.span(0 if u == [-1] else len(u))
            if r.random() < .2:
                i, k = 0, -1
            if k < -1 or (k == -1 and i > 0):
                k = -1 if i == 0 else 0
            self.add("appendPart", [b, i, k], u)
            if u != [-1] and 0 <= i <= len(u) and (0 <= k <= len(u) - i or k == -1):
                self.put(b, n, u[i:] if k == -1 else u[i:i + k])
        elif x == 5 or x == 6:
            u = self.maybe()
            i, k = self.span(0 if u == [-1] else len(u))
            i = abs(i) if i != -MAXI - 1 else 3
            if r.random() < .2:
                i, k = 0, -1
            k = max(k, -1)
            if k == -1 and i > 0:
                k = 1
            if x == 5:
                self.add("appendArrayPart", [b, i, k], u)
                p = n
            else:
                p = self.pos(n)
                self.add("insertPart", [b, p, i, k], u)
            if u != [-1] and 0 <= i <= len(u) and (0 <= k <= len(u) - i or k == -1):
                self.put(b, p, u[i:] if k == -1 else u[i:i + k])
        elif x == 7 or x == 8:
            room = self.room(b)
            k = r.choice([0, 1, 2, 5, 128 - n % 128, 127 - n % 128] + ([room, room + 1, room - 1] if room < 400 else [130]) + [-1])
            if room < 400 and r.random() < .1:
                k = r.choice([MAXI, MAXI - n, MAXI - n + 1])
            c = r.choice(self.alpha)
            self.add("appendRepeat", [b, c, k])
            if 0 <= k <= room:
                self.t[b] = t + [c] * k
        elif x in (9, 10):
            ty = r.choice(INTS + [2, 3])
            v = [ty] + (value(r, ty) if ty != 3 else [r.choice([97, 65, 10, 255]), 0, 0, 0])
            p = self.pos(n)
            op = r.choice(["appendValue", "appendBoxed", "insertValue", "insertBoxed"])
            self.add(op, [b] if op[0] == "a" else [b, p], v)
            q = n if op[0] == "a" else p
            self.put(b, q, [120] * (1 if ty == 3 else (4 if v[1] else 5) if ty == 2 else len(str(int.from_bytes(bytes(v[1:]), "little", signed=ty in (4, 6, 8, 10))))))
        elif x == 11:
            u = self.fit(b)
            if u != [-1] and len(u) > 1 and r.random() < .7:
                u = u[:-2]
            self.add("appendLine", [b], u)
            self.put(b, n, ([] if u == [-1] else u) + [13, 10])
        elif x in (12, 13, 14):
            p = self.pos(n)
            if r.random() < .12:
                c = r.choice([b, b] + [k for k in self.t] + [0])
                u = list(self.t[c]) if c else []
                if r.random() < .5:
                    self.add("appendBuilder", [b, c])
                    self.put(b, n, u)
                else:
                    self.add("insertBuilder", [b, p, c])
                    self.put(b, p, u)
                return
            u = self.fit(b)
            self.add(r.choice(["insertString", "insertArray", "insertObject"]), [b, p], u)
            self.put(b, p, u)
        elif x == 15:
            u = self.maybe()
            room = self.room(b)
            L = max(1, len(u))
            k = r.choice([0, 1, 2, 3] + ([room // L, room // L + 1] if room < 300 else []) + [-1])
            if room < 300 and r.random() < .1:
                k = r.choice([MAXI, 1 << 30])
            if k * L > 300 and room > 1000:
                k = 2
            p = self.pos(n)
            self.add("insertRepeat", [b, p, k], u)
            if u != [-1] and 0 <= k and k * len(u) <= room:
                self.put(b, p, u * k)
        elif x in (16, 17):
            i, k = self.span(n)
            self.add("remove", [b, i, k])
            if 0 <= i <= n and 0 <= k <= n - i:
                self.t[b] = t[:i] + t[i + k:]
        elif x in (18, 19):
            if r.random() < .6 and n:
                i = r.randrange(n)
                o = t[i:i + r.choice([1, 1, 2, 3])]
            else:
                o = self.maybe() if r.random() < .3 else self.text(r.choice([1, 2, 2]))
            u = self.maybe() if self.style == "long" and r.random() < .3 else self.text(r.choice([0, 1, 2, 3, 4])) if r.random() > .05 else [-1]
            if r.random() < .5:
                i, k = 0, n
                self.add("replace", [b], o, u)
            else:
                i, k = self.span(n)
                self.add("replacePart", [b, i, k], o, u)
            if o not in ([-1], []) and 0 <= i <= n and 0 <= k <= n - i:
                w = [] if u == [-1] else u
                j, res = i, t[:i]
                while j < i + k:
                    if j + len(o) <= i + k and t[j:j + len(o)] == o:
                        res = res + w
                        j += len(o)
                    else:
                        res = res + [t[j]]
                        j += 1
                res = res + t[i + k:]
                if len(res) <= self.max[b]:
                    self.t[b] = res
        elif x in (20, 21):
            c, d = r.choice(self.alpha), r.choice(self.alpha)
            if r.random() < .4:
                self.add("replaceChar", [b, c, d])
                self.t[b] = [d if y == c else y for y in t]
            else:
                i, k = self.span(n)
                self.add("replaceCharPart", [b, c, d, i, k])
                if 0 <= i <= n and 0 <= k <= n - i:
                    self.t[b] = t[:i] + [d if y == c else y for y in t[i:i + k]] + t[i + k:]
        elif x == 22:
            if r.random() < .3:
                self.add("clear", [b])
                self.t[b] = []
        elif x in (23, 24):
            m = self.max[b]
            k = r.choice([n, n + 1, n - 1, n + 3, n // 2, 128, 129, 127, 0, -1] + ([m, m + 1, m, MAXI] if m < 500 else []))
            self.add("setLength", [b, k])
            if 0 <= k <= m:
                self.t[b] = (t + [0] * k)[:k]
        elif x == 25:
            i = self.pos(n)
            c = r.choice(self.alpha)
            self.add("setChar", [b, i, c])
            if 0 <= i < n:
                self.t[b] = t[:i] + [c] + t[i + 1:]
        elif x == 26:
            self.add("getChar", [b, self.pos(n)])
        elif x == 27:
            self.add("subText", [b, *self.span(n)])
        elif x == 28:
            self.add("equals", [b, r.randrange(0, NB + 1)])
            if r.random() < .5 and len(live) == 2:
                # make the two builders alike, then compare
                c = 3 - b
                self.add("setLength", [c, 0])
                self.add("appendString", [c], t)
                if len(t) <= self.max[c]:
                    self.t[c] = list(t)
                else:
                    self.t[c] = []
                self.add("equals", [b, c])
        else:
            if r.random() < .5:
                self.add("format", [b, r.choice([n, n + 1, n + 2, max(0, n - 1), 0, n + 20])])
            else:
                o = t[:r.choice([1, 2])] if n and r.random() < .6 else self.text(r.choice([0, 1, 2]))
                self.add("count", [b, *self.span(n)], o if r.random() > .05 else [-1])


def gen(cap_focus):
    def f(rng, thorough):
        out = []
        for k in range(1600 if thorough else 260):
            style = rng.choice(["short", "short", "long"])
            alpha = rng.choice([[97, 98], [97, 98], [97, 98, 99, 0], [97, 0x20ac, 0x1f600, 0, 32], [97]])
            g = Guide(rng, alpha, style)
            g.create(1, cap_focus)
            if rng.random() < .5:
                g.create(2, cap_focus)
            for _ in range(30):
                g.step(cap_focus)
            out.append(g.s)
        return out
    return f


def mc(group, caps, texts, nums, maxmax, choice, nb=1, oldnew=(), thorough=None, limit=250, limit_thorough=5000):
    st = lambda l: "{" + ", ".join(tla(x) for x in l) + "}"
    return dict(module="BuilderMC", consts={
        "NB": str(nb), "AllCaps": choice, "Group": '"%s"' % group, "Chars": "{97,98}", "Texts": st(texts), "Nums": nums,
        "MaxMax": str(maxmax), "Caps": caps, "OldNew": st(oldnew)}, thorough=thorough or {},
        invariants=["WithinBounds", "Fits", "Undo", "ReplaceLaws"], properties=["MaximumFixed", "OneBuilder"],
        limit=limit, limit_thorough=limit_thorough)


OLDNEW = [((97,), (98, 98)), ((97, 97), (97,)), ((97, 98), ()), ((98,), (97, 98)), ((97, 98, 97), (98,)), ((), (97,)), ((-1,), (97,)),
          ((98, 98), (-1,)), ((97,), (97,))]
BASE = {"NB": str(NB), "Initial": "<- SbInit", "Explain": "<- SbExplain"}
FLAGS = ASAN + ["-DNB=%d" % NB]
CHECKS = {
    "C08": dict(stages=[dict(name="content", driver="builder.cpp", flags=FLAGS, trace="BuilderTrace", consts=BASE, gen=gen(False), mc=[
        mc("content", "{3}", [(), (97,), (97, 98), (-1,)], "{-1,0,1,2,3,4}", 3, "{3}"),
        mc("replace", "{4}", [(), (97,), (97, 98)], "{-1,0,1,2,3,4}", 4, "{4}", oldnew=OLDNEW)]),
        c_large.stage(c_large.builder8, ["app", "peek"], counts="{0,1,2}", poses="{0,1}", steps=3, more=[
            (["many"], dict(MaxSteps="2"))])]),
    "C09": dict(stages=[dict(name="capacity", driver="builder.cpp", flags=FLAGS, trace="BuilderTrace", consts=BASE, gen=gen(True), mc=[
        mc("capacity", "{-1,0,1,3,4}", [(97,), (97, 98, 97), (-1,)], "{-1,0,1,2,3,4}", 3, "0..3", thorough={"MaxMax": "4"}),
        mc("capacity", "{1,2}", [(97,), (97, 97)], "{0,1,2}", 2, "{2}", nb=2)]),
        c_large.stage(c_large.capacity, [])]),
}
