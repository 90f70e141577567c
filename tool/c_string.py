"""C10 order and equality, C11 search, C12 derivation of strings."""
import c_large
from c_pool import ASAN, tla
from c_array import MAXI

NULL = [-1]
ALPHAS = [[97, 98], [97, 65, 98, 66], [97, 65, 0], [97, 98, 99, 0x20ac, 0x1f600, 0], [65, 90, 91, 96, 97, 122, 64, 123], [48, 97, 0x7f, 32, 9]]


def word(r, al, n=None):
    if n is None:
        n = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12, 20] + ([127, 128, 129, 140, 300] if r.random() < .15 else []))
    if r.random() < .25:
        return [r.choice(al)] * n
    if r.random() < .2 and n:
        u = word(r, al, r.choice([1, 2, 3]))
        return (u * n)[:n]
    return [r.choice(al) for _ in range(n)]


def swap(c):
    return c ^ 32 if 65 <= c <= 90 or 97 <= c <= 122 else c


def relative(r, al, s):
    """a string close to s"""
    x = r.randrange(8)
    t = list(s)
    if x == 0:
        return word(r, al)
    if x == 1:
        return t[:r.randrange(len(t) + 1)]
    if x == 2:
        return t + word(r, al, r.choice([1, 1, 2]))
    if x == 3 and t:
        t[r.choice([0, len(t) - 1, r.randrange(len(t))])] = r.choice(al)
    elif x in (4, 5) and t:
        for _ in range(r.choice([1, 1, 2, 4])):
            i = r.randrange(len(t))
            t[i] = swap(t[i])
    elif x == 6 and t:
        t[r.choice([len(t) - 1, r.randrange(len(t))])] += r.choice([1, 0x10000, -1 if min(t) > 0 else 1])
    return t


def near(r, n):
    x = r.random()
    if x < .8:
        return r.choice([0, n, r.randrange(0, n + 1), r.randrange(0, n + 1), max(0, n - 1)])
    if x < .92:
        return r.choice([n + 1, -1, n + 2])
    return r.choice([-2, MAXI, -MAXI - 1, MAXI - 1, n + 100])


def order_gen(rng, thorough):
    out = []
    for _ in range(2500 if thorough else 350):
        al = rng.choice(ALPHAS)
        s = []
        for _ in range(30):
            u = word(rng, al)
            v = relative(rng, al, u)
            v = [max(0, c) for c in v]
            same = int(u == v and rng.random() < .5)
            x = rng.randrange(14)
            if rng.random() < .06:
                u, same = NULL, 0
            if rng.random() < .06:
                v, same = NULL, 0
            if x < 4:
                s.append(("compare", [[same, rng.randrange(3)], u, v]))
            elif x < 8:
                m, n = 0 if u == NULL else len(u), 0 if v == NULL else len(v)
                i, j = near(rng, m), near(rng, n)
                if rng.random() < .6:
                    i = j = rng.randrange(0, min(m, n) + 1)
                s.append(("compareRange", [[same, rng.randrange(3), i, j, rng.choice([0, 1, 2, near(rng, max(m, n)), MAXI, MAXI - i if i > 0 else 3])], u, v]))
            elif x == 8:
                f = rng.randrange(6)
                if u == NULL and f >= 3:
                    f = 0
                s.append(("equals", [[same, f], u, v]))
            elif x == 9:
                s.append(("unequal", [[same, 0], u, v]))
            elif x == 10:
                if u != NULL:
                    s.append((rng.choice(["compareTo", "compareToObj"]), [[same, 0], u, v]))
            elif x == 11:
                if u != NULL and v != NULL:
                    z, w = (u + [0]).index(0), (v + [0]).index(0)
                    s.append(("compareRaw", [[0, rng.randrange(3), rng.randrange(z + 1), rng.randrange(w + 1), rng.choice([0, 1, 2, len(u), len(v), 400, MAXI])], u, v]))
            elif x == 12:
                if u != NULL:
                    s.append(("compareToOther", [[0, rng.randrange(3)], u, NULL]))
            else:
                f = rng.choice([1, 2, 4])
                s.append(("equalsOther", [[0, 4 if u != NULL and f == 4 else rng.choice([1, 2]), rng.randrange(3)], u, NULL]))
        out.append(s)
    # every single character against its neighbours and its other case
    for m in range(3):
        out.append([("compare", [[0, m], [c], [d]]) for c in range(0, 128) for d in sorted({c, c + 1, swap(c), max(0, c - 32)})])
    return out


def search_gen(rng, thorough):
    out = []
    for _ in range(2500 if thorough else 350):
        al = rng.choice(ALPHAS)
        s = []
        for _ in range(30):
            u = word(rng, al)
            n = len(u)
            if rng.random() < .7 and n:
                i = rng.choice([0, n - 1, rng.randrange(n)])
                t = u[i:i + rng.choice([1, 1, 2, 3, n])] if rng.random() < .8 else u[max(0, n - rng.choice([1, 2, 3])):]
            else:
                t = word(rng, al, rng.choice([0, 1, 2, 3, n, n + 1]))
            if rng.random() < .2:
                t = t + [rng.choice(al)]
            x = rng.randrange(16)
            same = 0
            if rng.random() < .05:
                t, same = list(u), rng.randrange(2)
            form = rng.choice([1, 2, 3, 3])
            i = near(rng, n)
            if x < 8:
                c = near(rng, n)
                if 0 <= i <= n and rng.random() < .7:
                    c = rng.choice([n - i, n - i + 1, rng.randrange(0, n - i + 1), max(0, n - i - 1), len(t)])
                op = rng.choice(["index", "indexChar", "indexAny"])
            elif x < 13:
                i = rng.choice([n - 1, n - 1, near(rng, n), near(rng, n)])
                i = max(i, -1)
                c = max(-1, near(rng, n))
                if 0 <= i < n and rng.random() < .7:
                    c = rng.choice([i + 1, i + 2, rng.randrange(0, i + 2), max(0, i), len(t), -1])
                if i == -1 and n == 0 and form == 3 and c > 0:
                    c = 0
                op = rng.choice(["last", "lastChar", "lastAny"])
            else:
                op = rng.choice(["contains", "starts", "ends", "endsChar", "starts", "ends"])
                if rng.random() < .4 and n:
                    k = rng.randrange(n + 1)
                    t = relative(rng, al, u[:k] if op == "starts" else u[n - k:])
                    t = [max(0, q) for q in t]
                c = 0
            if op in ("indexChar", "lastChar", "endsChar"):
                t, same = [rng.choice(u) if n and rng.random() < .7 else rng.choice(al)], 0
            elif rng.random() < .04:
                t, same = NULL, 0
            if op in ("indexAny", "lastAny"):
                same = 0
                if t != NULL and n and rng.random() < .5:
                    t = [rng.choice(al + [7, 8]) for _ in range(rng.choice([0, 1, 2, 3]))]
            if t == u and same:
                pass
            else:
                same = 0
            s.append((op, [[same, form, i, c], u, t]))
        if rng.random() < .3:
            s.insert(rng.randrange(len(s)), ("searchOther", [[0, rng.randrange(1, 7), rng.randrange(3)], word(rng, al, rng.choice([1, 2, 5])), NULL]))
        out.append(s)
    return out


def pure(name, mod, prefix, gen, mcs):
    return dict(name=name, driver="string.cpp", flags=ASAN, trace=mod + "Trace", gen=gen, mc=mcs,
                consts={"Initial": "<- %sInit" % prefix, "Explain": "<- %sExplain" % prefix})


NS, NA = 4, 2


class Heap:
    """Steers the generation of C12 sessions with a rough model; TLC is the judge."""
    def __init__(self, r, al):
        self.r, self.al = r, al
        self.s = {k: None for k in range(1, NS + 1)}
        self.a = {k: None for k in range(1, NA + 1)}
        self.ops = []

    def op(self, name, *args):
        self.ops.append((name, list(args)))

    def set(self, k, t):
        if t is not None:
            self.s[k] = t

    def part(self, t, i, n):
        if i < 0 or i > len(t):
            return None
        if n == -1:
            n = len(t) - i
        return t[i:i + n] if 0 <= n <= len(t) - i else None

    def span(self, n, default=True):
        r = self.r
        i = near(r, n)
        if 0 <= i <= n and r.random() < .7:
            return i, r.choice([n - i, r.randrange(0, n - i + 1), 0, min(1, n - i), n - i + 1] + ([-1] if default else []))
        c = r.choice([near(r, n), 0, 1, MAXI])
        return i, max(c, -1 if default else -MAXI)

    def items(self):
        r = self.r
        n = r.choice([0, 1, 2, 2, 3, 4, 5, 7])
        return [r.choice([0, r.randrange(1, NS + 1), r.randrange(1, NS + 1), r.randrange(1, NS + 1),
                          -2 - r.choice([0, 7, 10, 99, 12345, MAXI - 2])]) for _ in range(n)]

    def text_of(self, x):
        return list(str(-(x + 2)).encode()) if x < 0 else (self.s.get(x) or []) if x else []

    def join(self, items, sep):
        out = []
        for i, x in enumerate(items):
            out += (sep if i else []) + self.text_of(x)
        return out

    def step(self):
        r = self.r
        live = [k for k in self.s if self.s[k] is not None]
        K = r.randrange(1, NS + 1)
        if not live or r.random() < .1:
            t = word(r, self.al)
            if r.random() < .3 and len(t) < 60:
                t = [r.choice([32, 9, 160, 10]) for _ in range(r.randrange(3))] + t + [r.choice([32, 13, 12288]) for _ in range(r.randrange(3))]
            self.op("literal", [K], t)
            self.s[K] = t
            return
        X = r.choice(live)
        t = self.s[X]
        n = len(t)
        if n > 400:
            self.op("substring", [X, X, 0, 3])
            self.s[X] = t[:3]
            return
        if r.random() < .01:
            self.op("other", [K, X, r.randrange(9), r.randrange(3)])
            return
        x = r.randrange(30)
        la = [k for k in self.a if self.a[k] is not None]
        Y = r.choice([0] + la) if la and r.random() < .95 else 0
        if x < 3:
            i, c = self.span(n)
            self.op("substring", [K, X, i, c])
            self.set(K, self.part(t, i, c))
        elif x == 3:
            i, c = self.span(n)
            self.op("remove", [K, X, i, c])
            p = self.part(t, i, c)
            if p is not None:
                self.s[K] = t[:i] + t[i + len(p):]
        elif x in (4, 5):
            i, y = near(r, n), r.choice([0] + live + live)
            self.op("insert", [K, X, i, y])
            if y and 0 <= i <= n:
                self.s[K] = t[:i] + self.s[y] + t[i:]
        elif x in (6, 7):
            y, z = r.choice([0] + live * 3), r.choice([0] + live * 3)
            if n and r.random() < .5:
                i = r.randrange(n)
                u = t[i:i + r.choice([1, 1, 2])]
                y = r.randrange(1, NS + 1)
                if y != X:
                    self.op("literal", [y], u)
                    self.s[y] = u
            o, w = (self.s[y] if y else None), ((self.s[z] if z else []) or [])
            if o and n * max(1, len(w)) > 2000:
                return
            self.op("replace", [K, X, y, z])
            if o:
                res, j = [], 0
                while j < n:
                    if t[j:j + len(o)] == o:
                        res, j = res + w, j + len(o)
                    else:
                        res, j = res + [t[j]], j + 1
                self.s[K] = res
        elif x == 8:
            c, d = r.choice(t or self.al), r.choice(self.al)
            self.op("replaceChar", [K, X, c, d])
            self.s[K] = [d if q == c else q for q in t]
        elif x in (9, 10):
            w = r.choice([n, n + 1, n - 1, n + 5, 0, -1, n + 20, 129, 1])
            c = r.choice(self.al + [32, 32])
            o = r.choice(["padLeft", "padRight"])
            self.op(o, [K, X, w, c])
            if w >= 0:
                pad = [c] * max(0, w - n)
                self.s[K] = pad + t if o == "padLeft" else t + pad
        elif x == 11:
            self.op("trim", [K, X])
            self.s[K] = bytes_strip(t)
        elif x in (12, 13):
            m = r.randrange(1, 4)
            self.op("trimSet", [K, X, Y, m])
            b = bytes_strip(t)
            if b and not Y:
                k = next(i for i in range(n) if t[i:i + len(b)] == b and bytes_strip(t[:i]) == [])
                b = t[k:] if m == 1 else t[:k + len(b)] if m == 2 else b
            self.s[K] = b if not Y else t
            if Y:
                self.op("trim", [K, K])
                self.op("substring", [K, K, 0, 0])
                self.s[K] = []
        elif x == 14:
            o = r.choice(["lower", "upper"])
            self.op(o, [K, X])
            self.s[K] = [(q + 32 if o == "lower" and 65 <= q <= 90 else q - 32 if o == "upper" and 97 <= q <= 122 else q) for q in t]
        elif x == 15:
            it = self.items()
            if it and it != [-1]:
                self.op("concat", [K], it)
                if it[0] < 0 or (it[0] and self.s[it[0]] is not None):
                    self.s[K] = self.join(it, [])
                else:
                    self.op("literal", [K], [])
                    self.s[K] = []
        elif x == 16:
            it = self.items()
            self.op("concatArray", [K], it if r.random() > .04 else NULL)
            if self.ops[-1][1][1] != NULL:
                self.s[K] = self.join(it, [])
        elif x in (17, 18):
            it = self.items() if r.random() > .05 else NULL
            i, c = self.span(len(it))
            if r.random() < .4:
                i, c = 0, -1
            if x == 17:
                sep = [r.choice([44, 32] + self.al)]
                self.op("joinChar", [K, sep[0], i, c], it)
            else:
                y = r.choice([0] + live)
                sep = self.s[y] if y else []
                self.op("join", [K, y, i, c], it)
            if it != NULL:
                p = self.part(it, i, c)
                if it == [] or p is not None:
                    self.s[K] = self.join(p or [], sep)
                if it == []:
                    self.op("literal", [K], [])
        elif x == 19:
            self.op(r.choice(["copy", "self"]), [K, X])
            self.s[K] = t
            if r.random() < .1:
                self.op("null", [K])
                self.s[K] = None
                self.op("copy", [X, K])
        elif x == 20:
            c, m = r.choice(self.al), r.choice([0, 1, 2, 5, 128, 129, -1])
            self.op("fill", [K, c, m])
            if m >= 0:
                self.s[K] = [c] * m
        elif x == 21:
            u = [q or 33 for q in word(r, self.al)]
            i = r.choice([0, len(u), r.randrange(len(u) + 1), len(u) + 1, -1])
            c = r.choice([-1, 0, r.randrange(0, len(u) - i + 1)]) if 0 <= i <= len(u) else -1
            self.op("fromRaw", [K, i, c], u)
            self.set(K, self.part(u, i, c))
        elif x == 22:
            i = near(r, n)
            self.op("builder", [K, X, i if abs(i) < 1000 else 0, r.choice(self.al)])
            self.s[K] = t
        elif x == 23:
            k = r.randrange(1, NA + 1)
            u = word(r, self.al + [32, 9], r.choice([0, 1, 2, 3, 5, n, n + 2]))
            self.op("newArray", [k], u)
            self.a[k] = u
        elif x == 24 and la:
            k = r.choice(la)
            i, c = near(r, max(0, len(self.a[k]) - 1)), r.choice(self.al)
            self.op("put", [k, i, c])
        elif x == 25:
            k = r.randrange(1, NA + 1)
            i, c = self.span(n)
            self.op("toArray", [k, X, i, c])
            p = self.part(t, i, c)
            if p is not None:
                self.a[k] = p
                if p and r.random() < .7:
                    self.op("put", [k, r.randrange(len(p)), 35])
        elif x == 26:
            k = r.randrange(1, NA + 1)
            if self.a[k] is None and r.random() < .9:
                return
            m = len(self.a[k]) if self.a[k] is not None else 0
            if self.a[k] is None:
                return
            i, c = self.span(n, False)
            j = near(r, m)
            if 0 <= i <= n and 0 <= j <= m and r.random() < .7:
                c = r.choice([min(n - i, m - j), max(0, min(n - i, m - j) - 1), min(n - i, m - j) + 1, 0])
            self.op("copyTo", [k, X, i, j, c])
        elif x == 27:
            m = len(self.a[Y]) if Y else 0
            i, c = self.span(m)
            if i != 0 and c == -1:
                c = 0
            self.op("fromArray", [K, Y, i, c])
            p = self.part([63] * m, i, c)
            if p is not None:
                self.s[K] = p
                if Y and m:
                    self.op("put", [Y, r.randrange(m), 36])
        elif x == 28:
            self.op("char", [0, X, near(r, n)])
        else:
            self.op(*r.choice([("format", [0, X, r.choice([n, n + 1, n + 2, 0, max(0, n - 1), n + 20])]), ("empty", [0, r.randrange(0, NS + 1)]),
                               ("blank", [0, r.randrange(0, NS + 1)])]))


def bytes_strip(t):
    W = {9, 10, 11, 12, 13, 32, 160, 12288}
    i, j = 0, len(t)
    while i < j and t[i] in W:
        i += 1
    while j > i and t[j - 1] in W:
        j -= 1
    return t[i:j]


def heap_gen(rng, thorough):
    out = []
    for _ in range(2500 if thorough else 420):
        al = rng.choice([[97, 98], [97, 65, 98, 66], [97, 0, 32], [97, 32, 9, 46], [97, 98, 99, 0x20ac, 0x1f600, 0]])
        h = Heap(rng, al)
        while len(h.ops) < 35:
            h.step()
        out.append(h.ops)
    # every ASCII character through case conversion and blankness
    out.append([x for c in range(128) for x in (("literal", [[1], [c]]), ("lower", [[2, 1]]), ("upper", [[3, 1]]), ("trim", [[4, 1]]), ("blank", [[0, 1]]))])
    return out


def heap_mc(group, texts, alphabet, maxlen, nums, ns=2, na=0, thorough=None, limit=700, inv=("CutLaws",)):
    return dict(module="StrHeapMC", consts={"NS": str(ns), "NA": str(na), "Group": '"%s"' % group, "Alphabet": alphabet, "MaxLen": str(maxlen),
                "Nums": nums, "Texts": "{" + ", ".join(tla(t) for t in texts) + "}"}, thorough=thorough or {},
                invariants=list(inv), properties=["OneCell"], limit=limit, limit_thorough=8000)


HEAPC = {"NS": str(NS), "NA": str(NA), "Initial": "<- HeapInit", "Explain": "<- HeapExplain"}


def heap_stage(name, ns, na, gen=None, mcs=()):
    st = dict(name=name, driver="strheap.cpp", flags=ASAN + ["-DNS=%d" % ns, "-DNA=%d" % na], trace="StrHeapTrace",
              consts=dict(HEAPC, NS=str(ns), NA=str(na)), mc=list(mcs))
    if gen:
        st["gen"] = gen
    return st


CHECKS = {
    "C10": dict(stages=[pure("order", "StrOrder", "Ord", order_gen, [dict(
        module="StrOrderMC", consts={"Alphabet": "{0,65,97,98}", "MaxLen": "3", "LawLen": "2", "Nums": "{-1,0,1,2}"},
        thorough={"Nums": "{-1,0,1,2,3}"}, invariants=["Laws", "Prefixes", "NullFirst", "Covers"], limit=2500, limit_thorough=9000)]),
        c_large.stage(c_large.compares, [], more=[(["base", "twin"], dict(Counts="{0,2}", Poses="{0,1}"))])]),
    "C11": dict(stages=[pure("search", "StrSearch", "Search", search_gen, [dict(
        module="StrSearchMC", consts={"Alphabet": "{0,97}", "MaxLen": "4", "PatLen": "2", "Nums": "{-1,0,1,2,3,4,5}"},
        thorough={"PatLen": "3"}, invariants=["Tests", "Local", "Mirror"], limit=1500, limit_thorough=9000)]),
        c_large.stage(c_large.searches, [], more=[(["many", "mark", "find"], dict(Poses="{0,1,4}", Counts="{1,2,5}", MaxSteps="3"))])]),
    "C12": dict(stages=[
        heap_stage("derive", 2, 0, None, [
            heap_mc("derive", [(), (97,), (97, 66)], "{97,66}", 2, "{-1,0,1,2,3}", limit=1500, inv=("CutLaws", "CaseLaws")),
            heap_mc("combine", [(), (97,), (97, 98)], "{97,98}", 2, "{-1,0,1,2}", thorough={"MaxLen": "3"})]),
        heap_stage("share", 1, 1, None, [
            heap_mc("share", [(), (97,), (97, 98), (98, 98, 97)], "{97,98}", 3, "{-1,0,1,2,3}", 1, 1),
            heap_mc("trim", [(32,), (97, 32), (9, 97, 32, 98), (32, 97), (9, 32)], "{97,98}", 4, "{0}", 1, 1, inv=("CutLaws", "TrimLaws", "CaseLaws"))]),
        heap_stage("heap", NS, NA, heap_gen),
        c_large.stage(c_large.strings12, ["app", "sub"], counts="{0,2}", poses="{0,1}", steps=3, more=[
            (["base", "case", "smap"], dict(Counts="{0,3}", Poses="{0}", MaxSteps="3")),
            (["many"], dict(Counts="{0,1,3}", MaxSteps="3"))])]),
}
