"""C01 memory pool, C02 host lifecycle."""

ASAN = ["-O1", "-fsanitize=address"]


def tla(x):
    if isinstance(x, (list, tuple)):
        return "<<" + ", ".join(tla(i) for i in x) + ">>"
    return str(x)


def pool_gen(size):
    def gen(rng, thorough):
        out = []
        for _ in range(400 if thorough else 60):
            s = [("setup", [])]
            n = 0
            style = rng.randrange(4)
            for _ in range(rng.randrange(5, 120)):
                x = rng.random()
                if x < .75:
                    r = rng.random()
                    if r < .03:
                        a = [rng.choice([1, 2, 4095, 4096, 8191, 1 << 20, 1 << 23]), rng.choice([0, 1, 7, 8, 16, size])]
                    elif r < .15:
                        a = [0, max(0, rng.choice([size, size - 1, size + 1, size - 7, size // 2, size - size % 8]))]
                    elif style == 0:
                        a = [0, rng.randrange(0, 40)]
                    elif style == 1:
                        a = [0, rng.randrange(0, max(2, size // 3))]
                    elif style == 2:
                        a = [0, rng.randrange(0, max(2, size // 20 + 9))]
                    else:
                        a = [0, 8 * rng.randrange(0, 30) + rng.choice([0, 1, 7])]
                    s.append((rng.choice(["alloc", "alloc", "allocArr"]), [a]))
                    n += 1
                elif x < .95:
                    s.append(("free", [[-1]]))
                else:
                    s.append(("setup", []))
            out.append(s)
        return out
    return gen


def heap_gen(rng, thorough):
    """One session in a fresh process: heap mode until the first setup."""
    s = []
    for _ in range(40):
        s.append(("alloc", [[0, rng.randrange(0, 500)]]))
    for k in range(0, 40, 2):
        s.append(("free", [[k]]))
        s.append(("alloc", [[0, rng.randrange(0, 500)]]))
    s.append(("free", [[-1]]))
    s.append(("setup", []))
    for _ in range(20):
        s.append(("alloc", [[0, rng.randrange(0, 100)]]))
    return [s]


POOL_INV = ["InvDisjoint", "InvAligned", "InvNotOversold", "InvServable"]


def pool_stage(name, size, gen, mc=(), **kw):
    d = dict(name=name, driver="pool.cpp", flags=ASAN + ["-DMEMORY_SIZE=%d" % size], trace="PoolTrace",
             consts={"PoolSize": str(size), "Initial": "<- PoolInit", "Explain": "<- PoolExplain"}, gen=gen, mc=list(mc))
    d.update(kw)
    return d


HOST_POOL = 600
INS = [[0, 72, 105], [0], [1, 100], [1, 301], [1, 601], [2, 0, 66], [2, 1], [2, 14], [3], [4, 0, 9], [4, 3, 5], [5, 0], [6, 4],
       [6, -1], [6, 3], [7], [9], [8, 3]]


def host_gen(rng, thorough):
    out = []
    text = lambda: [rng.randrange(32, 127) for _ in range(rng.choice([0, 1, 5, 20, 200, 5, 20, rng.choice([255, 256, 511, 1023, 1024, 2000, 4095, 4096, 5000])]))]
    for _ in range(300 if thorough else 60):
        s = []
        for _ in range(rng.choice([rng.randrange(1, 12), rng.randrange(1, 40)])):
            x = rng.random()
            if x > .6:            # everything the pool has, in one piece or two
                n = rng.choice([HOST_POOL, 8 * rng.randrange(1, HOST_POOL // 8)])
                s.append(("run", [[1, n]] + ([[1, HOST_POOL - n]] if n < HOST_POOL else []) + [[1, rng.choice([0, 1])]]))
            elif x < .1:
                s.append(("send", [rng.choice([text(), [-1]])]))
            elif x < .2:
                s.append(("get", [[rng.randrange(-2, 6)]]))
            else:
                prog = []
                left = HOST_POOL - 100
                for _ in range(rng.randrange(0, 4)):
                    n = rng.choice([rng.randrange(0, 120), rng.randrange(0, 300), HOST_POOL + rng.randrange(1, 50)])
                    a = (n + 7) // 8 * 8
                    if a > HOST_POOL or a <= left:
                        prog.append([1, n])
                        if a <= HOST_POOL:
                            left -= a
                objs = left // 90
                for _ in range(rng.randrange(0, 7)):
                    r = rng.randrange(8)
                    if r < 2:
                        prog.append([0] + text())
                    elif r == 2:
                        prog.append([3])
                    elif r == 3 and rng.random() < .5:
                        k = rng.randrange(0, 16)
                        prog.append([2, k] + (text() if k == 0 else []))
                    elif objs > 1:
                        i = rng.randrange(4)
                        prog.append(rng.choice([[4, i, rng.randrange(-5, 100)], [5, i], [6, rng.randrange(-2, 6)], [7], [9], [8, i]]))
                        objs -= 2
                s.append(("run", prog))
        out.append(s)
    return out


def program(rng):
    """A program that computes; sizes are kept well inside the pool of 32767 bytes."""
    prog, left, x, built, length, blen, joins = [], 6000, 0, False, 0, 0, 0
    text = lambda most: [rng.randrange(32, 127) for _ in range(rng.randrange(0, most))]
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        n = rng.choice([rng.randrange(0, 60), rng.randrange(0, 3000)])
        if n + 8 <= left:
            prog.append([1, n])
            left -= n + 8
    for _ in range(rng.randrange(1, 14)):
        r = rng.randrange(28)
        small = rng.choice([0, 1, 2, rng.randrange(0, 9)])
        ins = None
        if r == 0: ins, length = [10, rng.choice([0, -1, rng.randrange(-2**31 + 1, 2**31), rng.randrange(-99, 100)])], 11
        elif r == 1: ins, length = [11, rng.randrange(2)], 5
        elif r == 2 and length < 40:
            u = text(12)
            ins, length = [12] + u, length + len(u)
        elif r == 3: ins = [13, rng.randrange(-1, 6), small]
        elif r in (4, 5, 6): ins = [14]
        elif r == 7: ins, x = [15, small], 1
        elif r == 8 and x: ins = [16, rng.randrange(-1, 5), rng.randrange(-1000, 1000)]
        elif r == 9 and x: ins, length = [17, rng.randrange(-1, 5)], 6
        elif r == 10: ins, built, blen = [18], True, 0
        elif r == 11 and built and blen < 60:
            u = text(20)
            ins, blen = [19] + u, blen + len(u)
        elif r == 12 and built: ins = [20, rng.randrange(-1, 6), rng.randrange(-1, 6)]
        elif r == 13 and built: ins, length = [21], blen
        elif r == 14: ins = [22, rng.randrange(2)]
        elif r == 15 and rng.random() < .3: ins = [23, rng.randrange(1, 16)]
        elif r == 16 and rng.random() < .6: ins, length = [24], 11
        elif r == 17: ins, length = [25, rng.choice([0, rng.randrange(-90000, 90000), rng.randrange(-2**31 + 1, 2**31)])], 18
        elif r == 18: ins, length = [26, rng.randrange(32, 127)], 1
        elif r == 19: ins, length = [27], 0
        elif r == 20:
            prog.append([11, rng.randrange(2)])
            if rng.random() < .5: prog.append([22, rng.randrange(2)])
            ins, length = [28], 5
        elif r == 21 and built and blen + length < 100: ins, blen = [29, rng.randrange(0, 6)], blen + length
        elif r == 22 and built: ins, blen = [30, rng.randrange(-10**6, 10**6)], blen + 8
        elif r == 23: ins = [31]
        elif r == 24 and length < 40: ins, length = [32, rng.randrange(-1, 20)], max(length, 20)
        elif r == 25: ins, length = [33, rng.randrange(-9999, 10000)], 7
        elif r == 26: ins, length = [35, rng.randrange(0, 3652059)], 22
        elif r == 27 and joins < 2 and length < 30: ins, joins = [34], joins + 1
        if ins: prog.append(ins)
    if rng.random() < .8: prog.append([14])
    return prog


def programs_gen(rng, thorough):
    out = []
    for _ in range(400 if thorough else 80):
        kept = [program(rng) for _ in range(rng.randrange(1, 5))]
        out.append([("run", rng.choice(kept)) for _ in range(rng.randrange(4, 12))])   # again, and after others
    return out


COMPUTE = [[1, 5], [10, 7], [10, -12], [11, 0], [11, 1], [12, 32, 65], [13, 1, 2], [14], [15, 2], [16, 1, 5], [17, 1], [18], [19, 66, 67], [20, 0, 1],
           [21], [22, 0], [23, 4], [23, 15], [24], [25, 61], [26, 33], [28], [29, 0], [30, 3], [31], [32, 3], [33, 2], [34], [35, 400]]


CHECKS = {
    "C01": dict(stages=[
        pool_stage("pool24", 24, pool_gen(24), [dict(
            module="PoolMC", consts={"PoolSize": "24", "Sizes": "{0,1,8,9,16,24,25}", "MaxBlocks": "3"},
            thorough={"Sizes": "{0,1,7,8,9,16,17,24,25,32}", "MaxBlocks": "4"}, invariants=POOL_INV,
            properties=["NothingTakenBack"], constraint="Bound", limit=500, limit_thorough=3000)]),
        pool_stage("pool1003", 1003, pool_gen(1003)),
        pool_stage("pool32767", 32767, pool_gen(32767)),
        pool_stage("heap", 4096, heap_gen, single=True),
    ]),
    "C02": dict(stages=[dict(
        name="host", driver="host.cpp", flags=ASAN + ["-DMEMORY_SIZE=%d" % HOST_POOL], trace="HostTrace",
        consts={"PoolSize": str(HOST_POOL), "OutsideKind": "1", "Initial": "<- HostInit", "Explain": "<- HostExplain"},
        mc=[dict(module="HostMC", consts={"PoolSize": str(HOST_POOL), "OutsideKind": "1", "MaxLen": "2",
                                          "Instructions": "{" + ", ".join(tla(i) for i in INS) + "}"},
                 thorough={"MaxLen": "3"}, invariants=["DataKept", "ExceptionIsReported", "NormalReturn"], limit=400,
                 limit_thorough=4000)],
        first=[("run", [[1, HOST_POOL], [1, 1]] + ([[2, k % 16]] if k % 3 == 2 and k % 16 else [])) for k in range(40)],
        gen=host_gen), dict(
        name="programs", driver="host.cpp", flags=ASAN + ["-DMEMORY_SIZE=32767"], trace="HostTrace",
        consts={"PoolSize": "32767", "OutsideKind": "1", "Initial": "<- HostInit", "Explain": "<- HostExplain"},
        mc=[dict(module="HostMC", consts={"PoolSize": "32767", "OutsideKind": "1", "MaxLen": "2",
                                          "Instructions": "{" + ", ".join(tla(i) for i in COMPUTE) + "}"},
                 thorough={"MaxLen": "3"}, invariants=["DataKept", "ExceptionIsReported", "NormalReturn"], limit=400,
                 limit_thorough=4000)],
        gen=programs_gen)]),
}
