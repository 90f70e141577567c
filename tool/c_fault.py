"""C27 exceptions."""
import os, re
from c_pool import ASAN

HERE = os.path.dirname(os.path.abspath(__file__))
PROVOKED = len(re.findall(r"\w+", re.search(r"Provoked == <<(.*?)>>", open(HERE + "/../spec/Faults.tla").read(), re.S).group(1)))
# frames <<class, what>>: what = 0 swallows, 1 throws again, 2 throws a new exception around it


def frames(rng, n):
    f = []
    for _ in range(n):
        f += [rng.choice([0, 0, 2, 10, 14]) if rng.random() < .5 else rng.randrange(16), rng.choice([0, 1, 1, 2, 2])]
    return f


def gen(rng, thorough):
    out = []
    for k in range(1, PROVOKED + 1):
        out.append([("provoke", [[k, v]]) for v in range(8)] + [("caught", [[rng.randrange(1, 9)]])])
    for _ in range(4000 if thorough else 900):
        s = []
        n = 0
        provoked = set()
        while n < 12 and len(s) < 25:
            x = rng.random()
            if x < .2 or not n:
                s.append(("make", [[rng.randrange(16)]]))
                n += 1
            elif x < .3:
                s.append(("say", [[rng.choice([0, 14])], [rng.choice([97, 98, 0x20ac]) for _ in range(rng.randrange(4))]]))
                n += 1
            elif x < .5:
                s.append(("wrap", [[rng.choice([0, 14]), rng.choice([0, n, n, rng.randrange(1, n + 1)])], [rng.choice([97, 98]) for _ in range(rng.randrange(3))]]))
                n += 1
            elif x < .6:
                s.append(("provoke", [[rng.randrange(1, PROVOKED + 1), rng.randrange(40)]]))
                n += 1
                provoked.add(n)
            elif x < .75:
                s.append(("caught", [[rng.randrange(1, n + 1)]]))
            else:
                f = frames(rng, rng.randrange(1, 5))
                i = rng.randrange(1, n + 1)
                if i in provoked:             # of its declared class or one derived from it: nothing new may be made
                    f[1::2] = [min(w, 1) for w in f[1::2]]
                s.append(("unwind", [[i], f]))
                n = count(s)
        out.append(s)
    return out


PARENT = {3: 2, 5: 2, 12: 2, 15: 2, 11: 10, 13: 10}


def isa(c, h):
    while True:
        if c == h:
            return True
        if c == 0:
            return False
        c = PARENT.get(c, 0)


def count(s):
    """How many exceptions a session has made; a provoked one counts as of its declared class."""
    cls = []
    for op, a in s:
        if op in ("make", "say", "wrap"):
            cls.append(a[0][0])
        elif op == "provoke":
            cls.append(DECLARED[a[0][0] - 1])
        elif op == "unwind":
            c = cls[a[0][0] - 1]
            for h, w in zip(a[1][::2], a[1][1::2]):
                if isa(c, h):
                    if w == 0:
                        break
                    if w == 2:
                        cls.append(0)
                        c = 0
    return len(cls)


NAMES = {"Index": 1, "Argument": 2, "ArgNull": 3, "Rank": 4, "ArgRange": 5, "Cast": 7, "Operation": 8, "Format": 9, "Arithmetic": 10, "Overflow": 11, "ByZero": 13}
DECLARED = [NAMES[x] for x in re.findall(r"\w+", re.search(r"Provoked == <<(.*?)>>", open(HERE + "/../spec/Faults.tla").read(), re.S).group(1))]

CHECKS = {
    "C27": dict(stages=[dict(
        name="faults", driver="faults.cpp", flags=ASAN, trace="FaultsTrace", consts={"Initial": "<- FaultInit", "Explain": "<- FaultExplain"}, gen=gen,
        mc=[dict(module="FaultsMC", consts=dict(Made="{%s}" % ",".join(map(str, range(16))), Said="{0}", Failing="{%s}" % ",".join(map(str, range(1, PROVOKED + 1))), Messages="{<<>>,<<97>>}",
                 Frames="{<<%s>>}" % ">>,<<".join(["0,0", "2,0", "10,1,0,2", "14,2,2,0", "3,0,2,2,0,1"]), MaxLen="1"), thorough={"MaxLen": "2"},
                 invariants=["Innermost", "Older", "Hierarchy", "Cause"], properties=["Unchanging"], limit=1000, limit_thorough=6000),
            dict(module="FaultsMC", consts=dict(Made="{0,5,11}", Said="{0,14}", Failing="{}", Messages="{<<97>>}",
                 Frames="{<<%s>>}" % ">>,<<".join(["0,2", "2,2,0,0", "10,1,14,2", "5,2,0,1,0,2", "13,0,10,0"]), MaxLen="3"), thorough={"MaxLen": "4"},
                 invariants=["Innermost", "Older", "Hierarchy", "Cause"], properties=["Unchanging"], limit=1000, limit_thorough=6000)])]),
}
