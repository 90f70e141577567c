"""C15 calendar, C16 date arithmetic, C17 time spans, C18 date and span text, C22 time zones."""
from c_pool import ASAN, tla
from c_array import MAXI
from c_number import enc, dbl, edge, fbits, stretched, MAXTICKS, WS

DAY = 864000000000
UNIT = [10000, 10000000, 600000000, 36000000000, DAY]
I64 = (1 << 63) - 1
MINI = -MAXI - 1
NORTH, SOUTH = 10001, 10002


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def mlen(y, m):
    return 29 if m == 2 and leap(y) else [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]


def daynum(y, m, d):
    return 365 * (y - 1) + (y - 1) // 4 - (y - 1) // 100 + (y - 1) // 400 + sum(mlen(y, k) for k in range(1, m)) + d - 1


def year(rng):
    return rng.choice([1, 2, 3, 4, 99, 100, 101, 399, 400, 401, 1600, 1899, 1900, 1969, 1970, 2000, 2001, 2024, 2100, 9996, 9999,
                       9998, rng.randrange(1, 100) * 100, rng.randrange(1, 25) * 400, rng.randrange(1, 10000), rng.randrange(1, 10000)])


def tod(rng):
    x = rng.random()
    if x < .2:
        return 0
    if x < .35:
        return DAY - 1 - rng.choice([0, 0, 1, 9999, 10000, UNIT[1]])
    if x < .6:
        return min(DAY - 1, rng.randrange(24) * UNIT[3] + rng.choice([0, 0, -1, 1, 59 * UNIT[2], UNIT[1], 10000, 9999]) % DAY)
    if x < .75:
        return rng.randrange(24 * 3600) * UNIT[1] + rng.choice([0, 1, 999 * 10000, 9999999])
    return rng.randrange(DAY)


def instant(rng):
    x = rng.random()
    if x < .08:
        return rng.choice([0, MAXTICKS, 1, MAXTICKS - 1, DAY, MAXTICKS - DAY, DAY - 1])
    if x < .6:
        y = year(rng)
        m = rng.choice([1, 2, 2, 3, 12, rng.randrange(1, 13)])
        d = rng.choice([1, mlen(y, m), mlen(y, m), 28, rng.randrange(1, mlen(y, m) + 1)])
        return daynum(y, m, d) * DAY + tod(rng)
    return rng.randrange(MAXTICKS + 1) if x < .8 else rng.randrange(3652059) * DAY + tod(rng)


def tickspan(rng):
    x = rng.random()
    s = rng.choice([1, -1])
    if x < .1:
        return rng.choice([I64, -I64 - 1, -I64, 0, 1, -1, I64 - 1])
    if x < .35:
        v = 0
        for u in UNIT + [1]:
            v += u * rng.choice([0, 0, 1, rng.randrange(60), 59, 23])
        return s * v
    if x < .6:
        return s * (rng.choice(UNIT) * rng.choice([1, 2, 24, 59, 60, 100, 365, 1000, rng.randrange(1, 10000)]) + rng.choice([0, 0, 1, -1, 9999]))
    if x < .7:
        return s * (I64 - rng.randrange(DAY * rng.choice([1, 1000])))
    return s * rng.randrange(1 << rng.randrange(1, 64))


def badword(rng):
    return rng.choice([MAXTICKS + 1, MAXTICKS + DAY, 1 << 62, 1 << 63, (1 << 64) - 1, (1 << 63) + 5])


def record(rng):
    y = year(rng)
    m = rng.randrange(1, 13)
    r = [y, m, rng.randrange(1, mlen(y, m) + 1), rng.randrange(24), rng.randrange(60), rng.randrange(60), rng.randrange(1000)]
    if rng.random() < .4:
        r[2] = mlen(y, m)
    if rng.random() < .3:
        r[3:] = rng.choice([[23, 59, 59, 999], [0, 0, 0, 0], [12, 0, 0, 0]])
    if rng.random() < .5:
        k = rng.randrange(7)
        r[k] = rng.choice([0, -1, MAXI, MINI, [10000, 13, mlen(y, m) + 1, 24, 60, 60, 1000][k], [10000, 13, 32, 24, 60, 60, 1000][k],
                           [9999, 12, mlen(y, m), 23, 59, 59, 999][k]])
    return r[:rng.choice([3, 6, 7, 7])]


def cal_gen(rng, thorough):
    out = []
    for _ in range(2500 if thorough else 500):
        s = []
        for _ in range(12):
            x = rng.random()
            if x < .45:
                s.append(("ticks", [enc(instant(rng) if rng.random() < .93 else badword(rng), 8)]))
            elif x < .85:
                s.append(("date", [record(rng)]))
            elif x < .92:
                s.append(("leap", [[rng.choice([year(rng), 0, 10000, -4, MAXI, MINI, -400])]]))
                continue
            elif x < .99:
                s.append(("daysIn", [[rng.choice([year(rng), year(rng), 0, 10000, -4, MAXI]), rng.choice([rng.randrange(1, 13), 2, 0, 13, -1, MAXI, MINI])]]))
                continue
            else:
                s.append(("limits", []))
            s.append(("parts", []))
        out.append(s)
    months = [(y, m) for y in range(1, 10000) for m in range(1, 13)]
    if not thorough:
        odd = [c for c in months if c[1] == 2 and (c[0] % 100 == 0 or c[0] < 9 or c[0] > 9990)] + months[:24] + months[-24:] + [(1900, 1), (2000, 12), (1999, 12)]
        months = odd + rng.sample(months, 5000)
    for c in range(0, len(months), 60):
        out.append([("month", [list(p)]) for p in months[c:c + 60]])
    return out


def amount(rng, unit, cap=10000000):
    """a double amount of a unit"""
    ms = UNIT[unit] // 10000
    x = rng.random()
    s = rng.choice([1, -1])
    if x < .3:
        return dbl(s * float(rng.choice([0, 1, 2, 7, 24, 60, 365, 1000, rng.randrange(1, cap), rng.randrange(1, 400)])))
    if x < .5:                     # a whole number of half milliseconds, and thereabouts
        v = (rng.randrange(0, 20000000000) * .5 + rng.choice([0, 0, .25, .125, .375, .4375, .0625, 1e-3, -1e-3, .01])) / ms
        return dbl(s * v)
    if x < .7:
        return dbl(s * rng.random() * 10 ** rng.randrange(-6, 12))
    if x < .85:                    # around the ends of the range
        return dbl(s * (MAXTICKS / UNIT[unit]) * rng.choice([1, .5, .999999999, 1.000000001, .9, 1.1, 2, rng.random()]))
    if x < .93:
        return dbl(s * rng.choice([.5, .49999999999999994, 1.5, 2.5, .1, 1e15, 9.2e18, 2 ** 63, 2 ** 53, 1e300, 4.9e-324, 315537897600000.0, 315537897599999.5]))
    return fbits(rng, 13)


def months_count(rng):
    return rng.choice([0, 1, -1, 11, 12, 13, -11, -12, -13, 120000, -120000, 120001, -120001, MAXI, MINI, 10000, -10000, 10001, -10001,
                       rng.randrange(-200, 200), rng.randrange(-3000, 3000), rng.randrange(-120000, 120001), rng.randrange(-12, 13) * 12, 119987, -119987])


def date_gen(rng, thorough):
    out = []
    for _ in range(4000 if thorough else 600):
        s = []
        for _ in range(5):
            i = instant(rng)
            s.append(("ticks", [enc(i, 8)]))
            for _ in range(rng.randrange(2, 7)):
                x = rng.random()
                if x < .15:
                    w = rng.choice([tickspan(rng), MAXTICKS - i, -i, MAXTICKS - i + 1, -i - 1, rng.randrange(-i, MAXTICKS - i + 1)])
                    s.append(("addTicks", [enc(w, 8)]))
                elif x < .35:
                    w = rng.choice([tickspan(rng), MAXTICKS - i, -i, i, i - MAXTICKS, i + 1, rng.randrange(-i, MAXTICKS - i + 1)])
                    s.append(("span", [enc(w, 8)]))
                    p = [("addSpan", [[rng.randrange(2)]]), ("subSpan", [[rng.randrange(2)]])]
                    rng.shuffle(p)
                    s += p[:rng.choice([1, 2])]
                elif x < .55:
                    u = rng.randrange(5)
                    s.append(("addUnit", [[u], amount(rng, u)]))
                elif x < .75:
                    s.append((rng.choice(["addMonths", "addMonths", "addYears"]), [[months_count(rng)]]))
                elif x < .88:
                    j = rng.choice([i, min(MAXTICKS, i + 1), max(0, i - 1), instant(rng), i ^ (1 << rng.randrange(32)), max(0, i - (1 << 32)), 0, MAXTICKS])
                    s.append(("cmpDate", [enc(min(j, MAXTICKS), 8)]))
                else:
                    s.append(("diff", [[rng.randrange(2)], enc(instant(rng), 8)]))
        out.append(s)
    return out


def comps(rng):
    def c(hi):
        return rng.choice([0, 0, 1, -1, hi, -hi, hi - 1, rng.randrange(-hi, hi + 1), rng.randrange(-60, 61), rng.randrange(-60, 61), MAXI, MINI])
    x = rng.random()
    if x < .4:
        return [rng.randrange(-40, 40) for _ in range(5)]
    if x < .6:
        return [c(10675199), c(256204778), c(MAXI), c(MAXI), c(MAXI)]
    sg = rng.choice([1, -1])
    r = [sg * v for v in (10675199, 2, 48, 5, 477)]
    k = rng.randrange(5)
    r[k] += rng.choice([0, 1, -1, sg])
    return r


def hms(rng):
    x = rng.random()
    if x < .5:
        return [rng.randrange(-100, 100) for _ in range(3)]
    if x < .7:
        return [rng.choice([MAXI, MINI, 0, rng.randrange(MINI, MAXI)]) for _ in range(3)]
    sg = rng.choice([1, -1])
    r = [sg * v for v in (256204778, 48, 5)]
    r[rng.randrange(3)] += rng.choice([0, 1, -1, sg])
    return r


def factor(rng):
    x = rng.random()
    if x < .5:
        return dbl(rng.choice([1, -1]) * rng.choice([0.0, 1.0, 2.0, .5, .25, 1.5, 3.0, 10.0, .1, 1e-9, 1e9, 1 / 3, 7.0, float(rng.randrange(1, 1000)), rng.random() * 10, 2.5]))
    if x < .6:
        return dbl(rng.choice([1, -1]) * 2.0 ** rng.randrange(-70, 70))
    if x < .8:
        return dbl(rng.choice([1, -1]) * rng.random() * 10 ** rng.randrange(-12, 12))
    return fbits(rng, 13)


def span_gen(rng, thorough):
    out = []
    for _ in range(3000 if thorough else 500):
        s = []
        for _ in range(6):
            x = rng.random()
            v = tickspan(rng)
            if x < .5:
                s.append(("span", [enc(v, 8)]))
            elif x < .65:
                s.append(("span5", [comps(rng)]))
            elif x < .78:
                s.append(("span3", [hms(rng)]))
            else:
                u = rng.randrange(5)
                f = amount(rng, u) if rng.random() < .7 else dbl(rng.choice([1, -1]) * (2.0 ** 63 / UNIT[u]) * rng.choice([1, 1, .9999999999, 1.0000001, .5, 2]))
                s.append(("fromUnit", [[u], f]))
            for _ in range(rng.randrange(2, 5)):
                x = rng.random()
                if x < .3:
                    s.append(("spanParts", []))
                elif x < .4:
                    s.append(("totals", []))
                elif x < .5:
                    s.append(rng.choice([("neg", [[0]]), ("neg", [[1]]), ("abs", []), ("plus", [])]))
                elif x < .75:
                    o = rng.choice([tickspan(rng), I64 - v, -I64 - 1 - v, v, -v, v + I64, v - I64, v + I64 + 1, I64 - v + 1, -I64 - 2 - v, rng.choice([I64, -I64 - 1, 1, -1, 0])])
                    o = max(-I64 - 1, min(I64, o))
                    s.append((rng.choice(["addT", "subT"]), [[rng.randrange(2)], enc(o, 8)]))
                elif x < .85:
                    o = rng.choice([v, v + 1, v - 1, -v, tickspan(rng), v ^ (1 << 32), v ^ 1, I64, -I64 - 1, ~v])
                    o = max(-I64 - 1, min(I64, o))
                    s.append(("cmpSpan", [enc(o, 8)]))
                elif x < .94:
                    s.append((rng.choice(["mul", "div"]), [[rng.randrange(2)], factor(rng)]))
                else:
                    s.append(("ratio", [[rng.randrange(2)], enc(rng.choice([tickspan(rng), v, 1, 0, -1, 3, DAY]) if abs(v) < I64 else 7, 8)]))
        out.append(s)
    return out


def spantext(rng):
    """a text of a span, mostly well formed"""
    d = rng.choice([None, None, 0, 1, 10675199, 10675200, 10675198, rng.randrange(100), rng.randrange(11000000), 99999999999])
    h = rng.choice([0, 1, 2, 23, 24, 12, 99, rng.randrange(24), rng.randrange(24), rng.randrange(24)])
    mi = rng.choice([0, 59, 60, 48, 5, rng.randrange(60), rng.randrange(60), rng.randrange(60)])
    se = rng.choice([0, 59, 60, 5, rng.randrange(60), rng.randrange(60), rng.randrange(60)])
    fr = rng.choice(["0", "5", "4775807", "4775808", "4775809", "0000001", "9999999", "00000001", "1234567", "%07d" % rng.randrange(10000000), "1" * 8, "", str(rng.randrange(1000))])
    x = rng.random()
    if x < .12:
        d, h, mi, se = 10675199, 2, 48, 5

    def two(v):
        return rng.choice(["%02d" % v, str(v), "%03d" % v]) if rng.random() < .3 else "%02d" % v
    form = rng.randrange(7)
    day = str(d or 0)
    if rng.random() < .1:
        day = "0" * rng.choice([1, 3, 30]) + day
    if form == 0:
        s = day
    elif form == 1:
        s = two(h) + ":" + two(mi)
    elif form == 2:
        s = two(h) + ":" + two(mi) + ":" + two(se)
    elif form == 3:
        s = two(h) + ":" + two(mi) + ":" + two(se) + "." + fr
    elif form == 4:
        s = day + "." + two(h) + ":" + two(mi) + ":" + two(se) + "." + fr
    elif form == 5:
        s = day + "." + two(h) + ":" + two(mi) + rng.choice(["", ":" + two(se)])
    else:
        s = day + ":" + two(h) + ":" + two(mi) + ":" + two(se) + rng.choice(["", "." + fr])
    if rng.random() < .4:
        s = "-" + s
    c = [ord(k) for k in s]
    if rng.random() < .15:
        c = [rng.choice(WS) for _ in range(rng.randrange(3))] + c + [rng.choice(WS) for _ in range(rng.randrange(3))]
    x = rng.random()
    if x < .1:
        c.insert(rng.randrange(len(c) + 1), rng.choice([45, 46, 58, 48, 43, 32, 0, 47, 59, 0x661, 0xff11, 44, 100]))
    elif x < .16 and c:
        del c[rng.randrange(len(c))]
    elif x < .22 and c:
        c[rng.randrange(len(c))] = rng.choice([45, 46, 58, 48, 57, 32, 43, 0, 47, 0x661])
    elif x < .24:
        c = rng.choice([[], [32], [45], [46], [58], [45, 45, 49], [49, 46], [49, 58], [45, 32, 49], [49, 46, 50], [49, 46, 50, 58, 51, 46, 52]])
    return c


def text_gen(rng, thorough):
    out = []
    for _ in range(4000 if thorough else 600):
        s = []
        for _ in range(8):
            x = rng.random()
            if x < .3:
                s += [("span", [enc(tickspan(rng), 8)]), ("spanText", [])]
                s += [("span", [enc(0, 8)])] if rng.random() < .7 else []
                s.append((rng.choice(["parse", "tryParse"]), []))
            elif x < .5:
                s += [("ticks", [enc(instant(rng), 8)]), ("dateText", [])]
            else:
                s.append(("text", [spantext(rng)] if rng.random() < .98 else [[-1]]))
                s += [("parse", []), ("tryParse", [])]
        out.append(s)
    for _ in range(100 if thorough else 25):
        s = []
        for _ in range(3):
            s += [("text", [stretched(rng, spantext(rng))]), ("parse", []), ("tryParse", [])]
        out.append(s)
    for h in range(24):
        out.append([o for m, sec in ((0, 0), (59, 59), (1, 2)) for o in (("date", [[2024, rng.randrange(1, 13), rng.randrange(1, 29), h, m, sec]]), ("dateText", []))])
    return out


def zone_gen(rng, thorough):
    out = []
    for _ in range(2500 if thorough else 400):
        z = rng.choice([0, 60, -60, 330, -330, 345, -570, 765, 840, -720, 1, -1, 59, -59, -210, 720, 1439, -1439, rng.randrange(-840, 841), rng.randrange(-1439, 1440)])
        s = [("zone", [[z]])]
        for _ in range(6):
            i = instant(rng)
            if rng.random() < .2:
                i = rng.choice([abs(z) * 600000000 + rng.choice([0, -1, 1]), MAXTICKS - abs(z) * 600000000 + rng.choice([0, -1, 1]), 0, MAXTICKS, rng.randrange(DAY), MAXTICKS - rng.randrange(DAY)])
                i = max(0, min(MAXTICKS, i))
            s.append(("ticks", [enc(i, 8)]))
            ops = [("toLocal", [[rng.randrange(3)]]), ("toUniversal", [])]
            rng.shuffle(ops)
            s += ops
            if rng.random() < .3:
                s.append(("isDst", []))
        if rng.random() < .3:
            s.append(("now", []))
        if rng.random() < .4:
            s.append(("zone", [[rng.choice([-z, rng.randrange(-720, 721)])]]))
            s += [("toLocal", [[0]]), ("toUniversal", []), ("now", [])]
        out.append(s)
    for _ in range(1200 if thorough else 250):
        s = []
        for _ in range(8):
            s.append(("zone", [[rng.choice([NORTH, SOUTH])]]))
            y = rng.choice([1971, 2000, 2007, 2024, 2037, 2038, 2039, 2100, 2400, 9999, rng.randrange(1971, 10000)])
            m = rng.choice([3, 4, 10, 11, rng.randrange(1, 13)])
            d = rng.randrange(1, 16) if m in (3, 4, 10, 11) else rng.randrange(1, mlen(y, m) + 1)
            s.append(("date", [[y, m, d, rng.choice([0, 1, 2, 3, 4, 12, 23, rng.randrange(24)]), rng.choice([0, 59, rng.randrange(60)]), rng.randrange(60)]]))
            s.append(("isDst", []))
        out.append(s)
    return out


def words(vs):
    return "{%s}" % ",".join("<<%s>>" % ",".join(map(str, enc(v, 8))) for v in vs)


def doubles(vs):
    return "{%s}" % ",".join("<<%s>>" % ",".join(map(str, dbl(v))) for v in vs)


def texts(vs):
    return "{%s}" % ",".join("<<%s>>" % ",".join(str(ord(c)) for c in v) for v in vs)


def nums(vs):
    return "{%s}" % ",".join("(-2147483647-1)" if v == MINI else str(v) for v in vs)


def recs(vs):
    return "{%s}" % ",".join("<<%s>>" % ",".join("(-2147483647-1)" if x == MINI else str(x) for x in v) for v in vs)


def at(y, m, d, t=0):
    return daynum(y, m, d) * DAY + t


NOON = 12 * UNIT[3]
EDGES = [1, MAXTICKS, MAXTICKS - 1, at(1, 12, 31, DAY - 1), at(4, 2, 29), at(100, 2, 28, DAY - 1), at(100, 3, 1), at(400, 2, 29, NOON),
         at(400, 12, 31), at(401, 1, 1), at(1900, 2, 28), at(1900, 3, 1), at(2000, 2, 29, 1), at(2000, 12, 31, DAY - 1), at(2001, 1, 31),
         at(2023, 1, 31, 13 * UNIT[3] + 59 * UNIT[2] + 1234567), at(2024, 1, 30), at(2024, 12, 31, DAY - 10000), at(9996, 2, 29), at(9999, 1, 1),
         at(9999, 12, 31), at(1, 1, 2), at(1, 2, 1), at(1582, 10, 10, NOON - 1), at(1970, 1, 1)]
SPANS = [1, -1, 9999, 10000, -10000, 9999999, UNIT[1], -UNIT[1], UNIT[2] - 1, UNIT[3], -UNIT[3] + 1, DAY, -DAY, DAY - 1, 1 - DAY, 36 * UNIT[3],
         I64, -I64, -I64 - 1, I64 // 2 + 1, -(I64 // 2) - 1, -(I64 // 2) - 2, MAXTICKS, -MAXTICKS, 10675199 * DAY, -10675199 * DAY, -5000000, 1234567890123456789]
DBL = [0.0, -0.0, 1.0, -1.0, .5, -.5, 1.5, .0005, -.0005, .00049, 2.5, 365.25, 1e9, 1e15, -1e15, 9223372036854775807.0, -9223372036854775808.0,
       922337203685477.58, 3652058.9999, float("inf"), float("-inf"), float("nan"), 5e-324, 1e300, 1 / 3, 10675199.1167, 256204778.8, 53376.0]
COUNTS = [0, 1, -1, 12, -12, 13, 11, -13, 1200, -4800, 119987, -119987, 120000, -120000, 120001, -120001, 9998, -9998, 10000, 10001, -10001, MAXI, MINI]
DREC = [[y, m, d, h, mi, s, ms] for y in (0, 1, 1900, 2000, 9999, 10000) for m, d in ((0, 1), (1, 0), (1, 31), (1, 32), (2, 28), (2, 29), (2, 30), (4, 30), (4, 31), (12, 31), (13, 1))
        for h, mi, s, ms in ((0, 0, 0, 0), (23, 59, 59, 999))] \
    + [[2024, 2, 29] + r for r in ([24, 0, 0, 0], [-1, 0, 0, 0], [0, 60, 0, 0], [0, -1, 0, 0], [0, 0, 60, 0], [0, 0, -1, 0], [0, 0, 0, 1000], [0, 0, 0, -1], [12, 30, 15, 500])] \
    + [[2024, 2, 29], [2023, 2, 29], [2024, 2, 29, 1, 2, 3], [2024, 2, 29, 1, 2, 60]] + [[MAXI, 1, 1], [MINI, 1, 1], [1, MAXI, 1], [1, MINI, 1], [1, 1, MAXI], [1, 1, MINI]]
SREC = [[0, 0, 0, 0, 0], [1, 2, 3, 4, 5], [-1, -2, -3, -4, -5], [1, -24, 0, 0, 0], [0, 24, 60, 60, 1000], [10675199, 2, 48, 5, 477], [10675199, 2, 48, 5, 478],
        [-10675199, -2, -48, -5, -477], [-10675199, -2, -48, -5, -478], [MAXI] * 5, [MINI] * 5, [MAXI, MINI, MAXI, MINI, MAXI], [0, MAXI, MINI, 0, 0], [0, 0, MAXI, MAXI, MAXI],
        [256204778, 48, 5, 0, 0], [256204778, 48, 6, 0, 0], [-256204778, -48, -5, 0, 0], [-256204778, -48, -6, 0, 0], [10675200, -24, 0, 0, 0]]
ZONES = [60, -60, 330, -330, 1, -59, 765, -720, 1439, -1439, NORTH, SOUTH]
NONE = "{}"
BASE = {"Dates": NONE, "Spans": NONE, "Doubles": NONE, "Counts": NONE, "Records": NONE, "Years": NONE, "Alphabet": NONE, "MaxLen": "0", "Starts": NONE, "Zones": NONE}


def mc(family, invariants, limit=None, limit_thorough=None, thorough=None, **consts):
    c = dict(BASE, Family='"%s"' % family, **consts)
    return dict(module="TimesMC", consts=c, thorough=thorough or {}, invariants=invariants, limit=limit, limit_thorough=limit_thorough)


def stage(gen, mcs):
    return dict(stages=[dict(name="time", driver="times.cpp", flags=ASAN, trace="TimesTrace",
                             consts={"Initial": "<- TimeInit", "Explain": "<- TimeExplain"}, mc=mcs, gen=gen)])


DST = [at(y, m, d, t) for y in (2007, 2024, 2038) for m, d in ((3, 8), (3, 10), (3, 14), (4, 1), (4, 7), (10, 1), (10, 6), (10, 7), (11, 1), (11, 3), (11, 7), (7, 1), (1, 1))
       for t in (0, UNIT[3] * 2 - UNIT[1], UNIT[3] * 2, UNIT[3] * 3, NOON)]
YEARS = [0, 1, 2, 4, 100, 200, 300, 400, 1600, 1700, 1800, 1900, 1996, 1999, 2000, 2001, 2023, 2024, 2100, 9996, 9999, 10000, -4, MAXI]
CHECKS = {
    "C15": stage(cal_gen, [mc("calendar", ["PartsRecombine", "Ordered", "DateInRange"], Dates=words([0] + EDGES + [MAXTICKS + 1, 1 << 63]),
                              Records=recs(DREC), Years=nums(YEARS))]),
    "C16": stage(date_gen, [mc("dates", ["DateInRange", "PartsRecombine", "ThereAndBack", "MonthsUndo"], 700, 4000, Dates=words(EDGES), Spans=words(SPANS[::2]),
                               thorough={"Spans": words(SPANS)}, Doubles=doubles(DBL), Counts=nums(COUNTS))]),
    "C17": stage(span_gen, [mc("spans", ["NegateTwice", "TotalsSane"], 700, 4000, Spans=words(SPANS), Doubles=doubles(DBL), Records=recs(SREC))]),
    "C18": stage(text_gen, [
        mc("text", ["SpanTextFaithful"], Dates=words(EDGES), Spans=words(SPANS), Alphabet=NONE, MaxLen="0", Starts=NONE),
        mc("text", ["Trying", "MinusNegates"], 400, 5000, Alphabet="{32,45,46,49,50,58}", MaxLen="5", thorough={"MaxLen": "6", "Alphabet": "{32,45,46,50,58}"}),
        mc("text", ["Trying", "MinusNegates"], 400, 5000, Alphabet="{45,46,48,53,54,57,58}", MaxLen="9", thorough={"MaxLen": "10"},
           Starts=texts(["1:23:4", "7.2:0:", "1:2:3:5", "10675199.2:48:5"[:6], "-3:59:5", "00:00:0"]))]),
    "C22": stage(zone_gen, [mc("zones", ["DateInRange", "ZoneUndone"], 700, 4000, Dates=words(EDGES + DST[::3]), Zones=nums(ZONES), thorough={"Dates": words(EDGES + DST)})]),
}
