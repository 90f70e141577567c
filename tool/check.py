#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]

Exit 0: every behaviour explored is one the specification allows.  Exit 1 with a VIOLATION line: some recorded
behaviour is not.  Anything else: the machinery failed."""
import argparse, collections, hashlib, importlib, json, os, random, shutil, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core

MODULES = ["c_pool", "c_array", "c_bytes", "c_sb", "c_string", "c_number", "c_time", "c_math", "c_char", "c_exact", "c_trans", "c_format", "c_fault"]


def registry():
    reg = {}
    for m in MODULES:
        if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), m + ".py")):
            reg.update(importlib.import_module(m).CHECKS)
    return reg


def known(prop):
    """Entries `finding: property=<id> match=<json of [op, args]> <text>` of the known-findings file."""
    out = []
    path = os.path.join(core.VERIF, "known-findings.txt")
    if os.path.exists(path):
        for l in open(path):
            if l.startswith("finding: property=%s " % prop):
                out.append(l.strip())
    return out


def matches(entry, op, args):
    i = entry.find("match=")
    if i < 0:
        return False
    m, _ = json.JSONDecoder().raw_decode(entry[i + 6:])
    return m == [op, args]


class Run:
    def __init__(self, prop, stages, tier, seed):
        self.prop, self.stages, self.tier, self.seed = prop, stages, tier, seed
        self.scratch = tempfile.mkdtemp(prefix="cppt-verif-")
        self.states = self.transitions = self.sessions = self.events = self.replayed = 0
        self.hist = collections.Counter()
        self.samples, self.models, self.rejected, self.selftest = [], [], [], [0, 0]

    def stage(self, st):
        rng = random.Random("%d/%s/%s" % (self.seed, self.prop, st["name"]))
        thorough = self.tier == "thorough"
        mcs = [m for m in st.get("mc", []) if thorough or not m.get("thorough_only")]
        with ThreadPoolExecutor(4) as ex:
            fb = ex.submit(core.build, self.scratch, st["driver"], st.get("flags", ["-O1", "-fsanitize=address"]))

            def mc(m):
                c = dict(m["consts"])
                if thorough:
                    c.update(m.get("thorough", {}))
                s, t, e = core.model_check(self.scratch, m["module"], c, m.get("invariants", ()), m.get("properties", ()),
                                           m.get("constraint"), m.get("emit", True), m.get("workers", 3), m.get("heap", "4g"))
                return m, c, s, t, e
            results = list(ex.map(mc, mcs))
            exe = fb.result()
        sessions = []
        for m, c, s, t, e in results:
            self.states += s
            self.transitions += t
            lim = m.get("limit_thorough" if thorough else "limit")
            cov = core.covering_sessions(e, lim, rng)
            pre = m.get("prefix", [])
            if pre:
                cov = [pre + x for x in cov]
            sessions += cov
            n = sum(len(x) for x in cov)
            self.replayed += n
            self.models.append({"module": m["module"], "constants": c, "states": s, "transitions": t, "emitted": len(e),
                                "operations_replayed": n, "invariants": list(m.get("invariants", ())) + list(m.get("properties", ()))})
        if "gen" in st:
            sessions += list(st["gen"](rng, thorough))
        sessions = [s for s in sessions if s]
        if not st.get("keep_order"):
            rng.shuffle(sessions)
        self.execute(st, exe, sessions)

    def execute(self, st, exe, sessions):
        parts = core.split_sessions(sessions, 1 if st.get("single") else core.WORKERS)
        if "first" in st:          # what every process begins with
            parts = [[st["first"]] + p for p in parts]
        env = st.get("env")

        def drive(i):
            d = os.path.join(self.scratch, "%s-%d" % (st["name"], i))
            os.makedirs(d, exist_ok=True)
            return core.run_driver(exe, parts[i], d, "run", env, reuse=i % 2 == 1)
        with ThreadPoolExecutor(core.WORKERS) as ex:
            recorded = list(ex.map(drive, range(len(parts))))
        rej = core.validate(self.scratch, st["trace"], st["consts"], recorded)
        found = []
        for ci, (ev, bad) in enumerate(zip(recorded, rej)):
            self.events += len(ev)
            decoded = [json.loads(l) for l in ev]
            for e in decoded:
                if e["op"] != "reset":
                    self.hist["%s/%s" % (e["op"], e["r"]["k"] if e["r"]["k"] != "throw" else "throw:" + e["r"]["x"])] += 1
            starts = [i for i, e in enumerate(decoded) if e["op"] == "reset"]
            self.sessions += len(starts)
            for b in bad:
                s0 = max([i for i in starts if i <= b] or [0])
                found.append((ci, s0, b, decoded[s0:b + 1]))
            if len(self.samples) < 6 and starts:
                k = starts[len(starts) // 2]
                nxt = [i for i in starts if i > k]
                self.samples.append({"stage": st["name"], "events": decoded[k:(nxt[0] if nxt else len(decoded))][:4]})
        # one report per distinct operation, each confirmed by a re-run
        seen = set()
        for ci, s0, b, evs in found:
            last = evs[-1]
            key = (last["op"], last["r"]["k"], last["r"]["x"])
            if key in seen or len(self.rejected) >= 12:
                continue
            session = [(e["op"], e["a"]) for e in evs[1:] if e["op"] not in ("reset-crash", "exit")]
            why = (self.confirm(st, exe, [session]) or self.confirm(st, exe, [session], True)
                   or self.confirm(st, exe, parts[ci], ci % 2 == 1))
            if why:
                seen.add(key)
                self.rejected.append((st, session, why))
            else:
                print("note: a rejection of %s did not repeat and is not reported" % (key,))
        self.binding(st, recorded, rej)

    def confirm(self, st, exe, sessions, reuse=False):
        d = tempfile.mkdtemp(prefix="confirm-", dir=self.scratch)
        ev = core.run_driver(exe, sessions, d, "run", st.get("env"), reuse=reuse)
        rej = core.validate(self.scratch, st["trace"], st["consts"], [ev])[0]
        return json.loads(ev[rej[0]]) if rej else None

    def binding(self, st, recorded, rej):
        """Corrupt one recorded event in each of some accepted sessions: the specification must notice."""
        rng = random.Random(self.seed)
        sess = []
        for ev, bad in zip(recorded, rej):
            cur = []
            badset = set(bad)
            ok = True
            for i, l in enumerate(ev):
                if l.startswith('{"op":"reset"'):
                    if ok and len(cur) > 1:
                        sess.append(cur)
                    cur, ok = [], True
                cur.append(l)
                ok = ok and i not in badset
            if ok and len(cur) > 1:
                sess.append(cur)
        if not sess:
            return
        chosen = rng.sample(sess, min(25, len(sess)))
        out = []
        for s in chosen:
            k = rng.randrange(1, min(len(s), 40))
            e = json.loads(s[k])
            if e["r"]["k"] == "ok" and e["r"]["v"] and any(e["r"]["v"]):
                g = rng.choice([g for g in e["r"]["v"] if g])
                j = rng.randrange(len(g))
                g[j] += 1 if g[j] < 2147483647 else -1
            elif e["r"]["k"] == "ok":
                e["r"] = {"k": "throw", "x": "Exception", "v": []}
            else:
                e["r"] = {"k": "ok", "x": "", "v": [[7777]]}
            out += s[:k] + [json.dumps(e, separators=(",", ":"))]
        r = core.validate(self.scratch, st["trace"], st["consts"], [out])[0]
        self.selftest[0] += len(chosen)
        self.selftest[1] += len(r)
        if len(r) * 2 < len(chosen):
            raise core.MachineryError("the specification accepts corrupted traces of %s: %d of %d noticed"
                                      % (st["name"], len(r), len(chosen)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    check = registry()[a.property]
    run = Run(a.property, check["stages"], a.tier, seed)
    try:
        if a.replay:
            rp = json.load(open(a.replay))
            st = next(s for s in check["stages"] if s["name"] == rp["stage"])
            exe = core.build(run.scratch, st["driver"], st.get("flags", ["-O1", "-fsanitize=address"]))
            replayed = [[tuple(x) for x in rp["session"]]]
            got = run.confirm(st, exe, replayed) or run.confirm(st, exe, replayed, True)
            print("rejected: %s" % json.dumps(got) if got else "accepted")
            return 1 if got else 0
        for st in check["stages"]:
            if a.tier == "thorough" or not st.get("thorough_only"):
                run.stage(st)
    finally:
        if not a.keep:
            shutil.rmtree(run.scratch, ignore_errors=True)
    lines, violations, kf = [], [], known(a.property)
    for st, session, why in run.rejected:
        op, args = why["op"], why["a"]
        hit = [k for k in kf if matches(k, op, args)]
        if hit:
            lines.append("KNOWN-FINDING: property=%s %s" % (a.property, hit[0].split(" ", 2)[2]))
            continue
        os.makedirs(os.path.join(core.VERIF, "out"), exist_ok=True)
        body = {"property": a.property, "stage": st["name"], "seed": seed, "rejected_event": why, "session": session,
                "how": "python3 tool/check.py %s --replay <this file>" % a.property}
        name = "%s-%s.json" % (a.property, hashlib.sha1(json.dumps(body).encode()).hexdigest()[:10])
        path = os.path.join(core.VERIF, "out", name)
        json.dump(body, open(path, "w"), indent=1)
        violations.append({"replay": path, "op": op, "args": args, "observed": why["r"], "state": why["s"]})
        lines.append("VIOLATION property=%s replay=%s" % (a.property, path))
    for i in kf:
        if not any(i.split(" ", 2)[2] in l for l in lines):
            lines.append("KNOWN-FINDING: property=%s %s" % (a.property, i.split(" ", 2)[2]))
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    json.dump({
        "property": a.property, "tier": a.tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": run.states, "transitions": run.transitions, "traces_validated_against_impl": run.sessions,
            "samples": run.samples, "events_validated": run.events, "model_transitions_replayed_in_code": run.replayed,
            "models": run.models, "outcomes_per_operation": dict(sorted(run.hist.items())),
            "corrupted_traces_tried": run.selftest[0], "corrupted_traces_rejected": run.selftest[1]},
        "wall_s": round(time.time() - t0, 2), "violations": violations},
        open(os.path.join(core.VERIF, "evidence", a.property + ".json"), "w"), indent=1)
    for v in violations:
        print("  %s %s -> %s state %s" % (v["op"], json.dumps(v["args"])[:300], json.dumps(v["observed"])[:300],
                                         json.dumps(v["state"])[:300]))
    for l in dict.fromkeys(lines):
        print(l)
    print("%s %s: %d model states, %d transitions, %d sessions / %d events validated, %.1fs"
          % (a.property, a.tier, run.states, run.transitions, run.sessions, run.events, time.time() - t0))
    return 1 if violations else 0


if __name__ == "__main__":
    try:
        rc = main()
    except core.MachineryError as e:
        print("ERROR:", e)
        rc = 2
    sys.exit(rc)
