"""Machinery shared by all checks: build the driver from /repo's working tree, let TLC explore a specification, replay
the explored transitions and generated scripts in the real library, and let TLC decide whether the recorded events are
behaviours of the specification."""
import glob, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
WORKERS = min(8, os.cpu_count() or 4)


class MachineryError(Exception):
    """The check itself failed: neither "held" nor "violated"."""


# ---------------------------------------------------------------- building
CXX = ["g++", "-std=c++11", "-w", "-g", "-pthread"]


def library_sources():
    src = sorted(glob.glob(REPO + "/DotNetLibrary/src/*.cpp")) + sorted(glob.glob(REPO + "/PlatformSupport/*.cpp")) \
        + sorted(glob.glob(REPO + "/DotNetLibrarySupport/*.cpp"))
    return [s for s in src if not os.path.basename(s).startswith("dllmain") and os.path.basename(s) != "pch.cpp"]


def build(scratch, driver, flags):
    """Compile the library (from the working tree) and one driver; returns the path of the executable."""
    out = os.path.join(scratch, "obj-" + re.sub(r"\W", "_", " ".join([driver] + flags))[:100])
    os.makedirs(out, exist_ok=True)
    inc = ["-I" + REPO + "/DotNetLibrary/include", "-I" + REPO + "/PlatformSupport", "-I" + REPO + "/DotNetLibrarySupport",
           "-I" + VERIF + "/driver"]

    def compile_one(src):
        obj = os.path.join(out, os.path.basename(src) + ".o")
        r = subprocess.run(CXX + flags + inc + ["-c", src, "-o", obj], capture_output=True, text=True)
        if r.returncode:
            raise MachineryError("cannot compile %s:\n%s" % (src, r.stderr[-3000:]))
        return obj
    with ThreadPoolExecutor(WORKERS) as ex:
        objs = list(ex.map(compile_one, library_sources() + [os.path.join(VERIF, "driver", driver)]))
    exe = os.path.join(out, "driver")
    r = subprocess.run(CXX + flags + objs + ["-o", exe], capture_output=True, text=True)
    if r.returncode:
        raise MachineryError("cannot link %s:\n%s" % (driver, r.stderr[-3000:]))
    return exe


# ---------------------------------------------------------------- scripts and the driver
def line_of(op, args):
    if not args:
        return op
    return op + "\t" + ";".join(",".join(map(str, g)) for g in args)


RESET = ("reset", [])


def run_driver(exe, sessions, workdir, name, env=None, stall=20, reuse=False):
    """Runs sessions (lists of (op, args)) one after another; returns the recorded events.  A crash or a hang ends its
    session with an event of kind "crash", which no specification allows.  With reuse, freed memory is handed out again
    at once (as an ordinary allocator does), so that what the library keeps by address gets stale."""
    events = []
    todo = list(sessions)
    script = os.path.join(workdir, name + ".script")
    outp = os.path.join(workdir, name + ".events")
    e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:"
             "detect_stack_use_after_return=0" + (":quarantine_size_mb=0:thread_local_quarantine_size_kb=0" if reuse else ""), LC_ALL="C", TZ="UTC0")
    if env:
        e.update(env)
    crashes = 0
    while todo:
        lines, marks = [], []
        for s in todo:
            marks.append(len(lines))
            lines.append("reset")
            lines.extend(line_of(o, a) for o, a in s)
        with open(script, "w") as f:
            f.write("\n".join(lines) + "\n")
        if os.path.exists(outp):
            os.unlink(outp)
        err = open(os.path.join(workdir, name + ".err"), "w+")
        p = subprocess.Popen([exe, script, outp], env=e, cwd=workdir, stdout=subprocess.DEVNULL, stderr=err)
        last, t_last, why = -1, time.time(), None
        while True:
            try:
                p.wait(timeout=0.05 if time.time() - t_last < 1 else 0.5)
                break
            except subprocess.TimeoutExpired:
                size = os.path.getsize(outp) if os.path.exists(outp) else -1
                if size != last:
                    last, t_last = size, time.time()
                elif time.time() - t_last > stall:
                    p.kill()
                    p.wait()
                    why = "hang"
                    break
        err.seek(0)
        errtext = err.read()
        err.close()
        if p.returncode == 3 and why is None:
            raise MachineryError("driver rejected its script: " + errtext[-500:])
        got = []
        if os.path.exists(outp):
            with open(outp) as f:
                for l in f:
                    if not l.endswith("\n"):
                        break
                    got.append(l.rstrip("\n"))
        events.extend(got)
        if len(got) == len(lines) and p.returncode == 0:
            break
        if len(got) >= len(lines):        # everything was recorded, but the process died on its way out
            why = why or "exit"
            events.append(json.dumps({"op": "exit", "a": [], "r": {"k": "crash", "x": why, "v": []}, "s": []}))
            break
        k = len(got)
        m = re.search(r"ERROR: AddressSanitizer: (\S+)", errtext)
        why = why or (m.group(1) if m else "signal %s" % -p.returncode if p.returncode < 0 else "exit %s" % p.returncode)
        si = max(i for i in range(len(marks)) if marks[i] <= k)
        j = k - marks[si] - 1
        if j < 0:
            events.append(json.dumps({"op": "reset", "a": [], "r": {"k": "ok", "x": "", "v": []}, "s": []}))
            op, args = "reset-crash", []
        else:
            op, args = todo[si][j]
        events.append(json.dumps({"op": op, "a": args, "r": {"k": "crash", "x": why, "v": []}, "s": []},
                                 separators=(",", ":")))
        crashes += 1
        todo = todo[si + 1:]
        if crashes > 40:                  # enough evidence; do not spend the budget on restarting
            break
    return events


# ---------------------------------------------------------------- TLC
def trouble(out):
    """the part of TLC's output that says what went wrong"""
    lines = [l for l in out.splitlines() if not l.startswith(('"@', "Parsing file", "Semantic proc", "Linting"))]
    at = next((i for i, l in enumerate(lines) if "Error" in l or "error" in l), 0)
    return "\n".join(l[:400] for l in lines[at:at + 40])


def java(args, cwd, env=None, heap="2g", timeout=3000):
    cmd = ["java", "-XX:+UseSerialGC", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + cwd, "-XX:TieredStopAtLevel=4", "-cp", JARS + ":" + VERIF + "/spec",
           "-DTLA-Library=" + VERIF + "/spec", "tlc2.TLC"] + args
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update(env)
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise MachineryError("TLC exceeded %ss: %s" % (timeout, args))
    return r.returncode, r.stdout + r.stderr


def wrap(d, module, consts):
    """A module EXTENDing `module` that gives its constants their values; returns (path, cfg lines)."""
    name = "W" + module
    defs, cfg = [], []
    for k, v in consts.items():
        if v.startswith("<-"):
            cfg.append("CONSTANT %s %s" % (k, v))
        else:
            defs.append("c_%s == %s" % (k, v))
            cfg.append("CONSTANT %s <- c_%s" % (k, k))
    path = os.path.join(d, name + ".tla")
    open(path, "w").write("---- MODULE %s ----\nEXTENDS %s\n%s\n====\n" % (name, module, "\n".join(defs)))
    return path, cfg


def model_check(scratch, module, consts, invariants=(), properties=(), constraint=None, emit=False, workers=4,
                heap="4g", timeout=3000, spec="Spec", view=None, deadlock=False):
    """Exhaustive TLC run.  Returns (states, transitions, emitted, coverage)."""
    d = tempfile.mkdtemp(prefix="mc-", dir=scratch)
    path, cc = wrap(d, module, consts)
    cfg = ["SPECIFICATION " + spec, "CHECK_DEADLOCK FALSE"] + cc
    cfg += ["INVARIANT " + i for i in invariants] + ["PROPERTY " + p for p in properties]
    if constraint:
        cfg.append("CONSTRAINT " + constraint)
    if view:
        cfg.append("VIEW " + view)
    cfgp = os.path.join(d, module + ".cfg")
    open(cfgp, "w").write("\n".join(cfg) + "\n")
    rc, out = java(["-config", cfgp, "-workers", str(workers), "-metadir", os.path.join(d, "md"), "-noGenerateSpecTE", path], d, {"EMIT": "1" if emit else "0"}, heap, timeout)
    if "Model checking completed. No error has been found." not in out:
        raise MachineryError("TLC on %s: rc=%s\n%s" % (module, rc, trouble(out)))
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if not m:
        raise MachineryError("no statistics from TLC on " + module)
    emitted = []
    if emit:
        for l in out.splitlines():
            if l.startswith(('"@T ', '"@I ')) and l.endswith('"'):
                emitted.append(l[2:-1].replace('\\"', '"').replace("\\\\", "\\"))
    shutil.rmtree(d, ignore_errors=True)
    return int(m.group(2)), int(m.group(1)), emitted


def covering_sessions(emitted, limit=None, rng=None, maxlen=60):
    """Sessions that together take every emitted transition of the explored state graph."""
    succ, start, cache = {}, None, {}

    def canon(x):                  # TLC prints the fields of a record in varying order
        if x not in cache:
            cache[x] = json.dumps(json.loads(x), sort_keys=True)
        return cache[x]
    for l in emitted:
        if l.startswith("I "):
            start = canon(l[2:])
            continue
        f, op, a, t = l[2:].split("@")
        f, t = canon(f), canon(t)
        succ.setdefault(f, []).append((op, json.loads(a), t))
    if start is None:
        raise MachineryError("the model did not print its initial state")
    # TLC workers print in any order; make the result deterministic
    for f in succ:
        succ[f] = sorted({(o, json.dumps(a), t) for o, a, t in succ[f]})
        succ[f] = [(o, json.loads(a), t) for o, a, t in succ[f]]
    path = {start: []}
    order = []
    q = [start]
    while q:
        f = q.pop(0)
        order.append(f)
        for o, a, t in succ.get(f, []):
            if t not in path:
                path[t] = path[f] + [(o, a)]
                q.append(t)
    # per state: transitions not yet taken, those that leave the state first (they are popped from the end, so that a
    # state's self loops are exhausted before it is left)
    left = {}
    for f, ts in succ.items():
        left[f] = [x for x in reversed(ts) if x[2] != f] + [x for x in reversed(ts) if x[2] == f]
    near = {f: {t: (o, a) for o, a, t in ts if t != f} for f, ts in succ.items()}

    def detour(cur):
        """a short way from an exhausted state to one with transitions left"""
        seen, layer = {cur}, [(cur, [])]
        for _ in range(2):
            nxt = []
            for f, p in layer:
                for t, (o, a) in near.get(f, {}).items():
                    if t not in seen:
                        seen.add(t)
                        if left.get(t):
                            return p + [(o, a)], t
                        nxt.append((t, p + [(o, a)]))
            layer = nxt
        return None
    if set(succ) - set(order):
        raise MachineryError("%d of the model's states cannot be reached in its transitions" % len(set(succ) - set(order)))
    sessions = []
    for f in order:
        while left.get(f):
            s = list(path[f])
            cur = f
            while len(s) < maxlen + len(path[f]):
                if not left.get(cur):
                    d = detour(cur)
                    if d is None:
                        break
                    s += d[0]
                    cur = d[1]
                o, a, t = left[cur].pop()
                s.append((o, a))
                cur = t
            sessions.append(s)
    if limit and len(sessions) > limit:
        # mostly the long ones, which take the most transitions; some of the others, which take the odd ones
        rng = rng or random.Random(1)
        rng.shuffle(sessions)
        sessions.sort(key=lambda x: -min(len(x), maxlen))
        head = limit * 4 // 5
        sessions = sessions[:head] + rng.sample(sessions[head:], limit - head)
    return sessions


def validate(scratch, module, consts, chunks, heap="2g", timeout=3000):
    """chunks: list of event lists.  Returns per chunk the list of rejected indices (0 based)."""
    def one(ix):
        ev = chunks[ix]
        base, rej, faults = 0, [], 0
        while base < len(ev):
            r, fault = once(ev[base:])
            rej += [base + x for x in r]
            if fault is None:
                break
            # An observation outside the domain of the specification (a result of a shape no outcome has) makes the
            # evaluation itself fail: the event has no explanation.  Go on with the next session.
            faults += 1
            if faults > 20:
                break
            rej.append(base + fault)
            base += fault + 1
            while base < len(ev) and not ev[base].startswith('{"op":"reset"'):
                base += 1
        return rej

    def once(ev):
        d = tempfile.mkdtemp(prefix="tr-", dir=scratch)
        tr = os.path.join(d, "trace.ndjson")
        open(tr, "w").write("\n".join(ev) + "\n")
        cfgp = os.path.join(d, module + ".cfg")
        path, cc = wrap(d, module, consts)
        open(cfgp, "w").write("\n".join(["SPECIFICATION TSpec", "CHECK_DEADLOCK FALSE"] + cc) + "\n")
        rc, out = java(["-config", cfgp, "-workers", "1", "-metadir", os.path.join(d, "md"), "-noGenerateSpecTE", path], d, {"TRACE": tr}, heap, timeout)
        rej = [int(x) - 1 for x in re.findall(r'<<"REJECT", (\d+)>>', out)]
        if "Model checking completed. No error has been found." not in out:
            ats = re.findall(r"^/\\ at = (\d+)", out, re.M)
            if ats and "The behavior up to this point is" in out and not re.search("OutOfMemory|StackOverflow", out) and int(ats[-1]) <= len(ev):
                shutil.rmtree(d, ignore_errors=True)
                k = int(ats[-1]) - 1
                return [x for x in rej if x < k], k
            raise MachineryError("TLC on %s: rc=%s\n%s" % (module, rc, trouble(out)))
        done = re.findall(r'<<"DONE", (\d+)>>', out)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if done != [str(len(ev))] or not m or int(m.group(2)) != len(ev) + 1:
            raise MachineryError("TLC did not consume the whole trace of %s (%s of %d)\n%s" % (module, done, len(ev), out[-1500:]))
        shutil.rmtree(d, ignore_errors=True)
        return rej, None
    with ThreadPoolExecutor(WORKERS) as ex:
        return list(ex.map(one, range(len(chunks))))


def split_sessions(sessions, parts):
    """Contiguous parts of roughly equal numbers of operations."""
    total = sum(len(s) + 1 for s in sessions)
    out, cur, acc = [], [], 0
    for s in sessions:
        cur.append(s)
        acc += len(s) + 1
        if acc >= total / parts and len(out) < parts - 1:
            out.append(cur)
            cur, acc = [], 0
    if cur:
        out.append(cur)
    return out
