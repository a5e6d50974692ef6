#!/usr/bin/env python3
"""Builds and runs the deterministic simulation that decides one property.

  run.py <property> [--tier quick|thorough] [--seconds S] [--repo DIR]
  run.py --setup                    build the simulator
  run.py --replay <file>            replay a violation, printing every simulated event
"""
import hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from catalog import CATALOG, COMMON_REAL, COMMON_STUB, ASSUMPTIONS

REPO = os.environ.get("OQPI_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
SIMFLAGS = "-std=c++17 -O2 -g1 -fPIC -shared -fno-omit-frame-pointer -fvisibility=hidden -fvisibility-inlines-hidden -Wall".split()
SCNFLAGS = "-std=c++17 -O1 -fsanitize=thread -mllvm -tsan-instrument-func-entry-exit=0 -fno-omit-frame-pointer -g1 -w -ftrivial-auto-var-init=pattern -include cstdarg".split()
VARIANTS = {"checks": [], "ndebug": ["-DNDEBUG"]}


def die(msg, code=2):
    print("ERROR: " + msg)
    sys.stdout.flush()
    sys.exit(code)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build_sim():
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha256()
    for f in ("sim/sim.cpp", "sim/sim.h", "sim/win32/kernel.inc", "sim/win32/windows.h"):
        h.update(open(os.path.join(ROOT, f), "rb").read())
    h.update(" ".join(SIMFLAGS).encode())
    lib = os.path.join(BUILD, "libsim.so")
    stamp = os.path.join(BUILD, "libsim.stamp")
    if os.path.exists(lib) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return lib
    tmp = lib + ".%d.tmp" % os.getpid()
    r = sh(["clang++"] + SIMFLAGS + [os.path.join(ROOT, "sim/sim.cpp"), "-o", tmp, "-ldl"])
    if r.returncode:
        die("the simulator does not build\n" + r.stdout)
    os.replace(tmp, lib)
    open(stamp, "w").write(h.hexdigest())
    return lib


def compile_scenario(pid, variant, part=0):
    scn = CATALOG[pid]["scenario"]
    d = os.path.join(BUILD, pid)
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, variant)
    r = sh(["clang++"] + SCNFLAGS + VARIANTS[variant] + [f.replace("ROOT", ROOT) for f in CATALOG[pid].get("flags", [])] + ["-DPART=%d" % part] +
           ["-I", os.path.join(REPO, "include"), "-I", os.path.join(ROOT, "sim"), "-I", os.path.join(ROOT, "scenarios"),
            "-c", os.path.join(ROOT, "scenarios", scn), "-o", "%s.%d.o" % (exe, part)])
    if r.returncode:
        return "scenario %s (%s) does not compile against %s\n%s" % (scn, variant, REPO, r.stdout[-6000:])
    return None


def link_scenario(pid, variant):
    exe = os.path.join(BUILD, pid, variant)
    objs = ["%s.%d.o" % (exe, i) for i in range(CATALOG[pid].get("parts", 1))]
    r = sh(["clang++"] + objs + ["-o", exe, "-L", BUILD, "-Wl,--no-as-needed", "-lsim", "-Wl,-rpath,$ORIGIN/..", "-lpthread"])
    if r.returncode:
        return "scenario %s (%s) does not link\n%s" % (pid, variant, r.stdout[-6000:])
    for o in objs:
        os.remove(o)
    return None


def build_all(pid):
    with ThreadPoolExecutor(8) as ex:
        jobs = [ex.submit(compile_scenario, pid, v, i) for i in range(CATALOG[pid].get("parts", 1)) for v in VARIANTS]
        build_sim()
        for j in jobs + [None]:
            e = j.result() if j else None
            if e:
                die(e)
        for e in ex.map(lambda v: link_scenario(pid, v), VARIANTS):
            if e:
                die(e)


ENV = dict(os.environ, LD_LIBRARY_PATH="", LC_ALL="C")


def exe_of(pid, variant):
    return os.path.join(BUILD, pid, variant)


def parse_trace(path):
    t = {}
    with open(path, errors="replace") as f:
        for line in f:
            k, _, v = line.rstrip("\n").partition(" ")
            t[k] = v
    t["choices"] = [int(x) for x in t.get("choices", "").split()]
    t["sched"] = [tuple(map(int, x.split(":"))) for x in t.get("sched", "").split()]
    t["faults"] = [tuple(map(int, x.split(":"))) for x in t.get("faults", "").split()]
    return t


def write_trace(t, path):
    with open(path, "w") as f:
        f.write("scenario %s\nvariant %s\nseed %s\nfine %s\n" % (t["scenario"], t["variant"], t["seed"], t["fine"]))
        f.write("choices %s\n" % " ".join(map(str, t["choices"])))
        f.write("sched %s\n" % " ".join("%d:%d" % x for x in t["sched"]))
        f.write("faults %s\n" % " ".join("%d:%d" % x for x in t["faults"]))
        for k in ("steps", "decisions", "hash", "class", "message", "bt", "property"):
            if k in t:
                f.write("%s %s\n" % (k, t[k]))


RES = re.compile(r"^result class=(\S*) hash=(\S+) steps=(\d+) decisions=(\d+) message=(.*)$", re.M)


def replay(exe, path, out=None, timeout=60):
    """-> (class, message, hash). Crashes write the trace file only."""
    out = out or path + ".r%d" % os.getpid()
    for s in ("", ".trace"):
        if os.path.exists(out + s):
            os.remove(out + s)
    try:
        r = subprocess.run([exe, "--replay", path, "--out", out], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                           errors="replace", env=ENV, timeout=timeout)
    except subprocess.TimeoutExpired:
        return ("timeout", "", "")
    m = RES.search(r.stdout)
    res = None
    if m:
        res = (m.group(1), m.group(5), m.group(2))
    elif r.returncode == 3 and os.path.exists(out + ".trace"):
        t = parse_trace(out + ".trace")
        res = (t.get("class", "?"), t.get("message", ""), t.get("hash", ""))
    else:
        res = ("exit%d" % r.returncode, "", "")
    for s in ("", ".trace"):
        if os.path.exists(out + s) and s == "":
            os.remove(out + s)
    return res


def ddmin(items, test, deadline):
    n = 2
    while len(items) >= 1 and time.time() < deadline:
        size = max(1, len(items) // n)
        reduced = False
        i = 0
        while i < len(items) and time.time() < deadline:
            cand = items[:i] + items[i + size:]
            if test(cand):
                items = cand
                reduced = True
            else:
                i += size
        if size == 1 and not reduced:
            break
        if not reduced:
            n = min(len(items), n * 2)
        else:
            n = max(2, n - 1)
    return items


def minimise(pid, t, budget):
    exe = exe_of(pid, t["variant"])
    cls = t["class"]
    tmp = os.path.join(BUILD, pid, "min.trace")
    deadline = time.time() + budget
    tries = [0]

    def ok(c):
        tries[0] += 1
        write_trace(c, tmp)
        return replay(exe, tmp, tmp + ".out")[0] == cls

    def with_(k, v):
        c = dict(t)
        c[k] = v
        return c
    before = (len(t["choices"]), len(t["sched"]), len(t["faults"]))
    for _ in range(2):
        if ok(with_("faults", [])):
            t = with_("faults", [])
        else:
            t["faults"] = ddmin(t["faults"], lambda x: ok(with_("faults", x)), deadline)
        # the tail of the schedule is often irrelevant
        t["sched"] = ddmin(t["sched"], lambda x: ok(with_("sched", x)), deadline)
        # smaller workload: drop trailing choices (they become 0), then zero or halve the others
        lo, hi = 0, len(t["choices"])
        while lo < hi and time.time() < deadline:
            mid = (lo + hi) // 2
            if ok(with_("choices", t["choices"][:mid])):
                t = with_("choices", t["choices"][:mid])
                hi = mid
            else:
                lo = mid + 1
        i = 0
        while i < len(t["choices"]) and time.time() < deadline:
            v = t["choices"][i]
            for nv in sorted({0, v // 2, v - 1}):
                if 0 <= nv < v:
                    c = t["choices"][:i] + [nv] + t["choices"][i + 1:]
                    if ok(with_("choices", c)):
                        t = with_("choices", c)
                        break
            i += 1
    t["faults"] = ddmin(t["faults"], lambda x: ok(with_("faults", x)), deadline)
    t["sched"] = ddmin(t["sched"], lambda x: ok(with_("sched", x)), deadline)
    after = (len(t["choices"]), len(t["sched"]), len(t["faults"]))
    return t, {"replays": tries[0], "before": before, "after": after}


def symbolise(exe, bt):
    a = [x for x in bt.split() if x.startswith("0x") and len(x) < 12]
    if not a:
        return []
    r = sh(["llvm-symbolizer-18" if shutil.which("llvm-symbolizer-18") else "llvm-symbolizer", "-e", exe, "-f", "-C", "-s", "-p"] + a)
    return [l for l in r.stdout.splitlines() if l.strip()]


def known_findings():
    out = []
    p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) class=(\S+) (.*)$", line.strip())
            if m:
                out.append(m.groups())
    return out


def check(pid, tier, seconds):
    t0 = time.time()
    c = CATALOG[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    build_all(pid)
    t_build = time.time() - t0
    d = os.path.join(BUILD, pid)
    for f in os.listdir(d):
        if f.startswith(("w.", "det.", "min.", "sample.")):
            os.remove(os.path.join(d, f))
    known = [k for k in known_findings() if k[0] == pid]
    kopt = ["--known", ",".join(k[1] for k in known)] if known else []

    # determinism: the same seeds in two processes with a different history must give identical event hashes
    det_n = 96
    mism = None

    def det(variant, tag, args):
        o = os.path.join(d, "det.%s.%s" % (variant, tag))
        env = dict(ENV, SIM_PAD="x" * (100 if tag == "b" else 5000))
        subprocess.run([exe_of(pid, variant), "--seed", str(seed), "--out", o, "--hashlog", "--time", "60", "--variant", variant,
                        "--known", ",".join(k[1] for k in known)] + args,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env)
        r = {}
        if os.path.exists(o + ".hashes"):
            for line in open(o + ".hashes"):
                p = line.split()
                if len(p) == 4:
                    r[int(p[0])] = tuple(p[1:])
        return r

    # search
    procs = []
    nproc = max(2, min(8, os.cpu_count() or 8))
    variants = list(VARIANTS)
    search_t0 = time.time()
    for p in range(nproc):
        v = variants[p % len(variants)]
        k = nproc
        o = os.path.join(d, "w.%d" % p)
        cmd = [exe_of(pid, v), "--seed", str(seed), "--first", str(p), "--stride", str(k), "--time", str(seconds), "--out", o, "--variant", v] + kopt
        procs.append((p, v, o, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=ENV, text=True, errors="replace")))
    errors, found, stats = [], [], []
    pending = list(procs)
    hard_end = time.time() + seconds + 60
    stop_at = None
    while pending:
        for x in list(pending):
            p, v, o, pr = x
            rc = pr.poll()
            if rc is None:
                continue
            pending.remove(x)
            err = pr.stderr.read() if pr.stderr else ""
            if rc == 3 and os.path.exists(o + ".trace"):
                found.append((v, o + ".trace"))
                stop_at = stop_at or time.time() + 1.0
            elif rc not in (0, -9, -15) or (rc < 0 and stop_at is None):
                errors.append("worker %d (%s) ended with %s %s" % (p, v, rc, err[-300:]))
            if os.path.exists(o):
                try:
                    stats.append((v, json.load(open(o))))
                except ValueError:
                    errors.append("worker %d wrote a broken report" % p)
        now = time.time()
        if (stop_at and now > stop_at) or now > hard_end:
            for x in pending:
                if now > hard_end and not stop_at:
                    errors.append("worker %d did not end" % x[0])
                x[3].kill()
            stop_at = stop_at or now
        time.sleep(0.02)
    search_s = time.time() - search_t0

    with ThreadPoolExecutor(4) as ex:
        jobs = {v: (ex.submit(det, v, "a", ["--max", str(det_n)]), ex.submit(det, v, "b", ["--first", "1", "--stride", "2", "--max", str(det_n // 2)])) for v in variants}
        det_cmp = 0
        for v, (a, b) in jobs.items():
            a, b = a.result(), b.result()
            for i in b:
                if i in a:
                    det_cmp += 1
                    if a[i] != b[i]:
                        mism = "%s run %d: %s != %s" % (v, i, a[i], b[i])

    # coverage
    agg = {"runs": 0, "steps": 0, "switches": 0, "discarded": 0, "nontrivial": 0, "sim_seconds": 0.0, "known_hits": 0}
    faults, probes = {}, {}
    for v, s in stats:
        for k in agg:
            agg[k] += s[k]
        for k, n in s["faults"].items():
            faults[k] = faults.get(k, 0) + n
        for k, n in s["probes"].items():
            probes[k] = probes.get(k, 0) + n
    distinct = set()
    for p, v, o, pr in procs:
        if os.path.exists(o + ".distinct"):
            import array
            a = array.array("Q")
            a.frombytes(open(o + ".distinct", "rb").read())
            distinct.update(a)
    samples = []
    for i, v in ((0, "checks"), (1, "ndebug"), (2, "checks")):
        o = os.path.join(d, "sample.%d" % i)
        # reproduce run i of worker i as a sample
        r = subprocess.run([exe_of(pid, v), "--seed", str(seed), "--first", str(i), "--max", "1", "--hashlog", "--out", o, "--variant", v] + kopt,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=ENV)
        try:
            idx, h, steps, cls = open(o + ".hashes").read().split()[:4]
            samples.append({"run_index": int(idx), "base_seed": seed, "variant": v, "event_hash": h, "steps": int(steps), "outcome": cls})
        except Exception:
            pass

    violation = None
    notes = []
    for v, tr in sorted(found, key=lambda x: os.path.getsize(x[1])):
        t = parse_trace(tr)
        t["variant"] = v
        write_trace(t, tr)
        r1 = replay(exe_of(pid, v), tr)
        r2 = replay(exe_of(pid, v), tr)
        if r1 != r2 or r1[0] != t["class"]:
            notes.append("a %s violation did not replay identically: %s / %s" % (t["class"], r1, r2))
            continue
        violation = t
        break
    vcount = 0
    if violation:
        vcount = 1
        t, mi = minimise(pid, dict(violation), 45 if tier == "quick" else 180)
        t["property"] = pid
        rdir = os.path.join(ROOT, "build", "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-%s.trace" % (pid, t["class"], t["seed"]))
        write_trace(t, path)
        exe = exe_of(pid, t["variant"])
        cls, msg, h = replay(exe, path, path + ".out")
        if cls == t["class"] and os.path.exists(path + ".out.trace"):
            n = parse_trace(path + ".out.trace")
            n["variant"], n["property"] = t["variant"], pid
            write_trace(n, path)
            t = n
        if os.path.exists(path + ".out.trace"):
            os.remove(path + ".out.trace")
        again = replay(exe, path)
        for s in (".r%d.trace" % os.getpid(),):
            if os.path.exists(path + s):
                os.remove(path + s)
        print("violation: %s: %s" % (t["class"], t.get("message", "")))
        print("  variant %s, seed %s, replay reproduces: %s (hash %s)" % (t["variant"], t["seed"], again[0] == t["class"], again[2]))
        print("  minimised in %d replays: choices/schedule/faults %s -> %s" % (mi["replays"], mi["before"], mi["after"]))
        for l in symbolise(exe, t.get("bt", ""))[:8]:
            print("    at " + l)
        print("  replay with: python3 run.py --replay %s" % path)

    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": agg["runs"],
            "distinct_nontrivial": len(distinct),
            "rule": "One evaluation is one simulated execution of the scenario %s: a workload, a schedule and a fault sequence drawn from one seed. "
                    "Non-trivial: at least one context switch at a synchronisation operation that a run-to-completion schedule would not make. "
                    "Distinct: different hash over the whole sequence of (thread, synchronisation operation, object)." % c["scenario"],
            "samples": samples,
            "scenario": c["what"],
            "nontrivial_runs": agg["nontrivial"],
            "scheduling_points": agg["steps"],
            "context_switches": agg["switches"],
            "discarded_runs": agg["discarded"],
            "simulated_seconds": round(agg["sim_seconds"], 6),
            "search_wall_s": round(search_s, 3),
            "seeds_per_hour": int(agg["runs"] / max(search_s, 1e-9) * 3600),
            "processes": nproc,
            "faults_injected": {k: n for k, n in faults.items() if n or k in c.get("faults", [])},
            "rare_conditions_reached": probes,
            "build_variants": "checks (assertions on) and ndebug (-DNDEBUG), half of the processes each",
            "determinism": {"seeds_run_twice_in_different_processes": det_cmp, "mismatch": mism},
            "real_code": c.get("real", COMMON_REAL),
            "stubs": c.get("stub", COMMON_STUB),
            "known_findings_hit": agg["known_hits"],
            "notes": notes,
        },
        "assumptions": ASSUMPTIONS + c.get("assumptions", []),
        "wall_s": round(wall, 3),
        "violations": vcount,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s: %d runs (%d distinct interleavings, %d scheduling points) in %.1f s, build %.1f s, faults %s, probes %s" % (
        pid, agg["runs"], len(distinct), agg["steps"], search_s, t_build, {k: n for k, n in faults.items() if n}, probes))
    if violation:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k[2]))
    if errors:
        die("; ".join(errors))
    if notes:
        die("; ".join(notes))
    if mism:
        die("the simulation is not deterministic: " + mism)
    if agg["runs"] == 0:
        die("nothing was explored")
    return 0


def do_replay(path):
    t = parse_trace(path)
    pid = t.get("property")
    if not pid:
        die("the replay file names no property")
    build_all(pid)
    exe = exe_of(pid, t["variant"])
    r = subprocess.run([exe, "--replay", path, "--trace"], env=ENV)
    cls, msg, h = replay(exe, path)
    for s in os.listdir(os.path.dirname(os.path.abspath(path))):
        if s.startswith(os.path.basename(path) + ".r"):
            os.remove(os.path.join(os.path.dirname(os.path.abspath(path)), s))
    same = cls == t.get("class")
    print("replayed: class=%s message=%s" % (cls, msg))
    print("recorded: class=%s hash=%s -> %s" % (t.get("class"), t.get("hash"), "same violation, hash %s" % ("identical" if h == t.get("hash") else h) if same else "NOT REPRODUCED"))
    for l in symbolise(exe, t.get("bt", ""))[:10]:
        print("    at " + l)
    if cls not in ("ok",):
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        build_sim()
        print("simulator built")
        return 0
    if len(a) == 2 and a[0] == "--replay":
        return do_replay(a[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    seconds = None
    pid = None
    i = 0
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]; i += 1
        elif a[i] == "--seconds":
            seconds = float(a[i + 1]); i += 1
        elif a[i] in CATALOG:
            pid = a[i]
        else:
            die("usage: " + __doc__)
        i += 1
    if not pid:
        die("usage: " + __doc__)
    if seconds is None:
        c = CATALOG[pid]
        seconds = c.get("quick_s", 15) if tier == "quick" else c.get("thorough_s", 600)
    return check(pid, tier, seconds)


if __name__ == "__main__":
    sys.exit(main())
