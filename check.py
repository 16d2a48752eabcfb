#!/usr/bin/env python3
"""Decides one property by deterministic simulation with fault injection.

  check.py <id>            build the harness from /repo's working tree, explore, write evidence
  check.py replay <file>   rebuild and replay a recorded violation
  check.py setup           build what does not depend on /repo
Environment: VERIF_SEED (default 1), VERIF_TIER (quick | thorough), VERIF_REPO (default /repo, development only).
"""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, "sim")
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
OUT = os.path.join(HERE, "out")
BASE = ["-O1", "-g1", "-fsanitize=address"]
LIB = ["-std=c++14", "-include", "cstdint", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern", "-w", "-Wno-psabi"]
EXTRA = {
    "C06": ["-fsanitize=signed-integer-overflow,integer-divide-by-zero,bounds,null,return,unreachable", "-fno-sanitize-recover=all"],
    "C09": ["-fsanitize-coverage=trace-pc", "-rdynamic"],
    "C17": ["-O0", "-fsanitize-coverage=trace-pc", "-rdynamic"],
}
# runs of the quick tier (about 40 s on 8 cores); the thorough tier runs until its time is up
QUICK = {"C01": 90000, "C02": 60000, "C03": 36000, "C04": 24000, "C05": 50000, "C06": 45000, "C07": 40000, "C08": 30000,
         "C09": 20000, "C10": 60000, "C11": 240000, "C12": 28000, "C13": 45000, "C14": 400000, "C15": 90000, "C16": 28000, "C17": 40000}
QUICK_WALL = 150.0
THOROUGH_WALL = float(os.environ.get("VERIF_WALL", "720"))
REAL_IO = ["boost/astronomy/io (headers, cards, images, tables, converters, reader, stream): the code in /repo/include, compiled unchanged",
           "libstdc++ fstream and filebuf, Boost: real"]
STUB = ["the kernel's file system calls (open, read, write, lseek, close, fstat ...) for paths under /sim: simulated disk",
        "memory allocator: real memory behind a counting allocator that can refuse",
        "clock: simulated, advanced by system calls"]
NOTE = {
    "C09": ["client threads: real threads, exactly one runs at a time; the scheduler decides every switch at system calls, allocations and basic blocks of library code"],
    "C17": ["client threads: real threads, exactly one runs at a time; the scheduler decides every switch at allocations and basic blocks of library code"],
    "C14": ["output sinks: stub stream buffers that refuse or throw, and std::ofstream on the simulated disk"],
}
RULE = {
    "C01": "a conforming file is drawn (HDU kinds, header sizes, column formats, contents, alignment on 2880-byte records) with a delivery pattern of its reads; non-trivial: the library was called and at least one comparison with the model was made",
    "C09": "2-5 clients with drawn programs on drawn files, a drawn schedule (switches at system calls, allocations, basic blocks) and drawn faults in some clients; non-trivial: at least one comparison was made; distinct interleavings: distinct sequences of (switch point, client chosen)",
    "C17": "2-9 calculations over arguments that agree in part, made by 1-4 clients in drawn orders: alone, together under a drawn schedule (switches at allocations and basic blocks) with failing allocations, and alone again; non-trivial: at least one result was compared with its definition; distinct: distinct hash of the run's event log",
}
DEFAULT_RULE = "one run draws inputs, a sequence of operations and the faults (kind, place, extent) from the seed; non-trivial: the library was called and at least one comparison with the reference model was made; distinct: distinct hash of the run's whole event log (operations, system calls, faults)"


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tree_hash(files, flags):
    h = hashlib.sha256(repr(flags).encode())
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def files_under(d):
    return [os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs]


def compile_cmds(prop):
    """Commands (run in parallel, then the link) and the stamp of everything they depend on."""
    c = prop.lower()
    d = os.path.join(BUILD, c)
    extra = EXTRA.get(prop, [])
    objs, cmds = [], []
    for s in ("sim", "model"):
        o = os.path.join(d, s + ".o")
        objs.append(o)
        cmds.append(["g++", "-std=c++17"] + BASE + ["-c", os.path.join(SIM, s + ".cpp"), "-o", o])
    o = os.path.join(d, c + ".o")
    objs.append(o)
    cmds.append(["g++"] + LIB + ["-I" + os.path.join(REPO, "include")] + BASE + extra + ["-c", os.path.join(SIM, c + ".cpp"), "-o", o])
    link = ["g++"] + BASE + extra + objs + ["-o", os.path.join(d, c), "-lpthread", "-ldl"]
    stamp = tree_hash(files_under(os.path.join(REPO, "include")) + [f for f in files_under(SIM) if f.endswith((".hpp", "sim.cpp", "model.cpp", c + ".cpp"))], [cmds, link])
    return d, cmds, link, stamp


def build(prop):
    d, cmds, link, stamp = compile_cmds(prop)
    exe = os.path.join(d, prop.lower())
    sf = os.path.join(d, "stamp")
    if os.path.exists(exe) and os.path.exists(sf) and open(sf).read() == stamp:
        return exe
    os.makedirs(d, exist_ok=True)
    if os.path.exists(sf):
        os.remove(sf)
    ps = [subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for c in cmds]
    outs = [p.communicate()[0] for p in ps]
    for p, o, c in zip(ps, outs, cmds):
        if p.returncode:
            print("cannot build:", " ".join(c))
            print("\n".join(o.splitlines()[:40]))
            sys.exit(2)
    r = sh(link)
    if r.returncode:
        print("cannot link:", r.stdout[:4000])
        sys.exit(2)
    with open(sf, "w") as f:
        f.write(stamp)
    return exe


def seed_of():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def run(prop):
    t0 = time.time()
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" or "--thorough" in sys.argv else "quick"
    seed = seed_of()
    exe = build(prop)
    built = time.time() - t0
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="sim-" + prop + "-")
    replay = os.path.join(OUT, prop + ".replay.json")
    if os.path.exists(replay):
        os.remove(replay)
    jobs = max(1, min(8, os.cpu_count() or 1))
    try:
        # determinism self-test: the same runs in two processes, apart and in different company
        a = sh([exe, "hashes", "--seed", str(seed), "--runs", "40", "--tmp", tmp]).stdout.split("\n")
        b = sh([exe, "hashes", "--seed", str(seed), "--first", "20", "--runs", "20", "--tmp", tmp]).stdout.split("\n")
        la = {l.split()[0]: l for l in a if len(l.split()) == 3}
        lb = {l.split()[0]: l for l in b if len(l.split()) == 3}
        same = sum(1 for k in lb if la.get(k) == lb[k])
        runs = QUICK[prop] if tier == "quick" else 10 ** 9
        wall = QUICK_WALL if tier == "quick" else THOROUGH_WALL
        use = seed
        for attempt in range(3):
            res = os.path.join(tmp, "result.json")
            r = sh([exe, "explore", "--seed", str(use), "--runs", str(runs), "--jobs", str(jobs), "--wall", str(wall), "--shrink", "60",
                    "--tmp", tmp, "--out", res, "--replay-out", replay])
            sys.stdout.write(r.stdout)
            if r.returncode in (0, 1):
                break
            print("no answer (exit %d), trying again with another seed" % r.returncode)
            use = seed + 1000003 * (attempt + 1)
        rc = r.returncode
        if rc not in (0, 1) or not os.path.exists(res):
            print("the simulator gave no answer")
            return 2
        with open(res) as f:
            d = json.load(f)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    explore_s = max(d["wall_s"], 1e-6)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": d["runs"], "distinct_nontrivial": d["distinct"], "rule": RULE.get(prop, DEFAULT_RULE),
            "samples": [d["sample"][:6000]],
            "simulated_runs": d["runs"], "planned_runs": d["planned"] if tier == "quick" else None,
            "runs_per_hour": int(d["runs"] / explore_s * 3600), "seeds_per_hour": int(d["runs"] / explore_s * 3600),
            "seed_rule": "run i of base seed s uses three choice tapes (work, fault, schedule) seeded from (s, property, i)",
            "simulated_time_s": d["sim_us"] / 1e6, "library_operations": d["ops"], "comparisons": d["checks"], "logged_events": d["events"],
            "library_allocations": d["allocs"], "faults_injected": d["faults"], "system_calls": d["syscalls"],
            "distinct_interleavings": d["distinct_schedules"], "thread_switches": d["switches"], "probes": d["probes"],
            "components_real": (["boost/astronomy coordinate, time and image calculations: the code in /repo/include, compiled unchanged", "Boost.Geometry, Boost.Units, uBLAS, libstdc++ streams: real"] if prop == "C17" else REAL_IO if prop != "C14" else ["boost/astronomy coordinate and time printing: the code in /repo/include, compiled unchanged", "libstdc++ streams: real"]),
            "components_stub": STUB + NOTE.get(prop, []),
            "determinism_self_test": {"runs_compared": len(lb), "identical_event_logs": same},
            "build_s": round(built, 1), "explore_s": d["wall_s"], "exhaustive": False,
        },
        "assumptions": ["the reference model and strict decoder in sim/model.cpp represent FITS correctly", "gcc and libstdc++ compile the library as users' compilers do",
                        "system calls and allocations are the only points where storage and memory can fail"],
        "wall_s": round(time.time() - t0, 1), "violations": 0 if d["violation"] is None else 1,
    }
    if d["violation"] is not None:
        ev["coverage"]["violation"] = d["violation"]
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d runs, %d distinct, %.0f runs/s, faults %s" % (prop, d["runs"], d["distinct"], d["runs"] / explore_s, json.dumps(d["faults"])))
    if d["violation"] is None:
        return 0
    print("class %s: %s" % (d["violation"]["class"], d["violation"]["message"]))
    print("VIOLATION property=%s replay=%s" % (prop, replay))
    return 1


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "setup":
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        r = sh(["g++", "--version"])
        print(r.stdout.split("\n")[0])
        return r.returncode
    if sys.argv[1] == "replay":
        path = os.path.abspath(sys.argv[2])
        with open(path) as f:
            prop = json.load(f)["property"]
        exe = build(prop)
        tmp = tempfile.mkdtemp(prefix="sim-replay-")
        try:
            r = sh([exe, "replay", "--file", path, "--tmp", tmp])
            sys.stdout.write(r.stdout)
            return r.returncode
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    prop = sys.argv[1]
    if prop not in QUICK:
        print("unknown property " + prop)
        return 2
    return run(prop)


if __name__ == "__main__":
    sys.exit(main())
