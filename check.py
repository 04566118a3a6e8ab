#!/usr/bin/env python3
"""Builds the simulator against /repo's working tree, searches seeded runs of one
property, gates and reports a violation, and writes evidence/<id>.json.

usage: check.py <property> [--tier quick|thorough] [--runs N] [--workers N]
Environment: VERIF_SEED (default 1), VERIF_TIER (default quick).
Exit: 0 held, 1 violation (VIOLATION line), anything else: the check itself failed.
"""
import hashlib, json, os, shutil, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
BUILD = os.path.join(HERE, "build")
REPLAYS = os.path.join(HERE, "replays")
sys.path.insert(0, HERE)
from props import PROPS, BINARIES  # noqa: E402


def die(msg, code=3):
    print("CHECK-ERROR:", msg)
    sys.exit(code)


def tree_hash(paths, extra):
    h = hashlib.sha256()
    for root in paths:
        files = []
        if os.path.isfile(root):
            files = [root]
        else:
            for d, ds, fs in os.walk(root):
                ds.sort()
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(fh.read())
    h.update(extra.encode())
    return h.hexdigest()[:24]


def build(name):
    """Compile binary `name` from /repo/include; returns its path."""
    spec = BINARIES[name]
    key = tree_hash([os.path.join(REPO, "include"), SIM], json.dumps(spec, sort_keys=True))
    out = os.path.join(BUILD, name + "-" + key)
    exe = os.path.join(out, "sim")
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    # drop builds of other trees so that the folder does not grow
    for d in os.listdir(BUILD):
        if d.startswith(name + "-"):
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
    procs = []
    objs = []
    jobs = []
    for i, (src, cc, flags) in enumerate(spec["units"]):
        obj = os.path.join(tmp, "%d.o" % i)
        objs.append(obj)
        jobs.append((src, [cc] + flags + ["-I" + os.path.join(REPO, "include"), "-I" + SIM, "-c",
                                          os.path.join(SIM, src), "-o", obj]))
    pending = list(jobs)
    failed = None
    skipped = []
    while pending or procs:
        while pending and len(procs) < 8:
            src, cmd = pending.pop(0)
            log = open(os.path.join(tmp, "log-" + src.replace("/", "_") + str(len(pending))), "w+")
            procs.append((src, subprocess.Popen(cmd, stdout=log, stderr=log), log))
        for p in list(procs):
            if p[1].poll() is not None:
                procs.remove(p)
                if p[1].returncode != 0:
                    p[2].seek(0)
                    if p[0].startswith("cat_") and p[0] != "cat_world.cpp":
                        # the catalogue reaches instantiations the project itself never builds; a part that
                        # does not compile is left out (and reported), the rest still decides
                        skipped.append(p[0] + ": " + p[2].read()[:300].replace("\n", " "))
                        continue
                    failed = "compiling %s failed:\n%s" % (p[0], p[2].read()[:6000])
                    pending = []
        time.sleep(0.02)
    if failed:
        shutil.rmtree(tmp, ignore_errors=True)
        die(failed)
    objs = [o for o in objs if os.path.exists(o)]
    if len(skipped) > 3:
        shutil.rmtree(tmp, ignore_errors=True)
        die("too much of the catalogue does not compile: " + skipped[0])
    with open(os.path.join(tmp, "skipped"), "w") as fh:
        fh.write("\n".join(skipped))
    r = subprocess.run(spec["link"] + objs + ["-o", os.path.join(tmp, "sim")] + spec["libs"],
                       capture_output=True, text=True)
    if r.returncode != 0:
        shutil.rmtree(tmp, ignore_errors=True)
        die("linking failed:\n" + r.stderr[:6000])
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


def known_findings(prop):
    path = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                out.append(line[len("known: "):])
    return out


def main():
    args = sys.argv[1:]
    prop = args.pop(0)
    opt = {}
    while args:
        key = args.pop(0)
        opt[key] = args.pop(0)
    tier = opt.get("--tier", os.environ.get("VERIF_TIER", "quick"))
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = PROPS[prop]
    t0 = time.time()
    runs = int(opt.get("--runs", spec[tier]["runs"]))
    cap = float(opt.get("--max-seconds", spec[tier]["cap"]))
    ncpu = len(os.sched_getaffinity(0))
    workers = int(opt.get("--workers", max(1, min(8, ncpu))))
    cpus = sorted(os.sched_getaffinity(0))
    exe = build(spec["binary"])
    t_build = time.time() - t0
    left_out = open(os.path.join(os.path.dirname(exe), "skipped")).read().splitlines()
    for line in left_out:
        print("left out, does not compile:", line)
    work = tempfile.mkdtemp(prefix="run-", dir=BUILD)
    try:
        rc = search(prop, spec, tier, seed, runs, cap, workers, cpus, exe, work, t0, t_build, opt, left_out)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def search(prop, spec, tier, seed, runs, cap, workers, cpus, exe, work, t0, t_build, opt, left_out):
    env = dict(os.environ)
    env.pop("SIM_NO_REEXEC", None)
    for k in list(env):
        if k.startswith("LC_") or k in ("LANG", "LANGUAGE", "GLIBC_TUNABLES") or k.startswith("MALLOC_"):
            del env[k]
    env["LC_ALL"] = "C"
    print("property %s tier %s seed %d: %d runs on %d workers (build %.1fs)" % (
        prop, tier, seed, runs, workers, t_build), flush=True)
    procs = []
    for w in range(workers):
        cmd = [exe, "--prop", prop, "--seed", str(seed), "--runs", str(runs), "--from", str(w),
               "--stride", str(workers), "--cpu", str(cpus[w % len(cpus)]), "--max-seconds", str(cap),
               "--out", os.path.join(work, "w%d.json" % w),
               "--replay-out", os.path.join(work, "w%d.replay" % w)]
        if "--hashes" in opt:
            cmd += ["--hashes", opt["--hashes"] + ".%d" % w]
        log = open(os.path.join(work, "w%d.log" % w), "w")
        procs.append(subprocess.Popen(cmd, env=env, stdout=log, stderr=log))
    bad = False
    first_violation = None
    while any(p.poll() is None for p in procs):
        time.sleep(0.05)
        if any(p.poll() == 1 for p in procs) and first_violation is None:
            first_violation = time.time()
        # give the others a moment (they may hold a lower index), then stop
        if first_violation and time.time() - first_violation > 1.0:
            for p in procs:
                if p.poll() is None:
                    p.kill()
    results = []
    violations = []
    traces, ileaves = set(), set()
    for w, p in enumerate(procs):
        p.wait()
        f = os.path.join(work, "w%d.json" % w)
        if p.returncode in (0, 1) and os.path.exists(f):
            r = json.load(open(f))
            results.append(r)
            if "violation" in r:
                violations.append(r["violation"])
            with open(f + ".sets", "rb") as fh:
                for dest in (traces, ileaves):
                    n, = struct.unpack("<Q", fh.read(8))
                    dest.update(struct.unpack("<%dQ" % n, fh.read(8 * n)))
        elif not first_violation:
            bad = True
            print("worker %d ended with %s: %s" % (
                w, p.returncode, open(os.path.join(work, "w%d.log" % w)).read()[:2000]))
    tot = lambda k: sum(r[k] for r in results)
    counters = {}
    for r in results:
        for k, (n, isf) in r["counters"].items():
            c = counters.setdefault(k, [0, isf])
            c[0] += n
    known = known_findings(prop)
    for k in known:
        print("KNOWN-FINDING: " + k)
    # gate: a violation must replay exactly in a fresh process
    reported = None
    violations.sort(key=lambda v: v["index"])
    for v in violations:
        g = subprocess.run([exe, "--replay", v["replay"]], env=env, capture_output=True, text=True)
        if g.returncode == 1:
            os.makedirs(REPLAYS, exist_ok=True)
            dest = os.path.join(REPLAYS, "%s-seed%d-run%d.replay" % (prop, seed, v["index"]))
            shutil.copy(v["replay"], dest)
            reported = (v, dest)
            break
        print("a violation did not replay in a fresh process (%s): %s" % (v["class"], g.stdout.strip()))
        bad = True
    wall = time.time() - t0
    sim_wall = max([r["wall"] for r in results] or [0.001])
    samples = []
    for r in results:
        samples += r["samples"][:1]
    faults = {k: c[0] for k, c in sorted(counters.items()) if c[1]}
    probes = {k: c[0] for k, c in sorted(counters.items()) if not c[1]}
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot("runs"),
            "distinct_nontrivial": tot("nontrivial") if len(results) == 1 else min(len(traces), tot("nontrivial")),
            "rule": spec["rule"] + " A run is one plan (tasks, operations, faults) and one schedule, all "
                    "drawn from VERIF_SEED and the run number, executed in its own forked process. It is "
                    "non-trivial if at least one fault fired or a task was preempted inside an operation, and "
                    "distinct by the hash of its complete event trace.",
            "samples": samples[:4],
            "distinct_event_traces": len(traces),
            "distinct_interleavings": len(ileaves),
            "interleaving_measure": "sequence of tasks granted the processor, as a hash over all context switches",
            "runs_per_hour": int(tot("runs") / sim_wall * 3600) if results else 0,
            "simulated_time": "%d scheduling steps (the code under test has no clock; a step is one seam crossing)" % tot("steps"),
            "scheduling_steps": tot("steps"),
            "preemptions_inside_operations": tot("switches"),
            "faults_injected": faults,
            "probes": probes,
            "determinism_rechecks": tot("rechecks"),
            "determinism_mismatches": tot("mismatches"),
            "real_code": spec["real"],
            "stubs": spec["stubs"],
            "left_out_of_catalogue": left_out,
            "build_s": round(t_build, 2),
        },
        "assumptions": spec["assumptions"],
        "wall_s": round(wall, 2),
        "violations": 1 if reported else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
        json.dump(evidence, fh, indent=1)
        fh.write("\n")
    print("%d runs, %d distinct traces, %d interleavings, faults %s, %.1fs" % (
        tot("runs"), len(traces), len(ileaves), faults, wall))
    if reported:
        v, dest = reported
        print("violation class %s in run %d: %s" % (v["class"], v["index"], v["message"]))
        print("replay with: python3 %s/replay.py %s" % (HERE, dest))
        print("VIOLATION property=%s replay=%s" % (prop, dest), flush=True)
        return 1
    errors = [r["error"] for r in results if r["error"]]
    if bad or tot("mismatches") or tot("harness_errors"):
        print("CHECK-ERROR: mismatches=%d harness_errors=%d %s" % (
            tot("mismatches"), tot("harness_errors"), errors[:3]))
        return 3
    if not results or tot("runs") == 0:
        print("CHECK-ERROR: no runs")
        return 3
    missing = [f for f in spec["must_fire"] if not counters.get(f, [0])[0]]
    if missing and tot("runs") >= 20000:
        print("CHECK-ERROR: these faults or probes never fired: %s" % missing)
        return 3
    print("property %s held on everything explored" % prop)
    return 0


if __name__ == "__main__":
    main()
