#!/usr/bin/env python3
"""Seeded deterministic simulation of LAIK: one check per property.

  check.py P01 [--tier quick|thorough] [--seed N] [--time S]
  check.py replay FILE
  check.py setup
"""
import os, sys, subprocess, hashlib, json, time, shutil, fcntl, re, glob

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
WORKERS = max(2, min(8, os.cpu_count() or 8))
QUICK = 24.0
THOROUGH = 600.0


class CheckError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    files = []
    for pat in ("src/**/*.c", "src/**/*.h", "include/**/*.h", "external/**/*.[ch]"):
        files += sorted(glob.glob(os.path.join(REPO, pat), recursive=True))
    for pat in ("sim/*", "stub/**/*.[ch]", "build.sh"):
        files += sorted(glob.glob(os.path.join(HERE, pat), recursive=True))
    for f in files:
        if not os.path.isfile(f):
            continue
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


def ensure_build():
    """Build the simulator from the current working tree (cached by content)."""
    key = tree_hash()
    base = os.path.join(HERE, "build")
    os.makedirs(base, exist_ok=True)
    out = os.path.join(base, "t-" + key)
    with open(os.path.join(base, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(out, "ok")):
            old = sorted(glob.glob(os.path.join(base, "t-*")), key=os.path.getmtime)
            for d in old[:-2]:
                shutil.rmtree(d, ignore_errors=True)
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            p = subprocess.run(["bash", os.path.join(HERE, "build.sh"), out], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, env=dict(os.environ, REPO=REPO))
            if p.returncode != 0:
                sys.stdout.write(p.stdout.decode(errors="replace")[-4000:])
                raise CheckError("building the simulator from %s failed" % REPO)
            open(os.path.join(out, "ok"), "w").close()
    return out


def sim(build, *args, timeout=None):
    p = subprocess.run([os.path.join(build, "sim")] + [str(a) for a in args], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")


def load_props():
    props = {}
    with open(os.path.join(HERE, "properties.jsonl")) as f:
        for line in f:
            if line.strip():
                p = json.loads(line)
                props[p["id"]] = p
    return props


def known_findings(prop):
    """known-findings: lines 'known: property=Pxx replay=<file> <what fails>' or 'fixed: ...'."""
    out = []
    path = os.path.join(HERE, "known-findings")
    if not os.path.exists(path):
        return out
    with open(path) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) replay=(\S+) class=(\S+) match=\"([^\"]*)\" (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append({"replay": os.path.join(HERE, m.group(2)), "cls": m.group(3), "match": m.group(4), "text": m.group(5)})
    return out


def run_batches(build, prop, seed, tier, seconds):
    """Search with WORKERS processes; returns merged results and the violations."""
    procs = []
    tmp = os.path.join(build, "run-%d" % os.getpid())
    os.makedirs(tmp, exist_ok=True)
    try:
        for w in range(WORKERS):
            f = open(os.path.join(tmp, "w%d" % w), "w")
            p = subprocess.Popen([os.path.join(build, "sim"), "batch", "--prop", prop, "--seed", str(seed),
                                  "--first", str(w), "--stride", str(WORKERS), "--time", str(seconds),
                                  "--tier", tier, "--violations", "1"], stdout=f, stderr=subprocess.STDOUT)
            procs.append((p, f))
        end = time.time() + seconds + 60
        stopped = None
        while any(p.poll() is None for p, _ in procs):
            time.sleep(0.1)
            if stopped is None:
                for w in range(WORKERS):
                    if procs[w][0].poll() is not None:
                        with open(os.path.join(tmp, "w%d" % w)) as f:
                            if any(l.startswith("violation ") for l in f):
                                stopped = time.time()
                if stopped:
                    for p, _ in procs:
                        if p.poll() is None:
                            p.terminate()
            if time.time() > end:
                for p, _ in procs:
                    p.kill()
                raise CheckError("a search worker did not finish")
        for _, f in procs:
            f.close()
        m = {"runs": 0, "nontrivial": 0, "nondet": 0, "twice": 0, "simtime": 0, "stat": {}, "config": {},
             "probes": set(), "sched": set(), "distinct": set(), "violations": [], "harness": [], "nondets": []}
        for w in range(WORKERS):
            done = False
            with open(os.path.join(tmp, "w%d" % w)) as f:
                text = f.read()
            for line in text.split("\n"):
                t = line.split(" ")
                if t[0] in ("runs", "nontrivial", "nondet", "twice", "simtime") and len(t) == 2 and not (t[0] == "nondet" and len(t[1]) > 9):
                    m[t[0]] += int(t[1])
                elif t[0] == "nondet":
                    m["nondets"].append(t[1])
                elif t[0] == "stat":
                    m["stat"][t[1]] = m["stat"].get(t[1], 0) + int(t[2])
                elif t[0] == "config":
                    m["config"][t[1]] = m["config"].get(t[1], 0) + int(t[2])
                elif t[0] in ("probes", "sched", "distinct"):
                    m[t[0]].update(t[1:])
                elif t[0] == "violation":
                    m["violations"].append((t[1], t[2], " ".join(t[3:])))
                elif t[0] == "harness":
                    m["harness"].append(line)
                elif t[0] == "end":
                    done = True
            if not done and not stopped:
                raise CheckError("search worker %d ended early: %s" % (w, text[-500:]))
        return m
    finally:
        for p, _ in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(tmp, ignore_errors=True)


def write_evidence(prop, tier, seed, m, wall, sample, nviol, kn):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    faults = {k: v for k, v in m["stat"].items()}
    hours = max(m["wall"], 1e-6) / 3600.0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": m["runs"],
            "distinct_nontrivial": len(m["distinct"]),
            "rule": "one run = one seed: generated program (spaces, partitionings, containers, transitions, stores, "
                    "groups) x configuration x schedule x fault sequence; non-trivial if processes were interleaved "
                    "(at least 3 context switches, or the one-process backend) and at least one data, reduction or "
                    "store check was evaluated; distinct by the hash of the whole event log",
            "samples": sample,
            "nontrivial_runs": m["nontrivial"],
            "runs_per_hour": int(m["runs"] / hours),
            "seeds_per_hour": int(m["runs"] / hours),
            "search_wall_s": round(m["wall"], 2),
            "workers": WORKERS,
            "simulated_time_s": round(m["simtime"] / 1e6, 3),
            "counts": faults,
            "distinct_schedules": len(m["sched"]),
            "distinct_schedules_measure": "hash over the sequence of (process, reason) scheduling decisions of a run",
            "distinct_states": len(m["probes"]),
            "distinct_states_measure": "(operation, configuration, outcome) probe keys reached",
            "backend_and_process_counts": m["config"],
            "runs_executed_twice_for_determinism": m["twice"],
            "nondeterministic_runs": len(m["nondets"]),
            "known_findings_replayed": kn,
            "real_code": ["all of /repo/src and /repo/include (every simulated process has its own copy of the library)"],
            "stubs": ["MPI library", "BSD sockets / poll / select", "GLib (old TCP backend only)", "malloc and clocks",
                      "operating-system process exit / stdio"],
        },
        "assumptions": ["simulated MPI and sockets implement the documented semantics of the real ones",
                        "the compiler's optimisation does not hide defects of the shipped build"],
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
    path = os.path.join(HERE, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)


def gate(build, prop, tier, seed, viol, mintime, n):
    """Minimise, then reproduce the minimised file in a fresh process."""
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.replay" % (prop, viol[0]))
    rc, out = sim(build, "min", "--prop", prop, "--seed", viol[0], "--tier", tier, "--time", mintime, "--out", path,
                  timeout=mintime + 120)
    if rc != 1 or not os.path.exists(path):
        raise CheckError("violation of seed %s (%s) was not reproduced while minimising: %s" % (viol[0], viol[2], out[-800:]))
    for _ in range(2):
        rc, out = sim(build, "replay", path, timeout=120)
        if rc != 1:
            raise CheckError("replay of %s does not reproduce the violation: %s" % (path, out[-800:]))
    return path, out


def check(prop, tier, seed, seconds):
    t0 = time.time()
    props = load_props()
    if prop not in props:
        raise CheckError("unknown property " + prop)
    build = ensure_build()
    kn = 0
    # known findings first: each must still fail as recorded, otherwise it is not reported
    for k in known_findings(prop):
        rc, out = sim(build, "replay", k["replay"], timeout=120)
        kn += 1
        m = re.search(r"^message (.*)$", out, re.M)
        c = re.search(r"^class (.*)$", out, re.M)
        if rc in (1, 2) and c and c.group(1) == k["cls"] and k["match"] in m.group(1):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
        elif rc in (1, 2):
            path = os.path.join(HERE, "evidence", "replay")
            os.makedirs(path, exist_ok=True)
            p = os.path.join(path, "%s-known-%s" % (prop, os.path.basename(k["replay"])))
            shutil.copyfile(k["replay"], p)
            print("the program of a known finding fails differently: %s" % out)
            print("VIOLATION property=%s replay=%s" % (prop, p))
            return 1
    b0 = time.time()
    m = run_batches(build, prop, seed, tier, seconds)
    m["wall"] = time.time() - b0
    if m["nondets"] and not m["violations"]:
        raise CheckError("runs with differing event logs for the same seed: %s" % " ".join(m["nondets"][:5]))
    if m["harness"] and not m["violations"]:
        raise CheckError("simulator errors: %s" % "; ".join(m["harness"][:3]))
    if not m["violations"] and (m["runs"] < 20 or not m["distinct"]):
        raise CheckError("only %d runs (%d non-trivial)" % (m["runs"], len(m["distinct"])))
    rc, sample = sim(build, "one", "--prop", prop, "--seed", first_seed(build, prop, seed), "--tier", tier, timeout=60)
    lines = [l for l in sample.split("\n") if l][:60]
    bad = None
    err = None
    for v in m["violations"][:3]:
        try:
            bad = (v,) + gate(build, prop, tier, seed, v, 30 if tier == "quick" else 60, 0)
            break
        except CheckError as e:
            err = e
    write_evidence(prop, tier, seed, m, time.time() - t0, [{"first_run_of_this_search": lines}], len(m["violations"]), kn)
    if bad:
        print("violation: seed %s: %s: %s" % bad[0])
        with open(bad[1]) as f:
            print("minimised schedule and fault trace:\n" + f.read()[:4000])
        print("VIOLATION property=%s replay=%s" % (prop, bad[1]))
        return 1
    if err:
        raise err
    print("property %s held on %d simulated runs (%d distinct non-trivial, %d schedules) in %.1f s" %
          (prop, m["runs"], len(m["distinct"]), len(m["sched"]), time.time() - t0))
    return 0


def first_seed(build, prop, seed):
    rc, out = sim(build, "seedof", "--prop", prop, "--seed", seed, "--first", 0, timeout=30)
    return out.strip()


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    opt = {}
    pos = []
    i = 0
    while i < len(a):
        if a[i].startswith("--") and i + 1 < len(a):
            opt[a[i][2:]] = a[i + 1]
            i += 2
        else:
            pos.append(a[i])
            i += 1
    if pos[0] == "setup":
        print("built " + ensure_build())
        return 0
    if pos[0] == "replay":
        rc, out = sim(ensure_build(), "replay", pos[1], timeout=300)
        sys.stdout.write(out)
        return rc
    tier = opt.get("tier") or os.environ.get("VERIF_TIER") or "quick"
    try:
        seed = int(opt.get("seed") or os.environ.get("VERIF_SEED") or 1)
    except ValueError:
        seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    seconds = float(opt.get("time", THOROUGH if tier == "thorough" else QUICK))
    return check(pos[0], tier, seed, seconds)


if __name__ == "__main__":
    try:
        rc = main()
    except CheckError as e:
        print("check error: %s" % e)
        rc = 2
    except subprocess.TimeoutExpired as e:
        print("check error: timeout: %s" % e)
        rc = 2
    sys.exit(rc)
