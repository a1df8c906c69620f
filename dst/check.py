#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough     search; exit 0 held, 1 violation, 2 no answer
   check.py replay FILE                 re-execute a replay file (exit 1 when the violation shows again)"""
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B
VERIF = B.VERIF
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS")
import props_conf as C

def die(msg):
    print("NO-ANSWER: " + msg)
    sys.exit(2)

def known_for(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) sig=(.*?) :: (.*)$", l.rstrip("\n"))
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out

def scratch_dir():
    for d in ("/dev/shm", "/tmp"):
        try:
            st = os.statvfs(d)
            if st.f_bavail * st.f_frsize > 600 << 20:
                return tempfile.mkdtemp(prefix="dst-", dir=d)
        except OSError:
            pass
    return tempfile.mkdtemp(prefix="dst-")

def the_exe(harness):
    try:
        return B.build(harness)
    except B.BuildError as e:
        die(str(e))
    except subprocess.CalledProcessError as e:
        die("build step failed: %s" % e)

def replay(path):
    prop = [l.split("=", 1)[1].strip() for l in open(path) if l.startswith("property=")][0]
    prop = C.id_of(prop)
    exe = the_exe("sim")
    sc = scratch_dir()
    try:
        r = subprocess.run([exe, "replay", "--file", path, "--scratch", sc + "/0"], capture_output=True, text=True, timeout=600)
    finally:
        shutil.rmtree(sc, ignore_errors=True)
    try:
        d = json.loads(r.stdout.strip().splitlines()[-1])
    except Exception:
        die("replay gave no answer: rc=%s %s %s" % (r.returncode, r.stdout[-400:], r.stderr[-400:]))
    return prop, d

def run(pid, tier):
    t0 = time.time()
    prop, pid = C.name_of(pid), C.id_of(pid)
    conf = C.conf(prop)
    exe = the_exe("sim")
    build_s = time.time() - t0
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = float(os.environ.get("DST_TIME", conf[tier]))
    # the whole check has to answer within its time limit
    budget = max(10.0, min(budget, 780.0 - build_s)) if tier == "quick" else budget
    nw = int(os.environ.get("DST_WORKERS", "0")) or max(2, min(8, os.cpu_count() or 2))
    sc = scratch_dir()
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob("%s/%s.*" % (rdir, pid)):
        os.unlink(f)
    known = known_for(pid)
    with open(sc + "/known", "w") as f:
        f.write("\n".join(k for k, _ in known) + "\n")
    procs = []
    for i in range(nw):
        out = open("%s/out.%d" % (sc, i), "w")
        err = open("%s/err.%d" % (sc, i), "w")
        procs.append((subprocess.Popen([exe, "run", "--prop", prop, "--seed", str(seed), "--start", str(i), "--stride", str(nw), "--time", str(budget), "--scratch", "%s/%d" % (sc, i), "--known", sc + "/known",
                                        "--replay", "%s/%s" % (rdir, pid), "--minimise", "25" if tier == "quick" else "120", "--tier", tier], stdout=out, stderr=err, stdin=subprocess.DEVNULL, start_new_session=True), i))
    def kill(p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    found, errors, sums = [], [], []
    try:
        hard = time.time() + budget + 150
        alive = list(procs)
        stop_at = None
        while alive and time.time() < hard:
            time.sleep(0.1)
            for p, i in list(alive):
                if p.poll() is not None:
                    alive.remove((p, i))
                    lines = [l for l in open("%s/out.%d" % (sc, i), errors="replace").read().splitlines() if l.startswith("{")]
                    got = False
                    for l in lines:
                        try:
                            d = json.loads(l)
                        except ValueError:
                            continue
                        if "violation" in d: found.append(d["violation"])
                        if "error" in d: errors.append(d["error"])
                        if "summary" in d: sums.append(d["summary"]); got = True
                    if not got:
                        errors.append("worker %d ended with %s: %s" % (i, p.returncode, open("%s/err.%d" % (sc, i), errors="replace").read()[-500:]))
                    if found and stop_at is None:
                        stop_at = time.time() + 3
            if stop_at and time.time() > stop_at:
                break
        for p, i in alive:
            kill(p)
        if alive and not found:
            errors.append("%d workers did not finish in time" % len(alive))
        confirmed, seen = [], set()
        for v in found:
            if v["signature"] in seen:
                continue
            seen.add(v["signature"])
            ok = True
            for k in range(2):
                r = subprocess.run([exe, "replay", "--file", v["replay"], "--scratch", sc + "/r"], capture_output=True, text=True, timeout=300)
                try:
                    d = json.loads(r.stdout.strip().splitlines()[-1])
                    ok = ok and d["reproduced"] and d["same_hash"]
                except Exception:
                    ok = False
            if ok:
                confirmed.append(v)
            else:
                errors.append("replay in a fresh process did not reproduce %s (%s)" % (v["signature"], v["message"][:300]))
    finally:
        for p, i in procs:
            kill(p)
        shutil.rmtree(sc, ignore_errors=True)
    wall = time.time() - t0
    write_evidence(pid, tier, seed, conf, sums, confirmed, errors, known, wall, build_s, nw)
    for sig, text in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    tot = lambda k: sum(s[k] for s in sums)
    print("%s: %d simulated runs of %d workloads, %d distinct executions, %.1f s of search, build %.1f s" % (prop, tot("runs"), tot("seeds"), tot("distinct_full"), max([s["wall_s"] for s in sums] or [0]), build_s))
    for v in confirmed:
        print("  %s: %s" % (v["kind"], v["message"]))
        if v["symbols"]: print("  " + v["symbols"].rstrip())
        print("  workload: %s; seed %s; %d scheduling/fault decisions (minimised from %d)" % (v["workload"], v["workload_seed"], v["decisions"], v["original_decisions"]))
    if confirmed:
        for v in confirmed:
            print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
        return 1
    if errors:
        for e in errors[:5]: print("  error: " + e[:1500])
        die("%d errors" % len(errors))
    if tot("runs") < conf.get("min_runs", 20):
        die("only %d runs" % tot("runs"))
    # a workload class that the configuration promises must have been reached
    reach = merged(sums, "reach")
    for k in conf.get("must_reach", []):
        if tier == "quick" and tot("runs") < 300: break
        if not reach.get(k):
            die("the search never reached: " + k)
    return 0

def merged(sums, key):
    d = {}
    for s in sums:
        for k, v in s[key].items(): d[k] = d.get(k, 0) + v
    return d

def write_evidence(prop, tier, seed, conf, sums, confirmed, errors, known, wall, build_s, nw):
    tot = lambda k: sum(s[k] for s in sums)
    runs, search = tot("runs"), max([s["wall_s"] for s in sums] or [0.001])
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": conf["level"],
        "coverage": {
            "evaluations": runs, "distinct_nontrivial": tot("distinct_full"),
            "rule": "an evaluation is one simulated execution judged by the oracle; non-trivial = its schedule deviates from run-to-block or a fault was injected; distinct = different hash over (workload, every scheduling decision, memory-access preemption and injected fault)",
            "samples": [x for s in sums for x in s["samples"]][:8],
            "workload_seeds": tot("seeds"), "runs_per_hour": round(runs / search * 3600), "seeds_per_hour": round(tot("seeds") / search * 3600),
            "simulated_seconds": round(tot("sim_s"), 3), "synchronisation_steps": tot("steps"), "memory_accesses_monitored": tot("accesses"),
            "context_switches": tot("switches"), "preemptions_at_memory_accesses": tot("preempts"), "threads_simulated": tot("threads"),
            "distinct_synchronisation_orders": tot("distinct_sched"),
            "faults_injected": merged(sums, "faults"), "operations_intercepted": merged(sums, "ops"), "run_endings": merged(sums, "ends"),
            "workload_classes_reached": merged(sums, "reach"), "known_findings_hit": merged(sums, "known"),
            "determinism_rechecks": tot("rechecked"), "irreproducible_rechecks": tot("irreproducible"), "workers": nw,
            "unrepeated_findings": [n for q in sums for n in q.get("unrepeated", [])][:8],
            "real_components": conf["real"], "stubbed_components": conf["stub"],
        },
        "wall_s": round(wall, 2), "build_s": round(build_s, 2),
        "known_findings": [t for _, t in known], "errors": [e[:500] for e in errors],
        "violations": len(confirmed), "violation_details": [{"kind": v["kind"], "message": v["message"], "replay": v["replay"], "workload_seed": v["workload_seed"], "decisions": v["decisions"]} for v in confirmed],
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)

if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        prop, d = replay(sys.argv[2])
        print(json.dumps(d, indent=1))
        if d["kind"]:
            print("VIOLATION property=%s replay=%s" % (prop, sys.argv[2]))
            sys.exit(1)
        sys.exit(0)
    if len(sys.argv) != 3 or sys.argv[2] not in ("quick", "thorough"):
        print(__doc__)
        sys.exit(2)
    sys.exit(run(sys.argv[1], sys.argv[2]))
