#!/usr/bin/env python3
"""Runs the check of one property:  run.py PROPERTY [--tier quick|thorough]
   Replays a recorded violation:    run.py --replay FILE
Exit 0: held on everything explored.  1: VIOLATION line printed.  2: no answer."""
import argparse, json, os, subprocess, sys, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build, config
sys.stdout.reconfigure(errors="backslashreplace")
sys.stderr.reconfigure(errors="backslashreplace")


def known_findings(prop):
    known = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                rest = l.split(" ", 2)[2]
                cls, what = rest.split(" ", 1)
                known.append((cls.removeprefix("class="), what))
    except OSError:
        pass
    return known


def die(msg):
    print("ERROR " + msg)
    sys.exit(2)


# The library's code in two compilations (tools/build.py); "fine" gets an additional quarter of the runs.
FINE_START = 1 << 40


def binary(exe, variant):
    return exe + "-fine" if variant == "fine" else exe


def replay_variant(path):
    try:
        for l in open(path, errors="replace"):
            if l.startswith("variant "):
                return l.split()[1]
            if l.startswith("---"):
                break
    except OSError:
        pass
    return "usual"


def merge(x, y):
    """The totals of two batches."""
    out = {}
    for k in x:
        if isinstance(x[k], dict) and isinstance(y[k], dict) and k != "violation":
            out[k] = {n: x[k].get(n, 0) + y[k].get(n, 0) for n in {**x[k], **y[k]}}
        elif isinstance(x[k], (int, float)) and not isinstance(x[k], bool):
            out[k] = max(x[k], y[k]) if k.startswith("distinct") else x[k] + y[k]    # the two may overlap: a lower bound
        else:
            out[k] = x[k] or y[k]
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--count", type=int)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VSIM_JOBS", "8")))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    t0 = time.time()
    try:
        exe = build.build()
    except RuntimeError as e:
        die("cannot build the simulator from the working tree:\n" + str(e)[:4000])
    if a.replay:
        sys.exit(subprocess.run([binary(exe, replay_variant(a.replay)), "replay", a.replay]).returncode)
    c = config.CHECKS[a.prop]
    tier = a.tier
    count = a.count or c["runs"][tier]
    tmax = 240 if tier == "quick" else c.get("thorough_s", 1500)
    edir, rdir = os.path.join(VERIF, "evidence"), os.path.join(VERIF, "replays")
    os.makedirs(edir, exist_ok=True)
    os.makedirs(rdir, exist_ok=True)
    print("%s tier=%s VERIF_SEED=%d runs=%d" % (a.prop, tier, a.seed, count), flush=True)
    known = known_findings(a.prop)
    s = None
    parts = {}
    for variant, start, n in (("usual", 0, count), ("fine", FINE_START, max(count // 4, 1))):
        stats_f = os.path.join(build.BUILD, "stats-%s-%d.json" % (a.prop, os.getpid()))
        cmd = [binary(exe, variant), "batch", a.prop, "--seed", str(a.seed), "--start", str(start), "--count", str(n), "--jobs", str(a.jobs),
               "--time", str(tmax if variant == "usual" else tmax / 3), "--variant", variant,
               "--out", stats_f, "--replay-dir", rdir, "--verify-every", "101", "--shrink-time", "60" if tier == "quick" else "300"]
        for cls, _ in known:
            cmd += ["--known", cls]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        sys.stdout.write(p.stdout)
        if p.returncode not in (0, 1):
            die("the simulator ended with %d" % p.returncode)
        parts[variant] = json.load(open(stats_f, errors="replace"))
        os.unlink(stats_f)
        s = merge(s, parts[variant]) if s else parts[variant]
        if s["violation"]:
            break
    if s["runs"] == 0 or s["discarded"] * 5 > s["runs"]:
        die("%d of %d runs were discarded: %s" % (s["discarded"], s["runs"], s["discard_msg"]))
    v = s["violation"]
    # samples: actual executions of this run, written out
    samples = []
    for i in range(2):
        out = subprocess.run([exe, "run", a.prop, str(a.seed), str(i)], stdout=subprocess.PIPE, text=True, errors="replace").stdout
        lines = out.splitlines()
        samples.append({"run_index": i, "summary": lines[-2] if len(lines) > 1 else "", "trace_head": lines[:25], "trace_lines": len(lines)})
    wall = time.time() - t0
    ev = {
        "property": a.prop, "tier": tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": s["runs"],
            "distinct_nontrivial": s["distinct_executions"],
            "rule": "One evaluation is one simulated run of real library code, determined by its seed = f(VERIF_SEED, property, index). "
                    "distinct_nontrivial counts the distinct 64-bit hashes of the complete event sequence (every choice, task switch, simulated call and "
                    "result) of runs that were not discarded. Workload: " + c["workload"],
            "samples": samples,
            "distinct_observation_histories": s["distinct_states"],
            "runs_completed": s["ok"], "runs_discarded": s["discarded"], "runs_with_injected_faults": s["runs_with_faults"],
            "runs_repeated_with_equal_event_hash": (s["runs"] + 100) // 101,
            "simulated_runs_per_hour": int(s["runs"] / max(s["wall_s"], 0.001) * 3600),
            "simulated_seconds": round(s["sim_ns"] / 1e9, 6),
            "scheduling_points": s["steps"], "task_switches": s["switches"], "preemptions": s["preemptions"], "simulated_system_calls": s["syscalls"],
            "faults_injected": s["faults"],
            "rare_conditions_reached_in_runs": s["probes"],
            "compilations": {k: {"runs": x["runs"], "scheduling_points": x["steps"], "edges_instrumented": x["edges"], "edges_reached": x["edges_reached"],
                                 "functions_instrumented": x["functions"], "functions_reached": x["functions_reached"]} for k, x in parts.items()},
            "compilations_note": "usual: clang -O1; fine: unoptimised, every access of the source code is a scheduling point. "
                                 "Edges and functions: of all of libcork's sources, including inline functions copied into several files.",
            "real_code": c["real"], "stubs": c["stubs"],
            "libc_functions_not_simulated": open(os.path.join(os.path.dirname(exe), "unsimulated.txt")).read().split(),
        },
        "assumptions": config.ASSUMPTIONS + c.get("assumptions", []),
        "wall_s": round(wall, 3), "violations": 1 if v else 0,
    }
    json.dump(ev, open(os.path.join(edir, a.prop + ".json"), "w"), indent=1)
    print("%d runs, %d distinct executions, %d discarded, %.3f s simulated, faults %s, %.1f s" % (
        s["runs"], s["distinct_executions"], s["discarded"], s["sim_ns"] / 1e9, json.dumps(s["faults"]), wall))
    for cls, what in known:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, what))
    if v:
        for _ in range(2):
            r = subprocess.run([binary(exe, replay_variant(v["replay"])), "replay", v["replay"]], stdout=subprocess.PIPE, text=True, errors="replace")
            if r.returncode != 1:
                die("the replay file %s does not reproduce the violation in a fresh process" % v["replay"])
        print("VIOLATION property=%s replay=%s" % (a.prop, v["replay"]))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
