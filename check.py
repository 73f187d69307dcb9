#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   explore; exit 0 held, 1 violated, 2 error of the check
check.py --replay <file>                  replay a violation on the current tree; exit 1 if it reproduces
The deciding step is the seeded search in sim/runner.c; this file builds, runs, replays and reports."""
import json, os, re, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build
from checks import CHECKS, COMMON, REAL, STUB_T, STUB_M, STUB_F
KNOWN = os.path.join(VERIF, "known-findings.txt")


def scenario_list(c):
    names, out = [], []
    for s in c["scenarios"]:
        names.append((s, 1) if isinstance(s, str) else s)
    # interleave by weight so that every prefix of the run numbers has all of them
    for i in range(max(w for _, w in names)):
        out += [n for n, w in names if w > i]
    return out


def known_findings(prop):
    """open findings: lines 'known: property=<id> scenario=<name> kind=<kind> message=<regular expression>'"""
    res = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) scenario=(\S+) kind=(\S+) message=(.*)$", l.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3), re.compile(m.group(4)), l.strip()))
    return res


def symbolise(binary, pcs):
    if not pcs:
        return []
    r = subprocess.run(["addr2line", "-e", binary, "-f", "-i", "-p"] + pcs, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    return [l.strip() for l in r.stdout.splitlines() if "??" not in l]


def replay_file(path):
    variant = "tsan"
    for l in open(path, errors="replace"):
        if l.startswith("variant "):
            variant = l.split()[1]
            break
    b = build.build()[variant]
    r = subprocess.run([b, "--replay", path, "--trace"])
    return 1 if r.returncode == 1 else 0 if r.returncode == 0 else r.returncode


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        return replay_file(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = CHECKS[prop]
    t0 = time.time()
    bins = build.build()
    t_build = time.time() - t0
    scen = scenario_list(c)
    counts = c["quick"]
    # wall-clock caps only stop a run early on a slow machine
    plan = [("tsan", counts[0], 100), ("release", counts[1], 60)] if tier == "quick" else [("tsan", 40000000, 480), ("release", 40000000, 240)]
    if os.environ.get("SIM_SCALE"):
        f = float(os.environ["SIM_SCALE"])
        plan = [(v, int(n * f), b) for v, n, b in plan]
    workers = max(2, min(16, os.cpu_count() or 8))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    parts, rc, lines, nviol = [], 0, [], 0
    known = known_findings(prop)
    for variant, count, budget in plan:
        if not count:
            continue
        start = 0
        for attempt in range(20):
            rp = os.path.join(VERIF, "replays", "%s-%s-%d.replay" % (prop, variant, seed))
            if os.path.exists(rp):
                os.unlink(rp)
            out = tempfile.NamedTemporaryFile(prefix="simout", suffix=".json", delete=False)
            out.close()
            cmd = [bins[variant], "--check", prop, "--scenarios", ",".join(scen), "--seed", str(seed), "--from", str(start), "--count", str(count - start), "--budget", str(budget),
                   "--min-budget", "40" if tier == "quick" else "120", "--workers", str(workers), "--out", out.name, "--replay-out", rp]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            sys.stderr.write(r.stderr)
            try:
                d = json.load(open(out.name))
            except ValueError:
                d = None
            os.unlink(out.name)
            if d is None or r.returncode not in (0, 1):
                print("ERROR: the simulator failed for property %s (%s, exit %d)" % (prop, variant, r.returncode))
                return 2
            d["cmd_count"] = count
            parts.append(d)
            if r.returncode == 0:
                break
            v = d["violation"]
            # the replay must reproduce in a fresh process before anything is reported
            g = subprocess.run([bins[variant], "--replay", rp], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if g.returncode != 1:
                print("ERROR: replay %s does not reproduce (exit %d): %s" % (rp, g.returncode, g.stdout.strip()))
                return 2
            hit = next((k for k in known if k[0] == v["scenario"] and k[1] == v["kind"] and k[2].search(v["message"])), None)
            if hit:
                l = "KNOWN-FINDING: property=%s %s" % (prop, hit[3])
                if l not in lines:
                    lines.append(l)
                start = v["index"] + 1
                continue
            rc, nviol = 1, nviol + 1
            print("%s: %s (scenario %s, seed %d, run %d, %s build)" % (v["kind"], v["message"], v["scenario"], seed, v["index"], variant))
            for l in symbolise(bins[variant], v["pcs"])[:12]:
                print("    at %s" % l)
            if v["pcs2"]:
                print("  other access:")
                for l in symbolise(bins[variant], v["pcs2"])[:12]:
                    print("    at %s" % l)
            print("  minimised from weight %d to %d in %d replays; replay with: python3 %s/check.py --replay %s" % (v["min_from"], v["min_to"], v["min_tries"], VERIF, rp))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            break
        if rc:
            break
    for l in lines:
        print(l)
    tot = lambda k: sum(p[k] for p in parts)
    wall = time.time() - t0
    run_s = tot("wall_s")
    faults, probes, scs = {}, {}, {}
    for p in parts:
        for k, (n, runs) in p["faults"].items():
            a = faults.setdefault(k, {"fired": 0, "runs": 0})
            a["fired"] += n
            a["runs"] += runs
        for k, n in p["probes"].items():
            probes[k] = probes.get(k, 0) + n
        for k, n in p["scenarios"].items():
            scs[k] = scs.get(k, 0) + n
    ev = tot("evaluations")
    coverage = {
        "evaluations": ev,
        "distinct_nontrivial": tot("distinct_nontrivial"),
        "rule": c["rule"] + "; counted per build variant by hash of all scheduling choices, calls, faults and outputs",
        "samples": [s for p in parts for s in p["samples"][:3]] or ["no run finished before the violation"],
        "runs_per_hour": round(ev / run_s * 3600) if run_s else 0,
        "seeds_per_hour": round(ev / run_s * 3600) if run_s else 0,
        "simulated_seconds": round(tot("simulated_s"), 3),
        "faults_fired": faults,
        "distinct_schedules": tot("distinct_schedules"),
        "distinct_schedules_measure": "hash of the sequence of (chosen thread, kind of scheduling point) of a run",
        "distinct_runs": tot("distinct_runs"),
        "context_switches": tot("switches"),
        "sync_operations": tot("sync_ops"),
        "checked_memory_accesses": tot("accesses"),
        "allocations": tot("allocations"),
        "simulated_threads": tot("threads"),
        "choices": tot("choices"),
        "situations_reached_runs": probes,
        "runs_per_scenario": scs,
        "determinism_rechecks": tot("recheck"),
        "inconclusive_runs": tot("inconclusive"),
        "variants": [{"variant": p["variant"], "runs": p["evaluations"], "wall_s": p["wall_s"]} for p in parts],
        "real_components": [REAL],
        "stub_components": [STUB_T, STUB_M] + ([STUB_F] if c.get("files") else []),
        "build_s": round(t_build, 2),
        "known_findings_seen": lines,
    }
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage, "assumptions": COMMON + c.get("assumptions", []), "wall_s": round(wall, 2), "violations": nviol},
              open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    if not rc:
        print("ok: property %s, %d runs (%d distinct non-trivial), %d faults fired, %.1f s" % (prop, ev, coverage["distinct_nontrivial"], sum(a["fired"] for a in faults.values()), wall))
    return rc


if __name__ == "__main__":
    sys.exit(main())
