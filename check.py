#!/usr/bin/env python3
"""Runs the deterministic simulation that decides one property.

  check.py C05                 run the check (VERIF_SEED, VERIF_TIER from the environment)
  check.py --replay FILE       replay a violation exactly
  check.py --build             only build the simulators
"""
import sys, os, subprocess, json, time, re, struct, fcntl, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, "build")
REPO = "/repo"
WORKERS = int(os.environ.get("SIM_WORKERS", "8"))
KNOWN = os.path.join(HERE, "known-findings.txt")

# property -> engines: (simulator, quick runs, thorough runs)
from plans import PLANS, RULES, STUBS, ASSUME

def build(targets):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run(["make", "-s", "-j8", "-C", os.path.join(HERE, "sim"), "B=" + BUILD, "REPO=" + REPO] + targets,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout[-8000:])
        print("ERROR: the simulator does not build from /repo's working tree")
        sys.exit(3)

def load_known(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\S+) class=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out

def exe(sim):
    return os.path.join(BUILD, sim)

def run_engine(sim, prop, seed, runs, work, limit):
    procs = []
    for w in range(WORKERS):
        n = (runs - w + WORKERS - 1) // WORKERS
        if n <= 0:
            continue
        shapes = os.path.join(work, "%s-%d.shapes" % (sim, w))
        log = open(os.path.join(work, "%s-%d.log" % (sim, w)), "w+")
        procs.append((subprocess.Popen([exe(sim), "--prop", prop, "--seed", str(seed), "--first", str(w), "--step", str(WORKERS),
                                        "--count", str(n), "--dir", work, "--shapes", shapes, "--limit", str(limit)],
                                       stdout=log, stderr=subprocess.STDOUT), log, shapes))
    viol, stats, herr = {}, [], []
    shapes, logs, cov = set(), set(), bytearray()
    for p, log, sh in procs:
        p.wait()
        log.seek(0)
        got = False
        for line in log.read().splitlines():
            if line.startswith("V "):
                _, cls, f = line.split(" ", 2)
                viol.setdefault(cls, f)
            elif line.startswith("S {"):
                stats.append(json.loads(line[2:])); got = True
            elif line.startswith("H "):
                herr.append(line[2:])
        if not got:
            log.seek(0)
            herr.append("worker ended with %s: %s" % (p.returncode, log.read()[-500:]))
            continue
        for name, acc in ((sh, shapes), (sh + ".logs", logs)):
            b = open(name, "rb").read()
            acc.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        b = open(sh + ".cov", "rb").read()
        if not cov:
            cov = bytearray(b)
        else:
            cov = bytearray(x | y for x, y in zip(cov, b))
    return viol, stats, herr, shapes, logs, sum(cov)

def replay_out(sim, f, out=None):
    cmd = [exe(sim), "--replay", f] + (["--out", out] if out else [])
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    r = {}
    for line in p.stdout.splitlines():
        k, _, v = line.partition(" ")
        if k in ("status", "class", "hash", "same") and k not in r:
            r[k] = v
    return r

def read_field(f, name):
    for line in open(f, errors="replace"):
        if line.startswith(name + " "):
            return line[len(name) + 1:].strip()
    return ""

def confirm(sim, prop, cls, f, idx):
    """Same decisions again, then minimise, then replay in a fresh process."""
    a = replay_out(sim, f)
    if a.get("same") != "1":
        return None, "replaying %s gives %s" % (f, a)
    outdir = os.path.join(HERE, "replays"); os.makedirs(outdir, exist_ok=True)
    name = os.path.join(outdir, "%s-%s.replay" % (prop, re.sub(r"[^A-Za-z0-9]+", "_", cls)[:80]))
    mini = f + ".min"
    p = subprocess.run([exe(sim), "--prop", prop, "--minimise", f, "--limit", "30" if idx < 2 else "8", "--out", mini],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    best = mini if p.returncode == 0 else f
    if replay_out(sim, best).get("same") != "1":
        best = f
    shutil.copy(best, name)
    with open(name, "r+", errors="replace") as fh:
        s = fh.read(); fh.seek(0); fh.write("simulator %s\n" % sim + s)
    return name, (p.stdout.strip().splitlines() or [""])[-1]

def main():
    if sys.argv[1] == "--build":
        for t in ("io", "thr", "py", "view"):  # one that does not build is its own checks' matter
            try: build([t])
            except SystemExit: pass
        return 0
    if sys.argv[1] == "--replay":
        f = sys.argv[2]; sim = read_field(f, "simulator") or "iosim"
        build([sim])
        p = subprocess.run([exe(sim), "--replay", f]); return p.returncode
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    plan = PLANS[prop]
    build(sorted(set(e[0] for e in plan)))
    tb = time.time() - t0
    work = os.path.join(BUILD, "work-%s-%d" % (prop, os.getpid())); os.makedirs(work)
    known = load_known(prop)
    viol_total = 0; errors = []; printed = 0; allstats = []; shapes = set(); logs = set(); edges = {}; classes = {}
    knownseen = {}
    notes = []
    try:
        for sim, quick, thorough in plan:
            runs = quick if tier == "quick" else thorough
            viol, stats, herr, sh, lg, cov = run_engine(sim, prop, seed, runs, work, 400 if tier == "quick" else 3 * 3600)
            errors += herr; shapes |= sh; logs |= lg; edges[sim] = cov; allstats += [(sim, s) for s in stats]
            for s in stats:
                for c, n in s["classes"].items():
                    classes[c] = classes.get(c, 0) + n
                notes += s["notes"]
            for i, (cls, f) in enumerate(sorted(viol.items())):
                hit = [k for k in known if re.fullmatch(k[0], cls)]
                if hit:
                    knownseen[hit[0]] = knownseen.get(hit[0], 0) + 1
                    continue
                if printed >= 6:
                    print("further violation class %s" % cls); continue
                name, info = confirm(sim, prop, cls, f, i)
                if name is None:
                    errors.append("violation %s does not repeat: %s" % (cls, info)); continue
                printed += 1
                msg = open(name, errors="replace").read().split("--- violation\n", 1)[-1].split("\n--- schedule")[0]
                print("%s: %s" % (cls, msg[:600])); print("  " + info)
                print("VIOLATION property=%s replay=%s" % (prop, name)); sys.stdout.flush()
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for k in known:
        print("KNOWN-FINDING: property=%s %s%s" % (prop, k[1], "" if k in knownseen else " (not met in this run)"))
    wall = time.time() - t0
    cnt = {}
    for _, s in allstats:
        for k, v in s["counters"].items():
            cnt[k] = cnt.get(k, 0) + v
    runs = sum(s["runs"] for _, s in allstats)
    simsec = sum(s["seconds"] for _, s in allstats) / max(1, WORKERS)
    FAULTS = set("""short_read eintr_read eio_read premature_eof truncation open_failure short_write eintr_write eio_write disk_full process_death
      close_failure bit_flip overwrite zeroed_block lost_block duplicated_block swapped_blocks missing_file trailing_data alloc_failure alloc_cap
      heap_pattern stack_pattern locale_change history_change realloc_move foreign_file preemption blocked_lock stalled_thread""".split())
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2),
        "violations": printed,
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(shapes),
            "rule": RULES.get(prop, "") + " Distinct: runs whose set of library control-flow edges with bucketed hit counts (and, for threads, the order of synchronisation events) differs from every other run; identical repeats are not counted.",
            "samples": sorted(set(notes))[:8] or ["(none)"],
            "distinct_event_logs": len(logs),
            "runs_per_engine": {sim: sum(s["runs"] for n, s in allstats if n == sim) for sim, _, _ in plan},
            "seeds_per_hour": int(runs / simsec * 3600) if simsec > 0 else 0,
            "simulated_steps": sum(s["steps"] for _, s in allstats),
            "simulated_time_note": "partio reads no clock; simulated time is counted in logical steps (library control-flow edges, I/O calls, scheduler steps)",
            "simulated_events": sum(s["events"] for _, s in allstats),
            "faults_injected": {k: v for k, v in sorted(cnt.items()) if k in FAULTS and v},
            "conditions_reached": {k: v for k, v in sorted(cnt.items()) if k not in FAULTS and v},
            "library_edges_reached": edges,
            "violation_classes": classes,
            "run_set_hash": {sim: [s["hash"] for n, s in allstats if n == sim] for sim, _, _ in plan},
            "components": STUBS,
            "build_s": round(tb, 1),
        },
        "assumptions": ASSUME,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s: %d runs (%d distinct), %d events, %.0f s (build %.0f s), %d violation classes" % (prop, runs, len(shapes), ev["coverage"]["simulated_events"], wall, tb, len(classes)))
    for e in errors:
        print("ERROR: " + e)
    if printed:
        return 1
    return 2 if errors else 0

if __name__ == "__main__":
    sys.exit(main())
