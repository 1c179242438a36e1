#!/usr/bin/env python3
"""Runs one check: python3 check.py PROPERTY [--tier quick|thorough] [--seconds N].

Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed."""
import json, os, re, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build as B
from props import PROPS

OUT = os.path.join(VERIF, "out"); EVID = os.path.join(VERIF, "evidence"); KNOWN = os.path.join(VERIF, "known_findings.txt")

def known(prop):
    r = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop: r.append((m.group(2), m.group(3)))
    return r

def main():
    t0 = time.time()
    a = sys.argv[1:]; prop = a[0]; tier = os.environ.get("VERIF_TIER", "quick"); seconds = None
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    if "--seconds" in a: seconds = float(a[a.index("--seconds") + 1])
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = PROPS[prop]
    if seconds is None: seconds = P.get("quick", 60) if tier == "quick" else P.get("thorough", 600)
    os.makedirs(OUT, exist_ok=True); os.makedirs(EVID, exist_ok=True)
    ev_path = os.path.join(EVID, prop + ".json")
    try:
        exe, img = B.build(P["images"])
    except RuntimeError as e:
        print("cannot build /repo for the simulation:\n%s" % e); return 2
    def run(cmd, *args, timeout=None):
        return subprocess.run([exe, cmd, "--images", img] + list(args), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    kf = known(prop); kargs = []
    for i, _ in kf: kargs += ["--known", i]
    report = os.path.join(OUT, "%s.%d.json" % (prop, os.getpid())); jobs = os.cpu_count() or 4
    base = os.path.join(OUT, "%s-%s" % (prop, tier)); shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
    p = run("campaign", "--profile", ",".join(P["profiles"]), "--seed", str(seed), "--seconds", str(seconds), "--jobs", str(jobs), "--out", base, "--report", report, *kargs)
    if p.returncode not in (0, 1) or not os.path.exists(report):
        print(p.stdout[-3000:]); print("the campaign did not complete (exit %d)" % p.returncode); return 2
    r = json.load(open(report)); os.remove(report)
    if p.stdout.strip(): print(p.stdout[-1500:])
    internal = [f for f in r["failures"] if f["class"] in ("sim-error", "diverged")]
    viol = [f for f in r["failures"] if f not in internal]
    rc = 0; lines = []; det = None
    # the first seeds again: same hashes required (an error of the check otherwise)
    d = run("det", "--profile", ",".join(P["profiles"]), "--seed", str(seed), "--seconds", "3" if tier == "quick" else "20", "--jobs", str(jobs), *kargs)
    m = re.search(r"determinism: (\d+) seeds run twice, (\d+) diverged", d.stdout)
    det = {"seeds_run_twice": int(m.group(1)), "diverged": int(m.group(2))} if m else {"error": d.stdout[-300:]}
    if not m or int(m.group(2)): internal.append({"class": "diverged", "message": d.stdout[-300:], "seed": 0, "profile": ""})
    n_viol = 0
    for f in viol[:3]:
        f["replay"] = f["replay"]
        g = run("replay", f["replay"], *kargs)
        if g.returncode != 1: internal.append(dict(f, message="fresh-process replay differs: " + g.stdout[-300:])); continue
        small = os.path.join(base, "min-%s-%s.replay" % (f["profile"], f["seed"]))
        best = f["replay"]
        mn = run("minimise", f["replay"], "--out", small, "--min-seconds", "25" if tier == "quick" else "60", *kargs)
        if mn.returncode == 0 and os.path.exists(small) and run("replay", small, *kargs).returncode == 1: best = small
        n_viol += 1
        g = run("replay", best, "-v", *kargs)
        open(best + ".log", "w").write(g.stdout)
        print("%s: %s" % (f["class"], f["message"])); print("seed %s, profile %s; unreduced replay %s; %s" % (f["seed"], f["profile"], f["replay"], mn.stdout.strip()[-200:]))
        lines.append("VIOLATION property=%s replay=%s" % (prop, best)); break
    for i, text in kf: print("KNOWN-FINDING: property=%s %s" % (prop, text))
    wall = time.time() - t0
    fired = {k: v for k, v in r["fired"].items() if v}
    samples = []
    for i in range(3):
        s = run("sample", "--profile", ",".join(P["profiles"]), "--seed", str(seed), "--index", str(i), *kargs)
        samples.append(s.stdout[:2500])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 1), "violations": n_viol,
      "coverage": {"evaluations": r["runs"], "distinct_nontrivial": r["distinct"],
        "rule": "One evaluation is one simulated execution of a generated program (configuration, program, schedule, delays and faults all drawn from one seed derived from VERIF_SEED). Counted as distinct and non-trivial when at least two reactions ran and the sequence of context switches (thread, waiting point) differs from every other run of the same worker process; compared by hash.",
        "runs_per_hour": int(r["runs"] / max(r["wall_s"], 1e-3) * 3600), "seeds_per_hour": int(r["runs"] / max(r["wall_s"], 1e-3) * 3600), "simulated_seconds": r["sim_s"],
        "reactions_executed": r["reactions"], "tags_processed": r["tags"], "scheduling_points": r["steps"], "context_switches": r["switches"], "instrumented_memory_accesses": r["accesses"],
        "injected": fired, "reached": r["probes"], "runs_reaching": r["probe_runs"], "known_findings_observed": r["known"], "determinism": det,
        "real_components": P["real"], "stub_components": P["stub"], "samples": samples},
      "assumptions": P["assumptions"]}
    json.dump(ev, open(ev_path + ".tmp", "w"), indent=1); os.replace(ev_path + ".tmp", ev_path)
    if lines:
        print("\n".join(lines)); return 1
    if internal:
        for f in internal[:5]: print("error of the check: %s %s seed %s: %s" % (f["class"], f.get("profile"), f.get("seed"), f["message"]))
        return 2
    print("%s: held on %d simulated runs (%.0f s)" % (prop, r["runs"], wall))
    if not P.get("keep"): shutil.rmtree(base, ignore_errors=True)
    return 0
if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
