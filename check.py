#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] : decide one property on /repo's current working tree.

Builds the harnesses from /repo, runs every exploration listed for the property in plan.py, aggregates the evidence file,
and prints KNOWN-FINDING / VIOLATION lines.  Exit 0: held on everything explored; 1: violated; 2: no answer.
"""
import json, os, re, subprocess, sys, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from plan import CHECKS
BUILD = os.environ.get("VERIF_BUILD", VERIF + "/.build")
KNOWN = VERIF + "/known-findings.txt"


def known(prop):
    r = []
    for l in open(KNOWN):
        m = re.match(r"finding: property=(\S+) run=(\S+) key=(\S+) match=/(.*)/ :: (.*)$", l.rstrip("\n"))
        if m and m.group(1) == prop:
            r.append(m.groups()[1:])
    return r


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = CHECKS[prop]
    runs = c.quick if tier == "quick" else c.thorough
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    t0 = time.time()
    targets = sorted({t for r in runs for t in r.targets()})
    if subprocess.run([sys.executable, VERIF + "/tools/build.py"] + targets).returncode:
        print("BUILD FAILED")
        return 2
    tot = dict.fromkeys(("executions", "choice_points", "transitions", "states", "horizon_cuts", "nontrivial", "pruned_by_budget"), 0)
    detail, samples, viol, seenk, bad = [], [], [], {}, 0
    limit = 660 if tier == "quick" else 6 * 3600
    skipped = []
    for i, r in enumerate(runs):
        left = limit - (time.time() - t0)
        if left < 5:
            skipped.append(r.name)
            continue
        out = f"{BUILD}/out-{prop}-{i}-{os.getpid()}.json"
        cmd = r.cmd(out, tier, left)
        log = f"{BUILD}/log-{prop}-{i}.txt"
        env = dict(os.environ, PDC_VERIF="1")
        env.pop("PDC_SERVER_CACHE_MAX_SIZE", None)
        with open(log, "wb") as lf:
            try:
                p = subprocess.run(cmd, cwd=BUILD, stdout=lf, stderr=lf, env=env, timeout=r.tl(tier) + 120)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = -99
        try:
            d = json.load(open(out))
            os.unlink(out)
        except Exception as e:
            print(f"NO ANSWER: run {r.name} produced no result (rc {rc}): {' '.join(cmd)}")
            bad = 1
            continue
        if d.get("error"):
            print(f"NO ANSWER: harness error in run {r.name}: {' '.join(cmd)}")
            bad = 1
        for k in tot:
            tot[k] += d.get(k, 0)
        vs = d["violations"]
        print(f"  {r.name}: {d['executions']} executions, {d['transitions']} transitions, {d['states']} states, "
              f"{len(vs)} violation kinds, {d['wall_s']:.1f}s{' TIME-CAPPED' if d.get('time_capped') else ''}", flush=True)
        detail.append({"run": r.name, "harness": r.what(), "bounds": " ".join(r.args), "executions": d["executions"],
                       "choice_points": d["choice_points"], "transitions": d["transitions"], "states": d["states"],
                       "cut_at_horizon": d["horizon_cuts"], "nontrivial": d["nontrivial"],
                       "beyond_deviation_bound": d["pruned_by_budget"],
                       "exhausted_within_bounds": not d.get("time_capped"), "wall_s": d["wall_s"]})
        for s in d["samples"][:2]:
            if len(samples) < 12:
                samples.append({"run": r.name, "history": s})
        for v in vs:
            viol.append((r, v))
    kn = known(prop)
    rc = 0
    n = 0
    for r, v in viol:
        hay = v["message"] + " || " + v["history"].replace("\n", " ; ")
        hit = None
        for (run, key, rx, desc) in kn:
            if re.fullmatch(run, r.name) and key == v["key"] and re.search(rx, hay):
                hit = desc
                break
        if hit:
            if hit not in seenk:
                seenk[hit] = 1
                print(f"KNOWN-FINDING: property={prop} {hit}")
            continue
        rc = 1
        path = f"{BUILD}/replay-{prop}-{n}.txt"
        n += 1
        ch = v["choices"] if isinstance(v["choices"], str) else " ".join(map(str, v["choices"]))
        with open(path, "w") as f:
            f.write(f"choices: {ch}\n# property {prop}, run {r.name}, key {v['key']}: {v['message']}\n")
            for h in v["history"].split("\n"):
                f.write(f"#   {h}\n")
            f.write("# replay: cd %s && %s\n" % (BUILD, " ".join(r.cmd(f"{BUILD}/replay.json", tier, 900) + [f"replay={path}", "verbose=1"])))
        print(f"    {v['key']}: {v['message'][:300]}")
        for h in v["history"].strip().split("\n")[:40]:
            print(f"      {h[:200]}")
        print(f"VIOLATION property={prop} replay={path}", flush=True)
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
          "coverage": {"states": tot["states"], "transitions": tot["transitions"],
                       "traces_validated_against_impl": tot["executions"],
                       "choice_points": tot["choice_points"], "nontrivial_executions": tot["nontrivial"],
                       "executions_cut_at_horizon": tot["horizon_cuts"],
                       "alternatives_beyond_deviation_bound": tot["pruned_by_budget"],
                       "explanation": "every execution runs the real PDC code; states are distinct observed (oracle-relevant) states, "
                                      "transitions are operations/deliveries executed on complete executions",
                       "runs": detail, "runs_not_started_for_lack_of_time": skipped, "samples": samples, "known_findings_seen": sorted(seenk)},
          "wall_s": round(time.time() - t0, 2)}
    json.dump(ev, open(os.environ.get("VERIF_EVIDENCE", VERIF + "/evidence") + f"/{prop}.json", "w"), indent=1)
    if bad and not rc:
        return 2
    print(f"{prop} {tier}: {'VIOLATED' if rc else 'held'} on {tot['executions']} executions, {tot['transitions']} transitions ({ev['wall_s']} s)")
    return rc


sys.exit(main())
