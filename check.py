#!/usr/bin/env python3
"""Decide one property: check.py <ID> [--tier quick|thorough] [--scen NAME]

Builds every checker from /repo's current tree, explores each scenario that
serves the property, writes evidence/<ID>.json.  Exit 0: held on everything
explored; 1: violated (with a VIOLATION line); 2: the check itself failed.
"""
import json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import vbuild                       # noqa: E402
from checkers import LEVELS, ASSUME, QUICK_S, THOROUGH_S  # noqa: E402


def known_findings():
    """property -> [(scenario, regex, text)] of recorded, unrepaired defects."""
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) scenario=(\S+) match=/(.*)/ (.*)", l)
            if m:
                out.setdefault(m.group(1), []).append(m.groups()[1:])
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    a = sys.argv[2:]
    while a:
        if a[0] == "--tier":
            tier = a[1]
        elif a[0] == "--scen":
            only = a[1]
        a = a[2:]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    try:
        bins = vbuild.build_all(prop)
    except vbuild.BuildError as e:
        print("CHECK ERROR: cannot build: %s" % e)
        return 2
    t_build = time.time() - t0
    scens = []
    for b, exe in sorted(bins.items()):
        for l in subprocess.run([exe, "--list"], capture_output=True, text=True, check=True).stdout.splitlines():
            name, bq, bt, props = l.split(None, 3)
            if prop in props.split(",") and (only is None or only == name):
                scens.append((exe, name))
    if not scens:
        print("CHECK ERROR: no scenario for %s" % prop)
        return 2
    total = (QUICK_S if tier == "quick" else THOROUGH_S).get(prop, 60 if tier == "quick" else 1800)
    known = known_findings().get(prop, [])
    results, rc, errs, viol = [], 0, [], None
    left = total
    for i, (exe, name) in enumerate(scens):
        # Unused time of earlier scenarios goes to the later ones.
        budget = max(4.0, min(left * 0.75, 2.2 * left / (len(scens) - i)) if i + 1 < len(scens) else left)
        jf = os.path.join(vbuild.outdir(), "out.%s.%s.%d.json" % (prop, name, os.getpid()))
        vf = os.path.join(HERE, "evidence", "replay.%s.%s.txt" % (prop, name))
        if os.path.exists(vf):
            os.unlink(vf)
        s0 = time.time()
        r = subprocess.run([exe, "--scen", name, "--prop", prop, "--budget", "%.1f" % budget, "--tier", tier,
                            "--json", jf, "--vfile", vf], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        left -= time.time() - s0
        try:
            j = json.load(open(jf))
            os.unlink(jf)
        except (OSError, ValueError):
            errs.append("%s: no result (exit %d): %s" % (name, r.returncode, r.stdout[-400:]))
            continue
        results.append(j)
        if r.returncode == 1 and j.get("violation"):
            kf = [k for k in known if k[0] == name and re.search(k[1], j["violation"])]
            if kf:
                print("KNOWN-FINDING: property=%s %s" % (prop, kf[0][2]))
                continue
            viol = (name, j["violation"], vf)
            break
        if r.returncode != 0:
            errs.append("%s: exit %d: %s" % (name, r.returncode, (j.get("machine_error") or r.stdout)[-600:]))
    def tot(k):
        return sum(j.get(k, 0) for j in results)
    samples = []
    for j in results:
        for s in j.get("samples", [])[:2]:
            if len(samples) < 8:
                samples.append({"scenario": j["scenario"], "execution": s})
    level = LEVELS.get(prop, "model_checking")
    cov = {
        "states": tot("states"), "transitions": tot("transitions"),
        "traces_validated_against_impl": tot("runs"),
        "choice_points": tot("choices"), "distinct_outcomes": tot("outcomes"),
        "samples": samples or ["none"],
        "exhaustive": all(not j["truncated"] for j in results) and not errs,
        "rule": "every execution of the real code with at most `bound' non-default answers of the environment, "
                "from the scenario's initial state (every trace runs the implementation itself); states are distinct (world, system call) fingerprints",
        "scenarios": [{k: j.get(k) for k in ("scenario", "bound", "bound_completed", "truncated", "runs", "choices",
                                               "transitions", "states", "outcomes", "max_choices_per_run", "wall_s", "note")}
                      for j in results],
    }
    if level in ("exploration", "fault_enumeration"):
        cov["evaluations"] = cov.pop("traces_validated_against_impl")
        cov["distinct_nontrivial"] = cov.pop("distinct_outcomes")
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": level,
          "coverage": cov, "assumptions": ASSUME.get(prop, []) + ASSUME["*"], "wall_s": round(time.time() - t0, 2),
          "violations": 1 if viol else 0}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for j in results:
        print("%-22s bound %s/%s%s: %d executions, %d transitions, %d states, %d outcomes, %.1f s" % (
            j["scenario"], j["bound_completed"], j["bound"], " (time)" if j["truncated"] else "", j["runs"],
            j["transitions"], j["states"], j["outcomes"], j["wall_s"]))
        if j.get("other"):
            print("    note: %d reports for other properties, e.g. %s" % (j["other"], j["othermsg"][:200]))
    if viol:
        print("%s: %s" % (viol[0], viol[1]))
        print("VIOLATION property=%s replay=%s" % (prop, viol[2]))
        return 1
    if errs:
        print("CHECK ERROR: " + "; ".join(errs))
        return 2
    print("%s held: %d executions in %.1f s (build %.1f s)" % (prop, tot("runs"), time.time() - t0, t_build))
    return 0


if __name__ == "__main__":
    sys.exit(main())
