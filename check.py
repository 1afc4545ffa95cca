#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Builds Umpire's host library and the property's harnesses from /repo's working
tree, explores every execution within the tier's bounds, writes
evidence/<property>.json and exits 0 (held on everything explored) or 1 (with a
VIOLATION line)."""
import json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import vbuild
from checks import CHECKS


def known_findings(prop):
    """Lines `known: property=<id> key=<key> <text>` of known_findings.txt."""
    out = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" ")
                out[key[len("key="):]] = text
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = CHECKS[prop]
    known = known_findings(prop)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    work = os.path.join(vbuild.BUILD, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    configs, violated, replay, known_hit = [], False, None, set()
    try:
        for k, run in enumerate(spec["runs"]):
            if tier not in run.get("tiers", ("quick", "thorough")):
                continue
            exe = vbuild.build(run["exe"], run["harness"], variant=run.get("variant", "rel"), lib=run.get("lib", "all"),
                               extra_cflags=run.get("cflags", ()), ldflags=run.get("ldflags", ()),
                               libs=run.get("libs", ()), nosan=run.get("nosan", ()), tools=run.get("tools", ()))
            out = os.path.join(work, "stats%d.json" % k)
            cmd = [exe, "--property=" + prop, "--tier=" + tier, "--out=" + out, "--replay-dir=" + rdir,
                   "--budget=%d" % (run.get("budget", 500) if tier == "quick" else run.get("budget_thorough", 3600))]
            if run.get("only"):
                cmd.append("--only=" + run["only"])
            for key in known:
                cmd.append("--known=" + key)
            env = dict(os.environ)
            for v in list(env):
                if v.startswith("UMPIRE_"):
                    del env[v]
            env.update(run.get("env", {}))
            env["VERIF_SCRATCH"] = work
            print("running", os.path.basename(exe), tier, flush=True)
            r = subprocess.run(cmd, cwd=work, env=env)
            if r.returncode not in (0, 1):
                print("check error: harness ended with status %d" % r.returncode)
                return 2
            st = json.load(open(out))
            for c in st["configs"]:
                c["run"] = os.path.basename(exe)
            configs += st["configs"]
            known_hit.update(st.get("known", []))
            if r.returncode == 1:
                violated = True
                replay = os.path.join(rdir, prop + ".replay.txt")
                break
    except vbuild.BuildError as e:
        print("check error:", e)
        return 2
    finally:
        subprocess.run(["rm", "-rf", "--", work])
    samples = []
    for c in configs:
        for s in c.pop("samples", []):
            if s and len(samples) < 6:
                samples.append({"config": c["name"], "history": s.split("\n")[:40]})
    tot = lambda f: sum(c[f] for c in configs)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"),
        "coverage": {
            "states": tot("states"),
            "transitions": tot("transitions"),
            "traces_validated_against_impl": tot("histories"),
            "oracle_evaluations": tot("checks"),
            "refused_or_preempted_steps": tot("deviations"),
            "histories_abandoned": tot("pruned"),
            "exhaustive": all(c["exhausted"] for c in configs) and not violated,
            "rule": spec.get("rule", "every history within the bounds of each configuration, executed on the real code"),
            "configurations": configs,
            "samples": samples or [{"note": "violation found before a sample was taken"}],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violated else 0,
    }
    path = os.path.join(HERE, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)
    for key in sorted(known):
        if key in known_hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[key]))
    print("%s %s: %d histories, %d transitions, %d distinct states, %.1f s%s" % (
        prop, tier, tot("histories"), tot("transitions"), tot("states"), time.time() - t0,
        "" if ev["coverage"]["exhaustive"] or violated else " (budget reached, see evidence)"))
    if violated:
        if os.path.exists(replay):
            for line in open(replay):
                if line.startswith(("message:", "config:")):
                    print(line.strip())
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
