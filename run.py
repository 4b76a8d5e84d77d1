#!/usr/bin/env python3
"""Run the check of one property: run.py C01 [--tier quick|thorough] [--replay FILE]."""
import argparse
import json
import os
import shutil
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf import boot  # noqa: E402

SHARDS = int(os.environ.get("VERIF_SHARDS", "8"))


def known_findings():
    """open findings per property: {component: [signature]}, and the lines to print."""
    out, lines = {}, []
    path = os.path.join(boot.HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("open:"):
                # open: property=<id> component=<name> signature=<text> :: what fails
                head, what = line[5:].split("::", 1)
                pid = head.split("property=")[1].split()[0]
                comp = head.split("component=")[1].split()[0]
                sig = head.split("signature=")[1].strip()
                out.setdefault(pid, {}).setdefault(comp, []).append(sig)
                lines.append((pid, what.strip()))
    return out, lines


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only", nargs="*", default=[])
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    scratch = boot.make_scratch()
    vendor = boot.VENDOR
    if not os.path.isdir(os.path.join(vendor, "hypothesis")):
        vendor = os.path.join(scratch, "vendor")
        boot.unpack_hypothesis(vendor)
    env = boot.child_env(scratch, vendor)
    if a.replay:
        return subprocess.call([boot.PYTHON, "-m", "vf.replay", a.prop, os.path.abspath(a.replay), scratch],
                               env=env, cwd=boot.HERE)
    known, known_lines = known_findings()
    budget = 420 if a.tier == "quick" else 720
    procs = []
    for i in range(SHARDS):
        ws = os.path.join(scratch, "w%d" % i)
        os.makedirs(ws)
        job = dict(prop=a.prop, tier=a.tier, seed=seed, shard=i, shards=SHARDS, scratch=ws, only=a.only,
                   budget=budget, shrink=45 if a.tier == "quick" else 90, scale=a.scale,
                   known=known.get(a.prop, {}), out=os.path.join(scratch, "out%d.json" % i))
        log = open(os.path.join(scratch, "log%d" % i), "wb")
        procs.append((job, subprocess.Popen([boot.PYTHON, "-m", "vf.worker", json.dumps(job)], env=env,
                                            cwd=boot.HERE, stdout=log, stderr=log)))
    error = None
    hung = []
    limit = 120 if a.tier == "quick" else 200
    while any(p.poll() is None for _, p in procs):
        time.sleep(0.1)
        for job, p in procs:
            if p.poll() is None:
                current = os.path.join(job["scratch"], "current.json")
                stuck = os.path.exists(current) and time.time() - os.path.getmtime(current) > limit
                if stuck or time.monotonic() - t0 > 860:
                    p.kill()
                    p.wait()
                    error = "worker %d did not finish in time" % job["shard"]
                    if stuck:
                        hung.append((job, "does not end within %d s" % limit))
    for job, p in procs:
        if p.returncode in (-4, -6, -7, -8, -11):
            hung.append((job, "ends the process with signal %d" % -p.returncode))
        if p.returncode not in (0, -9) or (p.returncode == 0 and not os.path.exists(job["out"])):
            tail = open(os.path.join(scratch, "log%d" % job["shard"]), errors="replace").read()[-3000:]
            error = "worker %d ended with %s\n%s" % (job["shard"], p.returncode, tail)
    merged, failures, rules = {}, [], {}
    for job, p in procs:
        if not os.path.exists(job["out"]):
            continue
        for name, r in json.load(open(job["out"])).items():
            m = merged.setdefault(name, dict(evaluations=0, rejected=0, nontrivial=set(), events={},
                                             samples=[], known={}, complete=True, cpu=0.0))
            rules[name] = r["rule"]
            m["evaluations"] += r["evaluations"]
            m["rejected"] += r["rejected"]
            m["nontrivial"] |= set(r["nontrivial"])
            for k, v in r["events"].items():
                m["events"][k] = m["events"].get(k, 0) + v
            for k, v in r["known"].items():
                m["known"][k] = m["known"].get(k, 0) + v
            m["samples"] = (m["samples"] + r["samples"])[:3]
            m["complete"] &= r["complete"]
            m["cpu"] += r["wall"]
            if r["failure"]:
                failures.append((name, r["failure"]))
    for job, what in hung[:2]:
        # a case that hangs or crashes the process: it counts if it does so again on its own
        current = json.load(open(os.path.join(job["scratch"], "current.json")))
        path = os.path.join(scratch, "hung.json")
        with open(path, "w") as fh:
            json.dump(current, fh)
        try:
            again = subprocess.run([boot.PYTHON, "-m", "vf.replay", a.prop, path, scratch], env=env, cwd=boot.HERE,
                                   timeout=limit, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode not in (0, 1)
        except subprocess.TimeoutExpired:
            again = True
        if again:
            failures.append((current["component"], dict(case=current["case"], message="valid input " + what, sig=what, kind="hang")))
    shown = {}
    for name, f in failures:
        if name not in shown or len(json.dumps(f["case"])) < len(json.dumps(shown[name]["case"])):
            shown[name] = f
    violations = []
    for name, f in sorted(shown.items()):
        rdir = os.path.join(boot.HERE, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s.json" % (a.prop, name))
        with open(path, "w") as fh:
            json.dump(dict(property=a.prop, component=name, seed=seed, tier=a.tier, **f), fh, indent=1)
        violations.append(dict(component=name, message=f["message"], replay=path))
    n_eval = sum(m["evaluations"] for m in merged.values())
    n_nontriv = sum(len(m["nontrivial"]) for m in merged.values())
    evidence = dict(
        property=a.prop, tier=a.tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=n_eval, distinct_nontrivial=n_nontriv,
            rule="; ".join("%s: %s" % kv for kv in sorted(rules.items())) or "see components",
            samples=[s for n in sorted(merged) for s in merged[n]["samples"]][:12],
            components={n: dict(evaluations=m["evaluations"], distinct_nontrivial=len(m["nontrivial"]),
                                rejected=m["rejected"], completed=m["complete"],
                                cpu_s=round(m["cpu"], 1), events=m["events"], known_findings_hit=m["known"])
                        for n, m in sorted(merged.items())},
        ),
        violations=violations, wall_s=round(time.monotonic() - t0, 2),
        assumptions="oracles are independent numpy code in /verif/vf; tolerances are stated next to them",
    )
    if error:
        evidence["error"] = error[-2000:]
    os.makedirs(os.path.join(boot.HERE, "evidence"), exist_ok=True)
    with open(os.path.join(boot.HERE, "evidence", a.prop + ".json"), "w") as fh:
        json.dump(evidence, fh, indent=1)
    for n, m in sorted(merged.items()):
        print("%s %-28s cases %6d  non-trivial %6d  rejected %4d  cpu %6.1fs%s" % (
            a.prop, n, m["evaluations"], len(m["nontrivial"]), m["rejected"], m["cpu"],
            "" if m["complete"] else "  (time budget)"))
    for pid, what in known_lines:
        if pid == a.prop:
            print("KNOWN-FINDING: property=%s %s" % (pid, what))
    print("%s %s seed=%d wall=%.1fs" % (a.prop, a.tier, seed, time.monotonic() - t0))
    for v in violations:
        print("  %s: %s" % (v["component"], v["message"]))
        print("VIOLATION property=%s replay=%s" % (a.prop, v["replay"]))
    if violations:
        return 1
    if error:
        print("ERROR", error)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
