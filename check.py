#!/usr/bin/env python3
"""Runs the model-checking harnesses that decide one property against /repo's working tree.

  check.py ID [--tier quick|thorough] [--workers N] [--max-seconds S] [--only SCENARIO]
  check.py ID --replay FILE      re-executes one recorded schedule (verbose)
  check.py ID --keep             keeps the build directory

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  Exit 2: the check itself failed."""
import argparse, concurrent.futures, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from props import PROPS, VARIANTS, LIBS  # noqa: E402


QUICK_TOTAL = 700  # seconds; what is not explored by then is reported as not exhaustive


def cpu_has(flag):
    try:
        with open("/proc/cpuinfo") as f:
            for line in f:
                if line.startswith("flags"):
                    return flag in line.split()
    except OSError:
        pass
    return False


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        sys.stderr.write("command failed: %s\n%s\n" % (" ".join(cmd), p.stdout[-6000:]))
        sys.exit(2)
    return p.stdout


def build(unit, bdir):
    """Compiles the library from REPO and the unit's harness; returns the binary."""
    v = VARIANTS[unit["variant"]]
    cc = v.get("cc", "gcc")
    os.makedirs(bdir, exist_ok=True)
    lib = sorted(glob.glob(REPO + "/src/reactor/*.c") + glob.glob(REPO + "/src/picohttpparser/*.c"))
    if not lib:
        sys.stderr.write("no library sources under %s/src\n" % REPO)
        sys.exit(2)
    jobs, objs = [], []
    common = ["-std=gnu2x", "-D_GNU_SOURCE"] if False else ["-std=gnu2x"]
    special = v.get("special", {})
    for src in lib:
        o = os.path.join(bdir, "lib_" + os.path.basename(src)[:-2] + ".o")
        flags = special.get(os.path.basename(src), v["lib"])
        jobs.append([cc] + common + flags + unit.get("lib_flags", []) + ["-w", "-I" + REPO + "/src", "-c", src, "-o", o])
        objs.append(o)
    for name in unit["src"]:
        src = os.path.join(VERIF, name)
        o = os.path.join(bdir, os.path.basename(name)[:-2] + ".o")
        flags = v.get("engine", v["harness"]) if name.startswith("engine/") else v["harness"]
        jobs.append([cc] + common + flags + unit.get("flags", []) +
                    ["-w", "-I" + REPO + "/src", "-I" + VERIF + "/engine", "-I" + VERIF + "/checks", "-c", src, "-o", o])
        objs.append(o)
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        list(ex.map(run, jobs))
    exe = os.path.join(bdir, "mc")
    run([cc] + v["link"] + objs + ["-o", exe] + unit.get("libs", LIBS) + ["-lpthread"])
    return exe


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--workers", type=int, default=os.cpu_count() or 4)
    ap.add_argument("--max-seconds", type=float, default=None, help="per scenario")
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    p = PROPS[a.property]
    os.makedirs(VERIF + "/out", exist_ok=True)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    os.makedirs(VERIF + "/.build", exist_ok=True)
    root = tempfile.mkdtemp(prefix=a.property + "-", dir=VERIF + "/.build")
    rc, parts, skipped = 0, [], []
    env = dict(os.environ)
    env["MC_SCRATCH"] = os.path.join(root, "scratch")
    os.makedirs(env["MC_SCRATCH"])
    shown = set()
    with open(VERIF + "/known-findings.json") as f:
        env["MC_KNOWN"] = " " + " ".join(k["key"] for k in json.load(f)["known"] if k["property"] == a.property) + " "
    try:
        for i, unit in enumerate(p["units"]):
            v = VARIANTS[unit["variant"]]
            if a.tier == "quick" and unit.get("thorough_only"):
                continue
            need = v.get("cpu")
            if need and not all(cpu_has(f) for f in need):
                skipped.append("%s: CPU lacks %s" % (unit["variant"], need))
                continue
            exe = build(unit, os.path.join(root, "b%d" % i))
            tag = unit.get("tag", "")
            if a.replay:
                r = subprocess.run([exe, "--replay", a.replay], env=env)
                if r.returncode != 2:
                    sys.exit(r.returncode)
                continue
            js = os.path.join(root, "r%d.json" % i)
            out = os.path.join(VERIF, "out", tag) if tag else os.path.join(VERIF, "out")
            os.makedirs(out, exist_ok=True)
            cmd = [exe, "--property", a.property, "--tier", a.tier, "--out", out, "--json", js, "--workers", str(a.workers)]
            if a.only:
                cmd += ["--only", a.only]
            ms = a.max_seconds if a.max_seconds is not None else (unit.get("cap_thorough", 1500) if a.tier == "thorough" else unit.get("cap_quick", 300))
            cmd += ["--max-seconds", str(ms)]
            if a.tier == "quick":
                cmd += ["--total-seconds", str(max(20, QUICK_TOTAL - (time.time() - t0)))]
            if unit.get("skip"):
                cmd += ["--skip", unit["skip"]]
            r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, text=True)
            sys.stdout.write(r.stdout)
            sys.stdout.flush()
            if r.returncode == 1 and "VIOLATION property=%s " % a.property in r.stdout:
                rc = 1
            elif r.returncode != 0 and rc == 0:
                sys.stderr.write("harness ended with %d\n" % r.returncode)
                rc = 2
            try:
                with open(js) as f:
                    for s in json.load(f):
                        s["build"] = unit["variant"]
                        parts.append(s)
            except (OSError, ValueError):
                if rc == 0:
                    sys.stderr.write("no report from harness\n")
                    rc = 2
    finally:
        if a.keep:
            sys.stderr.write("kept %s\n" % root)
        else:
            shutil.rmtree(root, ignore_errors=True)
    if a.replay:
        sys.exit(2)
    samples = []
    for s in parts:
        for x in s.pop("samples", []):
            if len(samples) < 8:
                samples.append({"scenario": s["scenario"], "execution": x})
    for s in parts:
        for key, msg in s.pop("known", []):
            if key not in shown:
                shown.add(key)
                print("KNOWN-FINDING: property=%s %s: %s" % (a.property, key, msg))
    coverage = {
        "states": sum(s["states"] for s in parts),
        "transitions": sum(s["transitions"] for s in parts),
        "traces_validated_against_impl": sum(s["executions"] for s in parts),
        "evaluations": sum(s["evaluations"] for s in parts),
        "distinct_outcomes": sum(s["distinct_outcomes"] for s in parts),
        "exhaustive": bool(parts) and all(s["complete"] for s in parts),
        "explanation": "Every execution is an execution of the implementation itself (compiled from the working tree); "
                       "states are distinct (implementation-visible, environment) states recorded by the harness, transitions are the "
                       "environment actions and library calls executed, traces are complete executions, each compared with the oracle.",
        "scenarios": parts,
        "skipped_builds": skipped,
        "samples": samples or [{"scenario": "none", "execution": "no execution completed"}],
    }
    ev = {
        "property": a.property, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": p.get("level", "model_checking"), "coverage": coverage, "assumptions": p.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": 1 if rc == 1 else 0,
    }
    with open(VERIF + "/evidence/%s.json" % a.property, "w") as f:
        json.dump(ev, f, indent=1)
    tot = coverage
    print("%s %s: %s; %d scenarios, %d executions, %d transitions, %d states, %d evaluations, %.1f s%s" % (
        a.property, a.tier, {0: "held", 1: "VIOLATED", 2: "check failed"}[rc], len(parts), tot["traces_validated_against_impl"],
        tot["transitions"], tot["states"], tot["evaluations"], ev["wall_s"], "" if tot["exhaustive"] else " (not exhaustive)"))
    sys.exit(rc)


if __name__ == "__main__":
    main()
