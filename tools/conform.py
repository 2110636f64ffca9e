#!/usr/bin/env python3
"""Conformance of the simulated kernel (engine/sim.c) with the running one: every operation sequence up to a depth is
performed on both, and every result has to be the same (checks/h_conf.c).  Not a check of the library, and no check
depends on it: it needs inotify, loopback sockets and real time.  conform.py [--thorough] [--only SCENARIO]"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
w = tempfile.mkdtemp(prefix="conform.")
try:
    os.mkdir(w + "/scratch")
    subprocess.run(["gcc", "-std=gnu2x", "-D_GNU_SOURCE", "-w", "-g", "-O1", "-fsanitize=address", "-rdynamic", "-I" + V + "/engine", "-o", w + "/conf",
                    V + "/checks/h_conf.c", V + "/engine/mc.c", V + "/engine/sim.c", "-lm", "-lpthread"], check=True)
    cmd = [w + "/conf", "--property", "CONF", "--tier", "thorough" if "--thorough" in sys.argv else "quick", "--out", w, "--json", w + "/r.json", "--workers", "8", "--max-seconds", "1200"]
    if "--only" in sys.argv:
        cmd += ["--only", sys.argv[sys.argv.index("--only") + 1]]
    rc = subprocess.run(cmd, env=dict(os.environ, MC_SCRATCH=w + "/scratch")).returncode
    for s in json.load(open(w + "/r.json")):
        print("%-12s %8d sequences, %9d operations compared, %5d states, %s, %.0f s" % (s["scenario"], s["executions"], s["transitions"], s["states"], "complete" if s["complete"] else "not complete: " + s["result"], s["seconds"]))
    sys.exit(rc)
finally:
    shutil.rmtree(w)
