#!/usr/bin/env python3
"""tools/job.py HARNESS[@CONFIG] [real] [files=a,b] [k=v ...] [-- engine options]: run one job (development aid)"""
import os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core
h, _, cfg = sys.argv[1].partition("@")
a = sys.argv[2:]; opts = []
if "--" in a: i = a.index("--"); opts = a[i+1:]; a = a[:i]
real = "real" in a; files = None; val = 1; p = {}
for x in a:
    if x.startswith("files="): files = x[6:].split(",")
    elif x.startswith("validate="): val = int(x[9:])
    elif "=" in x: k, v = x.split("="); p[k] = int(v, 0)
core.ensure_engine(); os.makedirs(core.BUILD, exist_ok=True)
w = core.Work("dev")
try:
    j = core.Job(h, cfg or "default", real=real, files=files, opts=opts, validate=val, **p)
    r = core.run_job(w, core.MemGate(30), j, 0, core.Deadline(time.time() + 6000), 1, 6000)
    s = r["stats"]
    print(r["job"], r["status"], r["reason"])
    for k in ("status","error","instrs","forks","merges","merge_fails","paths","hash_calls","asserts","asserts_syntactic","asserts_solver","queries","solver_s","app_tried","case_splits","congruence","terms","auto_bytes","cover","notes","rss_mb","wall_s","infeasible","truncated"): print(k, s.get(k), end="; ")
    print("traces", r["traces"])
    for v in s.get("violations", []): print("V", {k: v[k] for k in ("kind", "label", "where", "detail")})
    for v in r["violations"]: print("CONFIRMED", core.describe(v), v["log"][-300:])
finally: w.close()
