"""Checks on output on the reference grid: where values come from (C21), what records files hold (C22)."""
from vp import *

def enc(s):
    c, h = s["c"], s["h"]
    kv = {k: c[k] for k in ("geom", "eq", "scheme", "ord", "lev", "vord", "stag", "tracers", "user", "topo", "refstate", "bc", "xz", "stretch", "res", "resb", "expl", "planet", "vdisc", "cal", "sy", "sm", "sd", "ss", "dn", "de")}
    for k in ("diag", "kx", "ky", "kz", "gx", "gy", "gz", "W"):
        if k in c:
            kv[k] = c[k]
    if c["al"]:
        kv["alpha"] = 0.3
    t = "mark " + json.dumps(c, separators=(",", ":")) + "\nmodel " + " ".join(f"{k}={v}" for k, v in kv.items()) + "\n"
    for o in h:
        t += "ref " + " ".join(str(o[k]) for k in ("np", "patches", "dt", "steps", "every", "per", "nx", "ny", "nz", "nodes", "rm")) + "\n"
    return t

def runner(**k):
    exe = build_driver("refout", extra=("-fno-access-control",))
    return mpi_runner(exe, enc, np_of=lambda s: max(o.get("np", 1) for o in s["h"]), **k)

def corrupt_value(ev):
    for e in ev:
        if e["ev"] == "ref" and e["ok"]:
            e["pts"][-1]["q"][-1][1][0] += 500
            return ev

def run_sampling(c):
    c.model_check("Sampling", "MC_Sampling_deep.cfg" if THOROUGH else "MC_Sampling.cfg", timeout=6000)
    for b in ("all", "open", "stale", "first"):
        c.expect_refuted("Sampling", f"Bad_Sampling_{b}.cfg")
    sims = c.simulate("RefGen", "Gen_Ref.cfg", 3000 if THOROUGH else 300, 3, env={"FOCUS": "sampling"}, timeout=900)
    c.conform("TraceRef", "TraceRef.cfg", sims, runner(timeout=240, chunk=12), label="sampled fields", timeout=3000, selftest=corrupt_value, env={"FOCUS": "sampling"})

def corrupt_time(ev):
    for e in ev:
        if e["ev"] == "ref" and e["ok"]:
            e["files"][-1]["sec"][-1] += 500
            return ev

def run_records(c):
    c.model_check("Records", "MC_Records_deep.cfg" if THOROUGH else "MC_Records.cfg", timeout=6000)
    for b in ("base", "early", "index"):
        c.expect_refuted("Records", f"Bad_Records_{b}.cfg")
    sims = c.simulate("RefGen", "Gen_Ref.cfg", 3000 if THOROUGH else 300, 3, env={"FOCUS": "records"}, timeout=900)
    c.conform("TraceRef", "TraceRef.cfg", sims, runner(timeout=240, chunk=12), label="records", timeout=3000, selftest=corrupt_time, env={"FOCUS": "records"})
    sims = c.simulate("RefGen", "Gen_Ref.cfg", 1000 if THOROUGH else 120, 3, env={"FOCUS": "diag"}, timeout=900)
    c.conform("TraceRef", "TraceRef.cfg", sims, runner(timeout=240, chunk=12), label="records of derived fields", timeout=3000, env={"FOCUS": "records"})

def corrupt_diag(ev):
    for e in ev:
        if e["ev"] == "ref" and e["ok"] and e["pts"]:
            e["pts"][-1]["q"][1][1][0] += 400000
            return ev

def run_diag(c):
    c.model_check("Diagnostics", "MC_Diagnostics_deep.cfg" if THOROUGH else "MC_Diagnostics.cfg", timeout=6000)
    for b in ("sign", "metric", "time"):
        c.expect_refuted("Diagnostics", f"Bad_Diagnostics_{b}.cfg")
    sims = c.simulate("RefGen", "Gen_Ref.cfg", 3000 if THOROUGH else 300, 3, env={"FOCUS": "diag"}, timeout=900)
    c.conform("TraceRef", "TraceRef.cfg", sims, runner(timeout=240, chunk=12), label="derived fields", timeout=3000, selftest=corrupt_diag, env={"FOCUS": "diag"})
