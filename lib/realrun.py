"""Checks on whole models: restart files (C06), continued runs (C07), decompositions (C24), conserved sums (C25)."""
from vp import *

def model(c):
    kv = {k: c[k] for k in ("geom", "eq", "scheme", "ord", "lev", "vord", "stag", "tracers", "topo", "refstate", "rayleigh", "bc", "xz", "stretch", "hv", "res", "resb", "expl", "planet", "patches")}
    kv["diffs"], kv["diffv"], kv["reflat"] = c["diffs"], c["diffv"], c["reflat"] / 10
    if c["om"]:
        kv["omega"] = [0, 0.0, 1.0e-3][c["om"]]
    if c.get("al"):
        kv["alpha"] = 0.3 * c["al"]
    for k in ("hm", "vm", "inud", "mfl", "vhv", "user", "vdisc", "blob"):
        if k in c:
            kv[k] = c[k]
    return kv

def dt_of(c, k):
    """a step well inside the stability limit, so that runs stay finite"""
    return [30, 40, 60][k - 1] if c["eq"] == "sw" else [1, 1, 2][k - 1]

def enc(s):
    c, h = s["c"], s["h"]
    t = "mark " + json.dumps(c, separators=(",", ":")) + "\nmodel " + " ".join(f"{k}={v}" for k, v in model(c).items()) + "\n"
    for o in h:
        a = o["op"]
        if a == "write":
            t += f"write {o['np']} {o['t']} {o['seed']} " + " ".join(map(str, o["picks"])) + "\n"
        elif a == "damage":
            t += f"damage {o['kind']} {o['arg']}\n"
        elif a == "read":
            t += f"read {o['np']} {o['f']}\n"
        elif a == "run":
            d = dt_of(c, o["dt"])
            t += f"run {o['np']} {d} {d * o['steps']} {d * o['out']} {d * o['restart']}\n"
        elif a == "cont":
            d = dt_of(c, o["dt"])
            t += f"cont {o['np']} {d} {d * o['steps']} {d * o['out']} {o['f']}\n"
        elif a in ("field", "sums"):
            t += f"{a} {o['np']} {dt_of(c, o['dt'])} {o['steps']} {o['patches']}\n"
    return t

def runner(**k):
    exe = build_driver("real", extra=("-fno-access-control",))
    return mpi_runner(exe, enc, np_of=lambda s: max(o.get("np", 1) for o in s["h"]), **k)

def corrupt_read(ev):
    for e in ev:
        if e["ev"] == "read" and e["ok"]:
            e["patches"][-1]["st"] += 1
            return ev

def run_files(c):
    c.model_check("Restart", "MC_Restart_deep.cfg" if THOROUGH else "MC_Restart.cfg", timeout=6000)
    for b in ("arrival", "count", "cut"):
        c.expect_refuted("Restart", f"Bad_Restart_{b}.cfg")
    sims = c.simulate("RealGen", "Gen_RealFile.cfg", 1200 if THOROUGH else 120, 9, env={"FOCUS": "file"}, timeout=900)
    c.conform("TraceReal", "TraceReal.cfg", sims, runner(timeout=240, chunk=12), label="restart files", timeout=3000, selftest=corrupt_read)

def corrupt_cont(ev):
    for e in ev:
        if e["ev"] == "cont" and e["ok"]:
            e["steps"][-1]["st"][0][1] += 1
            return ev

def run_cont(c):
    c.model_check("Continue", "MC_Continue_deep.cfg" if THOROUGH else "MC_Continue.cfg", timeout=6000)
    for b in ("memory", "setup", "schedule"):
        c.expect_refuted("Continue", f"Bad_Continue_{b}.cfg")
    sims = c.simulate("RealGen", "Gen_RealCont.cfg", 1000 if THOROUGH else 100, 5, env={"FOCUS": "cont"}, timeout=900)
    c.conform("TraceReal", "TraceReal.cfg", sims, runner(timeout=240, chunk=12), label="continued runs", timeout=3000, selftest=corrupt_cont)

def corrupt_field(ev):
    f = [e for e in ev if e["ev"] == "field" and e["ok"]]
    if len(f) > 1:
        f[-1]["v"][-1][-1] += 50
        return ev

def run_fields(c):
    c.model_check("Decomposition", "MC_Decomposition_deep.cfg" if THOROUGH else "MC_Decomposition.cfg", timeout=6000)
    for b in ("scratch", "before", "within"):
        c.expect_refuted("Decomposition", f"Bad_Decomposition_{b}.cfg")
    sims = c.simulate("RealGen", "Gen_RealField.cfg", 2000 if THOROUGH else 220, 5, env={"FOCUS": "field"}, timeout=900)
    c.conform("TraceReal", "TraceReal.cfg", sims, runner(timeout=240, chunk=12), label="decompositions", timeout=3000, selftest=corrupt_field)

def corrupt_sums(ev):
    for e in ev:
        if e["ev"] == "sums" and e["ok"]:
            e["v"][-1][-1] += 500
            return ev

def emptied(s, e, d):
    """the listed finding: where tracers vanish in whole elements the limiter cannot conserve them"""
    if s["c"]["blob"] >= 4 and e["ev"] == "sums" and e["ok"] and all(abs(r[0]) <= 100 for r in e["v"]):
        return "empty-element"

def run_sums(c):
    c.model_check("Mass", "MC_Mass.cfg", timeout=600)
    if THOROUGH:
        c.model_check("Mass", "MC_Mass_deep.cfg", timeout=3000)
        c.model_check("Mass", "MC_Mass_wide.cfg", timeout=3000)
    for b in ("plain", "split", "oneside", "leak", "thickness"):
        c.expect_refuted("Mass", f"Bad_Mass_{b}.cfg")
    sims = c.simulate("RealGen", "Gen_RealSums.cfg", 3000 if THOROUGH else 240, 3, env={"FOCUS": "sums"}, timeout=900)
    c.conform("TraceReal", "TraceReal.cfg", sims, runner(timeout=240, chunk=12), label="conserved sums", timeout=3000, key=emptied, selftest=corrupt_sums)
