"""Checks C03, C04, C05: one specification, one driver, different judged events."""
from vp import *

def enc(c):
    w = lambda a: " ".join(map(str, a))
    s = "cfg " + json.dumps(c, separators=(",", ":")) + "\n"
    s += f"start {w(c['start'])}\nstop {w(c['stop'])}\ndt {w(c['dt'])}\n"
    for x in c["comps"]:
        s += f"out {w(x['f'])} {x['n']} {int(x['r'])}\n" if x["k"] == "out" else f"proc {w(x['f'])}\n"
    return s + "go\n"

def main(c, focus, evs):
    exe = build_driver("modelloop")
    c.model_check("ModelLoopMC", "MC_ModelLoop_deep.cfg" if THOROUGH else "MC_ModelLoop.cfg", timeout=3000)
    for v in {"steps": ["late"], "outputs": ["twice"], "procs": ["skip"]}[focus]:
        c.expect_refuted("ModelLoopBad", f"Bad_ModelLoop_{v}.cfg")
    run = batch_runner(exe, enc)
    env = {"FOCUS": focus}
    T = ("TraceModelLoop", "TraceModelLoop.cfg")

    def corrupt(ev):
        for k, e in enumerate(ev):
            if e["ev"] in evs and k > 10:
                return ev[:k] + ev[k + 1:]
    sims = sum(c.simulate("ModelLoopMC", "Gen_ModelLoop.cfg", 150 if THOROUGH else 30, 30), [])
    c.cov["random_runs"] = len(sims)
    c.conform(*T, sims, run, label="random runs", env=env, timeout=3000, selftest=corrupt)
    en = c.enumerate("ModelLoopMC", "Enum_ModelLoop.cfg")
    c.cov["enumerated_runs"] = len(en)
    if not THOROUGH:
        en = en[SEED % 3::3]
    c.conform(*T, en, run, label="every small run", env=env, timeout=3000)
