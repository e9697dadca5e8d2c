"""Checks on the time integrators: C13 (one step), C14 (sequences of steps)."""
from vp import *

def enc(s):
    c = s["c"]
    t = "mark " + json.dumps(c, separators=(",", ":")) + "\n" + f"scheme {c['name']} {c['oc']} {c['unit']} {c['tr']}\n"
    for o in s["h"]:
        t += "force\n" if o["op"] == "force" else f"step {o['m']} {int(o['first'])} {int(o['last'])}\n"
    return t

def corrupt(ev):
    for e in ev:
        if e["ev"] == "step" and not e["exc"]:
            e["out"][0][-1][1] += 200
            return ev

def key(s, ev, d):
    return "erk-vertical" if "vertical dynamics left out" in d else None

def run_steps(c):
    exe = build_driver("steps")
    r = batch_runner(exe, enc, timeout=200)
    c.model_check("IntegratorsMC", "MC_Integrators_deep.cfg" if THOROUGH else "MC_Integrators.cfg", timeout=6000)
    for b in ("carry", "weight"):
        c.expect_refuted("IntegratorsMC", f"Bad_Integrators_{b}.cfg")
    en = c.enumerate("IntegratorsEnum", "Enum_Integrators_deep.cfg" if THOROUGH else "Enum_Integrators.cfg", timeout=900)
    one = lambda h: sum(o["op"] == "step" for o in h) == 1
    en = [s for s in en if one(s["h"]) == (c.pid == "C13")]
    c.conform("TraceIntegrators", "TraceIntegrators.cfg", en, r, label="every integrator, all short runs", timeout=6000, key=key, selftest=corrupt)
    sims = c.simulate("IntegratorsGen", "Gen_Integrators.cfg", 2500 if THOROUGH else 250, 8, timeout=900)
    if c.pid == "C13":      # one step on a state that earlier runs have left their values around
        for s in sims:
            for o in s["h"]:
                if o["op"] == "step":
                    o["first"] = o["last"] = True
    c.conform("TraceIntegrators", "TraceIntegrators.cfg", sims, r, label="random runs", timeout=6000, key=key)
