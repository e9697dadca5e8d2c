from vp import *

def enc(s):
    r = ""
    for o in s:
        r += o["op"] + "".join(f" {o[k]}" for k in ("i", "g") if k in o) + (" %d %d" % tuple(o["d"]) if "d" in o else "") + "\n"
    return r

def corrupt(ev):
    for e in ev:
        if e["ev"] == "op" and e["op"] == "stop" and e["groups"][0]["n"] > 1:
            e["groups"][0]["tot"][1] ^= 1
            return ev

def main(c):
    exe = build_driver("timers", parts=("base",))
    c.model_check("TimersMC", "MC_Timers_deep.cfg" if THOROUGH else "MC_Timers.cfg", timeout=3000)
    run = batch_runner(exe, enc)
    sims = c.simulate("TimersMC", "Gen_Timers.cfg", 3000 if THOROUGH else 300, 60)
    c.conform("TraceTimers", "TraceTimers.cfg", sims, run, label="random timer histories", selftest=corrupt)
