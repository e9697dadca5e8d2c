from vp import *

def enc(s):
    return "".join("line " + " ".join((w.encode().hex() or "-") for w in a) + "\n" for a in s)

def corrupt(ev):
    for e in ev:
        if e["ev"] == "line" and e["ran"] and len(e["a"]) > 4:
            e["vals"][0] = [77]
            return ev

def main(c):
    a = build_driver("cmdline", parts=("base",))
    b = build_driver("cmdline", parts=("base",), extra=("-DBASELIB",))
    c.model_check("CommandLineMC", "MC_CommandLine_deep.cfg" if THOROUGH else "MC_CommandLine.cfg", timeout=3000)
    T = ("TraceCommandLine", "TraceCommandLine.cfg")
    sims = c.simulate("CommandLineMC", "Gen_CommandLine.cfg", 300 if THOROUGH else 30, 40)
    c.conform(*T, sims, batch_runner(a, enc), label="random lines", selftest=corrupt)
    c.conform(*T, sims, batch_runner(b, enc), label="random lines, base library")
    en = c.enumerate("CommandLineMC", "Enum_CommandLine_deep.cfg" if THOROUGH else "Enum_CommandLine.cfg", timeout=1500)
    c.cov["lines_enumerated"] = len(en)
    c.conform(*T, [en[i:i + 40] for i in range(0, len(en), 40)], batch_runner(a, enc), label="every short line", timeout=3000)
