from vp import *

def enc(s):
    r = "missing\n"
    for t in s["texts"]:
        r += f"file {''.join(t).encode().hex() or '-'}" + (" all" if s.get("all") else "") + "\n"
    return r

def corrupt(ev):
    for e in ev:
        if e["ev"] == "get" and len(e["s"]) > 2:
            e["s"] = e["s"][:-1]
            return ev

def main(c):
    exe = build_driver("prefs", parts=("base",))
    c.model_check("PreferencesMC", "MC_Preferences.cfg", timeout=1500)
    run = batch_runner(exe, enc)
    T = ("TracePreferences", "TracePreferences.cfg")
    sims = [{"texts": s, "all": 1} for s in c.simulate("PreferencesMC", "Gen_Preferences.cfg", 300 if THOROUGH else 40, 41)]
    c.conform(*T, sims, run, label="assembled files", selftest=corrupt, timeout=2000)
    en = c.enumerate("PreferencesMC", "Enum_Preferences_deep.cfg" if THOROUGH else "Enum_Preferences.cfg", timeout=1500)
    c.cov["texts_enumerated"] = len(en)
    if not THOROUGH:
        en = [t for t in en if "=" in t]
    c.conform(*T, [{"texts": en[i:i + 40]} for i in range(0, len(en), 40)], run, label="all short files", timeout=3000)
