from vp import *

def enc(s):
    if "ops" in s:
        return f"cal {s['cal']}\n" + "".join(f"{o['op']} {' '.join(map(str, o['a']))}\n" for o in s["ops"])
    h = lambda x: "".join(x).encode().hex() or "-"
    return f"cal {s['cal']}\n" + "".join(f"{s['op']} {h(x)}\n" for x in s["texts"])

def batches(op, texts, cal, n=1):
    return [{"op": op, "cal": cal, "texts": texts[i:i + n]} for i in range(0, len(texts), n)]

def corrupt(ev):
    for e in ev:
        if e["ev"] == "text":
            e["full"] = e["full"][:4] + [e["full"][4] ^ 1]
            return ev

def main(c):
    exe = build_driver("calendar", parts=("base",))
    c.model_check("TimeTextMC", "MC_TimeText.cfg", timeout=2000)
    run = batch_runner(exe, enc)
    T = ("TraceTimeText", "TraceTimeText.cfg")
    sims = c.simulate("CalendarGen", "Gen_CalText.cfg", 1500 if THOROUGH else 300, 20)
    c.conform(*T, sims, run, label="printed and read back", selftest=corrupt)
    durs = []
    for s in c.simulate("CalendarGen", "Gen_Calendar.cfg", 600 if THOROUGH else 150, 40):
        a = [[abs(x) for x in o["a"]] for o in s["ops"] if o["op"] == "addT"]
        durs.append({"cal": s["cal"], "ops": [{"op": "dur", "a": x} for x in a]})
    durs = [d for d in durs if d["ops"]]
    c.conform(*T, durs, run, label="durations")
    en = c.enumerate("TimeTextMC", "Enum_TimeText_deep.cfg" if THOROUGH else "Enum_TimeText.cfg", timeout=1500)
    c.cov["texts_enumerated"] = len(en)
    c.conform(*T, batches("parse", en, "noleap", 20), run, label="all short texts", timeout=3000)
    pc = c.simulate("TimeTextMC", "Gen_TimeText.cfg", 2000 if THOROUGH else 500, 8)
    c.conform(*T, batches("parse", pc, "standard"), run, label="assembled texts")
    lg = c.enumerate("TimeTextMC", "Enum_LongText.cfg")
    c.conform(*T, batches("long", lg, "standard"), run, label="long-form mutations")
