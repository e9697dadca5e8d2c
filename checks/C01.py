from vp import *

def enc(s):
    return f"cal {s['cal']}\n" + "".join(f"{o['op']} {' '.join(map(str, o['a']))}\n" for o in s["ops"])

def corrupt(ev):
    for e in ev:
        if e["ev"] == "addD":
            e["r"] = [e["r"][0], e["r"][1], e["r"][2], e["r"][3] ^ 1, e["r"][4]]
            return ev

def main(c):
    exe = build_driver("calendar", parts=("base",))
    c.model_check("CalendarMC", "MC_Calendar_deep.cfg" if THOROUGH else "MC_Calendar.cfg", timeout=2000)
    run = batch_runner(exe, enc)
    sims = c.simulate("CalendarGen", "Gen_Calendar.cfg", 2000 if THOROUGH else 400, 40)
    c.conform("TraceCalendar", "TraceCalendar.cfg", sims, run, label="random behaviours", selftest=corrupt)
    en = c.enumerate("CalendarGen", "Enum_Calendar_deep.cfg" if THOROUGH else "Enum_Calendar.cfg", timeout=1200)
    c.conform("TraceCalendar", "TraceCalendar.cfg", en, run, label="every day of special years", timeout=2000)
