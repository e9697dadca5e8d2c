from vp import *

def enc(s):
    k = s["k"]
    if k == "column":
        return f"column {s['disc']} {s['stag']} {s['ord']} {s['fe']} {s['stretch']}\n"
    if k == "stretch":
        return f"stretch {s['stretch']} {s['n']}\n"
    return f"spacing {s['stretch']} {s['ord']} {s['delta']} {s['zero']} {s['from']} {s['n']}\n"

def corrupt(ev):
    for e in ev:
        if e["ev"] == "column" and e["ok"] and e["vord"] == 4:
            e["ops"]["nn"][2] = 1
            return ev

def main(c):
    exe = build_driver("columns", extra=("-fno-access-control", "-std=c++14"))
    c.model_check("Columns", "MC_Columns_deep.cfg" if THOROUGH else "MC_Columns.cfg", timeout=3000)
    for b in ("weights", "window", "jump"):
        c.expect_refuted("Columns", f"Bad_Columns_{b}.cfg")
    en = c.enumerate("ColumnsEnum", "Enum_Columns_deep.cfg" if THOROUGH else "Enum_Columns.cfg", timeout=600)
    c.conform("TraceColumns", "TraceColumns.cfg", en, batch_runner(exe, enc, timeout=240), label="columns", timeout=3000, selftest=corrupt)
