from vp import *

def enc(s):
    k, p, n = s["k"], s["p"], s["n"]
    return {"dirs": "dirs\n", "cells": f"cells {p} {n}\n", "areas": f"areas {n}\n", "points": f"points {p} {n} {n + max(1, n // 2)}\n"}[k]

def corrupt(ev):
    for e in ev:
        if e["ev"] == "points":
            e["rows"][0]["to"][e["p"]][2] += 40
            return ev

def main(c):
    exe = build_driver("panel", parts=("base", "atm"))
    c.model_check("PanelMapsMC", "MC_PanelMaps_deep.cfg" if THOROUGH else "MC_PanelMaps.cfg", timeout=3000)
    en = c.enumerate("PanelEnum", "Enum_Panel_deep.cfg" if THOROUGH else "Enum_Panel.cfg", timeout=600)
    c.conform("TracePanel", "TracePanel.cfg", en, batch_runner(exe, enc), label="panel maps", timeout=5000, selftest=corrupt)
