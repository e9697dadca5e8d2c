"""Checks on decomposed grids: one driver, one trace specification, different operations."""
from vp import *

def enc(s):
    c, h = s["c"], s["h"]
    t = "cfg " + json.dumps(c, separators=(",", ":")) + "\n"
    t += "grid " + " ".join(str(int(x)) for x in [c["cube"], c["nPatch"], c["resA"], c["resB"], c["ord"], c["halo"], c["stag"], c["nLev"], c["eq"], c["tracers"], *c["bc"]]) + "\n"
    if h and h[0]["op"] == "sum":
        t += "area\n"
    for k, o in enumerate(h):
        a = o["op"]
        if a in ("exch", "dss", "vec"):
            t += f"{a} {o['ty']} {o['m']}\n"
        elif a == "sum":
            t += f"sum {o['ty']} {o['m']} {o['kind']}\n"
        elif a == "copy":
            t += f"copy {o['ty']} {k + 1} {o['dst']} {o['src']}\n"
        elif a == "zero":
            t += f"zero {o['ty']} {k + 1} {o['dst']}\n"
        elif a == "lin":
            t += f"lin {o['ty']} {k + 1} {o['dst']} " + " ".join(map(str, o["co"])) + "\n"
    return t

def runner():
    exe = build_driver("grid")
    return mpi_runner(exe, enc, np_of=lambda s: s["c"]["np"], timeout=200)

def key(s, e, d):
    return "open-edge" if e["ev"] == "dss" and '"open edge"' in d else None

OPS = {"C08": ("layout", "Gen_GridOne.cfg", 150, 1500), "C09": ("exch", "Gen_Grid.cfg", 150, 1500), "C11": ("dss", "Gen_Grid.cfg", 200, 2000),
       "C12": ("vec", "Gen_Grid.cfg", 200, 2000), "C20": ("sum", "Gen_Grid.cfg", 150, 1500), "C26": ("comb", "Gen_Grid.cfg", 120, 1200)}

def corrupter(kind):
    def f(ev):
        hit = 0
        for e in ev:
            if e["ev"] != kind or e.get("refused") or e.get("exc"):
                continue
            e = e.update(json.loads(json.dumps(e))) or e
            if kind == "layout":
                e["look"][0]["r"][len(e["look"][0]["r"]) // 2] += 1
            elif kind == "exch":
                e["patches"][-1]["v"][len(e["patches"][-1]["v"]) // 2] += 1
            elif kind == "vec":
                e["post"][-1][0] += 9
            elif kind == "dss":
                e["post"][-1][0] += 12
            elif kind == "sum":
                e["r"][0] += 1
            elif kind == "comb":
                e["post"][0][0][0] += 1
            hit = 1
            break
        return ev if hit else None
    return f

def run_grid(c):
    foc, cfg, nq, nt = OPS[c.pid]
    r = runner()
    if c.pid in ("C08", "C09", "C11", "C12"):
        c.model_check("GridTopoMC", "MC_GridTopo_deep.cfg" if THOROUGH else "MC_GridTopo.cfg", timeout=5000)
    if c.pid == "C08":
        en = c.enumerate("GridEnum", "Enum_Grid_deep.cfg" if THOROUGH else "Enum_Grid.cfg", timeout=600)
        c.conform("TraceGrid", "TraceGrid.cfg", en, r, label="all small layouts", key=key, timeout=5000)
    sims = c.simulate("GridGen", cfg, nt if THOROUGH else nq, 10, env={"FOCUS": foc}, timeout=900)
    c.conform("TraceGrid", "TraceGrid.cfg", sims, r, label=f"random grids: {foc}", key=key, timeout=5000, selftest=corrupter(foc))

def enc_proto(s):
    c, h = s["c"], s["h"]
    t = "cfg " + json.dumps(c, separators=(",", ":")) + "\n"
    t += "grid " + " ".join(str(int(x)) for x in [c["cube"], c["nPatch"], c["resA"], c["resB"], c["ord"], c["halo"], c["stag"], c["nLev"], c["eq"], c["tracers"], *c["bc"]]) + "\n"
    for o in h:
        for p, q in enumerate(o["plan"]):
            prio = sorted(range(c["np"]), key=lambda r: (q["prio"][r], r))
            t += f"plan {p} {q['late']} {int(q['sync'])} " + " ".join(map(str, q["defer"])) + " " + " ".join(str(prio.index(r)) for r in range(c["np"])) + "\n"
    line = ""
    for o in h:
        if line and not o["join"]:
            t += "exch" + line + "\n"
            line = ""
        line += f" {o['ty']} {o['m']}"
    return t + "exch" + line + "\nproto\n"

def run_proto(c):
    exe = build_driver("grid")
    c.model_check("Exchange", "MC_Exchange.cfg", timeout=600)
    c.model_check("Exchange", "MC_Exchange3.cfg", timeout=1200)
    if THOROUGH:
        c.model_check("Exchange", "MC_Exchange_deep.cfg", timeout=6000)
    for b in ("reuse", "stale", "unposted"):
        c.expect_refuted("Exchange", f"Bad_Exchange_{b}.cfg")
    sims = c.simulate("ProtoGen", "Gen_Proto.cfg", 1500 if THOROUGH else 150, 12, env={"FOCUS": "exch"}, timeout=1200)
    def corrupt(ev):
        for e in ev:
            if e["ev"] == "proto" and len(e["log"]) > 3:
                k = max(j for j, x in enumerate(e["log"]) if x["k"] == "got")
                e["log"] = [dict(x, d=x["d"] ^ (j == k)) for j, x in enumerate(e["log"])]
                return ev
    r = mpi_runner(exe, enc_proto, np_of=lambda s: s["c"]["np"], timeout=150, slots=8, chunk=10)
    c.conform("TraceProto", "TraceProto.cfg", sims, r, label="exchanges under adverse schedules", timeout=5000, selftest=corrupt)
