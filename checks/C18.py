from vp import *

def enc(s):
    r = ""
    for k, o in enumerate(s):
        r += f"{o['op']} {o.get('v', '*')} {o.get('t', '').encode().hex() or '-'}\n"
        if k % 10 == 9 and o["op"] in ("end", "msg"):
            r += "flush\n"
    return r + "flush\n"

def corrupt(ev):
    for e in ev:
        if e["ev"] == "flush" and len(e["lines"]) > 2:
            e["lines"] = e["lines"][:1] + e["lines"][2:]
            return ev

def main(c):
    exe = build_driver("announce", parts=("base",))
    c.model_check("AnnounceMC", "MC_Announce_deep.cfg" if THOROUGH else "MC_Announce.cfg", timeout=3000)
    sims = c.simulate("AnnounceMC", "Gen_Announce.cfg", 2000 if THOROUGH else 300, 50)
    one = mpi_runner(exe, enc, np_of=lambda s: 1)
    two = mpi_runner(exe, enc, np_of=lambda s: 2)
    T = ("TraceAnnounce", "TraceAnnounce.cfg")
    c.conform(*T, sims, one, label="one process", selftest=corrupt)
    c.conform(*T, sims[: len(sims) // 3], two, label="two processes")
