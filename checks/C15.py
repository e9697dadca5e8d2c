from vp import *

ORDER = {"size": "i", "alloc": "i", "make": "i", "attach": "ibo", "kind": ("i", "ty", "lo"), "set": "ipx", "push": "ki", "cattach": "kbo", "calloc": "k", "cdetach": "k", "ccopy": "kl",
         "scale": "ix", "add": "ijx", "copy": "ij", "assign": "ij"}
def line(o):
    if o["op"] == "begin":
        return f"begin {o['d']} {o['w']}"
    return o["op"] + "".join(f" {o[k]}" for k in ORDER.get(o["op"], "i")) + "".join(f" {x}" for x in o.get("sz", []))

def enc(s):
    return "".join(line(o) + "\n" for o in s)

def corrupt(ev):
    for e in ev:
        if e["ev"] == "op" and e["a"][0]["att"] and e["a"][0]["data"]:
            e["a"][0]["data"][0] += 1
            return ev

def main(c):
    flags = ("-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=alignment,vptr")
    wrap = ["-Wl," + ",".join(f"--wrap={f}" for f in ("malloc", "free", "calloc", "realloc", "aligned_alloc", "posix_memalign"))]
    exe = build_driver("arrays", parts=("base",), flags=flags, tag="san", extra=wrap)
    c.model_check("ArraysMC", "MC_Arrays_deep.cfg" if THOROUGH else "MC_Arrays.cfg", timeout=3000)
    base = batch_runner(exe, enc, timeout=300, env={"ASAN_OPTIONS": "detect_leaks=0"})
    def run(ids):
        ops = {i: s for i, s in ids}
        pos, evs = {}, base(ids)
        for e in evs:       # the operation an event is the outcome of
            if e["ev"] == "op":
                pos[e["scn"]] = pos.get(e["scn"], 0) + 1
                e["e"] = ops[e["scn"]][pos[e["scn"]]]
                del e["line"]
        return evs
    sims = c.simulate("ArraysMC", "Gen_Arrays.cfg", 4000 if THOROUGH else 500, 60)
    c.conform("TraceArrays", "TraceArrays.cfg", sims, run, label="random histories of arrays and containers", selftest=corrupt, timeout=1500)
