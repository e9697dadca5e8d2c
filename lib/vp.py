"""Shared machinery of the checks: build, replay, TLC runs, verdicts, evidence.

Exit codes: 0 held, 1 VIOLATION printed, 3 the check itself could not decide.
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
JAVA = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx8g", "-cp",
        "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"]

ENV = dict(os.environ)
ENV.update({
    "LC_ALL": "C", "LANG": "C", "TMPDIR": "/tmp",
    "OMPI_CXX": "g++", "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
    "OMPI_MCA_btl": "self,vader", "OMPI_MCA_pml": "ob1", "OMPI_MCA_rmaps_base_oversubscribe": "1",
    "OMPI_MCA_hwloc_base_binding_policy": "none", "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
    "OMPI_MCA_mpi_yield_when_idle": "1", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
})
for k in ("MAKEFLAGS", "CXXFLAGS", "LDFLAGS", "LIBRARIES"):
    ENV.pop(k, None)

DEFS = ["-DTEMPEST_MPIOMP", "-DTEMPEST_NETCDF", "-DTEMPEST_LAPACK_FORTRAN_INTERFACE"]


class CheckError(Exception):
    pass


# A check has to answer in a bounded time even when the code under test hangs: the first hang is waited for in
# full, later ones shortly (every rejected scenario is repeated alone before it is reported), and once a violation
# has been reported and time is short the remaining work is left out.
T0 = time.time()
SHORT = 1e9 if THOROUGH else 330.0
HANGS = [0]


def patience(timeout):
    return timeout if HANGS[0] == 0 else min(timeout, 60)


def late():
    return time.time() - T0 > SHORT


def sh(cmd, timeout=600, env=None, cwd=None, stdin=None):
    """Run a command in its own process group; returns (rc, out, err); rc None on timeout."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         env=env or ENV, cwd=cwd, start_new_session=True)
    try:
        o, e = p.communicate(stdin.encode() if isinstance(stdin, str) else stdin, timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        rc = None
    return rc, o.decode("utf8", "replace"), e.decode("utf8", "replace")


# ---------------------------------------------------------------- building

def _hash_tree(dirs, extra):
    h = hashlib.sha1(json.dumps(extra).encode())
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if x not in ("build", "depend"))
            for f in sorted(fs):
                if f.endswith((".cpp", ".h", ".hpp", ".c")):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()[:16]


def build_lib(parts=("base", "atm"), flags=("-O1",), tag="o"):
    """Compile /repo/src/{parts} as they are now; returns (archive, compile flags)."""
    dirs = [f"{REPO}/src/{p}" for p in parts]
    inc = [f"-I{REPO}/src/base", f"-I{REPO}/src/atm"]
    cflags = ["-std=c++11", "-Wno-literal-suffix", "-w", *flags, *DEFS, *inc]
    key = _hash_tree([f"{REPO}/src"], [cflags, list(parts)])
    out = f"{VERIF}/build/{tag}-{'-'.join(parts)}-{key}"
    arc = f"{out}/libt.a"
    if os.path.exists(arc):
        return arc, cflags
    tmp = out + f".tmp{os.getpid()}"
    os.makedirs(tmp)
    srcs = []
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds[:] = [x for x in ds if x not in ("build", "depend")]
            srcs += [os.path.join(root, f) for f in fs if f.endswith(".cpp")]

    def cc(s):
        o = f"{tmp}/{os.path.relpath(s, REPO).replace('/', '_')}.o"
        rc, so, se = sh(["mpiCC", *cflags, "-c", s, "-o", o], timeout=600)
        if rc != 0:
            raise CheckError(f"cannot compile {s}: {se[-2000:]}")
        return o
    srcs.sort(key=lambda s: -os.path.getsize(s))
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(cc, srcs))
    rc, so, se = sh(["ar", "rcs", f"{tmp}/libt.a", *objs])
    if rc != 0:
        raise CheckError(se)
    for o in objs:
        os.remove(o)
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp)
    return arc, cflags


def build_driver(name, parts=("base", "atm"), flags=("-O1",), tag="o", extra=()):
    arc, cflags = build_lib(parts, flags, tag)
    src = f"{VERIF}/harness/{name}.cpp"
    h = _hash_tree([f"{VERIF}/harness"], list(extra))
    exe = f"{os.path.dirname(arc)}/{name}-{h}"
    if not os.path.exists(exe):
        tmp = exe + f".tmp{os.getpid()}"
        rc, so, se = sh(["mpiCC", *cflags, f"-I{VERIF}/harness", *extra, src, "-o", tmp, arc,
                         "-llapack", "-lblas", "-lnetcdf", "-lgfortran"], timeout=600)
        if rc != 0:
            raise CheckError(f"cannot compile driver {name}: {se[-3000:]}")
        os.rename(tmp, exe)
    return exe


# ---------------------------------------------------------------- TLC

STAT = re.compile(r"(\d[\d,]*) states generated.*?, (\d[\d,]*) distinct states found", re.S)


def tlc(module, cfg, args=(), env=None, timeout=600, workdir=None, workers=8):
    e = dict(ENV)
    e.update(env or {})
    meta = tempfile.mkdtemp(prefix="tlc", dir=workdir or "/tmp")
    cmd = JAVA + ["tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
                  "-config", f"{VERIF}/spec/{cfg}", *args, f"{VERIF}/spec/{module}.tla"]
    rc, o, er = sh(cmd, timeout=timeout, env=e, cwd=f"{VERIF}/spec")
    shutil.rmtree(meta, ignore_errors=True)
    return rc, o + er


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix=f"vp_{pid}_", dir="/tmp")
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "samples": [], "events_validated": 0, "models": {}, "actions": {}}
        self.violations = []
        self.known_hit = {}
        self.known = load_known(pid)
        self.nrep = 0

    # -- the specification alone
    def model_check(self, module, cfg, timeout=600, args=(), workers=8):
        rc, o = tlc(module, cfg, args=args, timeout=timeout, workdir=self.work, workers=workers)
        m = None
        for m in STAT.finditer(o):
            pass
        if rc != 0 or m is None:
            raise CheckError(f"TLC on {module}/{cfg}: rc={rc}\n{o[-3000:]}")
        g, d = (int(x.replace(",", "")) for x in m.groups())
        self.cov["transitions"] += g
        self.cov["states"] += d
        self.cov["models"][cfg] = {"generated": g, "distinct": d}

    def expect_refuted(self, module, cfg, timeout=300, args=()):
        """Non-vacuity: a deliberately broken variant of the specification must be refuted."""
        rc, o = tlc(module, cfg, args=args, timeout=timeout, workdir=self.work)
        if rc not in (11, 12, 13):     # deadlock, safety, liveness
            raise CheckError(f"broken variant {cfg} was not refuted: rc={rc}\n{o[-1500:]}")
        self.cov.setdefault("refuted_variants", []).append(cfg)

    # -- behaviours of the specification
    def simulate(self, module, cfg, num, depth, timeout=300, env=None, seed=None):
        rc, o = tlc(module, cfg, args=["-simulate", f"num={num}", "-depth", str(depth), "-seed",
                                       str((SEED if seed is None else seed) * 7919 + 13)],
                    timeout=timeout, env=env, workdir=self.work, workers=1)
        out = parse_printed(o)
        if rc != 0 or not out:
            raise CheckError(f"TLC simulation {module}/{cfg}: rc={rc}\n{o[-3000:]}")
        return out

    def enumerate(self, module, cfg, timeout=300, env=None):
        """Exhaustive generation: TLC visits the whole bounded graph and prints each behaviour."""
        rc, o = tlc(module, cfg, timeout=timeout, env=env, workdir=self.work, workers=1)
        out = parse_printed(o)
        if rc != 0 or not out:
            raise CheckError(f"TLC enumeration {module}/{cfg}: rc={rc}\n{o[-3000:]}")
        m = None
        for m in STAT.finditer(o):
            pass
        if m:
            g, d = (int(x.replace(",", "")) for x in m.groups())
            self.cov["transitions"] += g
            self.cov["states"] += d
            self.cov["models"][cfg] = {"generated": g, "distinct": d, "behaviours": len(out)}
        return out

    # -- a recorded execution against the specification
    def trace_check(self, module, cfg, events, timeout=600, env=None):
        """TLC decides each recorded event. Returns list of (index, detail) of rejected events."""
        keep, stuck = list(range(len(events))), []
        for attempt in range(5):
            f = f"{self.work}/trace{self.nrep}.ndjson"
            self.nrep += 1
            with open(f, "w") as fh:
                for i in keep:
                    fh.write(json.dumps(events[i]) + "\n")
            ee = {"TRACE": f}
            ee.update(env or {})
            rc, o = tlc(module, cfg, env=ee, timeout=timeout, workdir=self.work, workers=1)
            done = re.search(r'<<"DONE", (\d+)>>', o)
            if rc == 0 and done and int(done.group(1)) == len(keep):
                break
            # a recorded value the specification cannot even evaluate (an overflow, a wrong shape) is not one
            # it allows: that event is rejected and the rest of its scenario left out
            at = [int(x) for x in re.findall(r"^(?:/\\ )?l = (\d+)$", o, re.M)]
            if rc is None or not at or at[-1] > len(keep) or "rror: " not in o or attempt == 4 or "OutOfMemory" in o:
                raise CheckError(f"TLC trace check {module}: rc={rc} done={done and done.group(1)} of {len(keep)}\n{o[-3000:]}")
            i = keep[at[-1] - 1]
            why = re.findall(r"^(?:Error: )?(.*(?:verflow|Attempted|In applying|not enumerable|cannot|out of).*)$", o, re.M)
            stuck.append((i, "not a value the specification can evaluate: " + (why[0] if why else "")[:200]))
            keep = [k for k in keep if k < i or (attempt < 3 and events[k].get("scn") != events[i].get("scn"))]
        bad = list(stuck)
        for m in re.finditer(r'^<<\s*"BAD",\s*(\d+)(.*?)>>$', o, re.S | re.M):
            bad.append((keep[int(m.group(1)) - 1], re.sub(r"\s+", " ", m.group(2)).strip(", ")))
        bad.sort()
        for m in STAT.finditer(o):
            g, d = (int(x.replace(",", "")) for x in m.groups())
        self.cov["states"] += d
        self.cov["transitions"] += g
        return bad

    # -- the whole loop
    def conform(self, module, cfg, scenarios, runner, label="", env=None, timeout=600, chunk=None,
                key=None, count=True, selftest=None):
        """scenarios: list; runner(list of (id, scenario)) -> list of events, each with 'scn'.
        Every rejected event is reproduced alone before it is reported."""
        if self.violations and late():
            return [], []
        ids = list(enumerate(scenarios))
        events = runner(ids)
        if not events:
            raise CheckError(f"{self.pid} {label}: the driver recorded nothing")
        bad = self.trace_check(module, cfg, events, timeout=timeout, env=env)
        if count:
            n = len({e["scn"] for e in events if "scn" in e})
            self.cov["traces_validated_against_impl"] += n
            self.cov["events_validated"] += len(events)
            for e in events:
                a = e.get("ev")
                if a:
                    self.cov["actions"][a] = self.cov["actions"].get(a, 0) + 1
            if len(self.cov["samples"]) < 6:
                s0 = events[0].get("scn")
                self.cov["samples"].append({"what": label or module,
                                            "events": [e for e in events if e.get("scn") == s0][:8]})
        byscn = {}
        for i, d in bad:
            byscn.setdefault(events[i]["scn"], []).append((i, d))
        reported = 0
        for s, lst in byscn.items():
            if reported >= 3 or (reported and late()):
                break
            ks = [key(scenarios[s], events[i], d) if key else None for i, d in lst]
            if all(k is not None and k in self.known for k in ks):
                for k, (i, d) in zip(ks, lst):
                    self.known_hit[k] = d
                continue
            ev2 = runner([(s, scenarios[s])])
            bad2 = self.trace_check(module, cfg, ev2, timeout=timeout, env=env) if ev2 else []
            if not bad2:
                print(f"note: rejected event in scenario {s} ({label}) did not repeat: {lst[0][1]}"[:600], flush=True)
                continue
            fresh = None        # the first rejection that is not a listed finding
            for i2, d2 in bad2:
                k = key(scenarios[s], ev2[i2], d2) if key else None
                if k is not None and k in self.known:
                    self.known_hit[k] = d2
                    continue
                fresh = (i2, d2, k)
                break
            if fresh is None:
                continue
            i2, d2, k = fresh
            reported += 1
            self.violation({"label": label, "scenario": scenarios[s], "rejected": ev2[i2], "detail": d2,
                            "spec": module, "trace": ev2[: i2 + 1][-60:], "key": k})
        # binding: a corrupted copy of the recording must be rejected
        if selftest and not reported:
            ev3 = selftest([dict(e) for e in events if e.get("scn") not in byscn])
            if ev3 is None and not bad:
                raise CheckError(f"{label}: nothing in the recording to corrupt")
            if ev3 is not None:
                ev3 = ev3[:4000]
                if len(self.trace_check(module, cfg, ev3, timeout=timeout, env=env)) == 0:
                    raise CheckError(f"{label}: corrupted trace was accepted")
                self.cov["corrupted_traces_rejected"] = self.cov.get("corrupted_traces_rejected", 0) + 1
        return events, bad

    def violation(self, info):
        os.makedirs(f"{VERIF}/replay", exist_ok=True)
        p = f"{VERIF}/replay/{self.pid}-{len(self.violations)}.json"
        with open(p, "w") as fh:
            json.dump(info, fh, indent=1, default=str)
        self.violations.append(p)
        print(f"VIOLATION property={self.pid} replay={p}", flush=True)
        print("  " + json.dumps({k: info[k] for k in info if k in ("label", "detail", "rejected")}, default=str)[:1500], flush=True)

    def finish(self, level="model_checking", note=None):
        for k in self.known:
            # listed findings are announced on every run; those reproduced in this run say how
            print(f"KNOWN-FINDING: property={self.pid} {self.known[k]}")
        if note:
            self.cov["note"] = note
        self.cov["known_findings_reproduced"] = sorted(self.known_hit)
        self.cov["violations"] = len(self.violations)
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        with open(f"{VERIF}/evidence/{self.pid}.json", "w") as fh:
            json.dump({"property": self.pid, "tier": TIER, "seed": SEED, "level": level,
                       "coverage": self.cov, "wall_s": round(time.time() - self.t0, 2)}, fh, indent=1, default=str)
        shutil.rmtree(self.work, ignore_errors=True)
        return 1 if self.violations else 0


def parse_printed(o):
    out = []
    for line in o.splitlines():
        line = line.strip()
        if line.startswith('"') and line.endswith('"'):
            try:
                out.append(json.loads(json.loads(line)))
            except (ValueError, TypeError):
                pass
    return out


def load_known(pid):
    """known/findings.txt:  finding: property=<id> key=<key> <text>   |   fixed: ..."""
    k = {}
    p = f"{VERIF}/known/findings.txt"
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                k[m.group(2)] = m.group(3)
    return k


# ---------------------------------------------------------------- replay

def run_driver(exe, text, np=1, timeout=120, args=(), env=None, cwd=None):
    """text -> events (ndjson on fd given by the out file). Returns (rc, events, stderr)."""
    d = tempfile.mkdtemp(prefix="vprun", dir="/tmp")
    try:
        inp, out = f"{d}/in.txt", f"{d}/out.ndjson"
        with open(inp, "w") as fh:
            fh.write(text)
        e = dict(ENV)
        e.update(env or {})
        cmd = [exe, inp, out, *args]
        if np > 1 or np == -1:
            cmd = ["mpirun", "-np", str(abs(np)), *cmd]
        rc, so, se = sh(cmd, timeout=timeout, env=e, cwd=cwd or d)
        evs = []
        if np in (1, -1):
            files = [out]
        else:
            files = [f"{out}.{r}" for r in range(np)]
        for f in files:
            l = []
            if os.path.exists(f):
                for line in open(f, errors="replace"):
                    if line.endswith("\n"):
                        try:
                            l.append(json.loads(line))
                        except ValueError:
                            l.append({"ev": "garbled"})
            evs.append(l)
        return rc, (evs[0] if len(files) == 1 else evs), so + se
    finally:
        shutil.rmtree(d, ignore_errors=True)


def batch_runner(exe, encode, timeout=120, env=None, args=(), max_died=5):
    """Single-process replay of many scenarios; a death is recorded as an event and the rest continues."""
    def run(ids):
        todo = list(ids)
        events = []
        died = 0
        while todo:
            text = "".join(f"scenario {i}\n" + encode(s) for i, s in todo) + "end\n"
            rc, evs, err = run_driver(exe, text, timeout=patience(timeout), env=env, args=args)
            if rc is None:
                HANGS[0] += 1
            ended = bool(evs) and evs[-1].get("ev") == "end"
            if ended:
                evs = evs[:-1]
            events += evs
            if ended and rc == 0:
                return events
            if not evs and died == 0 and rc not in (None,) and rc > 0 and "scenario" not in err:
                pass
            last = evs[-1].get("scn") if evs else todo[0][0]
            if ended:      # died in the destructors / exit handlers
                events.append({"ev": "died", "scn": last, "why": f"rc={rc} at exit"})
                return events
            events.append({"ev": "died", "scn": last, "why": "timeout" if rc is None else f"rc={rc} {err[-200:]}"})
            died += 1
            pos = [k for k, (i, _) in enumerate(todo) if i == last][0]
            todo = todo[pos + 1:]
            if died >= max_died or (rc is None and HANGS[0] >= 3):
                return events
        return events
    return run


def mpi_runner(exe, encode, np_of=lambda s: s["np"], timeout=120, env=None, args=(), max_died=4, slots=8, chunk=40, allranks=True):
    """Replay on several processes. Scenarios of one process count share an mpirun; the events of a scenario
    come rank after rank. A death or a hang is recorded as an event of the scenario it happened in."""
    total = [0]

    def one(np, todo):
        todo = list(todo)
        events, died = [], 0
        while todo and total[0] < max_died and (HANGS[0] < 3 or len(todo) == 1):
            text = "".join(f"scenario {i}\n" + encode(s) for i, s in todo) + "end\n"
            rc, per, err = run_driver(exe, text, np=np if np > 1 else -1, timeout=patience(timeout), env=env, args=args)
            if rc is None:
                HANGS[0] += 1
            if np == 1:
                per = [per]
            done = all(p and p[-1].get("ev") == "end" for p in per)
            per = [[e for e in p if e.get("ev") != "end"] for p in per]
            by = {}
            for p in per:
                for e in p:
                    by.setdefault(e.get("scn"), []).append(e)
            order = [i for i, _ in todo]
            if done and rc == 0:
                for i in order:
                    events += by.get(i, [])
                return events
            seen = [order.index(p[-1]["scn"]) for p in per if p and p[-1].get("scn") in order]
            # the scenario that failed: the one the slowest rank was in
            last = order[min(seen) if len(seen) == len(per) else 0] if seen else order[0]
            if done:
                last = order[-1]
            k = order.index(last)
            for i in order[:k]:
                events += by.get(i, [])
            events.append({"ev": "died", "scn": last, "why": "no end" if rc is None else f"rc={rc} {err[-300:]}"})
            total[0] += 1
            todo = todo[k + 1:]
        return events

    def run(ids):
        total[0] = 0
        groups = {}
        for i, s in ids:
            groups.setdefault(np_of(s), []).append((i, s))
        jobs = []
        for np, l in groups.items():
            n = max(1, min(chunk, -(-len(l) // max(1, slots // np))))
            jobs += [(np, l[k:k + n]) for k in range(0, len(l), n)]
        jobs.sort(key=lambda j: -j[0])
        import threading
        sem = threading.Semaphore(slots)
        lock = threading.Lock()

        def go(j):
            with lock:
                for _ in range(min(j[0], slots)):
                    sem.acquire()
            try:
                return one(*j)
            finally:
                for _ in range(min(j[0], slots)):
                    sem.release()
        with ThreadPoolExecutor(slots) as ex:
            res = list(ex.map(go, jobs))
        by = {}
        for evs in res:
            for e in evs:
                by.setdefault(e["scn"], []).append(e)
        return [e for i, _ in ids for e in by.get(i, [])]
    return run
