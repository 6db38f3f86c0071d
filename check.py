#!/usr/bin/env python3
"""Check driver:  check.py <property> [quick|thorough]   |   check.py --replay <file>   |   check.py --selftest

Builds the library from /repo's working tree with the model checker's instrumentation, explores every scenario of
the property, writes evidence/<property>.json and prints VIOLATION / KNOWN-FINDING lines. See DESIGN.md.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
REPLAYS = os.path.join(HERE, "replays")
NCPU = len(os.sched_getaffinity(0))
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402

GEN = {
    "std": "#pragma once\n#define G3LOG_DEBUG DEBUG\n",
    "dyn": "#pragma once\n#define G3LOG_DEBUG DEBUG\n#define G3_DYNAMIC_LOGGING\n",
    "dynmsg": "#pragma once\n#define G3LOG_DEBUG DEBUG\n#define G3_DYNAMIC_MAX_MESSAGE_SIZE\n",
    "dbug": "#pragma once\n#define G3LOG_DEBUG DBUG\n#define CHANGE_G3LOG_DEBUG_TO_DBUG\n",
    "full": "#pragma once\n#define G3LOG_DEBUG DEBUG\n#define G3_LOG_FULL_FILENAME\n",
}
INSTR = ["-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-include", os.path.join(HERE, "mc", "noext.h")]
COMMON = ["-std=c++17", "-g", "-fno-omit-frame-pointer", "-fno-pie", "-w"]
FLAVOR = {
    "mc": ["-O1"] + INSTR,
    "plain": ["-O1", "-rdynamic"],
    "ndebug": ["-O1", "-DNDEBUG", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"],
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"],
}
LINK = {"mc": [], "plain": [], "ndebug": ["-fsanitize=address,undefined"], "asan": ["-fsanitize=address,undefined"]}


class Broken(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


_filecache = {}


def content(path):
    if path not in _filecache:
        with open(path, "rb") as f:
            _filecache[path] = f.read()
    return _filecache[path]


def tree_hash(paths):
    return sha(*[x for p in sorted(paths) for x in (p, content(p))])


def run(cmd, timeout, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)


def repo_headers():
    return [p for p in glob.glob(f"{REPO}/src/**/*", recursive=True) if re.search(r"\.(hpp|ipp|h|hh|inl)$", p)]


def repo_sources():
    return sorted(p for p in glob.glob(f"{REPO}/src/*.cpp") if not p.endswith("_windows.cpp"))


_locks, _lk = {}, threading.Lock()


def compile_obj(src, flags, deps_hash):
    key = sha(src, " ".join(flags), deps_hash, content(src))
    out = os.path.join(BUILD, "obj", f"{os.path.basename(src)}.{key}.o")
    with _lk:
        lock = _locks.setdefault(out, threading.Lock())
    with lock:
        if os.path.exists(out):
            return out
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = f"{out}.{os.getpid()}.tmp"
        try:
            r = run(["clang++"] + COMMON + flags + ["-c", src, "-o", tmp], 600)
        except subprocess.TimeoutExpired:
            raise Broken(f"compiling {src} timed out")
        if r.returncode:
            raise Broken(f"compiling {src} failed:\n{r.stdout.decode(errors='replace')[-6000:]}")
        os.rename(tmp, out)
    return out


def gen_dir(config):
    d = os.path.join(BUILD, "gen", config, "g3log")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "generated_definitions.hpp")
    if not os.path.exists(p) or open(p).read() != GEN[config]:
        with open(p + f".{os.getpid()}", "w") as f:
            f.write(GEN[config])
        os.rename(p + f".{os.getpid()}", p)
    return os.path.dirname(d)


def build(targets):
    """targets: list of (source in scen/, config, flavor). Returns {target: executable}."""
    fw_h = [os.path.join(HERE, "mc", f) for f in ("mc.h", "shm.h")] + glob.glob(os.path.join(HERE, "scen", "*.h"))
    hdr = tree_hash(repo_headers())
    fwh = tree_hash(fw_h)
    jobs = {}
    with cf.ThreadPoolExecutor(max_workers=NCPU) as ex:
        def sub(src, flags, dh):
            k = (src, tuple(flags))
            if k not in jobs:
                jobs[k] = ex.submit(compile_obj, src, flags, dh)
            return jobs[k]
        parts = {}
        order = []
        for t in targets:
            src, config, flavor = t
            gd = gen_dir(config)
            inc = ["-I" + gd, "-I" + f"{REPO}/src", "-I" + os.path.join(HERE, "mc"), "-I" + os.path.join(HERE, "scen")]
            order.append((t, inc, gd))
        for t, inc, gd in order:  # the scenario files first: they take longest
            src, config, flavor = t
            parts[t] = [sub(os.path.join(HERE, "scen", src), FLAVOR[flavor] + inc, hdr + fwh + GEN[config])]
        for t, inc, gd in order:
            src, config, flavor = t
            libinc = ["-I" + gd, "-I" + f"{REPO}/src"]
            for s in repo_sources():
                parts[t].append(sub(s, FLAVOR[flavor] + libinc, hdr + GEN[config]))
            if flavor == "mc":
                mcf = ["-O2", "-I" + os.path.join(HERE, "mc")]
                for s in ("runtime.cpp", "explorer.cpp", "oracle.cpp"):
                    parts[t].append(sub(os.path.join(HERE, "mc", s), mcf, fwh))
        objs = {t: [f.result() for f in p] for t, p in parts.items()}

        def link(t):
            src, config, flavor = t
            key = sha(*objs[t])
            exe = os.path.join(BUILD, "bin", f"{src}.{config}.{flavor}.{key}")
            if not os.path.exists(exe):
                os.makedirs(os.path.dirname(exe), exist_ok=True)
                tmp = f"{exe}.{os.getpid()}.tmp"
                r = run(["clang++", "-no-pie", "-rdynamic"] + LINK[flavor] + objs[t] + ["-o", tmp, "-lpthread", "-ldl"], 600)
                if r.returncode:
                    raise Broken(f"linking {src} failed:\n{r.stdout.decode(errors='replace')[-4000:]}")
                os.rename(tmp, exe)
            return exe
        return dict(zip(targets, ex.map(link, targets)))


def prune_build():
    """keep the cache small (it is only a cache)"""
    try:
        fs = [os.path.join(d, f) for d, _, ff in os.walk(BUILD) for f in ff if not f.endswith(".hpp")]
        fs.sort(key=os.path.getmtime)
        tot = sum(os.path.getsize(f) for f in fs)
        while tot > 3e9 and fs:
            f = fs.pop(0)
            tot -= os.path.getsize(f)
            os.unlink(f)
    except OSError:
        pass


def parse_stages(opts, tier):
    """opts: 'q=dpor:20000,pb2:40000 t=pb3:500000'"""
    d = {"q": "dpor:6000,pb2:12000", "t": "dpor:400000,pb3:400000"}
    for w in opts.split():
        k, _, v = w.partition("=")
        d[k] = v
    out = []
    for s in d["q" if tier == "quick" else "t"].split(","):
        if s == "none":
            continue
        m, _, n = s.partition(":")
        if m == "dpor":
            out.append(("dpor", 0, int(n or 10**9)))
        else:
            out.append((m[:2], int(m[2:]), int(n or 10**9)))
    return out


class Slots:
    def __init__(self, n):
        self.free = list(range(n))
        self.cv = threading.Condition()

    def __enter__(self):
        with self.cv:
            while not self.free:
                self.cv.wait()
            self.tl = threading.local() if not hasattr(self, "tl") else self.tl
            self.tl.k = self.free.pop(0)
            return self.tl.k

    def __exit__(self, *a):
        with self.cv:
            self.free.append(self.tl.k)
            self.cv.notify()


def tmp_root():
    return tempfile.gettempdir()


def run_json(cmd, timeout):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken(f"{' '.join(cmd)}: no answer within {timeout} s")
    out = p.stdout.decode(errors="replace")
    res = []
    for line in out.splitlines():
        if line.startswith("{"):
            try:
                res.append(json.loads(line))
            except ValueError as e:
                raise Broken(f"bad output of {' '.join(cmd)}: {e}: {line[:400]}")
    if not res:
        raise Broken(f"{' '.join(cmd)}: no result (exit {p.returncode}): {out[-1500:]} {p.stderr.decode(errors='replace')[-2500:]}")
    for r in res:
        if r.get("error"):
            raise Broken(f"{r.get('scenario')}: {r['error']}")
    return res


def run_mc_job(exe, name, opts, tier, slot, deadline, known, shard=0, nshards=1):
    """All stages of one scenario; returns list of stage results."""
    out = []
    max_sigs = 1 + len(known)
    for mode, bound, nmax in parse_stages(opts, tier):
        left = deadline - time.time()
        if left < 1:
            break
        cmd = [exe, "--run", name, "--mode", mode, "--bound", str(bound), "--max-exec", str(nmax), "--max-time", f"{left:.1f}",
               "--cpu", str(slot), "--shard", str(shard), "--nshards", str(nshards), "--replay-dir", REPLAYS, "--max-sigs", str(max_sigs), "--tmp", tmp_root()]
        r = run_json(cmd, left + 300)[0]
        out.append(r)
        if [v for v in r["violations"] if v["signature"] not in known]:
            break
        if mode == "dpor" and r["complete"]:
            break
    return out


def load_known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) scenario=(\S+) signature=(\S+) (.*)", line)
            if m:
                out.append(dict(property=m[1], scenario=m[2], signature=m[3], what=m[4]))
    return out


def symbolize(exe, text):
    def one(m):
        try:
            r = subprocess.run(["addr2line", "-Cfspe", exe, m.group(1)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=20)
            return f"{m.group(0)} [{r.stdout.decode().strip()}]"
        except Exception:
            return m.group(0)
    return re.sub(r"pc (0x[0-9a-f]+)", one, text)


def check(pid, tier):
    t0 = time.time()
    P = PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    known = [k for k in load_known() if k["property"] == pid]
    os.makedirs(REPLAYS, exist_ok=True)
    budget = float(os.environ.get("MC_BUDGET", P.get("budget_" + tier, 150 if tier == "quick" else 700)))
    targets = []
    for f, c in P.get("mc", []):
        targets.append((f, c, "mc"))
    for s in P.get("seq", []):
        targets.append((s["file"], s["config"], s.get("flavor", "asan")))
    try:
        exes = build(list(dict.fromkeys(targets)))
    except Broken as e:
        # a property about what programs may be written: the programs must compile
        if P.get("probe") and os.path.join(HERE, "scen") in str(e):
            build([(P["probe"], c, f) for _, c, f in targets])
            path = os.path.join(REPLAYS, pid + "-does-not-compile.replay")
            with open(path, "w") as f:
                f.write(str(e))
            print(f"  {str(e)[-2500:]}\nVIOLATION property={pid} replay={path}")
            return 1
        raise
    t_build = time.time() - t0
    deadline = time.time() + budget
    tasks = []
    for f, c in P.get("mc", []):
        exe = exes[(f, c, "mc")]
        for line in run([exe, "--list"], 60).stdout.decode().splitlines():
            name, props, opts = line.split("|")
            if pid in props.split():
                m = re.search(r"\bshards=(\d+)", opts)
                n = int(m[1]) if m else 1
                for i in range(n):
                    tasks.append(("mc", exe, name, opts, i, n))
    nscen = len(tasks)
    for s in P.get("seq", []):
        exe = exes[(s["file"], s["config"], s.get("flavor", "asan"))]
        n = s.get("shards_" + tier, s.get("shards", 1))
        for i in range(n):
            tasks.append(("seq", exe, s, i, n))
    if not tasks:
        raise Broken("no scenario for " + pid)
    slots = Slots(NCPU)
    results, errors = [], []
    stop = threading.Event()

    def do(task, retry=True):
        again = False
        if stop.is_set():
            return
        with slots as slot:
            if stop.is_set():
                return
            try:
                if task[0] == "mc":
                    kn = [k["signature"] for k in known if k["scenario"] == task[2]]
                    rs = run_mc_job(task[1], task[2], task[3], tier, slot, deadline, kn, task[4], task[5])
                else:
                    _, exe, s, i, n = task
                    left = max(1.0, deadline - time.time())
                    rs = run_json([exe, "--property", pid, "--tier", tier, "--shard", str(i), "--nshards", str(n), "--replay-dir", REPLAYS,
                                   "--tmp", tmp_root(), "--max-time", f"{left:.1f}"] + s.get("args", []), left + 300)
                for r in rs:
                    r["exe"] = task[1]
                    r["shard"] = (r["scenario"], task[4] if task[0] == "mc" else task[3])
                    results.append(r)
                    for v in r["violations"]:
                        if not any(k["scenario"] == r["scenario"] and k["signature"] == v["signature"] for k in known):
                            if tier == "quick":
                                stop.set()
            except Broken as e:
                if not stop.is_set() and retry and time.time() < deadline - 20:
                    retry = False  # the machine may have ended a process of it: once more
                    again = True
                else:
                    errors.append(str(e))
                    stop.set()
        if again:
            do(task, False)

    with cf.ThreadPoolExecutor(max_workers=len(tasks)) as ex:
        list(ex.map(do, tasks))
    return finish(pid, tier, seed, P, results, errors, known, t0, t_build, nscen)


def finish(pid, tier, seed, P, results, errors, known, t0, t_build, nscen):
    viol, found = [], []
    for r in results:
        for v in r["violations"]:
            k = next((k for k in known if k["scenario"] == r["scenario"] and k["signature"] == v["signature"]), None)
            (found if k else viol).append((r, v, k))
    stages = []
    for r in results:
        stages.append({k: r[k] for k in ("scenario", "mode", "completed_bound", "complete", "executions", "terminal", "sleep_blocked",
                                         "states", "steps", "outcomes", "choices", "max_steps", "retries", "wall_s", "bounds") if k in r})
    samples = []
    for r in results:
        for s in r.get("samples", [])[:2]:
            if len(samples) < 12:
                samples.append({"scenario": r["scenario"], "trace": s[:700]})
    by = {}
    for r in results:
        by.setdefault(r["scenario"], {}).setdefault(r["shard"], []).append(r)
    # a scenario may be split into shards (by its first choice): it is complete if each of them is
    complete = sorted(n for n, sh in by.items() if all(any(r["complete"] and (r["mode"] not in ("pb", "db") or not r.get("branching", True)) for r in rs)
                                                       for rs in sh.values()))
    bounded = {n: min(max([r.get("completed_bound", -1) for r in rs if r["mode"] == "pb"] or [-1]) for rs in sh.values()) for n, sh in by.items()
               if n not in complete and any(r["mode"] == "pb" for rs in sh.values() for r in rs)}
    dbounded = {n: min(max([r.get("completed_bound", -1) for r in rs if r["mode"] == "db"] or [-1]) for rs in sh.values()) for n, sh in by.items()
                if n not in complete and any(r["mode"] == "db" for rs in sh.values() for r in rs)}
    capped = sorted(n for n, sh in by.items() if n not in complete and not all(any(r["complete"] for r in rs) for rs in sh.values()))
    cov = {
        "states": sum(max(r["states"] for r in rs) if not any(r["mode"] == "seq" for r in rs) else sum(r["states"] for r in rs) for sh in by.values() for rs in sh.values()),
        "transitions": sum(r["steps"] for r in results),
        "traces_validated_against_impl": sum(r.get("terminal", r["executions"]) for r in results),
        "executions": sum(r["executions"] for r in results),
        "distinct_outcomes": sum(max(r["outcomes"] for r in rs) for sh in by.values() for rs in sh.values()),
        "samples": samples or [{"note": "no sample"}],
        "scenarios": len(by),
        "explored_completely": complete,
        "preemption_bound_completed": bounded,
        "deviation_bound_completed": dbounded,
        "capped_below_bound": capped,
        "exhaustive": not capped and not bounded and not dbounded,
        "stages": stages,
        "build_s": round(t_build, 1),
        "rule": "states = distinct happens-before prefixes (mc scenarios) or distinct reference-model states / cases (seq); transitions = steps executed "
                "by the implementation; every trace is an execution of the implementation itself, so traces_validated_against_impl counts the complete ones",
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": P.get("assumptions", []) + ["sequentially consistent interleavings; races and non-SC effects are excluded by the happens-before race detector",
                                                     "sleeping threads wake only when nothing else can run"],
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    prune_build()
    for k in known:
        hit = [v for r, v, kk in found if kk is k]
        if hit:
            print(f"KNOWN-FINDING: property={pid} {k['what']} (scenario {k['scenario']}, {k['signature']})")
    seen = set()
    for r, v, _ in viol:
        if (r["scenario"], v["signature"]) in seen:
            continue
        seen.add((r["scenario"], v["signature"]))
        print(f"  {r['scenario']}: {symbolize(r['exe'], v['text'])[:3000]}")
        print(f"VIOLATION property={pid} replay={v['replay']}")
    if viol:
        return 1
    if errors:
        print("ERROR:", errors[0])
        return 2
    print(f"{pid} {tier}: held on {len(by)} scenarios, {cov['executions']} executions, {cov['states']} states, {cov['transitions']} transitions, "
          f"{cov['distinct_outcomes']} outcomes; complete: {len(complete)}, bounded: {len(bounded) + len(dbounded)}, capped: {len(capped)}; {ev['wall_s']} s")
    return 0


def replay(path):
    head = open(path).read(4000)
    m = re.match(r"scenario (\S+)", head)
    if not m:
        print(head)
        return 0
    name = m[1]
    word = re.compile(r"\b(?:MC_SCENARIO|SEQ)\(" + re.escape(name) + r"\b")
    targets = []
    for P in PROPS.values():
        targets += [(f, c, "mc") for f, c in P.get("mc", [])] + [(x["file"], x["config"], x.get("flavor", "asan")) for x in P.get("seq", [])]
    for t in dict.fromkeys(targets):
        if not word.search(open(os.path.join(HERE, "scen", t[0])).read()):
            continue
        exe = build([t])[t]
        r = run([exe, "--replay", path, "--tmp", tmp_root()], 900)
        out = symbolize(exe, r.stdout.decode(errors="replace"))
        print(t[1], t[2], out)
        if r.returncode:
            return r.returncode
    return 0


SELFTEST = {  # scenario: the signature that must be found (None: none, and the exploration is complete)
    "st_atomics": None, "st_lost_update": "lost", "st_mutex": None, "st_race": "race", "st_uaf": "race", "st_deadlock": "deadlock",
    "st_lost_wakeup": "deadlock", "st_spurious": "spurious", "st_queue": None, "st_future": None, "st_static": None, "st_choose": None,
    "st_sleep": None, "st_three": None, "st_sleep_sync": "slept", "st_timed": "timeout", "st_timed_cv": "timeout"}


def selftest():
    """the model checker finds the planted errors of mc/selftest.cpp, with both strategies, and raises no alarm on its correct programs"""
    t = ("../mc/selftest.cpp", "std", "mc")
    exe = build([t])[t]
    with tempfile.TemporaryDirectory() as d:
        def one(job):
            name, mode = job
            r = run_json([exe, "--run", name, "--mode", mode, "--bound", "2", "--max-exec", "5000", "--max-time", "60", "--cpu", str(hash(name) % NCPU),
                          "--replay-dir", d, "--max-sigs", "1", "--tmp", tmp_root()], 300)[0]
            got = [v["signature"] for v in r["violations"]]
            want = [SELFTEST[name]] if SELFTEST[name] else []
            good = got == want and (got or r["complete"])
            return f"{'ok  ' if good else 'FAIL'} {name} {mode}: {r['executions']} executions, found {got or 'nothing'}", good
        with cf.ThreadPoolExecutor(max_workers=NCPU) as ex:
            res = list(ex.map(one, [(n, m) for n in SELFTEST for m in ("dpor", "pb", "db")]))
    for line, _ in res:
        print(line)
    return 0 if all(g for _, g in res) else 1


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if len(sys.argv) > 1 and sys.argv[1] == "--selftest":
        try:
            return selftest()
        except Broken as e:
            print("ERROR:", e)
            return 1
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        return check(pid, tier)
    except Broken as e:
        print("ERROR:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
