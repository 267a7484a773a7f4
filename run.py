#!/usr/bin/env python3
"""Driver: builds the harnesses from /repo's working tree, runs the monitored
workloads of one property, writes evidence/<id>.json, prints the verdict.

  run.py --setup
  run.py --property C07 --tier quick|thorough
  run.py --replay replay/C07-....json
"""
import argparse, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(V, "tools"))
import jobs as JOBS
BUILD = os.path.join(V, "build")
NPROC = os.cpu_count() or 8

BASE = ["-march=x86-64-v3", "-maes", "-mpclmul", "-mrdseed", "-pthread", "-Wno-ignored-attributes", "-w", "-g1"]
VARIANTS = {
    "nat":     dict(cxx="g++", std="c++11", flags=["-O2"]),
    "o3":      dict(cxx="g++", std="c++11", flags=["-O3", "-funroll-loops"]),
    "clang":   dict(cxx="clang++", std="c++11", flags=["-O2"]),
    "pattern": dict(cxx="g++", std="c++11", flags=["-O1", "-ftrivial-auto-var-init=pattern"], env=dict(MALLOC_PERTURB_="165")),
    "nobmi2":  dict(cxx="g++", std="c++11", flags=["-O2", "-mno-bmi2"]),
    "cxx20":   dict(cxx="g++", std="c++20", flags=["-O2"]),
    "thr":     dict(cxx="g++", std="c++11", flags=["-O2", "-DTHREADING"]),
    "rdseed":  dict(cxx="g++", std="c++11", flags=["-O2", "-DENABLE_RDSEED", "-include", os.path.join(V, "harness", "rdseed_stub.h")]),
    "asan":    dict(cxx="g++", std="c++11", flags=["-O1", "-fsanitize=address,undefined", "-fno-sanitize=alignment",
                    "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]),
    "asan_nobmi2": dict(cxx="g++", std="c++11", flags=["-O1", "-mno-bmi2", "-fsanitize=address,undefined", "-fno-sanitize=alignment",
                    "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]),
    "asan_thr": dict(cxx="g++", std="c++11", flags=["-O1", "-DTHREADING", "-fsanitize=address,undefined", "-fno-sanitize=alignment",
                    "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]),
    # for valgrind, which does not know every AVX encoding
    "vg":      dict(cxx="g++", std="c++11", flags=["-O1", "-march=x86-64-v2", "-mbmi2"]),
    "tsan":    dict(cxx="g++", std="c++11", flags=["-O1", "-fsanitize=thread"]),
    "tsan_thr": dict(cxx="g++", std="c++11", flags=["-O1", "-fsanitize=thread", "-DTHREADING"]),
    "tsan_cxx20": dict(cxx="g++", std="c++20", flags=["-O1", "-fsanitize=thread"]),
}

class HarnessError(Exception):
    pass

_hash_cache = {}
def tree_hash():
    if "t" not in _hash_cache:
        h = hashlib.sha256()
        files = []
        for root, _, fs in os.walk(os.path.join(REPO, "emp-tool")):
            files += [os.path.join(root, f) for f in fs if not f.endswith((".txt.cpp", ".hex"))]
        files += glob.glob(os.path.join(V, "harness", "*"))
        for f in sorted(files):
            h.update(f.encode()); h.update(b"\0")
            h.update(open(f, "rb").read()); h.update(b"\1")
        _hash_cache["t"] = h.hexdigest()
    return _hash_cache["t"]

def sh(cmd, cwd=None, timeout=600):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode != 0:
        raise HarnessError("command failed: %s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))
    return r.stdout.decode(errors="replace")

_locks = {}
_locks_guard = threading.Lock()
def lock_for(k):
    with _locks_guard:
        return _locks.setdefault(k, threading.Lock())

_sem = threading.Semaphore(NPROC)
def compile_obj(src, variant, extra, outdir):
    v = VARIANTS[variant]
    name = hashlib.sha256((src + variant + " ".join(extra)).encode()).hexdigest()[:16] + "-" + os.path.basename(src) + ".o"
    out = os.path.join(outdir, name)
    with lock_for(out):
        if not os.path.exists(out):
            tmp = "%s.%d.%d" % (out, os.getpid(), threading.get_ident())
            with _sem:
                sh([v["cxx"], "-std=" + v["std"]] + BASE + v["flags"] + extra +
                   ["-I" + REPO, "-I" + os.path.join(V, "harness"), "-I" + outdir, "-c", src, "-o", tmp])
            os.rename(tmp, out)
    return out

def gen_circuit_sources(outdir):
    """The AES circuit file as the project's build embeds it, and a Keccak-f circuit of our own (the project ships none)."""
    with lock_for("gencirc"):
        a = os.path.join(outdir, "aes_128_txt.S")
        if not os.path.exists(a):
            embed(a, "emp_tool_circuits_files_bristol_fashion_aes_128_txt",
                  open(os.path.join(REPO, "emp-tool/circuits/files/bristol_fashion/aes_128.txt"), "rb").read())
        k = os.path.join(outdir, "keccak_txt.S")
        if not os.path.exists(k):
            import keccak_circuit
            embed(k, "emp_tool_circuits_files_bristol_fashion_Keccak_f_txt", keccak_circuit.make().encode())
    return [a, k]

def embed(path, sym, data):
    with open(path + ".bin", "wb") as f:
        f.write(data)
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "w") as f:
        f.write('.data\n.globl %s\n%s:\n.incbin "%s.bin"\n.byte 0\n.balign 4\n.globl %s_len\n%s_len:\n.long %d\n.section .note.GNU-stack,"",@progbits\n'
                % (sym, sym, path, sym, sym, len(data)))
    os.rename(tmp, path)

def build(harness, variant):
    h = JOBS.HARNESSES[harness]
    outdir = os.path.join(BUILD, tree_hash()[:20])
    os.makedirs(outdir, exist_ok=True)
    binp = os.path.join(outdir, "%s.%s" % (harness, variant))
    with lock_for(binp):
        if os.path.exists(binp):
            return binp
        extra = h.get("flags", [])
        srcs = [os.path.join(V, "harness", h["src"]), os.path.join(REPO, "emp-tool/emp-tool.cpp")]
        if h.get("float"):
            srcs += sorted(glob.glob(os.path.join(REPO, "emp-tool/circuits/float32_*.cpp")))
        objs_extra = []
        with ThreadPoolExecutor(max_workers=max(2, len(srcs))) as ex:
            objs = list(ex.map(lambda s: compile_obj(s, variant, extra, outdir), srcs))
        if h.get("circ"):
            for s in gen_circuit_sources(outdir):
                objs_extra.append(compile_obj(s, "nat", [], outdir))
        v = VARIANTS[variant]
        tmp = binp + ".tmp%d" % os.getpid()
        with _sem:
            sh([v["cxx"]] + BASE + v["flags"] + objs + objs_extra + h.get("ldflags", []) + ["-lcrypto", "-ldl", "-o", tmp])
        os.rename(tmp, binp)
    return binp

def clean_old_builds(keep=3):
    if not os.path.isdir(BUILD):
        return
    ds = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD)), key=os.path.getmtime)
    cur = os.path.join(BUILD, tree_hash()[:20])
    for d in [d for d in ds if d != cur][:-keep]:
        shutil.rmtree(d, ignore_errors=True)

SAN_ENV = dict(
    ASAN_OPTIONS="exitcode=99:abort_on_error=0:detect_leaks=0:allocator_may_return_null=0:detect_stack_use_after_return=0:handle_abort=0",
    UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=99",
    TSAN_OPTIONS="exitcode=99:halt_on_error=1:second_deadlock_stack=1:history_size=4:suppressions=" + os.path.join(V, "tools", "tsan.supp"),
)
TRANSIENT = ("error: bind", "Address already in use", "LeakSanitizer has encountered a fatal error",
             "Cannot allocate memory", "Resource temporarily unavailable", "FATAL: ThreadSanitizer: unexpected memory mapping")

def san_key(text):
    """A location-free key for a sanitizer report."""
    m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer): ([\w-]+)", text)
    if m:
        fr = re.search(r"#\d+ 0x[0-9a-f]+ in (?:emp::)?([\w:~<>]+).*?/emp-tool/", text)
        return "%s:%s:%s" % (m.group(1), m.group(2), fr.group(1) if fr else "?")
    m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+?) \(", text)
    if m:
        return "ThreadSanitizer:" + m.group(1)
    m = re.search(r"==\d+== (Conditional jump|Use of uninitialised|Invalid read|Invalid write|Invalid free|Mismatched free|Syscall param|Source and destination overlap|Jump to the invalid)", text)
    if m:
        fr = re.search(r"==\d+==\s+(?:at|by) 0x[0-9A-F]+: (?:emp::)?([\w:~]+)[^\n]*\((?!h_|common)[\w.]+:\d+\)", text)
        return "Memcheck:%s:%s" % (m.group(1), fr.group(1) if fr else "?")
    m = re.search(r"runtime error: (.*)", text)
    if m:
        return "UBSan:" + re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(1))[:80]
    return None

STOP = threading.Event()   # set once a violation is established: the other runs are then cut short

def run_once(job, binp, seed, tier, shard, workdir):
    out = os.path.join(workdir, "out.json")
    if os.path.exists(out):
        os.unlink(out)
    tmpd = os.path.join(workdir, "tmp")
    os.makedirs(tmpd, exist_ok=True)
    scale = job.get("scale", 100) * (job.get("tscale", JOBS.THOROUGH_FACTOR) if tier == "thorough" else 1)
    nsh = job.get("shards", 1) * (job.get("tshards", 1) if tier == "thorough" else 1)
    cmd = [binp, "--seed", str(seed), "--shard", str(shard), "--shards", str(nsh), "--tier", tier, "--scale", str(int(scale)),
           "--part", job["part"], "--out", out, "--tmp", tmpd]
    env = dict(os.environ)
    env.update(SAN_ENV)
    if job.get("leaks"):
        env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("detect_leaks=0", "detect_leaks=1")
    env.update(VARIANTS[job["variant"]].get("env", {}))
    env["VERIF_REPO_DIR"] = REPO
    pre = job.get("wrap", [])
    errf = os.path.join(workdir, "stderr")
    timeout = job.get("timeout", 200) * (6 if tier == "thorough" else 1)
    t0 = time.time()
    with open(errf, "wb") as ef:
        p = subprocess.Popen(pre + cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=ef, env=env, cwd=workdir,
                             start_new_session=True)
        rc, hang, stopped = None, False, False
        while True:
            try:
                rc = p.wait(timeout=0.25)
                hang = (rc == 42)
                break
            except subprocess.TimeoutExpired:
                if STOP.is_set():
                    stopped = True
                    break
                if time.time() - t0 > timeout:
                    hang = True
                    break
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        if rc is None:
            p.wait()
    err = open(errf, "rb").read().decode(errors="replace")
    if len(err) > 20000:
        err = err[:8000] + "\n...\n" + err[-12000:]
    res = None
    if os.path.exists(out):
        try:
            res = json.load(open(out))
        except ValueError:
            res = None
    return dict(rc=rc, hang=hang, stopped=stopped, err=err, res=res, wall=time.time() - t0, cmd=" ".join(pre + cmd))

def classify(r, job):
    """-> (verdict, [(key, detail)]), verdict in ok|viol|hang|error|transient|stopped"""
    if r["stopped"]:
        return "stopped", []
    if r["hang"]:
        return "hang", [("hang", "no progress within the watchdog limit; " + r["err"][-600:])]
    if r["rc"] == 70:
        return "error", [("harness", r["err"][-2000:])]
    if job.get("only_memory"):
        k = san_key(r["err"])
        if k:
            return "viol", [(k, r["err"][-6000:])]
        if "unhandled instruction" in r["err"] or "Unrecognised instruction" in r["err"]:
            return "ok", []   # valgrind gave up; no verdict from this run
        if r["rc"] is not None and r["rc"] < 0:
            return "viol", [("crash:signal%d" % -r["rc"], r["err"][-3000:])]
        if any(t in r["err"] for t in TRANSIENT) and r["rc"] != 0:
            return "transient", [("transient", r["err"][-500:])]
        if r["res"] is None and r["rc"] == 99:
            return "viol", [("sanitizer", r["err"][-6000:])]
        return "ok", []
    if r["res"] is not None and r["res"].get("fails"):
        return "viol", [(f["key"], f["detail"]) for f in r["res"]["fails"]]
    if r["rc"] == 0 and r["res"] is not None:
        return "ok", []
    if any(t in r["err"] for t in TRANSIENT):
        return "transient", [("transient", r["err"][-500:])]
    k = san_key(r["err"])
    if k:
        return "viol", [(k, r["err"][-6000:])]
    if r["rc"] is not None and r["rc"] < 0:
        return "viol", [("crash:signal%d" % -r["rc"], r["err"][-3000:])]
    if job.get("optional") and r["rc"] == 1 and r["res"] is None:
        return "ok", []   # the entropy source gave up visibly: no verdict from this run
    return "viol", [("unexpected-exit:%s" % r["rc"], r["err"][-3000:])]

def run_job(job, seed, tier, shard, root):
    binp = build(job["harness"], job["variant"])
    wd = tempfile.mkdtemp(prefix="%s-%s-%s-%d-" % (job["harness"], job["variant"], re.sub(r"\W", "_", job["part"]), shard), dir=root)
    hangs = trans = runs = 0
    while True:
        r = run_once(job, binp, seed, tier, shard, wd)
        runs += 1
        verdict, keys = classify(r, job)
        if verdict == "hang":
            hangs += 1
        # one stall decides nothing: up to two more runs, and a second stall is a violation
        if hangs == 1 and verdict in ("hang", "ok") and runs < 3:
            continue
        if "LeakSanitizer has encountered a fatal error" in r["err"] and job.get("leaks"):
            job = dict(job, leaks=0, leaks_unavailable=True)   # ptrace is not permitted here
            continue
        if verdict == "transient" and trans < 4:
            trans += 1
            runs -= 1
            time.sleep(1 + trans)
            continue
        break
    shutil.rmtree(wd, ignore_errors=True)
    return dict(job=job, shard=shard, verdict=verdict, keys=keys, r=r, reruns=runs - 1 + trans)

def load_known():
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out

def level_of(pid):
    for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]:
        if c["property"] == pid:
            return c["level"]
    return "exploration"

def check(pid, tier, seed):
    t0 = time.time()
    spec = JOBS.PROPS[pid]
    jobs = [dict(j) for j in spec["jobs"] if tier == "thorough" or not j.get("thorough_only")]
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    clean_old_builds()
    root = tempfile.mkdtemp(prefix="vrun-", dir=BUILD)
    try:
        pairs = sorted({(j["harness"], j["variant"]) for j in jobs})
        tb = time.time()
        with ThreadPoolExecutor(max_workers=NPROC) as ex:
            list(ex.map(lambda p: build(*p), pairs))
        build_s = time.time() - tb
        units = []
        for j in jobs:
            n = j.get("shards", 1) * (j.get("tshards", 1) if tier == "thorough" else 1)
            units += [(j, s) for s in range(n)]
        results = []
        with ThreadPoolExecutor(max_workers=spec.get("par", NPROC)) as ex:
            known_keys = {e[1] for e in load_known() if e[0] == pid}
            def unit(j, s):
                if STOP.is_set():
                    return None
                x = run_job(j, seed, tier, s, root)
                if x["verdict"] in ("viol", "hang") and any(k not in known_keys for k, _ in x["keys"]):
                    STOP.set()
                return x
            futs = [ex.submit(unit, j, s) for j, s in units]
            for f in futs:
                if f.result() is not None:
                    results.append(f.result())
    finally:
        shutil.rmtree(root, ignore_errors=True)
    known = load_known()
    viols, errors, knowns = [], [], []
    for x in results:
        if x["verdict"] in ("viol", "hang"):
            for k, d in x["keys"]:
                kf = [e for e in known if e[0] == pid and e[1] == k]
                (knowns if kf else viols).append((k, d, x, kf[0] if kf else None))
        elif x["verdict"] in ("error", "transient"):
            errors.append(x)
    evals = sum(x["r"]["res"]["evaluations"] for x in results if x["r"]["res"])
    # distinct within a run; the same case in another build or shard is not counted twice: take shards of the largest variant
    per = {}
    for x in results:
        if x["r"]["res"]:
            key = (x["job"]["variant"],)
            per.setdefault(key, 0)
            per[key] += x["r"]["res"]["distinct"]
    distinct = max(per.values()) if per else 0
    events = {}
    for x in results:
        if x["r"]["res"]:
            for k, n in x["r"]["res"]["events"].items():
                events[k] = events.get(k, 0) + n
    samples = []
    for x in results:
        if x["r"]["res"]:
            samples += x["r"]["res"]["samples"][:2]
    ev = dict(property=pid, tier=tier, seed=seed, level=level_of(pid),
              coverage=dict(evaluations=evals, distinct_nontrivial=distinct, rule=spec["rule"], samples=samples[:12],
                            events_observed=events,
                            runs=["%s/%s/%s shard %d: %s, %.1fs%s" % (x["job"]["harness"], x["job"]["variant"], x["job"]["part"], x["shard"],
                                  x["verdict"], x["r"]["wall"], " (re-run %d)" % x["reruns"] if x["reruns"] else "") for x in results],
                            builds=["%s/%s" % p for p in pairs], build_s=round(build_s, 1)),
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viols))
    if not viols and not errors:
        floor = spec.get("min_evals", 1)
        if evals < floor:
            errors.append(dict(keys=[("observed-nothing", "only %d cases observed" % evals)], r=dict(cmd="")))
    tmp = os.path.join(V, "evidence", pid + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.rename(tmp, os.path.join(V, "evidence", pid + ".json"))
    for k, d, x, kf in knowns:
        print("KNOWN-FINDING: property=%s %s" % (pid, kf[2]))
    if viols:
        os.makedirs(os.path.join(V, "replay"), exist_ok=True)
        seen = set()
        for k, d, x, _ in viols:
            if k in seen:
                continue
            seen.add(k)
            path = os.path.join(V, "replay", "%s-%s.json" % (pid, hashlib.sha256(k.encode()).hexdigest()[:8]))
            json.dump(dict(property=pid, key=k, detail=d, seed=seed, tier=tier, shard=x["shard"], job=x["job"], cmd=x["r"]["cmd"],
                           stderr=x["r"]["err"][-8000:]), open(path, "w"), indent=1)
            print("%s: %s" % (k, d[:1500]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        for x in errors:
            print("ERROR (no verdict): %s" % (x["keys"],))
        return 2
    print("OK property=%s tier=%s evaluations=%d distinct=%d wall=%.1fs" % (pid, tier, evals, distinct, time.time() - t0))
    return 0

def replay(path):
    d = json.load(open(path))
    root = tempfile.mkdtemp(prefix="vrun-", dir=BUILD) if os.path.isdir(BUILD) else tempfile.mkdtemp()
    try:
        x = run_job(d["job"], d["seed"], d["tier"], d["shard"], root)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    print("replay verdict:", x["verdict"])
    for k, t in x["keys"]:
        print(k, ":", t[:3000])
    return 1 if x["verdict"] in ("viol", "hang") else 0

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.setup:
        for t in ("g++", "clang++"):
            print(sh([t, "--version"]).splitlines()[0])
        os.makedirs(BUILD, exist_ok=True)
        return 0
    if a.replay:
        return replay(a.replay)
    try:
        return check(a.property, a.tier, a.seed)
    except HarnessError as e:
        print("ERROR: %s" % e)
        return 2

sys.exit(main())
