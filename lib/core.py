"""Build, run and judge symbolic-execution jobs over /repo's current sources."""
import concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SX = os.path.join(BUILD, "sx")
NCPU = 8
HARNESS = os.path.join(VERIF, "harness")

# ---------------------------------------------------------------- configurations
def cfgdef(shake=1, sha2=1, l5=1, l3=1, s=1, opt=1, sopt=0):
    return ["-DTUNE_H_", f"-DTS_SUPPORT_SHAKE={shake}", f"-DTS_SUPPORT_SHA2={sha2}", f"-DTS_SUPPORT_L5={l5}",
            f"-DTS_SUPPORT_L3={l3}", f"-DTS_SUPPORT_S={s}", f"-DTS_SHA2_OPTIMIZATION={opt}", f"-DTS_SHAKE256_OPT={sopt}"]
CONFIGS = {
    "default": [],                                   # tune.h as it is in the repository
    "all": ["-DTUNE_H_", "-DTS_SUPPORT_L5=1", "-DTS_SUPPORT_SHAKE=1", "-DTS_SUPPORT_SHA2=1", "-DTS_SUPPORT_S=1", "-DTS_SHA2_OPTIMIZATION=1"],
    "noopt": cfgdef(opt=0), "shake1": cfgdef(sopt=1), "shake2": cfgdef(sopt=2), "small": cfgdef(opt=0, sopt=2),
    "opt": cfgdef(opt=1, sopt=0),
}
for fam in ("sha2", "shake"):
    for lvl in (128, 192, 256):
        for s in (0, 1):
            for o in (0, 1):
                CONFIGS[f"min_{fam}_{lvl}{'s' if s else 'f'}_{o}"] = cfgdef(
                    shake=int(fam == "shake"), sha2=int(fam == "sha2"), l5=int(lvl == 256), l3=int(lvl >= 192), s=s, opt=o, sopt=2 if o == 0 else 1)

PSNAMES = ["sha2_128f", "sha2_128s", "sha2_192f", "sha2_192s", "sha2_256f", "sha2_256s",
           "shake_128f", "shake_128s", "shake_192f", "shake_192s", "shake_256f", "shake_256s"]
DEFAULT_PARAMS = dict(ps=0, ps2=0, k=0, t=0, d=0, mh=0, chunk=0, rng=0, pk=1, limit=0, stale=0, mode=0, first=0, last=0, m0=0, m1=0, mstep=1)

class BuildError(Exception):
    pass

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def ensure_engine():
    r = run(["make", "-s", f"-j{NCPU}", f"OUT={BUILD}"], cwd=os.path.join(VERIF, "engine"))
    if r.returncode or not os.path.exists(SX):
        raise BuildError("engine build failed: " + r.stdout[-2000:])

def repo_sources():
    out = []
    for f in sorted(glob.glob(os.path.join(REPO, "*.c"))):
        b = os.path.basename(f)
        if b.startswith("test_") or b in ("ramspace.c", "get_space.c", "get_space2.c", "stack.c"):
            continue
        if re.search(r"^\s*(int|void)?\s*main\s*\(", open(f, errors="replace").read(), re.M):
            continue
        out.append(f)
    return out

class Work:
    """scratch space of one check run; compiles each configuration once"""
    def __init__(self, pid):
        self.dir = tempfile.mkdtemp(prefix=f"run-{pid}-", dir=BUILD)
        self.lock = threading.Lock()
        self.locks = {}
        self.done = {}
        self.pool = cf.ThreadPoolExecutor(NCPU)
    def close(self):
        self.pool.shutdown(wait=False)
        shutil.rmtree(self.dir, ignore_errors=True)
    def once(self, key, fn):
        with self.lock:
            l = self.locks.setdefault(key, threading.Lock())
        with l:
            if key not in self.done:
                try:
                    self.done[key] = (fn(), None)
                except BuildError as e:
                    self.done[key] = (None, e)
            v, e = self.done[key]
            if e:
                raise e
            return v
    def compile_all(self, jobs):
        def one(c):
            r = run(c)
            # harness parts that know the members of internal structures are left out when those have changed
            if r.returncode and any(x.startswith(HARNESS) and x.endswith(".c") for x in c): r = run(c + ["-DVP_NOLAYOUT"])
            return c, r
        rs = list(self.pool.map(one, jobs))
        for c, r in rs:
            if r.returncode:
                raise BuildError(" ".join(c)[-300:] + "\n" + r.stdout[-1500:])
    def bitcode(self, cfg, hfiles):
        def make():
            d = os.path.join(self.dir, f"bc-{cfg}-" + "-".join(hfiles)); os.makedirs(d)
            base = ["clang", "-O0", "-Xclang", "-disable-O0-optnone", "-emit-llvm", "-g", "-c", "-fno-builtin-memcmp", "-w"] + CONFIGS[cfg]
            jobs, objs = [], []
            for f in repo_sources():
                o = os.path.join(d, os.path.basename(f)[:-2] + ".bc"); objs.append(o)
                jobs.append(base + ["-I", REPO, f, "-o", o])
            for h in hfiles + ["rt"]:
                o = os.path.join(d, "h_" + h + ".bc"); objs.append(o)
                jobs.append(base + ["-I", REPO, "-I", HARNESS, os.path.join(HARNESS, h + ".c"), "-o", o])
            self.compile_all(jobs)
            r = run(["llvm-link"] + objs + ["-o", d + "/all0.bc"])
            if r.returncode: raise BuildError(r.stdout[-1500:])
            r = run(["opt", "-passes=mem2reg", d + "/all0.bc", "-o", d + "/all.bc"])
            if r.returncode: raise BuildError(r.stdout[-1500:])
            return d + "/all.bc"
        return self.once(("bc", cfg, tuple(hfiles)), make)
    def native(self, cfg, hfiles, real, san):
        def make():
            d = os.path.join(self.dir, f"nat-{cfg}-{'-'.join(hfiles)}-{int(real)}-{san}"); os.makedirs(d)
            sf = {"asan": ["-fsanitize=address,bounds,shift-exponent,integer-divide-by-zero,null", "-fno-sanitize-recover=all"],
                  "plain": [], "msan": ["-fsanitize=memory"],
                  "msan0": ["-fsanitize=memory", "-fno-sanitize-memory-param-retval"]}[san]
            base = ["clang", "-O0" if san in ("msan0", "plain") else "-O1", "-g", "-c", "-w", "-fPIC", "-fsemantic-interposition", "-fno-omit-frame-pointer"] + sf + CONFIGS[cfg]
            jobs, lib, exe = [], [], []
            for f in repo_sources():
                o = os.path.join(d, os.path.basename(f)[:-2] + ".o"); lib.append(o)
                jobs.append(base + ["-I", REPO, f, "-o", o])
            for h in hfiles + ["native"] + ([] if real else ["mockprim"]):
                o = os.path.join(d, "h_" + h + ".o"); exe.append(o)
                jobs.append(base + (["-DVP_REAL"] if real else []) + ["-I", REPO, "-I", HARNESS, os.path.join(HARNESS, h + ".c"), "-o", o])
            self.compile_all(jobs)
            so = d + "/libundertest.so"
            r = run(["clang", "-shared"] + sf + lib + ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=abort", "-Wl,-z,now,-z,relro", "-o", so])
            if r.returncode: raise BuildError(r.stdout[-1500:])
            r = run(["clang", "-rdynamic"] + sf + exe + [so, f"-Wl,-rpath,{d}", "-Wl,-z,now", "-ldl", "-o", d + "/native"])
            if r.returncode: raise BuildError(r.stdout[-1500:])
            return d + "/native"
        return self.once(("nat", cfg, tuple(hfiles), real, san), make)

def run_native(exe, harness, replay, fill="0xa5", timeout=110):
    env = dict(os.environ, ASAN_OPTIONS="exitcode=66:detect_leaks=0:allow_user_segv_handler=1:detect_stack_use_after_return=1",
               UBSAN_OPTIONS="print_stacktrace=0:exitcode=66", MSAN_OPTIONS="exitcode=66:allow_user_segv_handler=1")
    try:
        r = subprocess.run([exe, harness, replay, fill], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=timeout)
        return r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 10, "VP-FAIL hang: no termination\n"

# ---------------------------------------------------------------- jobs
class Job:
    def __init__(self, h, cfg="default", cov=(), real=False, files=None, opts=(), timeout=None, mem=1.0, validate=0, note="", kinds=None, **params):
        self.h, self.cfg, self.cov, self.real = h, cfg, list(cov), real
        self.files = list(files) if files else (["prims"] if real else ["proto", "flow", "common", "spec"])
        self.opts, self.timeout, self.mem, self.validate, self.note, self.kinds = list(opts), timeout, mem, validate, note, kinds
        self.params = dict(params)
    def name(self):
        p = dict(self.params)
        return f"{self.h}[{self.cfg}" + "".join(f",{k}={PSNAMES[v] if k == 'ps' else v}" for k, v in p.items()) + "]"

def describe(v):
    return f"{v['kind']}: {v['label']} at {v['where'] or '?'} {('(' + v['detail'][:200] + ')') if v['detail'] else ''}"

class MemGate:
    def __init__(self, total): self.total, self.cv = total, threading.Condition()
    def acquire(self, x):
        with self.cv:
            while self.total < x: self.cv.wait()
            self.total -= x
    def release(self, x):
        with self.cv: self.total += x; self.cv.notify_all()

def run_job(work, gate, j, idx, deadline, seed, jobTimeout):
    res = dict(job=j.name(), status="inconclusive", reason="", violations=[], stats={}, traces=0, obj=j)
    try:
        bc = work.bitcode(j.cfg, j.files)
    except BuildError as e:
        res["reason"] = "does not compile: " + str(e)[-600:]; return res
    gate.acquire(j.mem)
    try:
        left = deadline.at - time.time()
        if left < 5: res["reason"] = deadline.why(); return res
        to = min(left, j.timeout or jobTimeout)
        rdir = os.path.join(work.dir, f"job{idx}"); os.makedirs(rdir)
        out = os.path.join(rdir, "out.json")
        cmd = [SX, bc, j.h, "--out", out, "--rdir", rdir, "--timeout", str(int(to)), "--mem", str(int(max(3500, 2500 * j.mem))), "--repeats", "40" if not j.kinds or "assert" in j.kinds else "0", "--seed", str(seed), "--validate", str(j.validate)] + j.opts
        for k, v in {**DEFAULT_PARAMS, **j.params}.items(): cmd += ["--param", f"{k}={v}"]
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        stop = time.time() + to + 20
        while p.poll() is None:
            if time.time() > min(stop, deadline.at + 20):
                p.kill(); p.wait(); res["reason"] = deadline.why()
            else: time.sleep(0.02 if time.time() - stop + to + 20 < 2 else 0.2)
        if not os.path.exists(out):
            res["reason"] = res["reason"] or "engine ended without a result"; return res
        try: st = json.load(open(out))
        except Exception as e: res["reason"] = "bad engine output " + str(e); return res
    finally:
        gate.release(j.mem)
    res["stats"] = st
    judge(work, j, st, res)
    if res["violations"]: deadline.found()
    return res

class Deadline:
    """end of the run; once a violation has been confirmed the jobs still running get a short while more"""
    def __init__(self, at): self.at, self.hit = at, False
    def found(self): self.hit, self.at = True, min(self.at, time.time() + 25)
    def why(self): return "stopped: another job already reported a violation" if self.hit else "time limit"

def judge(work, j, st, res):
    notes = []
    if st["status"] != "ok": notes.append("engine: " + st["error"])
    notes += st.get("inconclusive", [])
    tried = 0
    for v in st.get("violations", []):
        if j.kinds and v["kind"] not in j.kinds: continue
        if tried >= 6 and res["violations"]: break
        tried += 1
        if not v["replay"]:
            notes.append("no replay for " + describe(v)); continue
        ok, log = replay(work, j, v)
        if ok: res["violations"].append(dict(v, log=log[-3000:]))
        else: notes.append("counterexample did not reproduce: " + describe(v) + " | " + log[-300:].replace("\n", " "))
    for t in st.get("traces", []):
        try: exe = work.native(j.cfg, j.files, j.real, "asan")
        except BuildError as e: notes.append("native build failed: " + str(e)[-300:]); break
        code, log = run_native(exe, j.h, t)
        if code == 77: continue
        want = [l.split() for l in open(t) if l.startswith("expect ")]
        got = [l.split()[1:] for l in log.splitlines() if l.startswith("OUT ")]
        if code == 0 and [w[1:] for w in want] == got: res["traces"] += 1
        elif not res["violations"]:
            notes.append(f"trace disagreement (exit {code}): want {want[:3]} got {got[:3]} " + log[-300:])
    if res["violations"]: res["status"] = "violation"
    elif notes: res["reason"] = "; ".join(notes)[:3000]
    else:
        miss = [c for c in j.cov if not st["cover"].get(c)]
        if miss: res["reason"] = "vacuous: never reached " + ", ".join(miss)
        else: res["status"] = "held"
    return

def replay(work, j, v):
    sans = {"uninit": ["msan"], "secret": ["msan0"], "stack": ["plain"]}.get(v["kind"], ["asan"])
    log = ""
    for san in sans:
        try: exe = work.native(j.cfg, j.files, j.real, san)
        except BuildError as e: return False, "native build failed: " + str(e)[-500:]
        for fill in ("0xa5", "0x00", "0xff"):
            code, log = run_native(exe, j.h, v["replay"], fill, 400 if j.h.endswith("_count") else 110)
            if code in (10, 66): return True, log
    return False, log
