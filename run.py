#!/usr/bin/env python3
"""Runner: builds /repo's current tree plus one property harness per configuration, runs the cases
under the monitors, and turns what they observed into an exit code, VIOLATION lines and evidence.

usage: run.py <PROPERTY> [quick|thorough]   (VERIF_SEED, VERIF_TIER from the environment)
       run.py --case <PROPERTY> <config> <case> [seed] [tier]     replay one case
"""
import sys, os, json, time, subprocess, hashlib, shutil, fcntl, signal, tempfile, struct, glob
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
OUTDIR = BUILD if "VERIF_REPO" in os.environ else VERIF      # runs against scratch copies do not touch the evidence
sys.path.insert(0, VERIF)
from props import PROPS
NCPU = max(2, min(8, os.cpu_count() or 2))
# development only (dev/mutate.py), honoured for runs against scratch copies
DEV = {k: os.environ.get("VERIF_" + k) for k in ("ONLY", "SCALE", "NCPU")} if "VERIF_REPO" in os.environ else {"ONLY": None, "SCALE": None, "NCPU": None}
if DEV["NCPU"]: NCPU = int(DEV["NCPU"])

LIBSTD = "-std=c++11"
CFG = {
 "rel":  dict(common=["-DNDEBUG","-march=x86-64-v2","-pthread"], lib=["-O3","-ffast-math","-fopenmp","-fPIC"], har=["-O2"], link=["-fopenmp","-lz"]),
 "asan": dict(common=["-DNDEBUG","-O1","-g1","-fno-omit-frame-pointer","-pthread","-D_GLIBCXX_SANITIZE_VECTOR=1",
                      "-fsanitize=address,undefined","-fno-sanitize=null,nonnull-attribute,returns-nonnull-attribute,vptr","-fno-sanitize-recover=all"],
              lib=["-fopenmp"], har=[], link=["-fopenmp","-lz"]),
 "tsan": dict(common=["-DNDEBUG","-O1","-g1","-pthread","-fsanitize=thread","-Wno-tsan"], lib=["-fopenmp"], har=[], link=["-lz"], shim=True),
}

class HarnessError(Exception): pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)

def read(p):
    with open(p, "rb") as f: return f.read()

def has_main(text):
    import re
    return re.search(rb"\bint\s+main\s*\(", text) is not None

def sources():
    lib, tools = [], []
    for p in sorted(glob.glob(REPO + "/src/*.cpp")):
        b = os.path.basename(p)
        if b.startswith("test_"): continue
        (tools if has_main(read(p)) else lib).append(p)
    return lib, tools

def header_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, _, files in sorted(os.walk(d)):
            for f in sorted(files):
                if f.endswith((".h", ".hpp", ".inc")):
                    p = os.path.join(root, f); h.update(p.encode()); h.update(read(p))
    return h.hexdigest()

def compile_obj(src, flags, hh, outdir):
    key = hashlib.sha256((hh + repr(flags) + src).encode() + read(src)).hexdigest()[:24]
    obj = os.path.join(outdir, os.path.basename(src) + "." + key + ".o")
    if os.path.exists(obj): return obj
    tmp = obj + ".%d.tmp" % os.getpid()
    r = sh(["g++"] + flags + ["-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + VERIF + "/harness", "-c", src, "-o", tmp])
    if r.returncode != 0:
        raise HarnessError("compiling %s failed:\n%s" % (src, r.stdout[-6000:]))
    for old in glob.glob(os.path.join(outdir, os.path.basename(src) + ".*.o")):
        try:
            if time.time() - os.path.getmtime(old) > 3600: os.unlink(old)
        except OSError: pass
    os.rename(tmp, obj)
    return obj

NOTES = []
def build(prop, configs, want_tools=False):
    """returns {config: binary}, {config: tools_dir}"""
    spec = PROPS[prop]
    lib, tools = sources()
    rh = header_hash([REPO + "/include", REPO + "/src"])
    vhh = header_hash([VERIF + "/harness"])
    jobs = []
    pool = ThreadPoolExecutor(NCPU)
    bins, toolbins = {}, {}
    os.makedirs(BUILD, exist_ok=True)
    libdeps = spec.get("lib")
    for c in configs:
        d = os.path.join(BUILD, c); os.makedirs(d, exist_ok=True)
        cf = CFG[c]
        lf = [LIBSTD] + cf["common"] + cf["lib"]
        hf = ["-std=c++17"] + cf["common"] + cf["har"] + spec.get("har_flags", {}).get(c, []) + ["-DVH_CONFIG=\"%s\"" % c]
        order = sorted(lib, key=lambda p: -os.path.getsize(p))
        objs = []
        hsrcs = [os.path.join(VERIF, "harness", s) for s in spec["src"]]
        for s in hsrcs: objs.append(pool.submit(compile_obj, s, hf, rh + vhh, d))
        if cf.get("shim"): objs.append(pool.submit(compile_obj, os.path.join(VERIF, "harness/gomp_shim.cpp"), ["-std=c++17"] + cf["common"], vhh, d))
        for s in order: objs.append(pool.submit(compile_obj, s, lf, rh, d))
        tobjs = []
        if spec.get("tools") and c in spec["tools"]:
            for t in tools: tobjs.append((t, pool.submit(compile_obj, t, lf, rh, d)))
        jobs.append((c, d, objs, tobjs, len(hsrcs) + (1 if cf.get("shim") else 0)))
    def link(c, out, objs):
        cf = CFG[c]
        r = sh(["g++", "-std=c++17"] + cf["common"] + (["-ffast-math"] if c == "rel" else []) + objs + ["-o", out + ".tmp"] + cf["link"])
        if r.returncode != 0 and cf.get("shim") and ("GOMP_" in r.stdout or "omp_" in r.stdout):
            bins.pop(c, None); NOTES.append("%s skipped: the code uses an OpenMP entry point the race detector's runtime replacement does not provide" % c); return
        if r.returncode != 0: raise HarnessError("linking %s (%s) failed:\n%s" % (prop, c, r.stdout[-6000:]))
        os.rename(out + ".tmp", out)
    links = []
    for c, d, objs, tobjs, nh in jobs:
        ol = [o.result() for o in objs]
        out = os.path.join(d, "bin_" + prop)
        bins[c] = out
        links.append(pool.submit(link, c, out, ol))
        if tobjs:
            td = os.path.join(d, "tools"); os.makedirs(td, exist_ok=True)
            ar = os.path.join(d, "lib.%s.a" % hashlib.sha256(repr(ol[nh:]).encode()).hexdigest()[:16])
            if not os.path.exists(ar):
                r = sh(["ar", "rcs", ar + ".tmp"] + ol[nh:])
                if r.returncode != 0: raise HarnessError(r.stdout)
                os.rename(ar + ".tmp", ar)
            for t, o in tobjs:
                links.append(pool.submit(link, c, os.path.join(td, os.path.basename(t)[:-4]), [o.result(), ar]))
            toolbins[c] = td
    for l in links: l.result()
    pool.shutdown()
    return bins, toolbins

def env_for(c, spec):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "exitcode=77:abort_on_error=0:detect_leaks=%d:allocator_may_return_null=0:max_allocation_size_mb=2048:hard_rss_limit_mb=6000:detect_stack_use_after_return=1:strict_string_checks=1:check_initialization_order=1:handle_abort=1" % (1 if spec.get("leaks") else 0)
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:second_deadlock_stack=1:history_size=4"
    e["LSAN_OPTIONS"] = "exitcode=23"
    e["OMP_WAIT_POLICY"] = "passive"
    e.update(spec.get("env", {}))
    e["VH_REPO"] = REPO
    return e

def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
def limits_rel():
    limits()
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))

class Shard:
    """one worker process over a stripe of the case space, watched for progress"""
    def __init__(self, prop, c, binary, seed, tier, cases, shard, nshards, work, deadline, stall, start=0, only=None, tools=None):
        self.__dict__.update(locals())
        self.name = "%s.%d%s" % (c, shard, "" if only is None else ".only%d" % only)
    def cmd(self):
        a = [self.binary, "--seed", str(self.seed), "--tier", self.tier, "--cases", str(self.cases), "--shard", str(self.shard),
             "--nshards", str(self.nshards), "--out", os.path.join(self.work, self.name), "--scratch", os.path.join(self.work, self.name + ".scratch"),
             "--deadline", str(int(self.deadline))]
        if self.start: a += ["--from", str(self.start)]
        if self.only is not None: a += ["--case", str(self.only)]
        return a
    def progress(self):
        try:
            with open(os.path.join(self.work, self.name + ".progress"), "rb") as f:
                return struct.unpack("QQ", f.read(16))
        except Exception: return (None, None)
    def run(self):
        out = os.path.join(self.work, self.name)
        sc = out + ".scratch"
        os.makedirs(sc, exist_ok=True)
        for ext in (".json", ".progress", ".distinct"):
            if os.path.exists(out + ext): os.unlink(out + ext)
        err = open(out + ".err", "wb")
        e = env_for(self.c, PROPS[self.prop])
        if self.tools: e["VH_TOOLS"] = self.tools
        e["TMPDIR"] = sc
        p = subprocess.Popen(self.cmd(), stdout=err, stderr=err, env=e, cwd=sc, preexec_fn=limits_rel if self.c == "rel" else limits, start_new_session=True)
        last, lastt = None, time.time()
        self.hang = False
        while True:
            try:
                p.wait(0.2); break
            except subprocess.TimeoutExpired: pass
            pr = self.progress()
            if pr != last: last, lastt = pr, time.time()
            elif time.time() - lastt > self.stall:
                self.hang = True
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: pass
                p.wait(); break
        try: os.killpg(p.pid, signal.SIGKILL)   # leftovers of the group
        except OSError: pass
        err.close()
        self.rc = p.returncode
        self.cur = self.progress()[0]
        self.stderr = read(out + ".err")[-20000:].decode("utf8", "replace")
        self.result = None
        if os.path.exists(out + ".json"):
            try: self.result = json.loads(read(out + ".json"))
            except ValueError: pass
        self.distinct = read(out + ".distinct") if os.path.exists(out + ".distinct") else b""
        shutil.rmtree(sc, ignore_errors=True)
        return self

def load_known():
    known = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                # known: property=<id> match=<<substring>> <description>
                rest = line[7:]
                pid = rest.split("property=")[1].split()[0]
                m = rest.split("match=<<")[1].split(">>")[0]
                desc = rest.split(">>", 1)[1].strip()
                known.append((pid, m, desc))
    return known

def main():
    if sys.argv[1] == "--case":
        prop, c, case = sys.argv[2:5]
        seed = sys.argv[5] if len(sys.argv) > 5 else "1"
        tier = sys.argv[6] if len(sys.argv) > 6 else "quick"
        bins, tb = build(prop, [c])
        work = tempfile.mkdtemp(prefix="vh_", dir=BUILD)
        s = Shard(prop, c, bins[c], int(seed), tier, 0, 0, 1, work, time.time() + 3600, 600, only=int(case), tools=tb.get(c)).run()
        print(s.stderr); print("rc", s.rc, "result", json.dumps(s.result, indent=1))
        shutil.rmtree(work, ignore_errors=True)
        return 0 if s.rc == 0 else 1
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = PROPS[prop]
    t0 = time.time()
    configs = [c for c in spec["configs"] if not DEV["ONLY"] or c in DEV["ONLY"].split(",")]
    if not configs: return 0
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    notes = []
    try:
        bins, tb = build(prop, configs)
    except HarnessError as e:
        print("BUILD-ERROR property=%s\n%s" % (prop, e)); return 2
    tbuild = time.time() - t0
    notes += NOTES; configs = [c for c in configs if c in bins]
    for x in NOTES: print("note: " + x)
    work = tempfile.mkdtemp(prefix="vh_%s_" % prop, dir=BUILD)
    deadline = t0 + (600 if tier == "quick" else 6 * 3600)
    stall = 60 if tier == "quick" else 300
    violations = []     # (config, case, msg, detail)
    tot = dict(evaluated=0, counters={}, samples=[], distinct=set(), per_config={})
    inconclusive = []
    errors = []

    def absorb(s):
        r = s.result
        if r:
            tot["evaluated"] += r["evaluated"]
            tot["per_config"][s.c] = tot["per_config"].get(s.c, 0) + r["evaluated"]
            for k, v in r["counters"].items():
                kk = k
                if k.startswith("max:"): tot["counters"][kk] = max(tot["counters"].get(kk, 0), v)
                else: tot["counters"][kk] = tot["counters"].get(kk, 0) + v
            for x in r["samples"]:
                if len(tot["samples"]) < 4: tot["samples"].append(x[:1500])
            for v in r["violations"]:
                violations.append((s.c, v["case"], v["msg"], s.stderr[-3000:]))
        for i in range(0, len(s.distinct), 8): tot["distinct"].add(s.distinct[i:i+8])

    def drive(s):
        restarts = 0
        while True:
            s.run()
            if s.rc in (0, 3) and s.result is not None and not s.hang:
                absorb(s); return
            case = s.cur
            if s.rc == 2 and s.result is None:
                errors.append("harness error in %s: %s" % (s.name, s.stderr[-2000:])); return
            if case is None or case == 2**64 - 1:
                if "LeakSanitizer has encountered a fatal error" in s.stderr:
                    absorb(s); notes.append("leak checking unavailable here"); return
                violations.append((s.c, -1, "process ended abnormally (rc=%s) outside of a case" % s.rc, s.stderr[-6000:])); return
            # abnormal end inside a case: confirm with that case alone
            s2 = Shard(s.prop, s.c, s.binary, s.seed, s.tier, s.cases, s.shard, s.nshards, s.work, s.deadline + 3600, s.stall * 2, only=case, tools=s.tools).run()
            if s.hang:
                if s2.hang:
                    violations.append((s.c, case, "no progress for %d s and again for %d s when run alone: hang" % (s.stall, s.stall * 2), s2.stderr[-3000:])); return
                if s2.rc == 3: absorb(s2); return
                if s2.rc == 0:
                    absorb(s2); inconclusive.append("%s case %d stalled once, passed when run alone" % (s.c, case))
                    s.start = case + 1; restarts += 1
                    if restarts > 3: return
                    continue
            if s2.rc == 3: absorb(s2); return
            if not s.hang and s.rc == -9 and s2.rc == -9:
                errors.append("%s case %d was killed twice (out of memory?)" % (s.c, case)); return
            if not s.hang and s.rc == -9:
                inconclusive.append("%s case %d was killed once" % (s.c, case)); s.start = case + 1; restarts += 1
                if restarts > 3: return
                continue
            why = "abnormal termination rc=%s" % s.rc
            for mark in ("ThreadSanitizer", "AddressSanitizer", "LeakSanitizer", "runtime error"):
                for line in s.stderr.splitlines():
                    if mark in line: why = line.strip()[:300]; break
                else: continue
                break
            violations.append((s.c, case, why + (" (reproduced alone)" if s2.rc not in (0,) else " (seen in sequence, not when run alone)"), s.stderr[-8000:])); return

    shards = []
    for c in configs:
        n = spec["configs"][c][0 if tier == "quick" else 1]
        if DEV["SCALE"]: n = max(20, int(n * float(DEV["SCALE"])))
        ns = min(NCPU, max(1, n))
        if spec.get("max_shards", {}).get(c): ns = min(ns, spec["max_shards"][c])
        for i in range(ns):
            shards.append(Shard(prop, c, bins[c], seed, tier, n, i, ns, work, deadline, stall, tools=tb.get(c)))
    # interleave so that the slow configuration starts first
    shards.sort(key=lambda s: {"tsan": 0, "asan": 1, "rel": 2}[s.c])
    with ThreadPoolExecutor(spec.get("parallel", NCPU)) as pool:
        list(pool.map(drive, shards))
    wall = time.time() - t0
    known = load_known()
    rc = 0
    os.makedirs(os.path.join(OUTDIR, "replays"), exist_ok=True)
    seen = set()
    nviol = 0
    for c, case, msg, detail in violations:
        hit = [k for k in known if k[0] == prop and k[1] in (msg + detail)]
        if hit:
            if hit[0][1] not in seen:
                print("KNOWN-FINDING: property=%s %s" % (prop, hit[0][2])); seen.add(hit[0][1])
            continue
        nviol += 1
        rp = os.path.join(OUTDIR, "replays", "%s_%s_%s.txt" % (prop, c, case))
        with open(rp, "w") as f:
            f.write("property: %s\nconfig: %s\ncase: %s\nseed: %d\ntier: %s\nreplay: cd %s && python3 run.py --case %s %s %s %d %s\n\n%s\n\n%s\n" % (prop, c, case, seed, tier, VERIF, prop, c, case, seed, tier, msg, detail))
        if nviol <= 5:
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            print("  [%s case %s] %s" % (c, case, msg[:1200]))
        rc = 1
    if rc == 0 and errors:
        rc = 2
    for e in errors: print("ERROR", e)
    if rc == 0 and tot["evaluated"] == 0:
        print("ERROR nothing was evaluated"); rc = 2
    miss = [k for k in spec.get("require", []) if tot["counters"].get(k, 0) == 0]
    if rc == 0 and miss and not (DEV["ONLY"] or DEV["SCALE"]):
        print("ERROR the workload never reached: %s" % ", ".join(miss)); rc = 2
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(evaluations=tot["evaluated"], distinct_nontrivial=len(tot["distinct"]), rule=spec["rule"], samples=tot["samples"] or ["none"],
                      observed=dict(sorted(tot["counters"].items())), per_config=tot["per_config"], monitors=spec.get("monitors", ""), inconclusive=inconclusive, notes=notes, build_s=round(tbuild, 2)),
        assumptions=spec.get("assumptions", []), wall_s=round(wall, 2), violations=nviol)
    os.makedirs(os.path.join(OUTDIR, "evidence"), exist_ok=True)
    with open(os.path.join(OUTDIR, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1); f.write("\n")
    shutil.rmtree(work, ignore_errors=True)
    print("%s %s: %d cases (%s), %d distinct non-trivial, %d violations, build %.1fs, total %.1fs" % (prop, tier, tot["evaluated"], ", ".join("%s %d" % x for x in sorted(tot["per_config"].items())), len(tot["distinct"]), nviol, tbuild, wall))
    return rc

if __name__ == "__main__":
    try: sys.exit(main())
    except HarnessError as e: print("ERROR", e); sys.exit(2)
