#!/usr/bin/env python3
"""Builds the adapters of one property from /repo's working tree, runs its generated-input search, writes evidence.

  check.py CXX [--tier quick|thorough] [--seed N] [--cases N] [--replay FILE] [--keep]
  check.py --setup
"""
import concurrent.futures, glob, hashlib, json, os, shutil, struct, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NOVA_REPO", "/repo")
NCPU = max(1, min(8, os.cpu_count() or 1))
BUILD = os.path.join(ROOT, "build")

# name: (compiler, flags, baseline).  A baseline configuration must compile; others are left out with a note.
UB = "-fsanitize=undefined,float-cast-overflow -fsanitize-undefined-trap-on-error"
CONFIGS = {
    "sse2":    ("g++",     "-std=gnu++14 -O1", True),
    "sse41":   ("g++",     "-std=gnu++14 -O1 -msse4.1", True),
    "avx":     ("g++",     "-std=gnu++14 -O1 -mavx", True),
    "sse3":    ("clang++", "-std=gnu++17 -O2 -DNDEBUG -msse3 -DOPERAND_NONCONST", False),
    "fma":     ("g++",     "-std=gnu++17 -O2 -DNDEBUG -mavx2 -mfma", False),
    "generic": ("g++",     "-std=gnu++98 -O2 -U__SSE__ -U__SSE2__", False),
    "sse1":    ("g++",     "-std=gnu++11 -O1 -U__SSE2__", False),
    # C30: trapping on undefined behaviour, locals without initialiser filled with a pattern; the same code with them zeroed
    "ubavx":   ("g++",     "-std=gnu++14 -O1 -mavx -ftrivial-auto-var-init=pattern %s" % UB, False),
    "ubsse2":  ("g++",     "-std=gnu++14 -O1 -ftrivial-auto-var-init=pattern %s" % UB, False),
    "ubsse41": ("clang++", "-std=gnu++17 -O1 -msse4.1 -ftrivial-auto-var-init=pattern -fsanitize=undefined -fsanitize-trap=undefined", False),
    "ubgen":   ("g++",     "-std=gnu++98 -O1 -U__SSE__ -U__SSE2__ -ftrivial-auto-var-init=pattern %s" % UB, False),
    "zavx":    ("g++",     "-std=gnu++14 -O1 -mavx -ftrivial-auto-var-init=zero %s" % UB, False),
    "zsse2":   ("g++",     "-std=gnu++14 -O1 -ftrivial-auto-var-init=zero %s" % UB, False),
    "zsse41":  ("clang++", "-std=gnu++17 -O1 -msse4.1 -ftrivial-auto-var-init=zero -fsanitize=undefined -fsanitize-trap=undefined", False),
    "zgen":    ("g++",     "-std=gnu++98 -O1 -U__SSE__ -U__SSE2__ -ftrivial-auto-var-init=zero %s" % UB, False),
    "avxO0":   ("g++",     "-std=gnu++14 -O0 -mavx", False),
    # the ARM and PowerPC back ends on emulated intrinsics
    "neon":    ("g++",     "-std=gnu++14 -O1 -U__SSE__ -U__SSE2__ -D__ARM_NEON__ -I%s/shim/neon" % ROOT, False),
    "altivec": ("g++",     "-std=gnu++14 -O1 -U__SSE__ -U__SSE2__ -D__ALTIVEC__ -I%s/shim/altivec" % ROOT, False),
}
# further compilers and optimisation levels, thorough tier only
EXTRA = {
    "cavx":    ("clang++", "-std=gnu++20 -O3 -DNDEBUG -mavx", False),
    "avxO3":   ("g++",     "-std=gnu++20 -O3 -DNDEBUG -mavx2", False),
    "fma512":  ("g++",     "-std=gnu++17 -O3 -DNDEBUG -march=skylake-avx512 -ffp-contract=off", False),
    "csse41":  ("clang++", "-std=gnu++11 -O1 -msse4.1 -DOPERAND_NONCONST", False),
    "sse2Os":  ("g++",     "-std=gnu++11 -Os", False),
}
CONFIGS.update(EXTRA)
STD = ["sse2", "sse41", "avx", "sse3", "fma", "generic", "sse1"]
ASSUME = ["x86-64 execution with the default MXCSR (round to nearest, no flush-to-zero); NEON and Altivec back ends only on emulated intrinsics (C27-C29)",
          "glibc's double/long double libm is accurate to well below the stated tolerances",
          "lengths and alignments inside the documented contract (n > 0, vectorised forms: multiples of one cache line of aligned samples)"]

def ew(*groups):
    return [("ewise.cpp", g, "fd") for g in groups]
# property: driver source, adapter units (file, defines, types), configurations
MEMG = ("mem.cpp", "G_MEM G_GEN G_ADD G_PAN G_RED G_PEAK", "fd")
FULL = ew("G_BIN_VS", "G_BIN_R", "G_POW", "G_POW_R", "G_TER_VS", "G_TER_R", "G_QUA_VS", "G_QUA_R", "G_UN G_RND G_SQRT G_SOFT", "G_MATH G_UNIT", "G_BIN_SUM") + [MEMG]
CORE = ew("G_BIN_CORE", "G_POW_CORE", "G_TER_CORE", "G_QUA_CORE", "G_UN G_RND G_SQRT G_SOFT", "G_MATH G_UNIT") + [MEMG]
# units given as [(units, configurations), ...] override the configuration list
NS = ew("G_NS_BIN", "G_NS_RAMP", "G_NS_MIX", "G_NS_UN")
API = [(FULL, ["sse2", "avx"]), (NS, ["sse2", "avx", "generic"]), (CORE, ["sse41", "sse3", "fma", "generic", "sse1"])]
API30 = [(FULL, ["ubavx", "zavx"]), (CORE, ["ubsse2", "zsse2", "ubsse41", "zsse41", "ubgen", "zgen"])]
PORT = [(f, g, "f") for f, g, t in FULL]
PROPS = {
    "C29": ("vec", [("vec.cpp", "G_INT", "f")], ["sse2", "sse41", "avx", "sse3", "fma", "avxO0", "ubavx", "neon", "altivec"]),
    "C27": ("api", PORT, ["sse2", "neon", "altivec"]), "C28": ("vec", [("vec.cpp", "G_VEC G_MASK", "f")], ["sse2", "neon", "altivec"]),
    "C30": ("api", API30, None), "C17": ("api", API, None), "C18": ("api", API, None), "C21": ("api", API, None), "C24": ("api", API, None), "C25": ("api", [(CORE, ["sse2", "sse41", "avx", "sse3", "generic"])], None),
    "C01": ("ew", ew("G_BIN_VS", "G_NS_BIN"), STD), "C02": ("ew", ew("G_BIN_SUM G_TER_VS", "G_QUA_VS", "G_NS_MIX"), STD),
    "C03": ("ew", ew("G_BIN_R", "G_POW_R", "G_TER_R", "G_QUA_R", "G_NS_RAMP"), STD),
    "C04": ("ew", ew("G_UN G_NS_UN"), STD), "C05": ("ew", ew("G_RND"), STD), "C06": ("ew", ew("G_MATH"), STD),
    "C11": ("mem", [("mem.cpp", "G_MEM", "fd")], STD + ["avxO0"]), "C12": ("mem", [("mem.cpp", "G_GEN", "fd")], STD),
    "C13": ("mem", [("mem.cpp", "G_ADD", "fd")], STD), "C14": ("mem", [("mem.cpp", "G_PAN", "fd")], STD),
    "C15": ("mem", [("mem.cpp", "G_RED", "fd")], STD + ["avxO0"]), "C16": ("mem", [("mem.cpp", "G_PEAK", "fd")], STD + ["avxO0"]),
    "C19": ("vec", [("vec.cpp", "G_VEC", "fd")], STD + ["avxO0", "ubavx"]), "C20": ("vec", [("vec.cpp", "G_MASK", "fd")], STD + ["avxO0", "ubavx"]),
    "C23": ("vec", [("vec.cpp", "G_UTILS", "f")], ["sse2", "sse41", "avx", "sse3", "fma", "sse1"]),
    "C22": ("vec", [([("vec.cpp", "G_ALIGN", "fd")], STD + ["avxO0"]), (CORE, ["sse2", "sse41", "avx", "sse3", "generic"])], None),
    "C07": ("ew", ew("G_POW G_SQRT"), STD), "C08": ("ew", ew("G_MATH"), STD), "C09": ("ew", ew("G_UNIT"), STD), "C10": ("ew", ew("G_SOFT"), STD),
}

def sh(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")

def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for base, sub, files in sorted(os.walk(d)):
            sub[:] = sorted(s for s in sub if not s.startswith((".", "_build", "testsuite", "benchmarks")))
            for f in sorted(files):
                p = os.path.join(base, f)
                if os.path.splitext(f)[1] in (".hpp", ".h", ".cpp", ".hxx", ".ipp", ".inl", ".hh", ".def", ""):
                    h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def compile_unit(job):
    key, out, cmd = job
    if os.path.exists(out):
        return key, out, 0, ""
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".%d" % os.getpid()
    r = sh(cmd + ["-o", tmp])
    if r.returncode == 0:
        os.replace(tmp, out)
    return key, out, r.returncode, r.stdout

def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)

def runnable(c):
    try: have = open("/proc/cpuinfo").read()
    except OSError: return False
    return c != "fma512" or all(" %s " % f in have for f in ("avx512f", "avx512dq", "avx512bw", "avx512vl", "avx512cd"))

def build(pid, tier):
    src, units, configs = PROPS[pid]
    th = tree_hash([REPO, os.path.join(ROOT, "adapters"), os.path.join(ROOT, "shim"), os.path.join(ROOT, "engine")])
    eh = tree_hash([os.path.join(ROOT, "engine"), os.path.join(ROOT, "props")])
    cache = os.path.join(BUILD, "cache")
    if os.path.isdir(cache) and len(os.listdir(cache)) > 4000:
        shutil.rmtree(cache, ignore_errors=True)
    jobs = []
    def name(*parts):
        return os.path.join(cache, hashlib.sha256("\0".join(parts).encode()).hexdigest()[:24])
    dflags = ["-std=gnu++17", "-O2", "-ffp-contract=off", "-w", "-c"]
    for s in (os.path.join("engine", "pbt.cpp"), os.path.join("props", src + ".cpp")):
        jobs.append((("driver", s), name(eh, s, " ".join(dflags)) + ".o", ["g++"] + dflags + [os.path.join(ROOT, s)]))
    pairs = units if configs is None else [(units, configs)]
    if tier == "thorough":
        pairs = [(us, cs + ([e for e in EXTRA if runnable(e)] if "avx" in cs else [])) for us, cs in pairs]
    if os.environ.get("NOVA_CONFIGS"):      # experiments only
        pairs = [(us, os.environ["NOVA_CONFIGS"].split()) for us, cs in pairs]
    for f, groups, types, c in [(f, g, t, c) for us, cs in pairs for f, g, t in us for c in cs]:
        if True:
            cc, flags, base = CONFIGS[c]
            for t in types:
                cmd = [cc] + flags.split() + ["-w", "-fPIC", "-shared", "-fvisibility=hidden", "-I" + REPO] + \
                    (["-fno-gnu-unique"] if cc == "g++" else []) + ["-D" + g for g in groups.split()] + (["-DTYPE_DOUBLE"] if t == "d" else []) + [os.path.join(ROOT, "adapters", f)]
                jobs.append(((c, t, f, groups), name(th, *cmd) + ".so", cmd))
    objs, libs, notes = [], [], []
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        for key, out, rc, log in ex.map(compile_unit, jobs):
            if key[0] == "driver":
                if rc: die("driver build failed:\n" + log[-4000:])
                objs.append(out)
            elif rc:
                if CONFIGS[key[0]][2]:
                    die("adapter build failed for %s %s:\n%s" % (key[0], key[1:], log[-4000:]))
                notes.append("configuration %s (%s) left out: does not compile" % (key[0], key[1]))
            else:
                libs.append("%s:%s:%s" % (key[0], key[1], out))
    exe = name(*objs) + ".exe"
    if not os.path.exists(exe):
        r = sh(["g++"] + objs + ["-ldl", "-lpthread", "-o", exe + ".%d" % os.getpid()])
        if r.returncode: die("link failed:\n" + r.stdout)
        os.replace(exe + ".%d" % os.getpid(), exe)
    return exe, libs, notes

def known_findings(pid):
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("KNOWN-FINDING: property=%s " % pid):
                out.append(l.strip())
    return out

def programs(opt, tier, seed, t0):
    """C26 generates whole programs"""
    sys.path.insert(0, os.path.join(ROOT, "props"))
    import hyg
    for d in ("evidence", "replays"): os.makedirs(os.path.join(ROOT, d), exist_ok=True)
    if "replay" in opt:
        m = hyg.execute(json.load(open(opt["replay"]))["case"], REPO)
        print(m or "no failure")
        return 1 if m else 0
    replay = os.path.join(ROOT, "replays", "C26-%s-%d.json" % (tier, seed))
    if os.path.exists(replay): os.remove(replay)
    n = int(opt.get("cases", 120 if tier == "quick" else 6000))
    res, rc, msg = hyg.run(REPO, seed, n, float(opt.get("budget", 200 if tier == "quick" else 3000)), replay)
    doc = dict(property="C26", tier=tier, seed=seed, level="exploration",
        coverage=dict(evaluations=res["evaluations"], distinct_nontrivial=res["distinct"], rule=res["rule"], samples=res["samples"], labels=res["labels"]),
        assumptions=["g++ and clang++ on x86-64; all units of one program use the same instruction set"] + res["notes"],
        wall_s=round(time.time() - t0, 2), violations=int(rc == 1), violation_list=[dict(replay=replay, message=msg)] if rc == 1 else [])
    json.dump(doc, open(os.path.join(ROOT, "evidence", "C26.json"), "w"), indent=1)
    for l in known_findings("C26"): print(l)
    for l in res["notes"]: print("note: " + l)
    print("C26 %s seed=%d programs=%d total=%.1fs" % (tier, seed, res["evaluations"], time.time() - t0))
    if rc == 1:
        print("VIOLATION property=C26 replay=%s" % replay, flush=True)
        return 1
    if res["evaluations"] < 10: die("vacuous run")
    return 0

def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        for t in ("g++", "clang++"):
            if not shutil.which(t): die(t + " not found")
        print("setup ok")
        return 0
    pid = a[0]
    opt = dict(tier=os.environ.get("VERIF_TIER", "quick"), seed=os.environ.get("VERIF_SEED", "1"))
    i = 1
    while i < len(a):
        opt[a[i][2:]] = a[i + 1]; i += 2
    tier = opt["tier"] if opt["tier"] in ("quick", "thorough") else "quick"
    try: seed = int(opt["seed"])
    except ValueError: seed = int(hashlib.sha256(opt["seed"].encode()).hexdigest()[:8], 16)
    t0 = time.time()
    if pid == "C26":
        return programs(opt, tier, seed, t0)
    exe, libs, notes = build(pid, tier)
    tb = time.time() - t0
    for n in notes: print("note: " + n)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    if "replay" in opt:
        r = subprocess.run([exe, "--prop", pid, "--libs", ",".join(libs), "--replay", opt["replay"]])
        return r.returncode
    replay = os.path.join(ROOT, "replays", "%s-%s-%d.json" % (pid, tier, seed))
    if os.path.exists(replay): os.remove(replay)
    work = tempfile.mkdtemp(prefix="pbt-")
    try:
        cmd = [exe, "--prop", pid, "--libs", ",".join(libs), "--tier", tier, "--seed", str(seed), "--shards", str(NCPU),
               "--work", work, "--replay-out", replay]
        if "cases" in opt: cmd += ["--cases", opt["cases"]]
        if "budget" in opt: cmd += ["--budget", opt["budget"]]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, text=True, errors="replace")
        sys.stdout.write(r.stdout)
        rc = r.returncode
        ev = dict(evaluations=0, nontrivial=0, discards=0, points=0); labels = {}; samples = []; hashes = set(); rule = ""
        for w in range(NCPU):
            p = os.path.join(work, "shard%d.json" % w)
            if not os.path.exists(p): continue
            d = json.load(open(p))
            for k in ev: ev[k] += d[k]
            for k, v in d["labels"].items(): labels[k] = labels.get(k, 0) + v
            samples += d["samples"][:3]
            b = open(os.path.join(work, "shard%d.hash" % w), "rb").read()
            hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b))
            rule = d.get("rule", "")
    finally:
        shutil.rmtree(work, ignore_errors=True)
    viol = []
    if rc == 1 and os.path.exists(replay):
        viol.append(dict(replay=replay, message=json.load(open(replay))["message"]))
    doc = dict(property=pid, tier=tier, seed=seed, level="exploration",
        coverage=dict(evaluations=ev["evaluations"], distinct_nontrivial=len(hashes), rule=rule, samples=samples[:12],
                      points_judged=ev["points"], discarded=ev["discards"], labels=labels, configurations=sorted(set(l.split(":")[0] for l in libs))),
        assumptions=ASSUME + notes, wall_s=round(time.time() - t0, 2), violations=len(viol), violation_list=viol)
    json.dump(doc, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    for l in known_findings(pid): print(l)
    print("%s %s seed=%d cases=%d nontrivial(distinct)=%d points=%d build=%.1fs total=%.1fs" % (pid, tier, seed, ev["evaluations"], len(hashes), ev["points"], tb, time.time() - t0))
    if viol:
        print("VIOLATION property=%s replay=%s" % (pid, replay), flush=True)
        return 1
    if rc == 8:
        print("note: one unreproducible failure ignored")
        return 0
    if rc != 0:
        print("ERROR: driver exit %d" % rc)
        return 2
    if ev["evaluations"] == 0 or len(hashes) < 3:
        die("vacuous run")
    return 0

if __name__ == "__main__":
    sys.exit(main())
