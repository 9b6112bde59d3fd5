"""C26: generated programs over the public headers (inclusion sets and orders, several translation units, build modes).

A case is a small program: one to three translation units, each with a sequence of public headers (possibly repeated,
possibly mixed with standard headers) and calls of functions of those headers.  Oracle: it compiles, links, runs, and
the forms of each called function agree.  Failing programs are shrunk by dropping units, headers and calls."""
import concurrent.futures, copy, json, os, random, shutil, subprocess, tempfile, time

NCPU = max(1, min(8, os.cpu_count() or 1))
def un(*ops): return [(o, "UN(%s)" % o) for o in ops]
def bi(*ops): return [(o, "BI(%s)" % o) for o in ops]
HEADERS = {
    "simd_binary_arithmetic.hpp": bi("plus", "minus", "times", "over", "min", "max", "less", "less_equal", "greater", "greater_equal", "equal", "notequal", "clip2"),
    "simd_ternary_arithmetic.hpp": [("clip", "TE(clip)"), ("muladd", "TE(muladd)"), ("ampmod", "TE(ampmod)")],
    "simd_mix.hpp": [("mix", "nova::mix_vec(o1, i1, F(0.5), i2, F(0.25), 64u); nova::mix_vec_simd(o2, i1, F(0.5), i2, F(0.25), 64u); nova::mix_vec_simd<64>(o3, i1, F(0.5), i2, F(0.25)); CHK"),
                     ("sum", "nova::sum_vec(o1, i1, i2, i1, 64u); nova::sum_vec_simd(o2, i1, i2, i1, 64u); nova::sum_vec_simd<64>(o3, i1, i2, i1); CHK")],
    "simd_unary_arithmetic.hpp": un("abs", "sgn", "square", "cube", "round", "frac", "ceil", "floor", "trunc", "undenormalize", "reciprocal"),
    "simd_math.hpp": un("sin", "cos", "tan", "asin", "acos", "atan", "tanh", "log", "log2", "log10", "exp", "signed_sqrt") + bi("pow", "spow"),
    "simd_unit_conversion.hpp": un("midi2freq", "freq2midi", "midi2ratio", "ratio2midi", "oct2freq", "freq2oct", "amp2db", "db2amp"),
    "softclip.hpp": un("softclip"),
    "simd_memory.hpp": [("zero", "nova::zerovec(o1, 64u); nova::zerovec_simd(o2, 64u); nova::zerovec_simd<64>(o3); CHK"),
                        ("set", "nova::setvec(o1, F(0.5), 64u); nova::setvec_simd(o2, F(0.5), 64u); nova::setvec_simd<64>(o3, F(0.5)); CHK"),
                        ("copy", "nova::copyvec(o1, i1, 64u); nova::copyvec_simd(o2, i1, 64u); nova::copyvec_simd<64>(o3, i1); CHK"),
                        ("slope", "nova::set_slope_vec(o1, F(1), F(0.5), 64u); nova::set_slope_vec_simd(o2, F(1), F(0.5), 64u); nova::copyvec(o3, o2, 64u); CHK"),
                        ("exp", "nova::set_exp_vec(o1, F(1), F(1.01), 64u); nova::set_exp_vec_simd(o2, F(1), F(1.01), 64u); nova::copyvec(o3, o2, 64u); CHK"),
                        ("add", "nova::setvec(o1, F(1), 64u); nova::setvec(o2, F(1), 64u); nova::setvec(o3, F(1), 64u); nova::addvec(o1, i1, 64u); nova::addvec_simd(o2, i1, 64u); nova::addvec_simd<64>(o3, i1); CHK")],
    "simd_pan.hpp": [("pan2", "nova::pan2_vec(o1, o4, i1, F(0.5), F(0.25), 64u); nova::pan2_vec_simd(o2, o4, i1, F(0.5), F(0.25), 64u); nova::pan2_vec_simd<64>(o3, o4, i1, F(0.5), F(0.25)); CHK"),
                     ("pan2r", "nova::pan2_vec(o1, o4, i1, F(0.5), F(0.25), F(1), F(0.125), 64u); nova::pan2_vec_simd(o2, o4, i1, F(0.5), F(0.25), F(1), F(0.125), 64u); nova::pan2_vec_simd<64>(o3, o4, i1, F(0.5), F(0.25), F(1), F(0.125)); CHK")],
    "simd_peakmeter.hpp": [("peak", "F p = 0, q = 0; nova::peak_vec(i1, &p, 64u); nova::peak_vec_simd(i1, &q, 64u); if (p != q) ++bad;"),
                           ("rms", "F p = 0, q = 0, r = 0, s = 0; nova::peak_rms_vec(i1, &p, &r, 64u); nova::peak_rms_vec_simd(i1, &q, &s, 64u); if (p != q || differ(r, s)) ++bad;")],
    "simd_horizontal_functions.hpp": [("hmin", "if (nova::horizontal_min_vec(i1, 64u) != nova::horizontal_min_vec_simd(i1, 64u)) ++bad;"),
                                      ("hmax", "if (nova::horizontal_max_vec(i1, 64u) != nova::horizontal_max_vec_simd(i1, 64u)) ++bad;"),
                                      ("hsum", "if (differ(nova::horizontal_sum_vec(i1, 64u), nova::horizontal_sum_vec_simd(i1, 64u))) ++bad;")],
    "simd_unroll_constraints.hpp": [("constraints", "if (64 % nova::unroll_constraints<F>::samples_per_loop) ++bad;")],
    "vec.hpp": [("vec", "nova::vec<F> a, b(F(2)); a.load_aligned(i1); a = a * b + b; a.store_aligned(o1); for (int k = 0; k < (int)nova::vec<F>::size; ++k) if (differ(o1[k], i1[k] * 2 + 2)) ++bad;"),
                ("vecmath", "nova::vec<F> a; a.load_aligned(i1); a = sin(a) + exp(a) - min_(a, abs(a)); a.store(o1);")],
    "simd_utils.hpp": [],
}
STDH = ["cmath", "algorithm", "cstdint", "complex", "vector", "immintrin.h", "functional", "limits"]
PRE = r'''
namespace {
template <class F> struct T {
    F o1[64] __attribute__((aligned(64))), o2[64] __attribute__((aligned(64))), o3[64] __attribute__((aligned(64))), o4[64] __attribute__((aligned(64)));
    F i1a[64] __attribute__((aligned(64))), i2a[64] __attribute__((aligned(64)));
    const F * i1, * i2; int bad;
    T() : i1(i1a), i2(i2a), bad(0) { for (int k = 0; k < 64; ++k) { i1a[k] = F(0.1) + F(k) / 81; i2a[k] = F(0.95) - F(k) / 96; } }
    static bool differ(F a, F b) { F d = a - b, m = a < 0 ? -a : a; return !((d < 0 ? -d : d) <= F(1e-4) * (1 + m)); }
#define CHK for (int k = 0; k < 64; ++k) if (differ(o1[k], o2[k]) || differ(o1[k], o3[k])) { ++bad; break; }
#define UN(op) nova::op##_vec(o1, i1, 64u); nova::op##_vec_simd(o2, i1, 64u); nova::op##_vec_simd<64>(o3, i1); CHK
#define BI(op) nova::op##_vec(o1, i1, i2, 64u); nova::op##_vec_simd(o2, i1, i2, 64u); nova::op##_vec_simd<64>(o3, i1, i2); CHK \
    nova::op##_vec(o1, i1, F(0.5), 64u); nova::op##_vec_simd(o2, i1, F(0.5), 64u); nova::op##_vec_simd<64>(o3, i1, F(0.5)); CHK
#define TE(op) nova::op##_vec(o1, i1, F(0.25), F(0.5), 64u); nova::op##_vec_simd(o2, i1, F(0.25), F(0.5), 64u); nova::op##_vec_simd<64>(o3, i1, F(0.25), F(0.5)); CHK
'''
ISAS = ["", "-msse4.1", "-mavx", "-mavx2 -mfma"]
BASE = ("g++", "gnu++14")

def tu_source(tu, k):
    s = "".join("#include <%s>\n" % h if h in STDH else '#include "%s"\n' % h for h in tu["inc"])
    s += PRE
    for n, (h, name) in enumerate(tu["calls"]):
        s += "    void t%d() { %s }\n" % (n, dict(HEADERS[h])[name])
    s += "};\n__attribute__((always_inline)) inline int twice(int x) { return x + x; }\n}\n"
    s += "int tu%d() { int bad = twice(0);" % k
    for F in ("float", "double"):
        s += " { T<%s> t;%s bad += t.bad; }" % (F, "".join(" t.t%d();" % n for n in range(len(tu["calls"]))))
    return s + " return bad; }\n"

def sources(case):
    r = [("tu%d.cpp" % k, tu_source(t, k)) for k, t in enumerate(case["tus"])]
    n = len(case["tus"])
    r.append(("main.cpp", "".join("int tu%d();\n" % k for k in range(n)) + "int main() { return " + " + ".join("tu%d()" % k for k in range(n)) + " ? 1 : 0; }\n"))
    return r

def execute(case, repo):
    """None if fine, otherwise a message"""
    d = tempfile.mkdtemp(prefix="hyg-")
    try:
        objs = []
        for k, (name, text) in enumerate(sources(case)):
            open(os.path.join(d, name), "w").write(text)
            nd = ["-DNDEBUG"] if name != "main.cpp" and case["tus"][k]["ndebug"] else []
            cmd = [case["cc"], "-std=" + case["std"], case["opt"], "-w", "-ftemplate-depth=1000"] + case["isa"].split() + nd + ["-I" + repo, "-c", name, "-o", name + ".o"]
            r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300)
            if r.returncode:
                err = [l for l in r.stdout.splitlines() if "error" in l] or r.stdout.splitlines()[-1:] or ["?"]
                return "translation unit %d (%s) does not compile: %s" % (k, " ".join(case["tus"][k]["inc"]) if name != "main.cpp" else "", err[0][:300])
            objs.append(name + ".o")
        r = subprocess.run([case["cc"]] + objs + ["-o", "prog"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300)
        if r.returncode:
            err = [l for l in r.stdout.splitlines() if "multiple definition" in l or "undefined" in l] or r.stdout.splitlines()[-1:] or ["?"]
            return "does not link: " + err[0][-300:]
        r = subprocess.run([os.path.join(d, "prog")], cwd=d, timeout=120)
        if r.returncode:
            return "program exits with %d: the forms of a called function disagree, or it crashes" % r.returncode
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)

def gen(rng, index, present, modes):
    cc, std, isa = rng.choice(modes + modes[:len(ISAS)] * 2)
    case = dict(cc=cc, std=std, opt=rng.choice(["-O0", "-O0", "-O1", "-O2"]), isa=isa, tus=[])
    if index < len(present):                       # every header on its own, in two units, with every function it has
        h = present[index]
        case.update(opt="-O0")
        case["tus"] = [dict(inc=[h], calls=[[h, n] for n, _ in HEADERS[h]], ndebug=bool(k)) for k in range(2)]
        return case
    for k in range(rng.choice([1, 2, 2, 2, 3])):
        inc = [rng.choice(present) for _ in range(rng.choice([1, 2, 2, 3, 4, 6]))]
        if rng.random() < .1: inc = rng.sample(present, len(present))
        calls = []
        for h in dict.fromkeys(inc):
            names = [n for n, _ in HEADERS[h]]
            rng.shuffle(names)
            calls += [[h, n] for n in names[:rng.choice([1, 2, 3])]]
        for _ in range(rng.choice([0, 0, 1, 2])): inc.insert(rng.randrange(len(inc) + 1), rng.choice(STDH))
        case["tus"].append(dict(inc=inc, calls=calls, ndebug=rng.random() < .5))
    return case

def shrink(case, msg, repo):
    t0 = time.time()
    def cands(c):
        for k in range(len(c["tus"])):
            if len(c["tus"]) > 1:
                d = copy.deepcopy(c); del d["tus"][k]; yield d
        for k, t in enumerate(c["tus"]):
            for i in range(len(t["inc"])):
                d = copy.deepcopy(c); h = d["tus"][k]["inc"].pop(i)
                if h not in d["tus"][k]["inc"]: d["tus"][k]["calls"] = [x for x in d["tus"][k]["calls"] if x[0] != h]
                if d["tus"][k]["inc"]: yield d
            n = len(t["calls"])
            if n > 1:
                for a, b in ((0, n // 2), (n // 2, n)):
                    d = copy.deepcopy(c); del d["tus"][k]["calls"][a:b]; yield d
            if n:
                for i in range(min(n, 6)):
                    d = copy.deepcopy(c); del d["tus"][k]["calls"][i]; yield d
        for key, v in (("opt", "-O0"), ("isa", ""), ("cc", "g++"), ("std", "gnu++14")):
            if c[key] != v:
                d = copy.deepcopy(c); d[key] = v; yield d
    kind = msg.split(":")[0].split("(")[0].rstrip("0123456789 ")
    progress = True
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        while progress and time.time() - t0 < 60:
            progress = False
            cs = list(cands(case))
            for c, m in zip(cs, ex.map(lambda c: execute(c, repo), cs)):
                if m and m.split(":")[0].split("(")[0].rstrip("0123456789 ") == kind:
                    case, msg, progress = c, m, True
                    break
    return case, msg

def modes_available(repo, present, notes):
    """(cc, std, isa) triples.  The repository's own compiler mode always takes part, with every instruction set; the
    other modes take part, per instruction set, when a unit with every header compiles there"""
    out = [BASE + (i,) for i in ISAS]
    allh = dict(inc=list(present), calls=[[h, n] for h in present for n, _ in HEADERS[h]], ndebug=False)
    probes = [(cc, s, i) for cc in ("g++", "clang++") for s in ("gnu++14", "gnu++17", "gnu++20") if (cc, s) != BASE for i in ISAS]
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        for p, m in zip(probes, ex.map(lambda p: execute(dict(cc=p[0], std=p[1], opt="-O0", isa=p[2], tus=[allh]), repo), probes)):
            if m is None: out.append(p)
            else: notes.append("build mode %s -std=%s %s left out: %s" % (p[0], p[1], p[2], m))
    return out

def run(repo, seed, ncases, budget, replay_out):
    """(result dict, exit code)"""
    notes = []
    present = [h for h in HEADERS if os.path.exists(os.path.join(repo, h))]
    modes = modes_available(repo, present, notes)
    cases = []
    for i in range(ncases):
        cases.append(gen(random.Random(seed * 1000003 + i), i, present, modes))
    t0 = time.time(); done = 0; bad = None; distinct = set(); labels = {}; samples = []
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        it = iter(range(ncases)); pend = {}
        def feed():
            for i in it:
                if time.time() - t0 > budget: return
                pend[ex.submit(execute, cases[i], repo)] = i
                return
        for _ in range(NCPU): feed()
        while pend:
            fin, _ = concurrent.futures.wait(list(pend), return_when=concurrent.futures.FIRST_COMPLETED)
            for f in fin:
                i = pend.pop(f); m = f.result(); c = cases[i]; done += 1
                if m and bad is None: bad = (i, c, m)
                distinct.add(json.dumps(c, sort_keys=True))
                for l in ["%s %s" % (c["cc"], c["std"]), "isa " + (c["isa"] or "sse2"), "%d units" % len(c["tus"])]: labels[l] = labels.get(l, 0) + 1
                if len(samples) < 8 or i % 40 == 0: samples.append("%s -std=%s %s %s: " % (c["cc"], c["std"], c["opt"], c["isa"]) + " | ".join(" ".join(t["inc"]) + " [" + " ".join(n for _, n in t["calls"]) + "]" for t in c["tus"])[:300])
                if bad is None: feed()
    res = dict(evaluations=done, distinct=len(distinct), labels=labels, samples=samples[:12], notes=notes,
               rule="a program of at least one translation unit that includes at least one public header and (simd_utils.hpp apart) calls its functions", points=done)
    if bad is None: return res, 0, None
    i, c, m = bad
    print("failure in case %d: %s" % (i, m))
    m2 = execute(c, repo)
    if m2 is None:
        print("not reproducible"); return res, 8, None
    c, m = shrink(c, m2, repo)
    print("minimal: %s" % m)
    json.dump(dict(property="C26", message=m, case=c, sources=dict(sources(c))), open(replay_out, "w"), indent=1)
    return res, 1, m
