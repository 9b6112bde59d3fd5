#include "pbt.hpp"
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <climits>

namespace pbt {
std::vector<Lib> libs;
std::vector<Call> calls;
std::vector<Property> & registry() { static std::vector<Property> r; return r; }

std::string strf(const char * fmt, ...)
{
    char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b;
}
std::string Call::name() const
{
    return fam + ":" + op + "<" + (type == 'f' ? "float" : "double") + ">(" + kinds + ")" +
        (form == 's' ? " plain" : form == 'r' ? " simd" : strf(" simd<%u>", N).c_str());
}
void * Lib::sym(char type, const char * name) const
{
    std::map<char, void *>::const_iterator i = handle.find(type);
    return i == handle.end() ? 0 : dlsym(i->second, name);
}

void Guard::init(size_t bytes)
{
    if (base) return;
    size = (bytes + 4095) & ~(size_t)4095;
    uint8_t * m = (uint8_t *)mmap(0, size + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) { perror("mmap"); _exit(9); }
    mprotect(m, 4096, PROT_NONE); mprotect(m + 4096 + size, 4096, PROT_NONE);
    base = m + 4096;
}
void Guard::poison(uint8_t * p, size_t bytes) const
{
    uint8_t * lo = p - base < (long)PAD ? base : p - PAD;
    uint8_t * hi = base + size - (p + bytes) < (long)PAD ? base + size : p + bytes + PAD;
    for (uint8_t * q = lo; q < hi; ++q) *q = pat(q - base);
}
long Guard::check(const uint8_t * p, size_t bytes) const
{
    const uint8_t * lo = p - base < (long)PAD ? base : p - PAD;
    const uint8_t * hi = base + size - (p + bytes) < (long)PAD ? base + size : p + bytes + PAD;
    for (const uint8_t * q = lo; q < p; ++q) if (*q != pat(q - base)) return q - p;
    for (const uint8_t * q = p + bytes; q < hi; ++q) if (*q != pat(q - base)) return q - p;
    return LONG_MIN;
}

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void arm(int seconds)
{
    itimerval v; memset(&v, 0, sizeof v); v.it_value.tv_sec = seconds; setitimer(ITIMER_VIRTUAL, &v, 0);
}
static const int CPU_LIMIT = 60;     // CPU seconds for a case that takes well under a second

static Shared * new_shared()
{
    return (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}

struct Result { bool failed; std::string msg; std::vector<u64> used; std::vector<u64> suggest; };

static std::string esc(const std::string & s)
{
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) r += strf("\\u%04x", c);
        else r += c;
    }
    return r;
}

// run one case in a forked child from a fixed choice sequence
static Result run_fixed(Property const & p, Shared * sh, const std::vector<u64> & choices, u64 index, u64 total, bool thorough, bool verbose)
{
    sh->nchoices = 0; sh->where[0] = 0; sh->msg[0] = 0; sh->nsuggest = 0;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        arm(CPU_LIMIT);
        Ctx c; c.sh = sh; c.fixed = &choices; c.replay_only = true; c.index = index; c.total = total; c.thorough = thorough; c.verbose = verbose;
        try { p.run(c); }
        catch (Failure & f) { snprintf(sh->msg, sizeof sh->msg, "%s", f.msg.c_str()); _exit(3); }
        catch (Discard &) { _exit(0); }
        if (verbose) printf("case: %s\n", c.desc.c_str()), fflush(stdout);
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Result r; r.failed = false;
    r.used.assign(sh->choices, sh->choices + sh->nchoices);
    if (WIFSIGNALED(st)) {
        r.failed = true;
        int sg = WTERMSIG(st);
        r.msg = strf("%s (signal %d) in %s", sg == SIGVTALRM ? "no termination" : sg == SIGSEGV || sg == SIGBUS ? "invalid memory access" : "abnormal termination", sg, sh->where);
        if (sg == SIGKILL) { r.failed = false; }
    } else if (WIFEXITED(st) && WEXITSTATUS(st) == 3) {
        r.failed = true; r.msg = sh->msg;
        r.suggest.assign(sh->suggest, sh->suggest + sh->nsuggest);
    }
    return r;
}

static bool simpler(const std::vector<u64> & a, const std::vector<u64> & b)   // a strictly simpler than b
{
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
}

static Result shrink(Property const & p, Shared * sh, Result best, u64 index, u64 total, bool thorough)
{
    double t0 = now(); int runs = 0;
    std::function<bool(const std::vector<u64> &)> attempt = [&](const std::vector<u64> & c) -> bool {
        if (now() - t0 > 40 || runs > 4000) return false;
        ++runs;
        Result r = run_fixed(p, sh, c, index, total, thorough, false);
        while (!r.used.empty() && r.used.back() == 0) r.used.pop_back();
        if (r.failed && simpler(r.used, best.used)) { best = r; return true; }
        return false;
    };
    while (!best.used.empty() && best.used.back() == 0) best.used.pop_back();
    if (!best.suggest.empty()) { std::vector<u64> s = best.suggest; attempt(s); }
    bool progress = true;
    while (progress && now() - t0 < 40 && runs < 4000) {
        progress = false;
        for (size_t k = best.used.size() / 2; k >= 1; k /= 2)       // delete blocks
            for (size_t i = 0; i + k <= best.used.size();) {
                std::vector<u64> c(best.used); c.erase(c.begin() + i, c.begin() + i + k);
                if (attempt(c)) progress = true; else i += k;
                if (now() - t0 > 40) break;
            }
        for (size_t k = 8; k >= 1; k /= 2)                          // zero blocks
            for (size_t i = 0; i + k <= best.used.size(); i += k) {
                std::vector<u64> c(best.used); bool any = false;
                for (size_t j = i; j < i + k; ++j) { any |= c[j] != 0; c[j] = 0; }
                if (any && attempt(c)) progress = true;
            }
        for (size_t i = 0; i < best.used.size(); ++i) {             // lower single choices
            u64 lo = 0, hi = best.used[i];
            while (lo < hi && i < best.used.size()) {
                u64 mid = lo + (hi - lo) / 2;
                std::vector<u64> c(best.used); c[i] = mid;
                if (attempt(c)) { progress = true; if (i < best.used.size()) hi = best.used[i]; else break; }
                else lo = mid + 1;
            }
        }
    }
    return best;
}

static void write_replay(const std::string & path, Property const & p, u64 seed, u64 index, u64 total, bool thorough, Result const & r)
{
    FILE * f = fopen(path.c_str(), "w");
    if (!f) { perror(path.c_str()); return; }
    fprintf(f, "{\"property\": \"%s\", \"seed\": %llu, \"index\": %llu, \"total\": %llu, \"thorough\": %d,\n \"message\": \"%s\",\n \"choices\": [", p.id,
            (unsigned long long)seed, (unsigned long long)index, (unsigned long long)total, thorough, esc(r.msg).c_str());
    for (size_t i = 0; i < r.used.size(); ++i) fprintf(f, "%s%llu", i ? ", " : "", (unsigned long long)r.used[i]);
    fprintf(f, "]}\n"); fclose(f);
}

static std::string slurp(const std::string & f)
{
    std::string s; FILE * h = fopen(f.c_str(), "r"); if (!h) return s;
    char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n);
    fclose(h); return s;
}
static u64 json_num(const std::string & s, const char * key)
{
    size_t i = s.find(std::string("\"") + key + "\":"); if (i == std::string::npos) return 0;
    return strtoull(s.c_str() + i + strlen(key) + 3, 0, 10);
}

static void load_libs(const std::string & spec)      // cfg:type:path,cfg:type:path,...
{
    size_t i = 0;
    while (i < spec.size()) {
        size_t j = spec.find(',', i); if (j == std::string::npos) j = spec.size();
        std::string item = spec.substr(i, j - i); i = j + 1;
        size_t a = item.find(':'), b = item.find(':', a + 1);
        std::string cfg = item.substr(0, a); char t = item[a + 1]; std::string path = item.substr(b + 1);
        size_t k = 0; while (k < libs.size() && libs[k].cfg != cfg) ++k;
        if (k == libs.size()) { libs.push_back(Lib()); libs[k].cfg = cfg; memset(libs[k].info, 0, sizeof libs[k].info); }
        void * h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); exit(9); }
        std::string hk = cfg;
        if (!libs[k].handle.count(t)) libs[k].handle[t] = h;
        PInfoFn inf = (PInfoFn)dlsym(h, "pbt_info"); if (inf) inf(t, &libs[k].info[t == 'd']);
        PTableFn tab = (PTableFn)dlsym(h, "pbt_table");
        if (tab) {
            size_t n; const PEntry * e = tab(&n);
            for (size_t q = 0; q < n; ++q) {
                size_t c = 0;
                std::string kinds = e[q].kinds;
                for (; c < calls.size(); ++c)
                    if (calls[c].type == e[q].type && calls[c].form == e[q].form && calls[c].N == e[q].N && calls[c].op == e[q].op && calls[c].kinds == kinds && calls[c].fam == e[q].fam) break;
                if (c == calls.size()) {
                    Call x; x.fam = e[q].fam; x.op = e[q].op; x.kinds = kinds; x.type = e[q].type; x.form = e[q].form; x.N = e[q].N; calls.push_back(x);
                }
                calls[c].impl.push_back(std::make_pair((int)k, e[q].fn));
            }
        }
    }
    std::sort(calls.begin(), calls.end(), [](Call const & a, Call const & b) {
        if (a.fam != b.fam) return a.fam < b.fam;
        if (a.op != b.op) return a.op < b.op;
        if (a.type != b.type) return a.type < b.type;
        if (a.kinds != b.kinds) return a.kinds < b.kinds;
        if (a.form != b.form) return a.form > b.form;
        return a.N < b.N; });
}

// run the generated cases first, first+step, ..., last in one process (for failures that need a history)
static Result run_range(Property const & p, Shared * sh, u64 seed, u64 first, u64 step, u64 last, u64 total, bool thorough)
{
    sh->nchoices = 0; sh->where[0] = 0; sh->msg[0] = 0; sh->nsuggest = 0;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        for (u64 i = first; i <= last; i += step) {
            arm(CPU_LIMIT);
            sh->index = i; sh->nchoices = 0;
            Ctx c; c.sh = sh; c.rng = Rng(mix(seed * 0x100000001B3ull + mix(i))); c.index = i; c.total = total; c.thorough = thorough;
            std::vector<u64> pre; if (p.prefix) { pre = p.prefix(i, thorough); c.fixed = &pre; }
            try { p.run(c); }
            catch (Failure & f) { snprintf(sh->msg, sizeof sh->msg, "%s", f.msg.c_str()); _exit(3); }
            catch (Discard &) {}
        }
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Result r; r.failed = false;
    if (WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL) { r.failed = true; r.msg = strf("signal %d in %s", WTERMSIG(st), sh->where); }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { r.failed = true; r.msg = sh->msg; }
    return r;
}

int pbt_main(int argc, char ** argv)
{
    std::map<std::string, std::string> o;
    for (int i = 1; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
    const Property * p = 0;
    for (size_t i = 0; i < registry().size(); ++i) if (o["--prop"] == registry()[i].id) p = &registry()[i];
    if (!p) { fprintf(stderr, "unknown property\n"); return 9; }
    load_libs(o["--libs"]);
    if (p->init) p->init();
    Shared * ms = new_shared();
    if (o.count("--replay")) {
        std::string s = slurp(o["--replay"]);
        if (s.find("\"history\"") != std::string::npos) {
            Result r = run_range(*p, ms, json_num(s, "seed"), json_num(s, "first"), json_num(s, "step"), json_num(s, "last"), json_num(s, "total"), json_num(s, "thorough") != 0);
            printf("replay: %s\n", r.failed ? r.msg.c_str() : "holds");
            return r.failed ? 1 : 0;
        }
        std::vector<u64> c; size_t i = s.find("\"choices\": ["); const char * q = s.c_str() + i + 12;
        if (i == std::string::npos) return 9;
        while (*q && *q != ']') { char * e; c.push_back(strtoull(q, &e, 10)); q = e; while (*q == ',' || *q == ' ') ++q; }
        Result r = run_fixed(*p, ms, c, json_num(s, "index"), json_num(s, "total"), json_num(s, "thorough") != 0, true);
        printf("replay: %s\n", r.failed ? r.msg.c_str() : "holds");
        return r.failed ? 1 : 0;
    }
    bool thorough = o["--tier"] == "thorough";
    u64 seed = strtoull(o["--seed"].c_str(), 0, 10);
    int shards = o.count("--shards") ? atoi(o["--shards"].c_str()) : 8;
    u64 total = thorough ? p->thorough : p->quick;
    if (o.count("--cases")) total = strtoull(o["--cases"].c_str(), 0, 10);
    double budget = o.count("--budget") ? atof(o["--budget"].c_str()) : (thorough ? 3000 : 150);
    std::string dir = o["--work"];
    double t0 = now();
    std::vector<Shared *> sh; std::vector<pid_t> pid;
    fflush(stdout); fflush(stderr);
    for (int w = 0; w < shards; ++w) {
        sh.push_back(new_shared());
        pid_t c = fork();
        if (c == 0) {
            Stats st;
            u64 span = (total + shards - 1) / shards;
            u64 k = 0; double armed = 0;
            for (u64 i = w; i < total; i += shards, ++k) {
                sh[w]->index = i; sh[w]->nchoices = 0; sh[w]->nsuggest = 0;
                double tn = now(); if ((k & 63) == 0 || tn - armed > 1) { arm(CPU_LIMIT); armed = tn; if (tn - t0 > budget) break; }
                Ctx c; c.sh = sh[w]; c.rng = Rng(mix(seed * 0x100000001B3ull + mix(i))); c.index = i; c.total = total; c.thorough = thorough; c.st = &st;
                std::vector<u64> pre; if (p->prefix) { pre = p->prefix(i, thorough); c.fixed = &pre; }
                try { p->run(c); st.evaluations++; }
                catch (Failure & f) { snprintf(sh[w]->msg, sizeof sh[w]->msg, "%s", f.msg.c_str()); _exit(3); }
                catch (Discard &) { st.discards++; continue; }
                st.points += c.npoints;
                if (c.nontriv) {
                    st.nontrivial++;
                    u64 h = 1469598103934665603ull;
                    for (u64 q = 0; q < sh[w]->nchoices && q < MAX_CHOICES; ++q) h = mix(h ^ sh[w]->choices[q]);
                    if (st.distinct.size() < 1500000) st.distinct.insert(h);
                    if (!c.desc.empty() && (st.samples.size() < 2 || (k > 0 && (k & (k - 1)) == 0 && st.samples.size() < 6))) st.samples.push_back(c.desc);
                }
                sh[w]->done = k + 1;
            }
            (void)span;
            FILE * f = fopen(strf("%s/shard%d.json", dir.c_str(), w).c_str(), "w");
            fprintf(f, "{\"evaluations\": %llu, \"nontrivial\": %llu, \"discards\": %llu, \"points\": %llu, \"labels\": {", (unsigned long long)st.evaluations, (unsigned long long)st.nontrivial, (unsigned long long)st.discards, (unsigned long long)st.points);
            bool first = true;
            for (auto & l : st.labels) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", esc(l.first).c_str(), (unsigned long long)l.second); first = false; }
            fprintf(f, "}, \"samples\": [");
            for (size_t i = 0; i < st.samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? ", " : "", esc(st.samples[i]).c_str());
            fprintf(f, "], \"rule\": \"%s\"}\n", esc(p->rule).c_str()); fclose(f);
            f = fopen(strf("%s/shard%d.hash", dir.c_str(), w).c_str(), "wb");
            std::vector<u64> hv(st.distinct.begin(), st.distinct.end());
            if (!hv.empty()) fwrite(&hv[0], 8, hv.size(), f);
            fclose(f);
            _exit(0);
        }
        pid.push_back(c);
    }
    int live = shards; bool failed = false; Result fr; u64 findex = 0; bool err = false;
    while (live > 0) {
        int st; pid_t c = waitpid(-1, &st, 0);
        if (c < 0) { if (errno == EINTR) continue; break; }
        int w = -1; for (int i = 0; i < shards; ++i) if (pid[i] == c) w = i;
        if (w < 0) continue;
        --live;
        if (failed) continue;
        bool bad = false;
        if (WIFSIGNALED(st)) {
            if (WTERMSIG(st) == SIGKILL) { err = true; fprintf(stderr, "worker killed\n"); continue; }
            bad = true; fr.msg = strf("signal %d in %s", WTERMSIG(st), sh[w]->where);
        } else if (WEXITSTATUS(st) == 3) { bad = true; fr.msg = sh[w]->msg; }
        else if (WEXITSTATUS(st) != 0) { err = true; fprintf(stderr, "worker exit %d\n", WEXITSTATUS(st)); }
        if (bad) {
            failed = true; findex = sh[w]->index; fr.failed = true;
            fr.used.assign(sh[w]->choices, sh[w]->choices + sh[w]->nchoices);
            fr.suggest.assign(sh[w]->suggest, sh[w]->suggest + sh[w]->nsuggest);
            for (int i = 0; i < shards; ++i) if (i != w) kill(pid[i], SIGKILL);
        }
    }
    if (!failed) {
        printf("OK property=%s cases=%llu wall=%.1f\n", p->id, (unsigned long long)total, now() - t0);
        return err ? 9 : 0;
    }
    printf("failure in case %llu: %s\n", (unsigned long long)findex, fr.msg.c_str());
    // reproduce it before believing it; code with data races may fail only now and then
    int rep = 0; Result r;
    for (int i = 0; i < 12 && (i < 3 || rep < 3); ++i) { Result q = run_fixed(*p, ms, fr.used, findex, total, thorough, false); if (q.failed) { ++rep; r = q; } else if (i == 2 && rep == 3) break; }
    bool flaky = rep > 0;
    for (int i = 0; flaky && i < 3; ++i) if (!run_fixed(*p, ms, fr.used, findex, total, thorough, false).failed) break; else if (i == 2) flaky = false;
    if (flaky) {
        printf("fails only in some repetitions: %s\n", r.msg.c_str());
        write_replay(o["--replay-out"], *p, seed, findex, total, thorough, r);
        return 1;
    }
    if (rep == 0) {                  // perhaps it needs the cases that ran before it
        u64 w = findex % shards, back = 1; int ok = 0; Result h; u64 first = findex;
        for (;; back *= 4) {
            first = findex >= w + back * shards ? findex - back * shards : w;
            ok = 0; for (int i = 0; i < 3; ++i) { h = run_range(*p, ms, seed, first, shards, findex, total, thorough); ok += h.failed; if (!h.failed && i) break; }
            if (ok >= 2 || first == w || now() - t0 > 2 * budget + 60) break;
        }
        if (ok < 2) { printf("not reproducible (%d/3 alone, %d/3 with history)\n", rep, ok); return 8; }
        printf("needs the history of cases %llu..%llu step %d: %s\n", (unsigned long long)first, (unsigned long long)findex, shards, h.msg.c_str());
        FILE * f = fopen(o["--replay-out"].c_str(), "w");
        if (f) {
            fprintf(f, "{\"property\": \"%s\", \"history\": 1, \"seed\": %llu, \"first\": %llu, \"step\": %d, \"last\": %llu, \"total\": %llu, \"thorough\": %d,\n \"message\": \"%s\"}\n", p->id,
                (unsigned long long)seed, (unsigned long long)first, shards, (unsigned long long)findex, (unsigned long long)total, thorough, esc(h.msg).c_str());
            fclose(f);
        }
        return 1;
    }
    r.suggest = r.suggest.empty() ? fr.suggest : r.suggest;
    Result m = shrink(*p, ms, r, findex, total, thorough);
    rep = 0; for (int i = 0; i < 3; ++i) rep += run_fixed(*p, ms, m.used, findex, total, thorough, false).failed;
    if (rep < 3) m = r;
    printf("minimal: %s\n", m.msg.c_str());
    write_replay(o["--replay-out"], *p, seed, findex, total, thorough, m);
    return 1;
}
}
int main(int argc, char ** argv) { return pbt::pbt_main(argc, argv); }
