// Properties of the vector register class: C19 (lane arrays), C20 (masks), C22 (granularity, alignment), C23 (register helpers).
#include "ewgen.hpp"
using namespace pbt;
namespace {
static const int NREG = 6, SCRATCH = NREG;            // registers of a program, one extra for selection masks
static const std::vector<Dom> NODOM;
std::vector<int> sel[2], sel22; int dump_[2], load_[2];
const char * famname;
int width(Lib const & L, char t) { return !strcmp(famname, "util") ? 4 : L.inf(t).vec_size; }
void init_prog(const char * fam)
{
    arena().init(); famname = fam;
    for (int t = 0; t < 2; ++t) { sel[t].clear(); dump_[t] = load_[t] = -1; }
    for (size_t i = 0; i < calls.size(); ++i) {
        int t = calls[i].type == 'd';
        if (calls[i].fam == fam || (!strcmp(fam, "port") && (calls[i].fam == "vec" || calls[i].fam == "mask"))) sel[t].push_back((int)i);
        if (calls[i].fam == "reg") (calls[i].op == "dump" ? dump_ : load_)[t] = (int)i;
    }
    if (sel[0].empty() && sel[1].empty()) { fprintf(stderr, "no calls selected\n"); exit(9); }
}
PKernel kernel(int call, int lib) { Call const & c = calls[call]; for (size_t m = 0; m < c.impl.size(); ++m) if (c.impl[m].first == lib) return c.impl[m].second; return 0; }

template <class F> struct Step { int call; int d, x, y, z; unsigned lane; std::vector<F> mem; unsigned mask; bool one; Place pin, pout; };

template <class F> std::string step_str(Step<F> const & s, unsigned size)
{
    Call const & c = calls[s.call]; std::string r = c.op + "(";
    for (size_t i = 0; i < c.kinds.size(); ++i) switch (c.kinds[i]) {
        case 'd': r += strf(" r%d", s.d); break; case 'x': r += strf(" r%d", s.x); break; case 'y': r += strf(" r%d", s.y); break; case 'z': r += strf(" mask 0x%x", s.mask); break;
        case 'l': r += strf(" lane %u", s.lane % size); break; case 'p': r += " " + show(s.mem[i == 1 || c.kinds[i - 1] != 'p' ? 0 : 1]); break; case 'A': case 'L': r += " memory"; break; }
    return r + " )";
}

// expected lanes of the destination and of the scalar result
template <class F> struct Expect { bool dst, mem, res, swap; std::vector<Ref<F> > lane; Ref<F> r; Expect() : dst(false), mem(false), res(false), swap(false) {} };
template <class F> F fullbits(bool b) { return b ? from_bits<F>((typename FT<F>::U)~(typename FT<F>::U)0) : (F)0; }

// bit exact, NaN payload included
template <class F> bool same(F a, F b) { return bits_of(a) == bits_of(b); }

template <class F> Expect<F> expect(Step<F> const & s, std::vector<std::vector<F> > const & reg, unsigned W, bool & bitexact)
{
    typedef Ref<F> Rf; typedef typename FT<F>::U U;
    Call const & c = calls[s.call]; std::string const & op = c.op; std::string const & fam = c.fam;
    Expect<F> e; e.dst = has(c.kinds, 'd'); e.res = has(c.kinds, 'o'); e.mem = has(c.kinds, 'O') || has(c.kinds, 'Q');
    e.lane.resize(W); bitexact = false;
    std::vector<F> const & x = reg[s.x], & y = reg[s.y], & z = reg[s.z], & d = reg[s.d];
    if (op == "hmin" || op == "hmax" || op == "hsum") {
        ld m = 0, sum = 0; bool nan = false; F lo = x[0], hi = x[0];
        for (unsigned i = 0; i < W; ++i) { nan |= x[i] != x[i]; m += fabsl((ld)x[i]); sum += (ld)x[i]; lo = std::min(lo, x[i]); hi = std::max(hi, x[i]); }
        if (op == "hsum") { if (m < FT<F>::mx() / 2) e.r = Rf::tolerance(sum, W * FT<F>::eps() * m); }
        else if (!nan) e.r = Rf::exact(op == "hmin" ? lo : hi);
        return e;
    }
    if (op == "get") { e.r = Rf::exact(x[s.lane % W]); bitexact = true; return e; }
    if (op == "extract_0") { e.r = Rf::exact(x[0]); bitexact = true; return e; }
    if (op == "extract_3") { e.r = Rf::exact(x[3]); bitexact = true; return e; }
    if (op == "set_slope") {
        ld lim = fabsl((ld)s.mem[0]) + 16 * fabsl((ld)s.mem[1]);
        if (lim < FT<F>::mx() / 2) {
            for (unsigned i = 0; i < W; ++i) { ld v, t; ramp_at(s.mem[0], s.mem[1], i, v, t); e.lane[i] = Rf::tolerance(v, t); }
            e.r = Rf::tolerance((ld)W * s.mem[1], 8 * (FT<F>::eps() * fabsl((ld)s.mem[1]) * W + FT<F>::den()));
        }
        return e;
    }
    if (op == "set_exp") {
        ld v = s.mem[0]; bool ok = true; std::vector<ld> vs;
        for (unsigned i = 0; i <= W; ++i) { vs.push_back(v); if (!(fabsl(v) <= FT<F>::mx() / 4) || (v != 0 && fabsl(v) < FT<F>::mn() * 4)) ok = false; v *= (ld)s.mem[1]; }
        if (!(fabsl((ld)s.mem[1]) <= FT<F>::mx()) || (s.mem[1] != 0 && fabsl((ld)s.mem[1]) < FT<F>::mn())) ok = false;
        if (ok) {   // also the powers of the factor alone
            ld p = 1; for (unsigned i = 0; i <= W; ++i) { if (p != 0 && (fabsl(p) > FT<F>::mx() / 4 || fabsl(p) < FT<F>::mn() * 4)) ok = false; p *= (ld)s.mem[1]; }
        }
        if (ok) { for (unsigned i = 0; i < W; ++i) e.lane[i] = Rf::tolerance(vs[i], i ? 2 * (i + 1) * FT<F>::eps() * fabsl(vs[i]) : 0); e.r = Rf::tolerance(vs[W], 2 * (W + 1) * FT<F>::eps() * fabsl(vs[W])); }
        return e;
    }
    if (e.mem) { for (unsigned i = 0; i < W; ++i) e.lane[i] = Rf::exact(x[i]); bitexact = true; return e; }
    int id = -1;
    if (op == "addeq") id = O_plus; else if (op == "subeq") id = O_minus; else if (op == "muleq") id = O_times; else if (op == "diveq") id = O_over;
    if (id >= 0) { for (unsigned i = 0; i < W; ++i) { F a[2] = { d[i], x[i] }; e.lane[i] = reference<F>(id, a); } return e; }
    if (op.size() > 3 && (op.substr(op.size() - 3) == "_vs" || op.substr(op.size() - 3) == "_sv")) {
        id = op_id(op.substr(0, op.size() - 3)); bool vs = op[op.size() - 2] == 'v';
        for (unsigned i = 0; i < W; ++i) { F a[2] = { vs ? x[i] : s.mem[0], vs ? s.mem[0] : x[i] }; e.lane[i] = reference<F>(id, a); }
        return e;
    }
    if (fam == "vec" && (id = op_id(op)) >= 0) { for (unsigned i = 0; i < W; ++i) { F a[3] = { x[i], y[i], z[i] }; e.lane[i] = reference<F>(id, a); } return e; }
    e.swap = op == "swap";
    for (unsigned i = 0; i < W; ++i) {
        F v = 0; U a = bits_of(x[i]), b = bits_of(y[i]); bool be = true;
        if (op == "load" || op == "load_aligned") v = s.mem[i];
        else if (op == "ctor" || op == "set_vec") v = s.mem[0];
        else if (op == "ctorf") v = (F)(float)s.mem[0];
        else if (op == "copy" || op == "assign" || op == "swap") v = x[i];
        else if (op == "load_first") v = i == 0 ? s.mem[0] : (F)0;
        else if (op == "clear" || op == "gen_zero") v = 0;
        else if (op == "set") v = i == s.lane % W ? s.mem[0] : d[i];
        else if (op == "sqrt") { e.lane[i] = x[i] < 0 || x[i] != x[i] ? Rf::skip() : Rf::exactbits(std::sqrt(x[i])); be = false; }
        else if (op == "neg") v = from_bits<F>(a ^ (U)1 << (FT<F>::bits - 1));
        else if (op == "frcp") { F r[1] = { x[i] }; e.lane[i] = reference<F>(O_reciprocal, r); if (e.lane[i].mode == Rf::TOL) e.lane[i].tol = 4.5e-4L * fabsl(e.lane[i].lv); be = false; }
        else if (op == "collect2") { e.lane[i] = Rf::exactbits(x[i] + x[i]); be = false; }
        else if (op == "collectn") v = from_bits<F>(a ^ (U)1 << (FT<F>::bits - 1));
        else if (op == "lt") v = fullbits<F>(x[i] < y[i]); else if (op == "le") v = fullbits<F>(x[i] <= y[i]); else if (op == "gt") v = fullbits<F>(x[i] > y[i]);
        else if (op == "ge") v = fullbits<F>(x[i] >= y[i]); else if (op == "eq") v = fullbits<F>(x[i] == y[i]); else if (op == "neq") v = fullbits<F>(!(x[i] == y[i]));
        else if (op == "and") v = from_bits<F>(a & b); else if (op == "or") v = from_bits<F>(a | b); else if (op == "xor") v = from_bits<F>(a ^ b); else if (op == "andnot") v = from_bits<F>(~a & b);
        else if (op == "select") v = (s.mask >> i & 1) ? y[i] : x[i];
        else if (op == "gen_sign_mask") v = from_bits<F>((U)1 << (FT<F>::bits - 1)); else if (op == "gen_abs_mask") v = from_bits<F>(~((U)1 << (FT<F>::bits - 1)));
        else if (op == "gen_one" || op == "gen_ones_1") v = 1; else if (op == "gen_05") v = (F)0.5; else if (op == "gen_025") v = (F)0.25; else if (op == "gen_ones") v = fullbits<F>(true);
        else if (op == "gen_exp_mask") v = from_bits<F>((U)0x7F800000u); else if (op == "gen_exp_mask_1") v = from_bits<F>((U)0x3F000000u);
        else if (op == "set_bitmask") v = s.mem[0];
        else if (fam == "int") {                       // 32-bit two's complement lanes
            uint32_t p = (uint32_t)a, q = (uint32_t)b, w = s.mem.empty() ? 0 : (uint32_t)bits_of(s.mem[0]), r = 0; int32_t ps = (int32_t)p, qs = (int32_t)q;
            if (op == "iplus") r = p + q; else if (op == "iminus") r = p - q; else if (op == "iand") r = p & q; else if (op == "iandnot") r = ~p & q;
            else if (op == "ilt") r = ps < qs ? ~0u : 0; else if (op == "igt") r = ps > qs ? ~0u : 0; else if (op == "ieq") r = ps == qs ? ~0u : 0;
            else if (op == "slli") r = p << (w & 31); else if (op == "srli") r = p >> (w & 31); else if (op == "ictor") r = w; else if (op == "icopy" || op == "iassign") r = p;
            else if (op == "truncate") { if (!(std::fabs((double)x[i]) < 2147483648.)) { e.lane[i] = Rf::skip(); bitexact = true; continue; } r = (uint32_t)(int32_t)x[i]; }
            else { F f = (F)ps; r = (uint32_t)bits_of(f); }
            v = from_bits<F>((U)r);
        }
        else { fprintf(stderr, "no model for %s\n", op.c_str()); exit(9); }
        if (be) { e.lane[i] = Rf::exact(v); bitexact = true; }
    }
    return e;
}
template <class F> bool judge1(Ref<F> const & r, F g, bool bitexact) { return bitexact ? same(g, r.v) : r.ok(g); }

// what the ARM and PowerPC back ends promise: zeros of either sign, estimated quotients and roots of normal numbers
template <class F> void port_relax(Expect<F> & e, Step<F> const & s, std::vector<std::vector<F> > const & reg, unsigned W, Lib const & L, bool be)
{
    std::string const & op = calls[s.call].op; ld tol = port_tol(L, op); if (be) return;
    if (tol != 0) for (unsigned i = 0; i < W; ++i) {
        F num = op == "diveq" ? reg[s.d][i] : op == "over_sv" ? s.mem[0] : reg[s.x][i], den = op == "over" ? reg[s.y][i] : op == "diveq" ? reg[s.x][i] : op == "over_vs" ? s.mem[0] : reg[s.x][i];
        bool root = op == "sqrt" || op == "signed_sqrt"; ld want = e.lane[i].lv, a = fabsl((ld)den), b = fabsl((ld)num);
        if (e.lane[i].mode == Ref<F>::SKIP) continue;
        if (root && (num == 0 || std::isinf(num))) { e.lane[i] = Ref<F>::exact((F)e.lane[i].lv); continue; }
        if (!(a > 1e-36L && a < 8e37L && b < 1e37L && (b > 1e-36L || (b == 0 && !root)) && (b == 0 || (fabsl(want) > 1e-36L && fabsl(want) < 1e37L)))) { e.lane[i] = Ref<F>(); continue; }
        e.lane[i] = Ref<F>::tolerance(want, tol * fabsl(want));
    }
    for (unsigned i = 0; i < W; ++i) if (e.lane[i].mode == Ref<F>::EXACT_BITS && e.lane[i].lv == 0) e.lane[i] = Ref<F>::exact(0);
}
template <class F> void program(Ctx & ctx, int t)
{
    const unsigned MAXW = 8; std::vector<int> const & S = sel[t];
    // generate: initial registers and steps
    bool util = !strcmp(famname, "util"), msk = util || !strcmp(famname, "mask");
    u64 first = ctx.draw(S.size());
    unsigned len = 1 + (unsigned)ctx.draw(ctx.draw(4) ? 6 : 24);
    u64 prof = ctx.draw(5); unsigned fl = prof < 2 ? ANY : prof == 2 ? FINITE : prof == 3 ? AUDIO : MODERATE;
    std::vector<std::vector<F> > init(NREG + 1, std::vector<F>(MAXW, 0));
    for (int r = 0; r < NREG; ++r) { const F * rel[1] = { &init[0][0] }; gen_block<F>(ctx, &init[r][0], MAXW, fl, NODOM, r ? rel : 0, r ? 1 : 0); }
    std::vector<Step<F> > prog(len);
    for (unsigned i = 0; i < len; ++i) {
        Step<F> & s = prog[i]; s.call = S[i ? ctx.draw(S.size()) : first]; Call const & c = calls[s.call];
        s.d = (int)ctx.draw(NREG); s.x = has(c.kinds, 'x') ? (int)ctx.draw(NREG) : 0; s.y = has(c.kinds, 'y') ? (int)ctx.draw(NREG) : 0; s.z = has(c.kinds, 'z') ? (int)ctx.draw(NREG) : 0;
        s.mask = 0; s.one = false;
        if (c.op == "select") { s.z = SCRATCH; s.mask = (unsigned)ctx.draw(256); s.one = ctx.draw(2); }
        s.lane = has(c.kinds, 'l') ? (unsigned)ctx.draw(MAXW) : 0;
        unsigned nm = 0; for (size_t k = 0; k < c.kinds.size(); ++k) if (c.kinds[k] == 'p') ++nm; else if (c.kinds[k] == 'A' || c.kinds[k] == 'L') nm = MAXW;
        s.mem.resize(nm);
        for (unsigned k = 0; k < nm; ++k) s.mem[k] = gen_value<F>(ctx, fl, &init[0][0], 1);
        if (c.op == "set_bitmask" || (c.fam == "int" && ctx.draw(2)) || ((c.op == "load" || c.op == "ctor" || c.op == "set") && ctx.draw(4) == 3)) for (unsigned k = 0; k < nm; ++k) s.mem[k] = from_bits<F>((typename FT<F>::U)ctx.draw(0));
        if (c.op == "set_exp" && ctx.draw(4)) s.mem[1] = (F)std::exp(((double)(int)ctx.draw(2001) - 1000) / 400);
        s.pin = gen_place(ctx); s.pout = gen_place(ctx);
    }
    unsigned judged = 0, interesting = 0;
    for (size_t l = 0; l < libs.size(); ++l) {
        PKernel dump = dump_[t] < 0 ? 0 : kernel(dump_[t], (int)l), load = load_[t] < 0 ? 0 : kernel(load_[t], (int)l);
        if (!dump || !load) continue;
        Lib const & L = libs[l]; const unsigned W = (unsigned)width(L, FT<F>::ch), bytes = W * sizeof(F);
        Arena & A = arena(); uint8_t * file = A.aux.place(2, 4096, 64, 0);
        memset(file, 0, 4096);
        void * o[2] = { file, 0 }; PArg a[4]; memset(a, 0, sizeof a);
        std::vector<std::vector<F> > reg(NREG + 1, std::vector<F>(MAXW, 0)); std::vector<F> got((NREG + 1) * W);
        for (int r = 0; r < NREG; ++r) { a[0].b = r; a[0].p = &init[r][0]; load(o, a, 0); reg[r] = init[r]; }
        std::string trace;
        for (unsigned i = 0; i < len; ++i) {
            Step<F> const & s = prog[i]; Call const & c = calls[s.call]; PKernel k = kernel(s.call, (int)l);
            if (!k) continue;
            trace += (trace.empty() ? "" : "; ") + step_str(s, W);
            if (c.op == "select") {
                std::vector<F> m(MAXW, 0); bool one = s.one && !util && L.inf(FT<F>::ch).align == sizeof(F);   // scalar builds: any non-zero value selects
                for (unsigned q = 0; q < W; ++q) m[q] = (s.mask >> q & 1) ? (one ? (F)1 : fullbits<F>(true)) : (F)0;
                a[0].b = SCRATCH; a[0].p = &m[0]; load(o, a, 0); reg[SCRATCH] = m;
            }
            bool be; Expect<F> e = expect(s, reg, W, be); if (is_port(L)) port_relax(e, s, reg, W, L, be);
            a[0].b = s.d; a[1].b = s.x; a[2].b = s.y; a[3].b = s.z;
            uint8_t * in = 0; size_t inb = 0;
            if (!s.mem.empty()) {
                bool whole = has(c.kinds, 'A') || has(c.kinds, 'L'); inb = whole ? bytes : s.mem.size() * sizeof(F);
                in = A.in[0].place(s.pin.kind, inb, has(c.kinds, 'A') ? std::max<size_t>(L.inf(FT<F>::ch).align, sizeof(F)) : sizeof(F), s.pin.off);
                A.in[0].poison(in, inb); memcpy(in, &s.mem[0], inb); a[0].p = in;
            } else a[0].p = 0;
            size_t outb = e.mem ? bytes : e.res ? sizeof(F) : 0; uint8_t * out = 0;
            if (outb) { out = A.out[0].place(s.pout.kind, outb, has(c.kinds, 'Q') ? std::max<size_t>(L.inf(FT<F>::ch).align, sizeof(F)) : sizeof(F), s.pout.off); A.out[0].poison(out, outb); }
            o[1] = out;
            ctx.where("%s build %s: %s", FT<F>::ch == 'f' ? "float" : "double", L.cfg.c_str(), trace.c_str());
            k(o, a, s.lane % W);
            #define BAD(...) { std::string msg = strf(__VA_ARGS__); ctx.fail("vec<%s> build %s (%u lanes): after %s: %s", FT<F>::ch == 'f' ? "float" : "double", L.cfg.c_str(), W, trace.c_str(), msg.c_str()); }
            if (outb) {
                long dmg = A.out[0].check(out, outb); if (dmg != LONG_MIN) BAD("wrote outside its destination at byte offset %ld", dmg)
                if (e.mem) for (unsigned q = 0; q < W; ++q) { F g; memcpy(&g, out + q * sizeof(F), sizeof(F)); if (!judge1(e.lane[q], g, be)) BAD("stored lane %u is %s, expected %s", q, show(g).c_str(), e.lane[q].str().c_str()) }
                if (e.res) { F g; memcpy(&g, out, sizeof(F)); ++judged; if (!judge1(e.r, g, be)) BAD("result is %s, expected %s", show(g).c_str(), e.r.str().c_str()) if (e.r.mode != Ref<F>::SKIP && e.r.lv != 0) ++interesting; }
            }
            if (in && memcmp(in, &s.mem[0], inb)) BAD("modified the memory it reads")
            o[1] = A.aux.place(2, 4096, 64, 100); dump(o, a, NREG + 1); memcpy(&got[0], o[1], got.size() * sizeof(F));
            if (e.swap) { std::vector<F> tmp = reg[s.d]; reg[s.d] = reg[s.x]; reg[s.x] = tmp; }
            for (int r = 0; r <= NREG; ++r) for (unsigned q = 0; q < W; ++q) {
                F g = got[r * W + q];
                if (e.dst && r == s.d && !e.swap) {
                    Ref<F> const & f = e.lane[q]; if (f.mode != Ref<F>::SKIP) { ++judged; if (f.lv != 0) ++interesting; }
                    if (f.mode != Ref<F>::SKIP && !judge1(f, g, be)) BAD("lane %u of r%d is %s, expected %s", q, r, show(g).c_str(), f.str().c_str())
                    reg[r][q] = g;
                } else if (!same(g, reg[r][q])) BAD("lane %u of %s r%d changed from %s to %s", q, e.swap ? "swapped" : "untouched", r, show(reg[r][q]).c_str(), show(g).c_str())
            }
        }
        if (l + 1 == libs.size() || ctx.desc.empty()) ctx.desc = strf("%s %s: %s", L.cfg.c_str(), FT<F>::ch == 'f' ? "float" : "double", trace.c_str());
    }
    ctx.points(judged); ctx.label(calls[S[first]].op); (void)msk;
    if (interesting) ctx.nontrivial();
}
void prog_run(Ctx & ctx)
{
    int t = (int)ctx.draw(2); if (sel[t].empty()) t = 1 - t;
    if (t) program<double>(ctx, 1); else program<float>(ctx, 0);
}
std::vector<u64> prog_prefix(u64 i, bool)
{
    std::vector<u64> p; size_t a = sel[0].size(), b = sel[1].size(); u64 k = i % (a + b);
    p.push_back(k < a ? 0 : 1); p.push_back(k < a ? k : k - a); return p;
}

// -------------------------------------------------------------------------------------------- C22
template <class F> void c22_align(Ctx & ctx, Call const & c)
{
    unsigned off = (unsigned)ctx.draw(256), off2 = (unsigned)ctx.draw(256); std::vector<F> data(8); gen_block<F>(ctx, &data[0], 8, ctx.draw(2) ? FINITE : ANY, NODOM);
    u64 pl = ctx.draw(3);
    for (size_t m = 0; m < c.impl.size(); ++m) {
        Lib const & L = libs[c.impl[m].first]; PInfo const & pi = L.inf(FT<F>::ch); Arena & A = arena();
        const unsigned reg = std::max<unsigned>(pi.align, sizeof(F)); unsigned W = (unsigned)pi.vec_size; size_t bytes = W * sizeof(F);
        PArg a[4]; memset(a, 0, sizeof a); F res[4] = { 0, 0, 0, 0 }; void * o[2] = { 0, res };
        ctx.where("%s %s build %s", c.op.c_str(), FT<F>::ch == 'f' ? "float" : "double", L.cfg.c_str());
        if (c.op == "is_aligned") {
            for (unsigned k = 0; k < 256; ++k) {       // every byte offset of four cache lines
                uintptr_t p = (uintptr_t)(A.in[0].base) + 4096 + (uintptr_t)off * 64 + k; a[0].p = (void *)p;
                c.impl[m].second(o, a, 0);
                bool want = p % reg == 0;
                if ((res[0] != 0) != want) ctx.fail("is_aligned %s build %s: address offset %u from a cache line is %s, expected %s", c.name().c_str(), L.cfg.c_str(), k, res[0] != 0 ? "accepted" : "rejected", want ? "accepted" : "rejected");
            }
            ctx.points(256); ctx.nontrivial();
        } else if (c.op == "sizes") {
            c.impl[m].second(o, a, 0);
            if (res[2] != (F)(64 / sizeof(F)) || res[1] != res[2] || res[0] < 1 || std::fmod((double)res[2], (double)res[0]) != 0 || (res[0] * sizeof(F)) < (reg > sizeof(F) ? reg : sizeof(F)))
                ctx.fail("%s build %s: register size %g, objects per cache line %g, samples per loop %g", c.name().c_str(), L.cfg.c_str(), (double)res[0], (double)res[1], (double)res[2]);
            ctx.points(1); ctx.nontrivial();
        } else {
            bool la = c.op == "load_aligned" || c.op == "both_aligned", sa = c.op == "store_aligned" || c.op == "store_stream" || c.op == "both_aligned";
            size_t inb = c.op == "load_first" ? sizeof(F) : bytes;
            // unaligned accesses: every multiple of the element size, and odd byte addresses of memory without static element type
            uint8_t * in = pl == 0 ? A.in[0].place(0, inb, la ? reg : sizeof(F), 0) : pl == 1 ? A.in[0].place(1, inb, 64, 0) : A.in[0].place(2, inb, la ? reg : sizeof(F), off);
            uint8_t * out = pl == 0 ? A.out[0].place(0, bytes, sa ? reg : sizeof(F), 0) : pl == 1 ? A.out[0].place(1, bytes, 64, 0) : A.out[0].place(2, bytes, sa ? reg : sizeof(F), off2);
            A.in[0].poison(in, inb); A.out[0].poison(out, bytes); memcpy(in, &data[0], inb);
            a[0].p = in; o[1] = out; c.impl[m].second(o, a, 0);
            if (A.out[0].check(out, bytes) != LONG_MIN) ctx.fail("%s build %s: store outside the register width", c.name().c_str(), L.cfg.c_str());
            for (unsigned q = 0; q < W; ++q) { F g, w = c.op == "load_first" && q ? (F)0 : data[q]; memcpy(&g, out + q * sizeof(F), sizeof g); if (!same(g, w)) ctx.fail("%s build %s: lane %u is %s, expected %s", c.name().c_str(), L.cfg.c_str(), q, show(g).c_str(), show(w).c_str()); }
            ctx.points(W); if (data[0] != 0) ctx.nontrivial();
        }
    }
    ctx.desc = strf("%s at offsets %u and %u", c.name().c_str(), off, off2);
}
template <class F> void c22_len(Ctx & ctx, Call const & c)
{
    const unsigned U = 64 / sizeof(F);
    Inst<F> I; I.c = &c; I.n = U * (1 + (unsigned)ctx.draw(ctx.draw(4) ? 12 : 130)); I.outlen[0] = I.n;
    for (int i = 0; i < 2; ++i) { I.po[i].kind = ctx.draw(2) ? 2 : 0; I.po[i].off = (unsigned)ctx.draw(128); }
    if (c.fam == "ew") {
        std::vector<u64> head; gen_operands(ctx, I, op_id(c.op), head);
        for (size_t i = 0; i < I.a.size(); ++i) { I.a[i].pl.kind = ctx.draw(2) ? 2 : 0; I.a[i].pl.off = (unsigned)ctx.draw(128); }
        judge(ctx, I, op_id(c.op), head);
        return;
    }
    I.a.assign(c.kinds.size(), Operand<F>());
    for (size_t i = 0; i < c.kinds.size(); ++i) {
        Operand<F> & o = I.a[i]; o.kind = c.kinds[i]; o.pl.kind = ctx.draw(2) ? 2 : 0; o.pl.off = (unsigned)ctx.draw(128);
        if (isbuf(o.kind)) { o.v.resize(o.kind == 'p' ? 1 : I.n); gen_block<F>(ctx, &o.v[0], (unsigned)o.v.size(), MODERATE, NODOM); } else { o.b = gen_value<F>(ctx, AUDIO); o.s = (F)(gen_value<F>(ctx, AUDIO) / (F)I.n); if (c.op == "exp") o.s = (F)(1 + o.s / 8); }
    }
    if (c.fam == "add") { I.init[0].resize(I.n); gen_block<F>(ctx, &I.init[0][0], I.n, MODERATE, NODOM); }
    if (c.fam == "pan") { I.nout = 2; I.outlen[1] = I.n; }
    if (c.fam == "red") { I.outlen[0] = I.outlen[1] = 1; I.nout = c.op == "hminmax" || c.op == "hmaxsum" ? 2 : 1; }
    if (c.fam == "peak") { I.nout = 2; I.outlen[0] = I.outlen[1] = 1; I.init[0].assign(1, (F)0.25); I.init[1].assign(1, (F)0.5); }
    // the plain loop of the same function accepts every length: it must agree
    const Call * plain = 0; std::string base = c.op; if (base.find("copy") == 0) base = "copy"; else if (base.find("zero") == 0) base = "zero"; else if (base.find("set") == 0) base = "set";
    for (size_t i = 0; i < calls.size(); ++i) if (calls[i].form == 's' && calls[i].type == c.type && calls[i].op == base && calls[i].kinds.size() == c.kinds.size() && (calls[i].kinds == c.kinds || calls[i].fam.substr(0, 3) == "mem")) plain = &calls[i];
    std::vector<F> a[2], b[2]; unsigned judged = 0;
    for (size_t m = 0; m < c.impl.size(); ++m) {
        execute(ctx, I, (int)m, a);
        int pm = -1; if (plain) for (size_t q = 0; q < plain->impl.size(); ++q) if (plain->impl[q].first == c.impl[m].first) pm = (int)q;
        if (pm < 0) continue;
        Inst<F> J(I); J.c = plain; execute(ctx, J, pm, b);
        for (int o = 0; o < I.nout; ++o) for (size_t k = 0; k < a[o].size(); ++k) {
            ld mag = 0, x, d; ld tol = 0;
            if (c.fam == "gen" && c.op == "exp") tol = 2 * ((ld)k + 16) * FT<F>::eps() * fabsl((ld)b[o][k]) + FT<F>::den();
            else for (size_t i = 0; i < I.a.size(); ++i) if (I.a[i].kind == 'r') { ramp_at(I.a[i].b, I.a[i].s, (unsigned)k, x, d); tol += 4 * d * (c.fam == "pan" ? fabsl((ld)I.a[0].v[k]) : 1); }
            if (c.fam == "add" && tol > 0) tol += 4 * FT<F>::eps() * fabsl((ld)I.init[0][k]);
            if (tol > 0) tol += 4 * FT<F>::eps() * fabsl((ld)b[o][k]) + 4 * FT<F>::den();
            if (c.fam == "red" || c.fam == "peak") { bool sq = c.op == "rms"; for (size_t i = 0; i < I.a[0].v.size(); ++i) mag += sq ? (ld)I.a[0].v[i] * I.a[0].v[i] : fabsl((ld)I.a[0].v[i]); bool summed = c.op == "hsum" || (c.op == "hmaxsum" && o == 1) || (sq && o == 1); tol = summed ? 2 * (ld)I.n * FT<F>::eps() * (mag + 1) : 0; }
            if (is_fma(c.impl[m].first) && tol == 0) tol = 4 * FT<F>::eps() * fabsl((ld)b[o][k]);
            ++judged;
            if (!(fabsl((ld)a[o][k] - (ld)b[o][k]) <= tol) && !same(a[o][k], b[o][k])) ctx.fail("%s build %s: output %d sample %zu is %s, plain loop gives %s", I.str().c_str(), libs[c.impl[m].first].cfg.c_str(), o, k, show(a[o][k]).c_str(), show(b[o][k]).c_str());
        }
    }
    ctx.points(judged); ctx.nontrivial(); ctx.desc = I.str();
}
void c22_run(Ctx & ctx)
{
    Call const & c = calls[sel22[ctx.draw(sel22.size())]]; ctx.label(c.fam + ":" + c.op);
    if (c.fam == "align") { if (c.type == 'f') c22_align<float>(ctx, c); else c22_align<double>(ctx, c); }
    else { if (c.type == 'f') c22_len<float>(ctx, c); else c22_len<double>(ctx, c); }
}
std::vector<u64> c22_prefix(u64 i, bool) { return std::vector<u64>(1, i % sel22.size()); }

Reg r19({ "C19", prog_run, 1500000, 20000000, prog_prefix, "a register program with at least one judged lane whose expected value is not zero", [] { init_prog("vec"); } });
Reg r20({ "C20", prog_run, 1500000, 15000000, prog_prefix, "a register program with at least one judged lane or result whose expected bits are not all zero", [] { init_prog("mask"); } });
Reg r28({ "C28", prog_run, 1000000, 10000000, prog_prefix, "a register program with at least one judged lane or result whose expected value is not zero", [] { init_prog("port"); } });
Reg r29({ "C29", prog_run, 500000, 10000000, prog_prefix, "a register program with at least one judged lane whose expected bits are not all zero", [] { init_prog("int"); } });
Reg r23({ "C23", prog_run, 1000000, 8000000, prog_prefix, "a register program with at least one judged lane or result that is not zero", [] { init_prog("util"); } });
Reg r22({ "C22", c22_run, 600000, 6000000, c22_prefix, "an address sweep, or a load/store or a call of at least one cache line with a non-zero expected sample",
    [] { arena().init(); sel22 = select_calls([](Call const & c) { return c.fam == "align" || (c.form == 'r'); }); } });
}
