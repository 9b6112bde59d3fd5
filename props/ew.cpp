// Properties of single element-wise functions: C01..C07, C09, C10.
#include "ewgen.hpp"
using namespace pbt;
namespace {
std::vector<int> sel, sweepsel;
unsigned unary_len(Src & s, Call const & c)
{
    if (c.form == 'c') return c.N;
    unsigned unit = len_unit(c);
    u64 k = s.draw(LEN_HUGE + 1);
    if (k == LEN_HUGE) return huge_len(s, c);
    k /= 6250;
    if (k < 8) return unit * (1 + (unsigned)s.draw(unit == 1 ? 40 : 6));
    if (k < 15) return unit * (1 + (unsigned)s.draw(1024 / unit));
    return unit * (1 + (unsigned)s.draw(8192 / unit));
}
// sweep 1: 65536 consecutive bit patterns; sweep 2: one pattern out of every 256 between two multiples of 2^24
template <class F> void sweep_block(Ctx & ctx, unsigned sweep, std::vector<F> & v)
{
    u64 chunk = ctx.draw(sweep == 1 ? 65536 : 256);
    v.resize(65536);
    if (sweep == 1) for (unsigned k = 0; k < 65536; ++k) v[k] = (F)from_bits<float>((uint32_t)(chunk << 16 | k));
    else { Src low(ctx.draw(0)); for (unsigned k = 0; k < 65536; ++k) v[k] = (F)from_bits<float>((uint32_t)(chunk << 24 | k << 8 | low.draw(256))); }
}
template <class F> void one(Ctx & ctx, Call const & c, int op, unsigned sweep)
{
    Inst<F> I; I.c = &c; std::vector<u64> head;
    if (sweep) {
        I.a.resize(1); I.a[0].kind = 'v'; sweep_block(ctx, sweep, I.a[0].v);
        I.n = 65536; I.outlen[0] = I.n;
        head.push_back(0); size_t ci = 0; while (ci < sel.size() && &calls[sel[ci]] != &c) ++ci;
        head.push_back(ci); head.push_back(0); head.push_back(0); head.push_back(0); head.push_back(0);
        judge(ctx, I, op, head);
        return;
    }
    I.n = c.kinds.size() == 1 ? unary_len(ctx, c) : gen_len(ctx, c);
    I.po[0] = gen_place(ctx);
    Place pl[4]; for (size_t i = 0; i < c.kinds.size(); ++i) if (isbuf(c.kinds[i])) pl[i] = gen_place(ctx);
    gen_operands(ctx, I, op, head);
    for (size_t i = 0; i < c.kinds.size(); ++i) if (isbuf(c.kinds[i])) I.a[i].pl = pl[i];
    I.outlen[0] = I.n;
    judge(ctx, I, op, head);
}
void run(Ctx & ctx)
{
    unsigned sweep = sweepsel.empty() ? 0 : (unsigned)ctx.draw(3);
    Call const & c = calls[sweep ? sweepsel[ctx.draw(sweepsel.size())] : sel[ctx.draw(sel.size())]];
    int op = op_id(c.op);
    if (c.type == 'f') one<float>(ctx, c, op, sweep); else one<double>(ctx, c, op, sweep);
}
std::vector<u64> prefix(u64 i, bool thorough)
{
    std::vector<u64> p;
    if (thorough && !sweepsel.empty()) {
        // random cases first; then every bit pattern, operations in turn and blocks in scattered order, so that a run that ends early has seen all regions
        const u64 random = 1000000, n = sweepsel.size();
        if (i >= random && i - random < n * 65536) { i -= random; p.push_back(1); p.push_back(i % n); p.push_back((i / n * 40503) % 65536); return p; }
        if (i >= random) i -= n * 65536;
    }
    if (!thorough) {
        const u64 strided = (u64)sweepsel.size() * 256;
        if (i < strided) { p.push_back(2); p.push_back(i / 256); p.push_back(i % 256); return p; }
        i -= strided;
    }
    if (!sweepsel.empty()) p.push_back(0);
    p.push_back(i % sel.size());
    if (i / sel.size() == 2 && calls[sel[i % sel.size()]].form != 'c') p.push_back(LEN_HUGE);
    return p;
}
void init(int lo, int hi, std::function<bool(Call const &)> f, bool sweep)
{
    arena().init();
    sel = select_calls([&](Call const & c) { int o = op_id(c.op); return c.fam == "ew" && o >= lo && o <= hi && f(c); });
    if (sweep) for (size_t i = 0; i < calls.size(); ++i) { int o = op_id(calls[i].op); if (calls[i].fam == "ew" && o >= lo && o <= hi && f(calls[i]) && calls[i].type == 'f' && calls[i].form != 'c' && calls[i].kinds == "v") sweepsel.push_back((int)i); }
}
// -------------------------------------------------------------------------------------------- C08
bool float_simd(int lib) { std::string const & c = libs[lib].cfg; return c.find("sse2") == 0 || c == "sse3" || c == "sse41" || c.find("avx") == 0 || c == "fma"; }
template <class F> void c08_check(Ctx & ctx, Inst<F> const & I, int op, int m, F x, F y, F z, unsigned k, unsigned & judged, std::vector<u64> const & head, Ref<F> const & r)   // y = f(x), z = f(-x)
{
    Call const & c = *I.c; const char * cfg = libs[c.impl[m].first].cfg.c_str(); const char * what = 0;
    if (x != x) return;
    bool vf = c.type == 'f' && c.form != 's' && float_simd(c.impl[m].first);
    ld ax = fabsl((ld)x);
    const ld pi2 = 1.57079632679489661923L;
    if (vf) switch (op) {
        case O_exp: ++judged;
            if (!(y >= 0 && y <= FLT_MAX)) what = "a finite non-negative value";
            else if (x >= 88.723 && y != FLT_MAX) what = "the largest finite float";
            else if (x < -88 && y != 0) what = "0";
            else if (x < -87.34 && y > 1.2e-38) what = "a value below 1.2e-38";
            break;
        case O_asin: case O_acos: if (ax > 1) { ++judged; if (y != 0) what = "0"; } break;
        case O_tanh: if (ax > 22) { ++judged; if (y != (x > 0 ? 1 : -1)) what = "+-1"; } break;
        case O_atan: if (ax > FLT_MAX) { ++judged; if (!(fabsl((ld)y - (x > 0 ? pi2 : -pi2)) <= 2e-7L)) what = "+-pi/2"; } break;
    }
    if (!what) switch (op) {
        case O_tanh: ++judged; if (!(y >= -1 && y <= 1)) what = "a value in [-1, 1]"; break;
        case O_sin: case O_cos: if (ax <= 8192) { ++judged; if (!(fabsl((ld)y) <= 1 + 2e-7L)) what = "a value in [-1-2e-7, 1+2e-7]"; } break;
        case O_atan: ++judged; if (!(fabsl((ld)y) <= pi2 + 2e-7L)) what = "a value in [-pi/2, pi/2]"; break;
    }
    if (!what && op != O_exp && op != O_acos) {
        if (r.mode == Ref<F>::TOL && !(fabsl((ld)z + (op == O_cos ? -(ld)y : (ld)y)) <= 2 * r.tol)) what = "a value symmetric to the result for the negated argument";
        if (r.mode == Ref<F>::TOL) ++judged;
    }
    if (what && !head.empty()) { std::vector<u64> s(head); s.push_back(0); s.push_back((u64)bits_of(x)); ctx.suggest(s); }
    if (what) ctx.fail("%s build %s n=%u: sample %u of %s is %s (%s for the negated argument), expected %s", c.name().c_str(), cfg, I.n, k, show(x).c_str(), show(y).c_str(), show(z).c_str(), what);
}
template <class F> void c08(Ctx & ctx, Call const & c, int op, unsigned sweep)
{
    Inst<F> I; I.c = &c; std::vector<u64> head; I.a.resize(1); I.a[0].kind = 'v';
    if (sweep) {
        sweep_block(ctx, sweep, I.a[0].v); I.n = 65536;
    } else {
        I.n = unary_len(ctx, c); I.po[0] = gen_place(ctx); Place pl = gen_place(ctx);
        std::vector<Dom> d = domains(op, true); Dom e[] = { { -3.4e38, 3.4e38 }, { 85, 92 }, { -92, -85 }, { 0.99, 1.01 }, { -1.01, -0.99 }, { 20, 24 } }; d.insert(d.end(), e, e + 6);
        if (ctx.sh) head.assign(ctx.sh->choices, ctx.sh->choices + ctx.pos);
        I.a[0].v.resize(I.n); gen_block<F>(ctx, &I.a[0].v[0], I.n, ANY, d); I.a[0].pl = pl;
    }
    I.outlen[0] = I.n;
    Inst<F> J(I); for (unsigned k = 0; k < I.n; ++k) J.a[0].v[k] = -J.a[0].v[k];
    unsigned judged = 0; std::vector<F> o1[2], o2[2]; std::vector<Ref<F> > ref(I.n);
    if (op != O_exp && op != O_acos) for (unsigned k = 0; k < I.n; ++k) if (I.a[0].v[k] == I.a[0].v[k]) ref[k] = reference<F>(op, &I.a[0].v[k]);
    for (size_t m = 0; m < c.impl.size(); ++m) {
        execute(ctx, I, (int)m, o1); execute(ctx, J, (int)m, o2);
        for (unsigned k = 0; k < I.n; ++k) {
            c08_check(ctx, I, op, (int)m, I.a[0].v[k], o1[0][k], o2[0][k], k, judged, head, ref[k]);
        }
    }
    ctx.points(judged); ctx.label(c.op);
    if (judged >= I.n) { ctx.nontrivial(); ctx.desc = I.str(); }
}
void run08(Ctx & ctx)
{
    unsigned sweep = sweepsel.empty() ? 0 : (unsigned)ctx.draw(3);
    Call const & c = calls[sweep ? sweepsel[ctx.draw(sweepsel.size())] : sel[ctx.draw(sel.size())]];
    int op = op_id(c.op);
    if (c.type == 'f') c08<float>(ctx, c, op, sweep); else c08<double>(ctx, c, op, sweep);
}
bool nolog(Call const & c) { return c.op.find("log") == std::string::npos; }
bool all(Call const &) { return true; }
bool noramp(Call const & c) { return !has(c.kinds, 'r'); }
bool ramp(Call const & c) { return has(c.kinds, 'r'); }
const char * RULE = "at least a quarter of the samples have a specified, finite, non-zero reference value";
#define SW(ops) (65536ull * 2 * (ops))
Reg r1({ "C01", run, 1500000, 20000000, prefix, RULE, [] { init(O_plus, O_clip2, noramp, false); } });
Reg r2({ "C02", run, 1200000, 20000000, prefix, RULE, [] { init(O_sum2, O_sum4, noramp, false); } });
Reg r3({ "C03", run, 800000, 20000000, prefix, RULE, [] { init(O_plus, O_spow, ramp, false); } });
Reg r4({ "C04", run, 1500000, SW(6) + 1000000, prefix, RULE, [] { init(O_abs, O_reciprocal, all, true); } });
Reg r5({ "C05", run, 1500000, SW(5) + 1000000, prefix, RULE, [] { init(O_round, O_trunc, all, true); } });
Reg r6({ "C06", run, 1000000, SW(11) + 1000000, prefix, RULE, [] { init(O_sin, O_exp, all, true); } });
Reg r7({ "C07", run, 2000000, SW(1) + 3000000, prefix, RULE, [] { init(O_pow, O_spow, noramp, true); std::vector<int> a = sel; init(O_signed_sqrt, O_signed_sqrt, all, true); sel.insert(sel.end(), a.begin(), a.end()); } });
Reg r8({ "C08", run08, 300000, SW(8) + 1000000, prefix, "on average at least one specified condition per sample was checked", [] { init(O_sin, O_exp, nolog, true); } });
Reg r9({ "C09", run, 1200000, SW(8) + 1000000, prefix, RULE, [] { init(O_midi2freq, O_db2amp, all, true); } });
Reg r10({ "C10", run, 1500000, SW(1) + 1000000, prefix, RULE, [] { init(O_softclip, O_softclip, all, true); } });
}
