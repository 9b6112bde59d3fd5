// Properties of the memory, generator, accumulation, pan, reduction and metering functions: C11..C16.
#include "run.hpp"
using namespace pbt;
namespace {
std::vector<int> sel;
std::vector<u64> prefix(u64 i, bool) { return std::vector<u64>(1, i % sel.size()); }
std::vector<u64> prefix_len(u64 i, bool)          // the 3rd to 6th case of each run-time length function: a huge block
{
    std::vector<u64> p(1, i % sel.size());
    if (i / sel.size() >= 2 && i / sel.size() < 6 && calls[sel[i % sel.size()]].form != 'c') p.push_back(LEN_HUGE);
    return p;
}
void init(std::function<bool(Call const &)> f) { arena().init(); sel = select_calls(f); }
#define DISPATCH(fn) void fn##_run(Ctx & ctx) { Call const & c = calls[sel[ctx.draw(sel.size())]]; ctx.label(c.fam + ":" + c.op + " " + c.form); if (c.type == 'f') fn<float>(ctx, c); else fn<double>(ctx, c); if (ctx.nontriv && ctx.desc.empty()) ctx.desc = c.name(); }
static const std::vector<Dom> NODOM;

template <class F> void raw_block(Src & s, std::vector<F> & v, unsigned n)      // arbitrary bit patterns
{
    v.resize(n); u64 mode = s.draw(5);
    if (mode == 3) { F x = gen_value<F>(s, ANY); for (unsigned k = 0; k < n; ++k) v[k] = x; return; }
    if (mode == 4) { Src sub(s.draw(0)); for (unsigned k = 0; k < n; ++k) v[k] = gen_value<F>(sub, ANY); return; }
    if (mode == 0) { u64 b = s.draw(0); for (unsigned k = 0; k < n; ++k) v[k] = from_bits<F>((typename FT<F>::U)b); return; }
    Src sub(s.draw(0));
    for (unsigned k = 0; k < n; ++k) {
        typename FT<F>::U u = (typename FT<F>::U)sub.draw(0);
        if (mode == 2 && sub.draw(2)) u |= (((typename FT<F>::U)1 << (FT<F>::bits - 1 - FT<F>::mant)) - 1) << FT<F>::mant;    // NaNs and infinities
        v[k] = from_bits<F>(u);
    }
}

// -------------------------------------------------------------------------------------------- C11
template <class F> void c11(Ctx & ctx, Call const & c)
{
    Inst<F> I; I.c = &c; I.n = gen_len(ctx, c); I.outlen[0] = I.n; I.po[0] = gen_place(ctx);
    if (!c.kinds.empty()) {
        I.a.resize(1); Operand<F> & o = I.a[0]; o.kind = c.kinds[0]; o.pl = gen_place(ctx);
        raw_block(ctx, o.v, o.kind == 'p' ? 1 : I.n);
    }
    std::vector<F> out[2];
    const F zero = 0;
    bool nz = false;
    for (size_t m = 0; m < c.impl.size(); ++m) {
        execute(ctx, I, (int)m, out);
        for (unsigned k = 0; k < I.n; ++k) {
            const F * e = I.a.empty() ? &zero : &I.a[0].v[I.a[0].kind == 'p' ? 0 : k];
            nz |= bits_of(*e) != 0;
            if (memcmp(e, &out[0][k], sizeof(F))) ctx.fail("%s build %s: sample %u is %s, expected %s", I.str().c_str(), libs[c.impl[m].first].cfg.c_str(), k, show(out[0][k]).c_str(), show(*e).c_str());
        }
        ctx.points(I.n);
    }
    if (nz || I.a.empty()) { ctx.nontrivial(); ctx.desc = I.str(); }
}
DISPATCH(c11)

// -------------------------------------------------------------------------------------------- C12
template <class F> F gen_start(Src & s) { F x = gen_value<F>(s, MODERATE); return x; }
template <class F> void c12(Ctx & ctx, Call const & c)
{
    Inst<F> I; I.c = &c; I.n = gen_len(ctx, c); I.outlen[0] = I.n; I.po[0] = gen_place(ctx);
    I.a.resize(1); Operand<F> & o = I.a[0]; o.kind = 'r';
    const bool ex = c.op == "exp";
    u64 k = ctx.draw(4);
    o.b = k < 3 ? gen_value<F>(ctx, MODERATE) : gen_value<F>(ctx, FINITE);
    u64 sk = ctx.draw(5);
    if (ex) {
        o.s = sk == 0 ? gen_value<F>(ctx, AUDIO) : sk == 1 ? (F)std::exp(((double)(int)ctx.draw(2001) - 1000) / 1000 * 60 / I.n)
            : sk == 2 ? (F)(1 + ((double)(int)ctx.draw(2001) - 1000) / 1e7) : sk == 3 ? -(F)std::exp(((double)(int)ctx.draw(2001) - 1000) / 1000 * 60 / I.n) : ulps((F)1, ctx.range(-8, 8));
    } else {
        o.s = gen_value<F>(ctx, k < 3 ? MODERATE : FINITE);
        if (sk == 1) o.s = (F)(o.s / I.n); else if (sk == 2) o.s = (F)(o.s * (F)1e-4); else if (sk == 3) o.s = (F)(-o.b / (F)I.n);
    }
    std::vector<ld> x(I.n), d(I.n);
    const ld eps = FT<F>::eps(), MN = FT<F>::mn(), MX = FT<F>::mx();
    unsigned judged = 0;
    bool ok = true;
    if (ex) {
        ld l = o.s == 0 ? 0 : log2l(fabsl((ld)o.s)) * (I.n + 8), lim = sizeof(F) == 4 ? 120 : 1000;
        ok = fabsl(l) < lim && (o.b == 0 || (fabsl((ld)o.b) >= MN && fabsl(log2l(fabsl((ld)o.b)) + l) < lim && fabsl(log2l(fabsl((ld)o.b))) < lim));
    } else ok = fabsl((ld)o.b) + (ld)(I.n + 16) * fabsl((ld)o.s) < MX / 2;
    ld cur = 1;
    for (unsigned j = 0; j < I.n; ++j) {
        if (!ok) { d[j] = -1; continue; }
        ++judged;
        if (ex) {
            if ((j & 1023) == 0) cur = j == 0 ? 1 : (o.s == 0 ? 0 : powl(fabsl((ld)o.s), j) * (o.s < 0 && (j & 1) ? -1 : 1));
            x[j] = (ld)o.b * cur; d[j] = j == 0 ? 0 : ((ld)j + 16) * eps * fabsl(x[j]);
            cur *= (ld)o.s;
        } else { ramp_at(o.b, o.s, j, x[j], d[j]); }
    }
    std::vector<F> out[2];
    for (size_t m = 0; m < c.impl.size(); ++m) {
        execute(ctx, I, (int)m, out);
        for (unsigned j = 0; j < I.n; ++j) if (d[j] >= 0 && !(fabsl((ld)out[0][j] - x[j]) <= d[j]))
            ctx.fail("%s build %s: sample %u is %s, expected %.20Lg +- %.3Lg", I.str().c_str(), libs[c.impl[m].first].cfg.c_str(), j, show(out[0][j]).c_str(), x[j], d[j]);
        ctx.points(judged);
    }
    if (ok && o.b != 0 && o.s != 0) { ctx.nontrivial(); ctx.desc = I.str(); }
}
DISPATCH(c12)

// -------------------------------------------------------------------------------------------- C13
template <class F> void c13(Ctx & ctx, Call const & c)
{
    Inst<F> I; I.c = &c; I.n = gen_len(ctx, c); I.outlen[0] = I.n; I.po[0] = gen_place(ctx);
    I.a.resize(1); Operand<F> & o = I.a[0]; o.kind = c.kinds[0]; o.pl = gen_place(ctx);
    unsigned fl = ctx.draw(3) == 1 ? MODERATE : o.kind == 'r' ? FINITE : ANY;
    I.init[0].resize(I.n); gen_block<F>(ctx, &I.init[0][0], I.n, fl, NODOM);
    const F * rel[1] = { &I.init[0][0] };
    if (o.kind == 'v') { o.v.resize(I.n); gen_block<F>(ctx, &o.v[0], I.n, fl, NODOM, rel, 1); }
    else {
        o.b = gen_value<F>(ctx, fl, rel[0], 1);
        if (o.kind == 'r') { o.s = gen_value<F>(ctx, fl); if (ctx.draw(2)) o.s = (F)(o.s / I.n); ld lim = FT<F>::mx() / 64; if (fabsl((ld)o.b) > lim) o.b = 1; if (fabsl((ld)o.s) * I.n > lim) o.s = (F)(1.0L / I.n); }
    }
    std::vector<F> out[2]; unsigned nz = 0;
    for (size_t m = 0; m < c.impl.size(); ++m) {
        execute(ctx, I, (int)m, out);
        for (unsigned k = 0; k < I.n; ++k) {
            F g = out[0][k], old = I.init[0][k];
            if (o.kind == 'r') {
                ld x, d; ramp_at(o.b, o.s, k, x, d); ld e = (ld)old + x; d += FT<F>::eps() * fabsl(e);
                if (fabsl(e) + d > FT<F>::mx()) continue;
                nz += m == 0 && x != 0;
                if (!(fabsl((ld)g - e) <= d)) ctx.fail("%s build %s: sample %u: %s + ramp is %s, expected %.20Lg +- %.3Lg", I.str().c_str(), libs[c.impl[m].first].cfg.c_str(), k, show(old).c_str(), show(g).c_str(), e, d);
            } else {
                F e = old + o.at(k); nz += m == 0 && o.at(k) != 0;
                if (!(bits_of(e) == bits_of(g) || (e != e && g != g))) ctx.fail("%s build %s: sample %u: %s + %s is %s, expected %s", I.str().c_str(), libs[c.impl[m].first].cfg.c_str(), k, show(old).c_str(), show(o.at(k)).c_str(), show(g).c_str(), show(e).c_str());
            }
        }
        ctx.points(I.n);
    }
    if (nz * 2 > I.n) { ctx.nontrivial(); ctx.desc = I.str(); }
}
DISPATCH(c13)

// -------------------------------------------------------------------------------------------- C14
template <class F> void c14(Ctx & ctx, Call const & c)
{
    Inst<F> I; I.c = &c; I.n = gen_len(ctx, c); I.nout = 2; I.outlen[0] = I.outlen[1] = I.n;
    I.po[0] = gen_place(ctx); I.po[1] = gen_place(ctx);
    I.a.resize(3);
    const bool rp = c.kinds[1] == 'r';
    unsigned fl = ctx.draw(3) == 1 ? AUDIO : rp ? MODERATE : ANY;
    I.a[0].kind = 'v'; I.a[0].pl = gen_place(ctx); I.a[0].v.resize(I.n); gen_block<F>(ctx, &I.a[0].v[0], I.n, fl, NODOM);
    for (int i = 1; i < 3; ++i) {
        F near[2] = { I.a[0].v[0], i == 2 ? I.a[1].b : (F)1 };
        Operand<F> & o = I.a[i]; o.kind = c.kinds[i]; o.b = gen_value<F>(ctx, fl, near, 2);
        if (rp) { o.s = gen_value<F>(ctx, fl, i == 2 ? &I.a[1].s : &o.b, 1); if (ctx.draw(2)) o.s = (F)(o.s / I.n); if (i == 2 && ctx.draw(8) == 7) { o.s = I.a[1].s * (ctx.draw(2) ? 1 : -1); if (ctx.draw(2)) o.b = (F)1 - I.a[1].b; } }
    }
    std::vector<F> out[2]; unsigned nz = 0;
    for (size_t m = 0; m < c.impl.size(); ++m) {
        execute(ctx, I, (int)m, out);
        for (int ch = 0; ch < 2; ++ch) for (unsigned k = 0; k < I.n; ++k) {
            F in = I.a[0].v[k], g = out[ch][k]; Operand<F> const & o = I.a[1 + ch];
            nz += m == 0 && in != 0 && o.b != 0;
            if (rp) {
                ld x, d; ramp_at(o.b, o.s, k, x, d); ld e = (ld)in * x, t = fabsl((ld)in) * d + FT<F>::eps() * fabsl(e) + FT<F>::den();
                if (fabsl(e) + t > FT<F>::mx()) continue;
                if (!(fabsl((ld)g - e) <= t)) ctx.fail("%s build %s: output %d sample %u of input %s is %s, expected %.20Lg +- %.3Lg", I.str().c_str(), libs[c.impl[m].first].cfg.c_str(), ch, k, show(in).c_str(), show(g).c_str(), e, t);
            } else {
                F e = in * o.b;
                if (!(bits_of(e) == bits_of(g) || (e != e && g != g))) ctx.fail("%s build %s: output %d sample %u of input %s is %s, expected %s", I.str().c_str(), libs[c.impl[m].first].cfg.c_str(), ch, k, show(in).c_str(), show(g).c_str(), show(e).c_str());
            }
        }
        ctx.points(2 * I.n);
    }
    if (nz > I.n) { ctx.nontrivial(); ctx.desc = I.str(); }
}
DISPATCH(c14)

// -------------------------------------------------------------------------------------------- C15
template <class F> void red_block(Ctx & ctx, std::vector<F> & v, unsigned n, bool finite)
{
    v.resize(n);
    u64 mode = ctx.draw(6);
    if (mode == 0) { F x = gen_value<F>(ctx, FINITE); v.assign(n, x); }
    else if (mode == 1) gen_block<F>(ctx, &v[0], n, FINITE, NODOM);
    else if (mode == 2) { Src s(ctx.draw(0)); F off = (F)((int)ctx.draw(201) - 100); for (unsigned k = 0; k < n; ++k) v[k] = off + (F)((double)(int)s.draw(20001) / 10000 - 1); }     // one-sided blocks
    else if (mode == 3) { F x = gen_value<F>(ctx, MODERATE); for (unsigned k = 0; k < n; ++k) v[k] = x; }
    else { Src s(ctx.draw(0)); for (unsigned k = 0; k < n; ++k) v[k] = (F)((double)(int)s.draw(2000001) / 1000000 - 1); }
    unsigned plants = (unsigned)ctx.draw(3);
    for (unsigned i = 0; i < plants; ++i) {       // a distinguished sample at a random position
        unsigned p = (unsigned)ctx.draw(n); u64 w = ctx.draw(6); F x = v[p];
        v[p] = w == 0 ? ulps(x, 1) : w == 1 ? ulps(x, -1) : w == 2 ? gen_value<F>(ctx, FINITE) : w == 3 ? (F)(x + (F)2) : w == 4 ? (F)(x - (F)2) : finite ? (F)0 : (ctx.draw(2) ? (F)INFINITY : -(F)INFINITY);
    }
    for (unsigned k = 0; k < n; ++k) if (v[k] != v[k]) v[k] = 0;
}
template <class F> void c15(Ctx & ctx, Call const & c)
{
    Inst<F> I; I.c = &c; I.n = gen_len(ctx, c);
    const bool hassum = c.op == "hsum" || c.op == "hmaxsum";
    I.nout = c.op == "hminmax" || c.op == "hmaxsum" ? 2 : 1;
    I.outlen[0] = 1; I.outlen[1] = 1;
    I.a.resize(1); I.a[0].kind = 'v'; I.a[0].pl = gen_place(ctx);
    red_block(ctx, I.a[0].v, I.n, hassum);
    std::vector<F> const & v = I.a[0].v;
    F mn = v[0], mx = v[0]; ld sum = 0, mag = 0;
    for (unsigned k = 0; k < I.n; ++k) { mn = std::min(mn, v[k]); mx = std::max(mx, v[k]); sum += v[k]; mag += fabsl((ld)v[k]); }
    ld tol = (ld)I.n * FT<F>::eps() * mag; bool sumok = mag < FT<F>::mx() / 2;
    std::vector<F> out[2];
    for (size_t m = 0; m < c.impl.size(); ++m) {
        execute(ctx, I, (int)m, out);
        const char * cfg = libs[c.impl[m].first].cfg.c_str();
        F gmin = 0, gmax = 0, gsum = 0; bool hmin = false, hmax = false;
        if (c.op == "hmin") { gmin = out[0][0]; hmin = true; } else if (c.op == "hmax") { gmax = out[0][0]; hmax = true; } else if (c.op == "hsum") gsum = out[0][0];
        else if (c.op == "hminmax") { gmin = out[0][0]; gmax = out[1][0]; hmin = hmax = true; } else { gmax = out[0][0]; gsum = out[1][0]; hmax = true; }
        if (hmin && gmin != mn) ctx.fail("%s build %s: minimum is %s, expected %s", I.str().c_str(), cfg, show(gmin).c_str(), show(mn).c_str());
        if (hmax && gmax != mx) ctx.fail("%s build %s: maximum is %s, expected %s", I.str().c_str(), cfg, show(gmax).c_str(), show(mx).c_str());
        if (hassum && sumok && !(fabsl((ld)gsum - sum) <= tol)) ctx.fail("%s build %s: sum is %s, expected %.20Lg +- %.3Lg", I.str().c_str(), cfg, show(gsum).c_str(), sum, tol);
        ctx.points(1);
    }
    if (mn != mx) { ctx.nontrivial(); ctx.desc = I.str() + strf(" min %.9g max %.9g", (double)mn, (double)mx); }
}
DISPATCH(c15)

// -------------------------------------------------------------------------------------------- C16
template <class F> void c16(Ctx & ctx, Call const & c)
{
    // one history, metered in every build, with the plain and the vectorised form freely mixed
    const bool rms = c.op == "rms";
    const Call * plain = 0, * simd = 0;
    for (size_t i = 0; i < sel.size(); ++i) { Call const & x = calls[sel[i]]; if (x.op == c.op && x.type == c.type) { if (x.form == 's') plain = &x; else simd = &x; } }
    const unsigned unit = 64 / sizeof(F);
    unsigned nb = 1 + (unsigned)ctx.draw(8);
    F peak0, sq0;
    u64 ik = ctx.draw(4);
    peak0 = ik == 0 ? 0 : std::fabs(gen_value<F>(ctx, ik == 1 ? FINITE : AUDIO));
    sq0 = ik == 0 ? 0 : std::fabs(gen_value<F>(ctx, MODERATE));
    std::vector<std::vector<F> > blk(nb); std::vector<int> form(nb);
    for (unsigned b = 0; b < nb; ++b) {
        form[b] = c.form == 's' ? (int)ctx.draw(2) : 1 - (int)ctx.draw(2);
        unsigned n = form[b] ? unit * (1 + (unsigned)ctx.draw(4)) : 1 + (unsigned)ctx.draw(ctx.draw(4) ? 20 : 200);
        u64 big = ctx.draw(20000);
        if (big == 19999 && nb < 4) n = form[b] ? unit * (65537 + (unsigned)ctx.draw(64)) : 65537 + (unsigned)ctx.draw(900000);
        else if (big >= 19900) n = form[b] ? unit * (1 + (unsigned)ctx.draw(1000)) : 1 + (unsigned)ctx.draw(20000);
        red_block(ctx, blk[b], n, true);
        u64 sc = ctx.draw(4);           // quiet blocks keep the peak from before
        if (sc == 1) for (unsigned k = 0; k < n; ++k) blk[b][k] *= (F)1e-3; else if (sc == 2) for (unsigned k = 0; k < n; ++k) blk[b][k] = 0;
    }
    std::set<int> common;
    for (size_t m = 0; m < plain->impl.size(); ++m) common.insert(plain->impl[m].first);
    bool interesting = false;
    for (size_t m = 0; m < simd->impl.size(); ++m) {
        int lib = simd->impl[m].first; if (!common.count(lib)) continue;
        int pm = 0; while (plain->impl[pm].first != lib) ++pm;
        F peak = peak0, sq = sq0; F epeak = peak0; ld esq = sq0; u64 seen = 0; bool sqok = true;
        for (unsigned b = 0; b < nb; ++b) {
            Inst<F> I; I.c = form[b] ? simd : plain; I.n = (unsigned)blk[b].size(); I.nout = 2; I.outlen[0] = I.outlen[1] = 1;
            I.init[0].assign(1, peak); if (rms) I.init[1].assign(1, sq);
            I.a.resize(1); I.a[0].kind = 'v'; I.a[0].v = blk[b]; I.a[0].pl.kind = (b + m) & 1;
            std::vector<F> out[2];
            execute(ctx, I, form[b] ? (int)m : pm, out);
            F mag = 0;
            for (unsigned k = 0; k < I.n; ++k) { mag = std::max(mag, std::fabs(blk[b][k])); esq += (ld)blk[b][k] * blk[b][k]; }
            seen += I.n;
            if (mag < epeak && mag > 0) interesting = true;
            epeak = std::max(epeak, mag);
            peak = out[0][0];
            const char * cfg = libs[lib].cfg.c_str();
            if (peak != epeak) ctx.fail("%s build %s: block %u of %u: peak is %s, expected %s (initial peak %s)", I.str().c_str(), cfg, b, nb, show(peak).c_str(), show(epeak).c_str(), show(peak0).c_str());
            if (!rms) { F last = std::fabs(blk[b].back()); if (out[1][0] != last) ctx.fail("%s build %s: block %u: returned %s, expected magnitude of the last sample %s", I.str().c_str(), cfg, b, show(out[1][0]).c_str(), show(last).c_str()); }
            else {
                sq = out[1][0];
                if (!(esq < FT<F>::mx() / 4)) sqok = false;
                ld tol = ((ld)seen + 16 * (b + 1)) * (FT<F>::eps() * esq + FT<F>::den());
                if (sqok && !(fabsl((ld)sq - esq) <= tol)) ctx.fail("%s build %s: block %u of %u: squared sum is %s, expected %.20Lg +- %.3Lg", I.str().c_str(), cfg, b, nb, show(sq).c_str(), esq, tol);
            }
            ctx.points(1);
        }
    }
    if (interesting || nb > 2) { ctx.nontrivial(); ctx.desc = c.name() + strf(" history of %u blocks, initial peak %.9g energy %.9g, lengths", nb, (double)peak0, (double)sq0); for (unsigned b = 0; b < nb; ++b) ctx.desc += strf(" %zu%c", blk[b].size(), form[b] ? 'v' : 'p'); }
}
DISPATCH(c16)

Reg r11({ "C11", c11_run, 1000000, 20000000, prefix_len, "fill or copy of a block that is not all zero bits (or zeroing of a poisoned block)", [] { init([](Call const & c) { return c.fam == "mem" || c.fam == "memu"; }); } });
Reg r12({ "C12", c12_run, 2500000, 20000000, prefix_len, "non-zero start and slope/factor, all samples inside the specified range", [] { init([](Call const & c) { return c.fam == "gen"; }); } });
Reg r13({ "C13", c13_run, 1000000, 20000000, prefix_len, "more than half of the addends are non-zero", [] { init([](Call const & c) { return c.fam == "add"; }); } });
Reg r14({ "C14", c14_run, 1000000, 20000000, prefix_len, "more than half of the inputs and gains are non-zero", [] { init([](Call const & c) { return c.fam == "pan"; }); } });
Reg r15({ "C15", c15_run, 2500000, 20000000, prefix_len, "minimum and maximum of the block differ", [] { init([](Call const & c) { return c.fam == "red"; }); } });
Reg r16({ "C16", c16_run, 1200000, 8000000, prefix, "history of more than two blocks, or a block quieter than the peak before it", [] { init([](Call const & c) { return c.fam == "peak"; }); } });
}
