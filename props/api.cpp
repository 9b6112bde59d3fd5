// Properties over the whole buffer API: C17 (memory safety), C18 (aliasing), C21 (locality), C24 (equivalent forms), C25 (purity), C30 (no undefined behaviour).
#include "ewgen.hpp"
#include <fenv.h>
#include <pthread.h>
#include <link.h>
#include <dlfcn.h>
#include <atomic>
#include <xmmintrin.h>
using namespace pbt;
namespace {
std::vector<int> sel;
std::vector<u64> prefix(u64 i, bool) { return std::vector<u64>(1, i % sel.size()); }
std::vector<u64> prefix_len(u64 i, bool)          // a huge block for some of the run-time length functions
{
    std::vector<u64> p(1, i % sel.size());
    if (i / sel.size() == 2 && calls[sel[i % sel.size()]].form != 'c' && (i * 2654435761u >> 8) % 8 == 0) p.push_back(LEN_HUGE);
    return p;
}
static const std::vector<Dom> NODOM;
bool samplewise(Call const & c) { return c.fam == "ew" || c.fam == "add" || c.fam == "pan" || (c.op.find("copy") == 0); }
const char * cfgname(Call const & c, size_t m) { return libs[c.impl[m].first].cfg.c_str(); }

// operands for any function of the API
template <class F> void gen_any(Ctx & ctx, Inst<F> & I, Call const & c, unsigned n, bool guard)
{
    I.c = &c; I.n = n; I.outlen[0] = n;
    for (int i = 0; i < 2; ++i) { I.po[i] = gen_place(ctx); if (guard && I.po[i].kind == 2) I.po[i].kind = 0; }
    std::vector<u64> head;
    if (c.fam == "ew") gen_operands(ctx, I, op_id(c.op), head);
    else {
        unsigned fl = ctx.draw(2) ? MODERATE : FINITE;
        I.a.assign(c.kinds.size(), Operand<F>());
        for (size_t i = 0; i < c.kinds.size(); ++i) {
            Operand<F> & o = I.a[i]; o.kind = c.kinds[i];
            if (isbuf(o.kind)) { o.v.resize(o.kind == 'p' ? 1 : n); gen_block<F>(ctx, &o.v[0], (unsigned)o.v.size(), fl, NODOM); }
            else { o.b = gen_value<F>(ctx, AUDIO); if (o.kind == 'r') o.s = c.op == "exp" ? (F)(1 + ((double)(int)ctx.draw(201) - 100) / 1e4 / n) : (F)(gen_value<F>(ctx, AUDIO) / (F)n); }
        }
        if (c.fam == "add") { I.init[0].resize(n); gen_block<F>(ctx, &I.init[0][0], n, fl, NODOM); }
        if (c.fam == "pan") { I.nout = 2; I.outlen[1] = n; }
        if (c.fam == "red") { I.outlen[0] = I.outlen[1] = 1; I.nout = c.op == "hminmax" || c.op == "hmaxsum" ? 2 : 1; }
        if (c.fam == "peak") { I.nout = 2; I.outlen[0] = I.outlen[1] = 1; I.init[0].assign(1, (F)0.25); I.init[1].assign(1, (F)0.5); }
    }
    for (size_t i = 0; i < I.a.size(); ++i) { I.a[i].pl = gen_place(ctx); if (guard && I.a[i].pl.kind == 2 && I.a[i].kind != 'u') I.a[i].pl.kind = 0; }
}
#define DISPATCH(fn) void fn##_run(Ctx & ctx) { Call const & c = calls[sel[ctx.draw(sel.size())]]; ctx.label(c.fam + ":" + c.op); ctx.label(strf("form %c %c", c.form, c.type)); if (c.type == 'f') fn<float>(ctx, c); else fn<double>(ctx, c); }

// -------------------------------------------------------------------------------------------- C17
template <class F> void c17(Ctx & ctx, Call const & c)
{
    Inst<F> I; gen_any(ctx, I, c, gen_len(ctx, c), true);
    std::vector<F> out[2];
    for (size_t m = 0; m < c.impl.size(); ++m) { execute(ctx, I, (int)m, out); ctx.points(1); }
    ctx.nontrivial();
    ctx.desc = I.str() + strf(" output at guard page %s", I.po[0].kind == 0 ? "end" : "start");
}
DISPATCH(c17)

// -------------------------------------------------------------------------------------------- C30
// builds "ubX" trap on undefined behaviour and start locals from a byte pattern, builds "zX" from zero
template <class F> void c30(Ctx & ctx, Call const & c)
{
    Inst<F> I; gen_any(ctx, I, c, gen_len(ctx, c, 20000), false);
    if (ctx.draw(3) == 0) {                                  // any bit pattern, beyond what a function is specified for
        Src sub(ctx.draw(0));
        for (size_t i = 0; i < I.a.size(); ++i) {
            Operand<F> & o = I.a[i];
            if (sub.draw(2)) o.b = gen_value<F>(sub, ANY);
            if (o.kind == 'r' && sub.draw(2)) o.s = gen_value<F>(sub, ANY);
            for (size_t k = 0; k < o.v.size(); ++k) o.v[k] = gen_value<F>(sub, ANY);
        }
        ctx.label("any bit pattern");
    }
    std::vector<F> a[2], b[2]; unsigned pairs = 0;
    for (size_t m = 0; m < c.impl.size(); ++m) {
        std::string cfg = cfgname(c, m); if (cfg.compare(0, 2, "ub")) continue;
        execute(ctx, I, (int)m, a);
        for (size_t z = 0; z < c.impl.size(); ++z) {
            if ("z" + cfg.substr(2) != cfgname(c, z)) continue;
            execute(ctx, I, (int)z, b); ++pairs;
            for (int o = 0; o < I.nout; ++o) for (size_t k = 0; k < a[o].size(); ++k) {
                F g = a[o][k], h = b[o][k];
                if (bits_of(g) != bits_of(h) && !(g != g && h != h))
                    ctx.fail("%s builds %s and %s: output %d sample %zu is %s or %s depending on the initial contents of uninitialised variables", I.str().c_str(), cfg.c_str(), cfgname(c, z), o, k, show(g).c_str(), show(h).c_str());
            }
        }
    }
    ctx.points(pairs); if (pairs) { ctx.nontrivial(); ctx.desc = I.str(); }
}
DISPATCH(c30)

// are g and h both possible results of the same computation?  same: same code on the same values is expected
template <class F> bool compat(Ref<F> const & r, F g, F h, bool strict)
{
    if (bits_of(g) == bits_of(h) || (g != g && h != h)) return true;
    switch (r.mode) {
    case Ref<F>::TOL: return r.ok(g) && r.ok(h);
    case Ref<F>::EITHER: return strict ? g == h : r.ok(g) && r.ok(h);
    case Ref<F>::SKIP: return strict ? g == h : true;
    default: return g == h;
    }
}

// -------------------------------------------------------------------------------------------- C18
template <class F> void c18(Ctx & ctx, Call const & c)
{
    Inst<F> I; gen_any(ctx, I, c, gen_len(ctx, c), false);
    std::vector<int> bufs; for (size_t i = 0; i < I.a.size(); ++i) if (isbuf(I.a[i].kind)) bufs.push_back((int)i);
    int alias[4] = { 0, 0, 0, 0 }, share[4] = { 0, 0, 0, 0 };
    u64 pat = ctx.draw((1u << bufs.size()) - 1) + 1;            // non-empty set of operands living in the output
    int first = -1;
    for (size_t q = 0; q < bufs.size(); ++q) if (pat >> q & 1) {
        alias[bufs[q]] = I.nout == 2 ? 1 + (int)ctx.draw(2) : 1;
        if (first < 0) first = bufs[q]; else I.a[bufs[q]].v = I.a[first].v;
    }
    if (bufs.size() > 1 && ctx.draw(2)) {                       // two plain inputs in one buffer
        int prev = -1;
        for (size_t q = 0; q < bufs.size(); ++q) if (!(pat >> q & 1)) { if (prev >= 0) { share[bufs[q]] = prev + 1; I.a[bufs[q]].v = I.a[prev].v; } else prev = bufs[q]; }
    }
    if (c.fam == "add") I.init[0] = I.a[first].v;
    const int op = c.fam == "ew" ? op_id(c.op) : -1;
    std::vector<F> a[2], b[2];
    for (size_t m = 0; m < c.impl.size(); ++m) {
        execute(ctx, I, (int)m, a);
        execute(ctx, I, (int)m, b, alias, share);
        bool fma = is_fma(c.impl[m].first);
        for (int o = 0; o < I.nout; ++o) for (unsigned k = 0; k < I.n; ++k) {
            F g = a[o][k], h = b[o][k];
            if (bits_of(g) == bits_of(h) || (g != g && h != h)) continue;
            Ref<F> r = op >= 0 ? ref_at(I, op, k) : fma ? Ref<F>::tolerance(g, 4 * FT<F>::eps() * fabsl((ld)g)) : Ref<F>::exactbits(g);
            if (!fma || !compat(r, g, h, false)) ctx.fail("%s build %s: operands aliasing the output: mask 0x%llx: output %d sample %u is %s, with distinct buffers %s", I.str().c_str(), cfgname(c, m), (unsigned long long)pat, o, k, show(h).c_str(), show(g).c_str());
        }
        ctx.points(I.n);
    }
    ctx.nontrivial(); ctx.desc = I.str() + strf(" alias mask 0x%llx", (unsigned long long)pat);
}
DISPATCH(c18)

// -------------------------------------------------------------------------------------------- C21
template <class F> Inst<F> slice(Inst<F> const & I, const Call * c, unsigned from, unsigned n)
{
    Inst<F> J(I); J.c = c; J.n = n; J.outlen[0] = n; if (I.nout == 2) J.outlen[1] = n;
    if (!I.init[0].empty()) J.init[0].assign(I.init[0].begin() + from, I.init[0].begin() + from + n);
    for (size_t i = 0; i < I.a.size(); ++i) {
        if (isbuf(I.a[i].kind)) J.a[i].v.assign(I.a[i].v.begin() + from, I.a[i].v.begin() + from + n);
        if (I.a[i].kind == 'r') J.a[i].b = (F)(I.a[i].b + (F)from * I.a[i].s);
    }
    return J;
}
int impl_of(Call const & c, int lib) { for (size_t m = 0; m < c.impl.size(); ++m) if (c.impl[m].first == lib) return (int)m; return -1; }
template <class F> void c21(Ctx & ctx, Call const & c)
{
    const bool rp = has(c.kinds, 'r');
    unsigned n = gen_len(ctx, c, 20000);
    Inst<F> I; gen_any(ctx, I, c, n, false);
    u64 what = rp ? 2 : ctx.draw(3);
    const int op = c.fam == "ew" ? op_id(c.op) : -1;
    Inst<F> J(I); unsigned pos = 0; std::vector<unsigned> perm(n);
    for (unsigned k = 0; k < n; ++k) perm[k] = k;
    unsigned unit = 1, cut = 0; const Call * c1 = &c, * c2 = &c; 
    if (what == 0) {                                        // replace all other samples
        pos = (unsigned)ctx.draw(n);
        Inst<F> K; Src sub(ctx.draw(0)); Ctx cc; cc.rng = sub.rng; cc.replay_only = false;
        gen_any(cc, K, c, n, false);
        for (size_t i = 0; i < I.a.size(); ++i) if (isbuf(I.a[i].kind)) { F keep = I.a[i].v[pos]; J.a[i].v = K.a[i].v; J.a[i].v[pos] = keep; }
        if (!I.init[0].empty()) { F keep = I.init[0][pos]; J.init[0] = K.init[0]; J.init[0][pos] = keep; }
    } else if (what == 1) {                                 // permute
        if (ctx.draw(2)) { unsigned s = (unsigned)ctx.draw(n); for (unsigned k = 0; k < n; ++k) perm[k] = (k + s) % n; }
        else { Src sub(ctx.draw(0)); for (unsigned k = n; k > 1; --k) std::swap(perm[k - 1], perm[sub.draw(k)]); }
        for (size_t i = 0; i < I.a.size(); ++i) if (isbuf(I.a[i].kind)) for (unsigned k = 0; k < n; ++k) J.a[i].v[perm[k]] = I.a[i].v[k];
        if (!I.init[0].empty()) for (unsigned k = 0; k < n; ++k) J.init[0][perm[k]] = I.init[0][k];
    } else {                                                // split into two calls
        const Call * plain = 0, * simd = 0;
        for (size_t i = 0; i < sel.size(); ++i) { Call const & x = calls[sel[i]]; if (x.fam == c.fam && x.op == c.op && x.type == c.type && x.kinds == c.kinds) { if (x.form == 's') plain = &x; else if (x.form == 'r') simd = &x; } }
        unit = 64 / sizeof(F);
        if (c.form == 's' || (plain && ctx.draw(2))) { unit = plain ? 1 : unit; c1 = c2 = plain ? plain : simd; } else c1 = c2 = simd ? simd : &c;
        if (c1->form == 's') { if (n < 2) ctx.discard(); cut = 1 + (unsigned)ctx.draw(n - 1); if (simd && n % (64 / sizeof(F)) == 0 && cut % (64 / sizeof(F)) == 0) c2 = simd; }
        else { if (n < 2 * unit || c1->form == 'c') ctx.discard(); cut = unit * (1 + (unsigned)ctx.draw(n / unit - 1)); if (cut >= n) cut = n - unit; }
    }
    std::vector<F> a[2], b[2], b2[2];
    std::vector<Ref<F> > refs; bool have = false; unsigned judged = 0;
    for (size_t m = 0; m < c.impl.size(); ++m) {
        int lib = c.impl[m].first;
        execute(ctx, I, (int)m, a);
        if (what < 2) execute(ctx, J, (int)m, b);
        else {
            int m1 = impl_of(*c1, lib), m2 = impl_of(*c2, lib); if (m1 < 0 || m2 < 0) continue;
            Inst<F> A = slice(I, c1, 0, cut), B = slice(I, c2, cut, n - cut);
            execute(ctx, A, m1, b); execute(ctx, B, m2, b2);
            for (int o = 0; o < I.nout; ++o) b[o].insert(b[o].end(), b2[o].begin(), b2[o].end());
        }
        bool strict = !is_fma(lib) && (what < 2 || (c1->form == c.form && c2->form == c.form && !rp));
        for (int o = 0; o < I.nout; ++o) for (unsigned k = 0; k < n; ++k) {
            if (what == 0 && k != pos) continue;
            F g = a[o][k], h = b[o][perm[k]];
            if (bits_of(g) == bits_of(h) || (g != g && h != h)) { ++judged; continue; }
            Ref<F> r;
            if (op >= 0) r = ref_at(I, op, k);
            else if (rp) {                                  // accumulate or pan with a ramp
                ld x, d, in = c.fam == "pan" ? fabsl((ld)I.a[0].v[k]) : 1; Operand<F> const & ro = I.a[c.fam == "pan" ? 1 + o : 0];
                ramp_at(ro.b, ro.s, k, x, d); r = Ref<F>::tolerance(g, 2 * d * in + 4 * FT<F>::eps() * fabsl((ld)g) + 2 * FT<F>::den());
            } else r = is_fma(lib) ? Ref<F>::tolerance(g, 4 * FT<F>::eps() * fabsl((ld)g)) : Ref<F>::exact(g);
            ++judged;
            if (!compat(r, g, h, strict)) ctx.fail("%s build %s: sample %u is %s but %s after %s", I.str().c_str(), cfgname(c, m), k, show(g).c_str(), show(h).c_str(),
                what == 0 ? "replacing the other samples" : what == 1 ? strf("moving it to position %u", perm[k]).c_str() : strf("splitting the block at %u (%s then %s)", cut, c1->name().c_str(), c2->name().c_str()).c_str());
        }
    }
    (void)have;
    ctx.points(judged); ctx.label(what == 0 ? "replace" : what == 1 ? "permute" : "split");
    if (judged && n > 1) { ctx.nontrivial(); ctx.desc = I.str() + (what == 0 ? strf(" keep sample %u", pos) : what == 1 ? " permuted" : strf(" split at %u", cut)); }
}
DISPATCH(c21)

// -------------------------------------------------------------------------------------------- C24
struct Grp { std::string fam, op; char type; std::vector<int> members; };
std::vector<Grp> groups;
std::string family(Call const & c)
{
    if (c.op.find("copy") == 0) return "copy";
    if (c.op.find("zero") == 0) return "zero";
    if (c.op.find("set") == 0 || c.fam == "gen") return "set";
    if (c.op == "hmin" || c.op == "hmax" || c.op == "hsum" || c.op == "hminmax" || c.op == "hmaxsum") return "red";
    if (c.fam == "peak") return "peak";
    return c.op;
}
template <class F> void c24_fail(Ctx & ctx, Inst<F> const & A, std::string const & an, Inst<F> const & B, std::string const & bn, int o, unsigned k, F g, F h)
{
    ctx.fail("%s build %s and %s build %s disagree: output %d sample %u: %s against %s", A.str().c_str(), an.c_str(), B.str().c_str(), bn.c_str(), o, k, show(g).c_str(), show(h).c_str());
}
template <class F> void c24(Ctx & ctx, Grp const & G)
{
    const unsigned U = 64 / sizeof(F);
    std::vector<unsigned> ns; for (size_t i = 0; i < G.members.size(); ++i) if (calls[G.members[i]].form == 'c') ns.push_back(calls[G.members[i]].N);
    std::sort(ns.begin(), ns.end()); ns.erase(std::unique(ns.begin(), ns.end()), ns.end());
    unsigned n; u64 nk = ctx.draw(4);
    if (nk < 2 && !ns.empty()) n = ns[ctx.draw(ns.size())]; else if (nk < 3) n = U * (1 + (unsigned)ctx.draw(8)); else n = 1 + (unsigned)ctx.draw(40);
    size_t arity = 0; for (size_t i = 0; i < G.members.size(); ++i) arity = std::max(arity, calls[G.members[i]].kinds.size());
    // semantic operands: constant or varying
    Call proto = calls[G.members[0]]; proto.kinds = "";
    const bool ewf = proto.fam == "ew"; const int op = ewf ? op_id(G.op) : -1;
    std::vector<bool> konst(arity);
    for (size_t i = 0; i < arity; ++i) {
        bool isk = arity > 1 && ctx.draw(2);
        if (G.op == "set" || (G.op == "pan2" && i > 0)) isk = true;
        if (G.op == "copy" || G.op == "red" || G.op == "peak" || (G.op == "pan2" && i == 0)) isk = false;
        if (G.op == "addvec") isk = ctx.draw(2);
        konst[i] = isk; proto.kinds += isk ? 's' : 'v';
    }
    Inst<F> I; 
    Call gp = proto; if (!ewf) { gp.fam = "mem"; }
    gen_any(ctx, I, gp, n, false); I.c = &proto;
    if (G.op == "addvec") { I.init[0].resize(n); gen_block<F>(ctx, &I.init[0][0], n, MODERATE, NODOM); }
    for (size_t i = 0; i < arity; ++i) if (konst[i] && I.a[i].b == 0) I.a[i].b = 0;      // the sign of a zero ramp start is unspecified
    // candidates
    std::vector<int> cand;
    for (size_t i = 0; i < G.members.size(); ++i) {
        Call const & c = calls[G.members[i]];
        if (c.form == 'c' && c.N != n) continue;
        if (c.form == 'r' && n % U) continue;
        bool ok = c.kinds.size() == arity;
        for (size_t q = 0; ok && q < arity; ++q) if (!konst[q] && !isbuf(c.kinds[q])) ok = false;
        if (ok) cand.push_back(G.members[i]);
    }
    if (cand.size() < 2 && (cand.empty() || calls[cand[0]].impl.size() < 2)) ctx.discard();
    while (cand.size() > 10) cand.erase(cand.begin() + ctx.draw(cand.size()));
    std::vector<F> out[2], ref0[2]; bool first = true; Inst<F> R; std::string rn; unsigned ncmp = 0;
    std::vector<Ref<F> > refs(n); std::vector<char> have(n, 0);
    std::vector<F> rmin, rmax, rsum;
    for (size_t q = 0; q < cand.size(); ++q) {
        Call const & c = calls[cand[q]];
        Inst<F> K(I); K.c = &c; K.outlen[0] = n;
        for (size_t i = 0; i < arity; ++i) {
            Operand<F> & o = K.a[i]; o.kind = c.kinds[i];
            if (konst[i] && isbuf(o.kind)) o.v.assign(o.kind == 'p' ? 1 : n, o.b);
            if (o.kind == 'r') o.s = c.op == "exp" ? 1 : 0;
        }
        if (c.fam == "pan") { K.nout = 2; K.outlen[1] = n; }
        if (c.fam == "red") { K.outlen[0] = K.outlen[1] = 1; K.nout = c.op == "hminmax" || c.op == "hmaxsum" ? 2 : 1; }
        if (c.fam == "peak") { K.nout = 2; K.outlen[0] = K.outlen[1] = 1; K.init[0].assign(1, (F)0.25); K.init[1].assign(1, (F)0.5); }
        for (size_t m = 0; m < c.impl.size(); ++m) {
            execute(ctx, K, (int)m, out);
            std::string cn = cfgname(c, m);
            if (c.fam == "red") {                         // minimum, maximum exact; sum within rounding
                ld mag = 0; bool nan = false; for (unsigned k = 0; k < n; ++k) { mag += fabsl((ld)K.a[0].v[k]); nan |= K.a[0].v[k] != K.a[0].v[k]; }
                if (nan) ctx.discard();
                std::vector<F> * dst[2] = { 0, 0 };
                if (c.op == "hmin") dst[0] = &rmin; else if (c.op == "hmax") dst[0] = &rmax; else if (c.op == "hsum") dst[0] = &rsum; else if (c.op == "hminmax") { dst[0] = &rmin; dst[1] = &rmax; } else { dst[0] = &rmax; dst[1] = &rsum; }
                for (int o = 0; o < K.nout; ++o) {
                    if (dst[o]->empty()) { dst[o]->push_back(out[o][0]); continue; }
                    F g = (*dst[o])[0], h = out[o][0]; ++ncmp;
                    if (dst[o] == &rsum) { if (mag < FT<F>::mx() / 2 && !(fabsl((ld)g - h) <= 2 * n * FT<F>::eps() * mag)) c24_fail(ctx, K, "(other)", K, cn, o, 0, g, h); }
                    else if (g != h) c24_fail(ctx, K, "(other)", K, cn, o, 0, g, h);
                }
                continue;
            }
            if (c.fam == "peak") {
                bool nan = false; for (unsigned k = 0; k < n; ++k) nan |= K.a[0].v[k] != K.a[0].v[k];
                if (nan) ctx.discard();
                if (rmax.empty()) rmax.push_back(out[0][0]); else { ++ncmp; if (rmax[0] != out[0][0]) c24_fail(ctx, K, "(other)", K, cn, 0, 0, rmax[0], out[0][0]); }
                continue;
            }
            if (first) { R = K; rn = cn; ref0[0] = out[0]; ref0[1] = out[1]; first = false; continue; }
            for (int o = 0; o < K.nout; ++o) for (unsigned k = 0; k < n; ++k) {
                F g = ref0[o][k], h = out[o][k]; ++ncmp;
                if (bits_of(g) == bits_of(h) || (g != g && h != h)) continue;
                if (ewf) {
                    if (!have[k]) { refs[k] = ref_at(I, op, k); have[k] = 1; }
                    if (!compat(refs[k], g, h, false)) c24_fail(ctx, R, rn, K, cn, o, k, g, h);
                } else if (!(g == h)) c24_fail(ctx, R, rn, K, cn, o, k, g, h);
            }
        }
    }
    ctx.points(ncmp);
    if (ncmp > 1) { ctx.nontrivial(); ctx.desc = strf("%s %c n=%u operands %s: %zu equivalent calls", G.op.c_str(), G.type, n, proto.kinds.c_str(), cand.size()) + " " + I.str(); }
    ctx.label(G.op);
}
void c24_run(Ctx & ctx) { Grp const & G = groups[ctx.draw(groups.size())]; if (G.type == 'f') c24<float>(ctx, G); else c24<double>(ctx, G); }
std::vector<u64> prefix24(u64 i, bool) { return std::vector<u64>(1, i % groups.size()); }
void init24()
{
    arena().init();
    for (size_t i = 0; i < calls.size(); ++i) {
        std::string f = family(calls[i]);
        size_t g = 0; while (g < groups.size() && !(groups[g].op == f && groups[g].type == calls[i].type)) ++g;
        if (g == groups.size()) { Grp x; x.fam = calls[i].fam; x.op = f; x.type = calls[i].type; groups.push_back(x); }
        // the linear/exponential generators only take part as constant fills
        groups[g].members.push_back((int)i);
    }
}

// -------------------------------------------------------------------------------------------- C27
template <class F> void c27(Ctx & ctx, Call const & c)
{
    unsigned n = gen_len(ctx, c, 20000, false); Inst<F> I; gen_any(ctx, I, c, n, false);
    static const char * const INFOPS[] = { "plus", "minus", "times", "min", "max", "less", "less_equal", "greater", "greater_equal", "equal", "notequal", "abs", "sgn" };
    bool inf = false; for (size_t i = 0; i < sizeof(INFOPS) / sizeof(INFOPS[0]); ++i) inf |= c.fam == "ew" && c.op == INFOPS[i] && !has(c.kinds, 'r');
    inf = inf && ctx.draw(2);
    auto fin = [&](F x) { return inf && fabsl((ld)x) > FT<F>::mx() ? x : sanitize(x, FINITE); };
    for (size_t i = 0; i < I.a.size(); ++i) {
        Operand<F> & o = I.a[i]; o.b = fin(o.b); o.s = fin(o.s);
        for (size_t k = 0; k < o.v.size(); ++k) o.v[k] = fin(o.v[k]);
    }
    if (inf) ctx.label("infinite samples allowed");
    int base = -1; for (size_t m = 0; m < c.impl.size(); ++m) if (!is_port(libs[c.impl[m].first])) base = (int)m;
    if (base < 0) ctx.discard();
    std::vector<F> want[2], out[2]; execute(ctx, I, base, want);
    const int op = c.fam == "ew" ? op_id(c.op) : -1; const bool rp = has(c.kinds, 'r'); unsigned judged = 0, interesting = 0;
    ld mag = 0; if (!I.a.empty() && isbuf(I.a[0].kind)) for (size_t k = 0; k < I.a[0].v.size(); ++k) mag += fabsl((ld)I.a[0].v[k]);
    for (size_t m = 0; m < c.impl.size(); ++m) {
        Lib const & L = libs[c.impl[m].first]; if (!is_port(L)) continue;
        execute(ctx, I, (int)m, out);
        for (int o = 0; o < I.nout; ++o) for (size_t k = 0; k < out[o].size(); ++k) {
            F g = out[o][k], w = want[o][k];
            ++judged; if (w != 0) ++interesting;
            if (g == w || (g != g && w != w)) continue;
            Ref<F> r; ld tol = op >= 0 ? port_tol(L, c.op) : 0;
            if (op >= 0) {
                r = ref_at(I, op, (unsigned)k);
                if (tol != 0 && r.mode != Ref<F>::SKIP) {
                    Operand<F> const & den = I.a[I.a.size() - 1]; ld x = den.at((unsigned)k), d = 0, lo, hi;
                    if (den.kind == 'r') ramp_at(den.b, den.s, (unsigned)k, x, d);
                    lo = fabsl(x) - 4 * d; hi = fabsl(x) + 4 * d; ld v = fabsl(r.lv), z = fabsl((ld)I.a[0].at((unsigned)k));
                    if (c.op == "signed_sqrt" && x == 0) r = Ref<F>::exact(0);
                    else if (!(lo > 1e-36L && hi < 8e37L && z < 1e37L && (z > 1e-36L || z == 0) && (v == 0 || (v > 1e-36L && v < 1e37L)))) continue;
                    else r = Ref<F>::tolerance(r.lv, (r.mode == Ref<F>::TOL ? r.tol : 0) + tol * v + 2 * FT<F>::den());
                }
                if (r.mode == Ref<F>::EXACT_BITS && r.lv == 0) r = Ref<F>::exact(0);
            } else if (c.fam == "red") { if (c.op == "hsum" || (c.op == "hmaxsum" && o == 1)) { if (mag > FT<F>::mx() / 2) continue; r = Ref<F>::tolerance(w, 2 * n * FT<F>::eps() * mag); } else r = Ref<F>::exact(w); }
            else if (c.fam == "peak") { if (o == 0) r = Ref<F>::exact(w); else { if (!(fabsl((ld)w) < 1e35L)) continue; r = Ref<F>::tolerance(w, (2 * n + 16) * FT<F>::eps() * (fabsl((ld)w) + 1)); } }
            else if (rp && c.op == "exp") { if (!(fabsl((ld)w) < 1e37L && fabsl((ld)w) > 1e-36L)) continue; r = Ref<F>::tolerance(w, 8 * (k + 8) * FT<F>::eps() * fabsl((ld)w)); }
            else if (rp) {
                ld x, d, in = c.fam == "pan" ? fabsl((ld)I.a[0].v[k]) : 1; Operand<F> const & ro = c.fam == "pan" ? I.a[1 + o] : I.a[0];
                ramp_at(ro.b, ro.s, (unsigned)k, x, d); r = Ref<F>::tolerance(w, 2 * d * in + 4 * FT<F>::eps() * fabsl((ld)w) + 2 * FT<F>::den());
            } else r = Ref<F>::exact(w);
            if (!r.ok(g)) ctx.fail("%s build %s: output %d sample %zu is %s, the x86 build gives %s", I.str().c_str(), L.cfg.c_str(), o, k, show(g).c_str(), show(w).c_str());
        }
    }
    ctx.points(judged); if (interesting) { ctx.nontrivial(); ctx.desc = I.str(); }
}
void c27_run(Ctx & ctx) { Call const & c = calls[sel[ctx.draw(sel.size())]]; ctx.label(c.fam + ":" + c.op); c27<float>(ctx, c); }

// -------------------------------------------------------------------------------------------- C25
struct Job {                        // a call with its own aligned buffers
    const Call * c; int m; unsigned n; std::vector<uint8_t> store; std::vector<uint8_t> in0, expect; void * out[2]; PArg a[4]; size_t outbytes[2]; uint8_t * base; size_t bytes;
    std::string desc;
};
template <class F> void make_job(Ctx & ctx, Job & j, Call const & c)
{
    unsigned n = gen_len(ctx, c, 4096, false); Inst<F> I; gen_any(ctx, I, c, n, false);
    j.c = &c; j.m = (int)ctx.draw(c.impl.size()); j.n = n; j.desc = I.str() + " build " + cfgname(c, j.m);
    size_t off = 0, ooff[2] = { 0, 0 }, ioff[4];
    for (int i = 0; i < 2; ++i) { ooff[i] = off; j.outbytes[i] = i < I.nout ? I.outlen[i] * sizeof(F) : 0; off += (j.outbytes[i] + 127) & ~(size_t)63; }
    for (size_t i = 0; i < I.a.size(); ++i) { ioff[i] = off; if (isbuf(I.a[i].kind)) off += (I.a[i].v.size() * sizeof(F) + 127) & ~(size_t)63; }
    j.bytes = off; j.store.assign(off + 64, 0);
    j.base = (uint8_t *)(((uintptr_t)&j.store[0] + 63) & ~(uintptr_t)63);
    for (int i = 0; i < 2; ++i) { j.out[i] = j.base + ooff[i]; if (!I.init[i].empty()) memcpy(j.out[i], &I.init[i][0], I.init[i].size() * sizeof(F)); }
    for (size_t i = 0; i < I.a.size(); ++i) { j.a[i].p = 0; j.a[i].b = I.a[i].b; j.a[i].s = I.a[i].s; if (isbuf(I.a[i].kind)) { j.a[i].p = j.base + ioff[i]; memcpy(j.base + ioff[i], &I.a[i].v[0], I.a[i].v.size() * sizeof(F)); } }
    j.in0.assign(j.base, j.base + j.bytes);
}
void copy_job(Job & d, Job const & s)
{
    d.c = s.c; d.m = s.m; d.n = s.n; d.bytes = s.bytes; d.in0 = s.in0; d.expect = s.expect; d.store.assign(s.bytes + 64, 0); d.desc = s.desc;
    d.base = (uint8_t *)(((uintptr_t)&d.store[0] + 63) & ~(uintptr_t)63);
    for (int i = 0; i < 2; ++i) { d.out[i] = d.base + ((uint8_t *)s.out[i] - s.base); d.outbytes[i] = s.outbytes[i]; }
    for (int i = 0; i < 4; ++i) { d.a[i] = s.a[i]; if (s.c->kinds.size() > (size_t)i && s.a[i].p) d.a[i].p = d.base + ((const uint8_t *)s.a[i].p - s.base); }
}
void move_job(Job & j, uint8_t * base)       // run at other addresses from now on
{
    for (int i = 0; i < 2; ++i) j.out[i] = base + ((uint8_t *)j.out[i] - j.base);
    for (int i = 0; i < 4; ++i) if (j.c->kinds.size() > (size_t)i && j.a[i].p) j.a[i].p = base + ((const uint8_t *)j.a[i].p - j.base);
    j.base = base;
}
// writable static storage of the library a kernel lives in: a call that changes it keeps some state, which is
// no violation in itself, but such calls get a long concurrent run with different arguments
struct Segs { uintptr_t addr; std::vector<std::pair<uint8_t *, size_t> > v; };
int seg_cb(struct dl_phdr_info * i, size_t, void * p)
{
    Segs & g = *(Segs *)p; bool mine = false;
    for (int k = 0; k < i->dlpi_phnum; ++k) { ElfW(Phdr) const & h = i->dlpi_phdr[k]; uintptr_t a = i->dlpi_addr + h.p_vaddr; if (h.p_type == PT_LOAD && g.addr >= a && g.addr < a + h.p_memsz) mine = true; }
    if (mine) for (int k = 0; k < i->dlpi_phnum; ++k) { ElfW(Phdr) const & h = i->dlpi_phdr[k]; if (h.p_type == PT_LOAD && (h.p_flags & PF_W)) g.v.push_back(std::make_pair((uint8_t *)(i->dlpi_addr + h.p_vaddr), (size_t)h.p_memsz)); }
    return mine;
}
struct State {                      // snapshot of that storage
    std::vector<std::pair<uint8_t *, size_t> > seg; std::vector<uint8_t> copy;
    void take() { copy.clear(); for (size_t k = 0; k < seg.size(); ++k) copy.insert(copy.end(), seg[k].first, seg[k].first + seg[k].second); }
    bool changed() const { size_t o = 0; for (size_t k = 0; k < seg.size(); ++k) { if (memcmp(seg[k].first, &copy[o], seg[k].second)) return true; o += seg[k].second; } return false; }
};
State & state_of(Job const & j)
{
    static std::map<std::string, State> m; static std::map<void *, std::string> lib;
    void * fn = (void *)j.c->impl[j.m].second;
    std::string & key = lib[fn];
    if (key.empty()) { Dl_info d; key = dladdr(fn, &d) && d.dli_fname ? d.dli_fname : "?"; }
    State & s = m[key];
    if (s.seg.empty()) { Segs g; g.addr = (uintptr_t)fn; dl_iterate_phdr(seg_cb, &g); s.seg = g.v; }
    return s;
}
void run_job(Job & j) { memcpy(j.base, &j.in0[0], j.bytes); j.c->impl[j.m].second(j.out, j.a, j.n); }
struct Thr { std::vector<Job> jobs; unsigned rot, reps; unsigned csr; int bad; };
void * thr_main(void * p)
{
    Thr & t = *(Thr *)p; _mm_setcsr(t.csr);
    for (unsigned r = 0; r < t.reps; ++r)
        for (size_t q = 0; q < t.jobs.size(); ++q) {
            Job & j = t.jobs[(q + t.rot + r) % t.jobs.size()];
            run_job(j);
            if (memcmp(j.base, &j.expect[0], j.bytes)) { t.bad = (int)((q + t.rot + r) % t.jobs.size()); _mm_setcsr(0x1f80); return 0; }
        }
    _mm_setcsr(0x1f80);
    return 0;
}
double now_s() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
struct Stress { Job job; unsigned reps; std::atomic<int> * stop; bool bad; };
void * stress_main(void * p)
{
    Stress & t = *(Stress *)p; double t0 = now_s();
    for (unsigned r = 0; r < t.reps && !*t.stop; ++r) {
        run_job(t.job);
        if (memcmp(t.job.base, &t.job.expect[0], t.job.bytes)) { t.bad = true; *t.stop = 1; }
        if (!(r & 255) && now_s() - t0 > 3) break;
    }
    return 0;
}
// many threads repeat one call each, all of the same function with different arguments
std::string stress(Ctx & ctx, Call const & c, int m)
{
    std::vector<Stress> t(6); std::vector<pthread_t> id(t.size()); std::atomic<int> stop(0);
    for (size_t i = 0; i < t.size(); ++i) {
        if (c.type == 'f') make_job<float>(ctx, t[i].job, c); else make_job<double>(ctx, t[i].job, c);
        Job & j = t[i].job; j.m = m; run_job(j); j.expect.assign(j.base, j.base + j.bytes); t[i].reps = 300000; t[i].stop = &stop; t[i].bad = false;
    }
    for (size_t i = 0; i < t.size(); ++i) pthread_create(&id[i], 0, stress_main, &t[i]);
    for (size_t i = 0; i < t.size(); ++i) pthread_join(id[i], 0);
    for (size_t i = 0; i < t.size(); ++i) if (t[i].bad) return strf("%s (run in build %s): different result when other threads run the same function with other arguments", t[i].job.desc.c_str(), cfgname(c, m));
    return "";
}
unsigned short x87cw() { unsigned short c; __asm__ volatile("fnstcw %0" : "=m"(c)); return c; }
void c25_run(Ctx & ctx)
{
    u64 first = ctx.draw(sel.size());
    unsigned nj = 1 + (unsigned)ctx.draw(8);
    std::vector<Job> jobs(nj);
    const bool same = ctx.draw(2);               // one function with different arguments, or a mixed history
    for (unsigned i = 0; i < nj; ++i) { Call const & c = calls[sel[i == 0 || same ? first : ctx.draw(sel.size())]]; if (c.type == 'f') make_job<float>(ctx, jobs[i], c); else make_job<double>(ctx, jobs[i], c); if (same && i) jobs[i].m = jobs[0].m; }
    if (ctx.draw(2)) {                           // all calls work at the same addresses
        static std::vector<uint8_t> shared; size_t need = 0; for (unsigned i = 0; i < nj; ++i) need = std::max(need, jobs[i].bytes);
        if (shared.size() < need + 64) shared.resize(need + 64);
        for (unsigned i = 0; i < nj; ++i) move_job(jobs[i], (uint8_t *)(((uintptr_t)&shared[0] + 63) & ~(uintptr_t)63));
    }
    u64 env = ctx.draw(6);
    unsigned csr = 0x1f80;                       // default; flush-to-zero, denormals-are-zero, other rounding modes
    if (env == 3) csr |= 0x8040; else if (env == 4) csr |= 0x2000u << (ctx.draw(2)); else if (env == 5) csr |= 0x6000;
    u64 threads = ctx.draw(4) == 3 ? 2 + ctx.draw(3) : 0;
    std::vector<unsigned> order(nj * 2); for (unsigned i = 0; i < nj * 2; ++i) order[i] = i % nj;
    for (unsigned k = nj * 2; k > 1; --k) std::swap(order[k - 1], order[ctx.draw(k)]);
    const unsigned CTRL = 0xffc0;
    std::string bad;
    std::vector<unsigned> stateful;
    unsigned short cw = x87cw();
    _mm_setcsr(csr);
    for (unsigned i = 0; i < nj && bad.empty(); ++i) {
        ctx.where("%s", jobs[i].desc.c_str());
        State & st = state_of(jobs[i]); st.take();
        run_job(jobs[i]);
        if (st.changed()) stateful.push_back(i);
        unsigned now = _mm_getcsr();
        if ((now & CTRL) != (csr & CTRL)) { _mm_setcsr(0x1f80); bad = strf("%s: MXCSR control bits 0x%x before, 0x%x after the call", jobs[i].desc.c_str(), csr & CTRL, now & CTRL); }
        else if (x87cw() != cw) bad = jobs[i].desc + ": x87 control word changed";
        jobs[i].expect.assign(jobs[i].base, jobs[i].base + jobs[i].bytes);
    }
    for (unsigned q = 0; q < order.size() && bad.empty(); ++q) {
        Job & j = jobs[order[q]]; ctx.where("%s", j.desc.c_str());
        run_job(j);
        if (memcmp(j.base, &j.expect[0], j.bytes)) bad = strf("%s: different result when repeated as call %u of the second pass over %u calls", j.desc.c_str(), q, nj);
        unsigned now = _mm_getcsr();
        if ((now & CTRL) != (csr & CTRL)) bad = strf("%s: MXCSR control bits 0x%x before, 0x%x after the call", j.desc.c_str(), csr & CTRL, now & CTRL);
    }
    _mm_setcsr(0x1f80);
    if (bad.empty() && !stateful.empty()) { Job & j = jobs[stateful[0]]; bad = stress(ctx, *j.c, j.m); ctx.label("call changes static storage"); }
    if (bad.empty() && threads) {
        std::vector<Thr> t(threads); std::vector<pthread_t> id(threads);
        for (u64 i = 0; i < threads; ++i) { t[i].jobs.resize(nj); for (unsigned k = 0; k < nj; ++k) copy_job(t[i].jobs[k], jobs[k]); t[i].rot = (unsigned)i; t[i].reps = 40; t[i].csr = csr; t[i].bad = -1; }
        for (u64 i = 0; i < threads; ++i) pthread_create(&id[i], 0, thr_main, &t[i]);
        for (u64 i = 0; i < threads; ++i) pthread_join(id[i], 0);
        for (u64 i = 0; i < threads; ++i) if (t[i].bad >= 0) bad = strf("%s: different result when run concurrently in %llu threads", jobs[t[i].bad].desc.c_str(), (unsigned long long)threads);
    }
    if (!bad.empty()) ctx.fail("%s", bad.c_str());
    ctx.points(nj); ctx.label(threads ? "threads" : "sequential"); ctx.label(strf("mxcsr 0x%x", csr));
    if (nj > 1 || threads) { ctx.nontrivial(); ctx.desc = strf("%u calls, %llu threads, mxcsr 0x%x, first ", nj, (unsigned long long)threads, csr) + jobs[0].desc; }
}

bool any(Call const &) { return true; }
void init(std::function<bool(Call const &)> f) { arena().init(); sel = select_calls(f); }
Reg r17({ "C17", c17_run, 2400000, 20000000, prefix_len, "every case places at least one buffer directly against an inaccessible page", [] { init(any); } });
Reg r30({ "C30", c30_run, 2000000, 12000000, prefix, "the call ran in at least one pair of builds that trap on undefined behaviour and differ in the initial contents of locals", [] { init(any); } });
Reg r18({ "C18", c18_run, 1500000, 12000000, prefix_len, "at least one input operand shares the output buffer", [] { init([](Call const & c) { return samplewise(c) && has(c.kinds + "v", 'v') && (has(c.kinds, 'v') || has(c.kinds, 'V')) && !(c.op.find("copy") == 0 && (c.form == 's' || c.fam == "memu" || has(c.kinds, 'u'))) && !(c.fam == "add" && c.kinds != "v"); }); } });
Reg r21({ "C21", c21_run, 1800000, 12000000, prefix_len, "block of more than one sample with at least one compared sample", [] { init([](Call const & c) { return samplewise(c) && c.op.find("copy") != 0; }); } });
Reg r24({ "C24", c24_run, 1000000, 5000000, prefix24, "at least two equivalent calls were compared", init24 });
Reg r27({ "C27", c27_run, 1200000, 10000000, prefix, "at least one compared output sample is not zero", [] { init([](Call const & c) { return c.type == 'f' && c.impl.size() > 1; }); } });
Reg r25({ "C25", c25_run, 600000, 3000000, prefix, "more than one call in the history, or concurrent threads", [] { init(any); } });
}
