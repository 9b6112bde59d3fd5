// Running adapter calls on guarded buffers.
#ifndef PBT_RUN_HPP
#define PBT_RUN_HPP
#include "../engine/ref.hpp"
#include <climits>
namespace pbt {
inline bool isbuf(char k) { return k == 'v' || k == 'V' || k == 'u' || k == 'p'; }

struct Arena {
    Guard out[2], in[4], aux;
    void init()
    {
        if (out[0].base) return;
        for (int i = 0; i < 2; ++i) out[i].init(MAXLEN * 8 + 65536);
        for (int i = 0; i < 4; ++i) in[i].init(MAXLEN * 8 + 65536);
        aux.init(65536);
    }
};
inline Arena & arena() { static Arena a; return a; }

struct Place { int kind; unsigned off; };
inline Place gen_place(Src & s)
{
    Place p; u64 k = s.draw(8); p.kind = k < 4 ? 0 : k < 6 ? 1 : 2; p.off = p.kind == 2 ? (unsigned)s.draw(128) : 0; return p;
}

template <class F> struct Operand {
    char kind; std::vector<F> v; F b, s; Place pl;
    Operand() : kind('v'), b(0), s(0) { pl.kind = 0; pl.off = 0; }
    F at(unsigned k) const { return isbuf(kind) ? v[k] : b; }
};

template <class F> struct Inst {                    // one generated call
    const Call * c; unsigned n; int nout;
    std::vector<Operand<F> > a;
    Place po[2];
    std::vector<F> init[2];                         // initial output contents (in/out functions), empty: poison
    unsigned outlen[2];
    Inst() : c(0), n(0), nout(1) { for (int i = 0; i < 2; ++i) { po[i].kind = 0; po[i].off = 0; outlen[i] = 0; } }
    std::string str() const
    {
        std::string r = strf("%s n=%u", c->name().c_str(), n);
        for (size_t i = 0; i < a.size(); ++i) {
            if (a[i].kind == 'r') r += strf(" ramp(%s,%s)", show(a[i].b).c_str(), show(a[i].s).c_str());
            else if (!isbuf(a[i].kind)) r += " const " + show(a[i].b);
            else { r += " ["; for (size_t k = 0; k < a[i].v.size() && k < 3; ++k) r += (k ? "," : "") + strf("%.9g", (double)a[i].v[k]); r += a[i].v.size() > 3 ? ",...]" : "]"; }
        }
        return r;
    }
};

// alias[i]: operand i shares the buffer of output alias[i]-1 (0: own buffer); share[i]: operand i shares the buffer of operand share[i]-1
template <class F> void execute(Ctx & ctx, Inst<F> const & I, int impl, std::vector<F> * out, const int * alias = 0, const int * share = 0)
{
    Arena & A = arena();
    Lib const & L = libs[I.c->impl[impl].first];
    size_t al = I.c->form == 's' ? sizeof(F) : L.inf(FT<F>::ch).align;
    if (al < sizeof(F)) al = sizeof(F);
    const bool outu = I.c->fam == "memu";
    void * op[2] = { 0, 0 }; PArg pa[4];
    uint8_t * ip[4] = { 0, 0, 0, 0 };
    for (int i = 0; i < I.nout; ++i) {
        size_t bytes = I.outlen[i] * sizeof(F);
        size_t oal = outu || I.outlen[i] == 1 ? sizeof(F) : al;
        uint8_t * p = A.out[i].place(I.po[i].kind, bytes, oal, I.po[i].off);
        A.out[i].poison(p, bytes);
        if (!I.init[i].empty()) memcpy(p, &I.init[i][0], bytes);
        op[i] = p;
    }
    for (size_t i = 0; i < I.a.size(); ++i) {
        Operand<F> const & o = I.a[i];
        pa[i].p = 0; pa[i].b = o.b; pa[i].s = o.s;
        if (isbuf(o.kind)) {
            size_t bytes = o.v.size() * sizeof(F);
            if (alias && alias[i]) { ip[i] = (uint8_t *)op[alias[i] - 1]; memcpy(ip[i], &o.v[0], bytes); }
            else if (share && share[i]) ip[i] = ip[share[i] - 1];
            else {
                uint8_t * p = A.in[i].place(o.pl.kind, bytes, o.kind == 'u' || o.kind == 'p' ? sizeof(F) : al, o.pl.off);
                A.in[i].poison(p, bytes); memcpy(p, &o.v[0], bytes); ip[i] = p;
            }
            pa[i].p = ip[i];
        }
    }
    ctx.where("%s build %s", I.str().c_str(), L.cfg.c_str());
    I.c->impl[impl].second(op, pa, I.n);
    for (int i = 0; i < I.nout; ++i) {
        size_t bytes = I.outlen[i] * sizeof(F);
        long d = A.out[i].check((uint8_t *)op[i], bytes);
        if (d != LONG_MIN) ctx.fail("%s build %s: wrote outside output %d at byte offset %ld (block is %zu bytes)", I.str().c_str(), L.cfg.c_str(), i, d, bytes);
        out[i].resize(I.outlen[i]); memcpy(&out[i][0], op[i], bytes);
    }
    for (size_t i = 0; i < I.a.size(); ++i) if (ip[i] && !(alias && alias[i])) {
        if (share && share[i]) continue;
        size_t bytes = I.a[i].v.size() * sizeof(F);
        long d = A.in[i].check(ip[i], bytes);
        if (d != LONG_MIN) ctx.fail("%s build %s: wrote outside any output, near operand %zu at byte offset %ld", I.str().c_str(), L.cfg.c_str(), i, d);
        if (memcmp(ip[i], &I.a[i].v[0], bytes)) ctx.fail("%s build %s: modified input buffer of operand %zu", I.str().c_str(), L.cfg.c_str(), i);
    }
}

inline std::vector<int> select_calls(std::function<bool(Call const &)> f)
{
    std::vector<int> r;
    for (size_t i = 0; i < calls.size(); ++i) if (f(calls[i])) r.push_back((int)i);
    if (r.empty()) { fprintf(stderr, "no calls selected\n"); exit(9); }
    return r;
}
inline bool has(std::string const & k, char c) { return k.find(c) != std::string::npos; }
inline bool is_port(Lib const & l) { return l.cfg == "neon" || l.cfg == "altivec"; }
// the ARM and PowerPC back ends divide by refining a reciprocal estimate: relative error allowed there, 0 for all other operations
inline ld port_tol(Lib const & l, std::string const & op)
{
    bool neon = l.cfg == "neon";
    if (op == "over" || op == "reciprocal" || op == "diveq" || op == "over_vs" || op == "over_sv") return neon ? 0x1p-13L : 0x1p-20L;
    if (op == "frcp") return neon ? 0x1p-7L : 0x1p-11L;
    if (op == "sqrt" || op == "signed_sqrt") return neon ? 0x1p-7L : 0x1p-20L;
    return 0;
}
inline bool is_fma(int lib) { return libs[lib].cfg.find("fma") != std::string::npos; }

// ramp model: value and uncertainty of start + k*slope accumulated in F
template <class F> inline void ramp_at(F b, F s, unsigned k, ld & x, ld & d)
{
    ld m = fabsl((ld)b) + (ld)k * fabsl((ld)s);
    x = (ld)b + (ld)k * (ld)s;
    d = k == 0 ? (b == 0 ? FT<F>::den() : 0) :   // the sign of a zero start value is unspecified
        ((ld)k + 8) * (FT<F>::eps() * m + FT<F>::den());
}
}
#endif
