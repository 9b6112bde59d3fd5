// Generators for sample values, blocks and lengths.
#ifndef PBT_GEN_HPP
#define PBT_GEN_HPP
#include "pbt.hpp"
namespace pbt {
template <class F> struct FT;
template <> struct FT<float> {
    typedef uint32_t U; typedef int32_t I; static const char ch = 'f'; static const int bits = 32, mant = 23, bias = 127, emax = 254;
    static ld eps() { return FLT_EPSILON; } static ld mx() { return FLT_MAX; } static ld mn() { return FLT_MIN; } static ld den() { return 1.401298464324817e-45L; }
};
template <> struct FT<double> {
    typedef uint64_t U; typedef int64_t I; static const char ch = 'd'; static const int bits = 64, mant = 52, bias = 1023, emax = 2046;
    static ld eps() { return DBL_EPSILON; } static ld mx() { return DBL_MAX; } static ld mn() { return DBL_MIN; } static ld den() { return 4.9406564584124654e-324L; }
};
template <class F> inline typename FT<F>::U bits_of(F x) { typename FT<F>::U u; memcpy(&u, &x, sizeof u); return u; }
template <class F> inline F from_bits(typename FT<F>::U u) { F x; memcpy(&x, &u, sizeof u); return x; }
// order preserving map between floats and integers
template <class F> inline typename FT<F>::I ord(F x) { typename FT<F>::I i = (typename FT<F>::I)bits_of(x); const typename FT<F>::I m = std::numeric_limits<typename FT<F>::I>::min(); return i < 0 ? (typename FT<F>::I)(m - i) : i; }
template <class F> inline F unord(typename FT<F>::I i) { const typename FT<F>::I m = std::numeric_limits<typename FT<F>::I>::min(); return from_bits<F>((typename FT<F>::U)(i < 0 ? (typename FT<F>::I)(m - i) : i)); }
template <class F> inline F ulps(F x, int k) { if (x != x || std::isinf(x)) return x; F r = unord<F>(ord(x) + k); return r == r ? r : x; }

template <class F> inline std::string show(F x)
{
    return strf(sizeof(F) == 4 ? "%.9g(0x%0*llx)" : "%.17g(0x%0*llx)", (double)x, (int)sizeof(F) * 2, (unsigned long long)bits_of(x));
}

template <class F> inline std::vector<F> const & specials()      // finite special values, simplest first
{
    static std::vector<F> v;
    if (v.empty()) {
        const double c[] = { 0, 1, -1, 0.5, -0.5, 2, -2, 0.25, -0.25, 1.5, -1.5, 2.5, -2.5, 3, -3, 10, -10, 100, 440, 69, 4.75, 12, 0.1, -0.1, 0.49999997, 0.3333333, 0.75,
            0.41421356237309504880, 2.41421356237309504880, 0.625, 22, 88, -88, 88.72283905206835, -87.33654, 0.70710678118654752, 0.78539816339744831, 1.5707963267948966, 2.3561944901923449, 3.1415926535897932,
            4.7123889803846899, 6.2831853071795865, 0.69314718, 2.7182818, 2.3025851, 1000, -1000, 8192, -8192, 65535, 65536, 65537, 1048576, 4194303.5, 4194304.5, 8388607, 8388607.5, 8388608, 8388609, 8388611, -8388609, 12582913, 16777215, 16777216, 16777217, -16777215,
            2147483647., 2147483648., -2147483648., 4294967296., 1073741824., 9007199254740991., 9007199254740992., 9007199254740993., 4503599627370495.5, 4503599627370497., 9223372036854775807., -9223372036854775808., 18446744073709551616., 1e-6, 1e-10, 1e-20, 1e-30, 1e-37, 1e6, 1e10, 1e20, 1e30, 1e37, 1e38 };
        for (size_t i = 0; i < sizeof c / sizeof *c; ++i) v.push_back((F)c[i]);
        v.push_back(-(F)0.0);
        F mx = (F)FT<F>::mx(), mn = (F)FT<F>::mn(), dn = (F)FT<F>::den();
        F m[] = { mn, -mn, dn, -dn, ulps(mn, -1), -ulps(mn, -1), ulps(mn, 1), mn * 2, mn / 2, mx, -mx, mx / 2, -mx / 2, ulps(mx, -1), (F)FT<F>::eps(), (F)1 + (F)FT<F>::eps(), (F)1 - (F)FT<F>::eps() / 2, (F)0.5 - (F)FT<F>::eps() / 4, -(F)0.5 + (F)FT<F>::eps() / 4, (F)-1 - (F)FT<F>::eps() };
        v.insert(v.end(), m, m + sizeof m / sizeof *m);
    }
    return v;
}
enum { ANY = 0, FINITE = 1, MODERATE = 2, POSITIVE = 4, AUDIO = 8 };

template <class F> inline F sanitize(F x, unsigned fl)
{
    if (fl & (FINITE | MODERATE | POSITIVE | AUDIO)) {
        if (x != x) x = (F)1;
        else if (std::isinf(x)) x = x > 0 ? (F)FT<F>::mx() : -(F)FT<F>::mx();
    }
    if (fl & POSITIVE) { x = std::fabs(x); if (x < (F)FT<F>::mn()) x = (F)FT<F>::mn(); }
    if (fl & MODERATE) { F lim = (F)1e6; while (std::fabs(x) > lim) x = std::fabs(x) > 1e30 ? (F)(x * (F)1e-30) : x > 0 ? (F)(x * (F)1e-3) : (F)(x * (F)1e-3); if (x != 0 && std::fabs(x) < (F)1e-12) x = x > 0 ? (F)1e-12 : (F)-1e-12; }
    if (fl & AUDIO) { while (std::fabs(x) > 4) x = std::fabs(x) > 1e6 ? (F)(x * (F)1e-6) : (F)(x * (F)0.25); }
    return x;
}

// one value; `near` are already chosen related values (other operands)
template <class F> F gen_value(Src & s, unsigned fl, const F * near = 0, int nnear = 0)
{
    typedef typename FT<F>::U U;
    F x = 0;
    switch (s.draw(10)) {
    case 0: x = from_bits<F>((U)s.draw(0)); break;                               // raw bit pattern (0 -> 0.0)
    case 1: { std::vector<F> const & v = specials<F>(); size_t k = v.size() + (fl == ANY ? 4 : 0); size_t i = s.draw(k);
        x = i < v.size() ? v[i] : i - v.size() < 2 ? (F)INFINITY * (i - v.size() ? -1 : 1) : (F)NAN; break; }
    case 2: x = (F)((double)(int)s.draw(2000001) / 1000000. - 1.); break;        // audio range
    case 3: x = (F)((int)s.draw(41) - 20) / 2; break;                            // small halves
    case 4: { int span = (fl & MODERATE) ? 40 : FT<F>::emax; int e = (int)s.draw(span) + ((fl & MODERATE) ? FT<F>::bias - 20 : 1);       // log uniform
        U m = (U)s.draw(0) & (((U)1 << FT<F>::mant) - 1); U sg = (U)s.draw(2) << (FT<F>::bits - 1); x = from_bits<F>(sg | ((U)e << FT<F>::mant) | m); break; }
    case 5: { std::vector<F> const & v = specials<F>(); size_t i = s.draw(v.size()); x = ulps(v[i], s.range(-4, 4)); break; }
    case 6: if (nnear) { F y = near[s.draw(nnear)]; switch (s.draw(4)) { case 0: x = y; break; case 1: x = -y; break; case 2: x = ulps(y, 1); break; default: x = ulps(y, -1); } }
            else x = (F)((double)(int)s.draw(200001) / 100. - 1000.);
            break;
    case 7: x = (F)((double)(int)s.draw(200001) / 100. - 1000.); break;
    case 8: { const F c[] = { 0, -(F)0.0, 1, -1, (F)0.5, (F)-0.5, (F)FT<F>::mn(), -(F)FT<F>::mn(), (F)FT<F>::den(), -(F)FT<F>::den(), (F)FT<F>::mx(), -(F)FT<F>::mx(), (F)INFINITY, -(F)INFINITY, (F)NAN, -(F)NAN };
        x = c[s.draw(fl == ANY ? 16 : 12)]; break; }                             // the values code tends to special-case
    case 9: { int b = (int)s.draw(FT<F>::mant + 3); u64 m = s.draw((u64)1 << b); x = (F)m; u64 k = s.draw(8);      // integers, halves, reciprocals of any magnitude
        if (k == 1) x += (F)0.5; else if (k == 2 && m) x = (F)1 / x; else if (k == 3) x /= (F)8; else if (k == 4) x = (F)((u64)1 << b); else if (k == 5) x = (F)1 / (F)((u64)1 << b);
        if (s.draw(2)) x = -x;
        break; }
    }
    return sanitize(x, fl);
}

struct Dom { double lo, hi; };    // interval of interest for block sweeps

// fills a block; mode 0 is a constant block given by raw bits (used for shrunk counterexamples)
template <class F> void gen_block(Src & s, F * b, unsigned n, unsigned fl, std::vector<Dom> const & doms, const F * const * rel = 0, int nrel = 0)
{
    typedef typename FT<F>::U U; typedef typename FT<F>::I I;
    u64 mode = s.draw(doms.empty() ? 6 : 12);
    if (mode == 0) { F v = sanitize(from_bits<F>((U)s.draw(0)), fl); for (unsigned i = 0; i < n; ++i) b[i] = v; return; }
    if (mode == 1 || mode == 2) {                        // individually drawn values
        if (n <= 96) { for (unsigned i = 0; i < n; ++i) { F near[4]; for (int k = 0; k < nrel; ++k) near[k] = rel[k][i]; b[i] = gen_value<F>(s, fl, near, nrel); } }
        else { Src sub(s.draw(0)); for (unsigned i = 0; i < n; ++i) { F near[4]; for (int k = 0; k < nrel; ++k) near[k] = rel[k][i]; b[i] = gen_value<F>(sub, fl, near, nrel); } }
        return;
    }
    if (mode >= (doms.empty() ? 3u : 8u)) {              // blocks with structure: one value, runs of one value, or one odd sample out
        const F * r0[4]; F near[4]; for (int k = 0; k < nrel; ++k) { r0[k] = rel[k]; near[k] = r0[k][0]; }
        auto val = [&](Src & q) -> F {
            if (doms.empty() || q.draw(2)) return gen_value<F>(q, fl, near, nrel);
            Dom e = doms[q.draw(doms.size())]; return sanitize((F)(e.lo + (e.hi - e.lo) * ((double)q.draw(1u << 30) / (1u << 30))), fl); };
        u64 kind = mode - (doms.empty() ? 3 : 8);
        if (kind == 0 || kind == 3) { F v = val(s); for (unsigned i = 0; i < n; ++i) b[i] = v; if (kind == 3) { unsigned at = (unsigned)s.draw(n); b[at] = val(s); } return; }
        Src sub(s.draw(0)); unsigned maxrun = 1u << sub.draw(6); F alt = val(sub);
        for (unsigned i = 0; i < n;) { unsigned len = kind == 1 ? maxrun : 1 + (unsigned)sub.draw(maxrun); F v = kind == 2 && sub.draw(2) ? alt : val(sub); for (unsigned k = 0; k < len && i < n; ++k) b[i++] = v; for (int k = 0; k < nrel && i < n; ++k) near[k] = rel[k][i]; }
        return;
    }
    Dom d = doms[s.draw(doms.size())];
    if (mode == 3) {                                     // run of consecutive floats around a special value or domain end
        std::vector<F> const & v = specials<F>(); size_t i = s.draw(v.size() + 2);
        F c = i < v.size() ? v[i] : (F)(i == v.size() ? d.lo : d.hi); if (s.draw(2)) c = -c;
        I o = ord(c) - (I)s.draw(n + 1);
        for (unsigned k = 0; k < n; ++k) b[k] = sanitize(unord<F>(o + (I)k), fl);
        return;
    }
    I lo = ord((F)d.lo), hi = ord((F)d.hi);
    if (mode == 4 || mode == 5) {                        // arithmetic progression in bit space inside the domain
        U span = (U)hi - (U)lo; U st = (U)s.draw((u64)span == ~0ull ? 0 : (u64)span + 1); U stride = (U)s.draw(0) | 1;
        for (unsigned k = 0; k < n; ++k) { U off = span == (U)~(U)0 ? st : st % (span + 1); b[k] = sanitize(unord<F>((I)((U)lo + off)), fl); st = off + stride; }
        return;
    }
    if (mode == 6) { Src sub(s.draw(0)); for (unsigned k = 0; k < n; ++k) b[k] = sanitize((F)(d.lo + (d.hi - d.lo) * ((double)(sub.draw(0) >> 11) / 9007199254740992.)), fl); return; }
    Src sub(s.draw(0));                                  // log uniform magnitude inside the domain
    double m = std::max(std::fabs(d.lo), std::fabs(d.hi)); double e = std::log2(m);
    for (unsigned k = 0; k < n; ++k) {
        double x = std::exp2(e - (double)(sub.draw(0) >> 11) / 9007199254740992. * 40); if (sub.draw(2)) x = -x;
        if (x < d.lo) x = -x; if (x > d.hi) x = -x; if (x < d.lo || x > d.hi) x = d.lo;
        b[k] = sanitize((F)x, fl);
    }
}

// in-contract length for a call
static const unsigned MAXLEN = 1060000;                    // largest block the arena holds, in samples
static const u64 LEN_HUGE = 99999;                         // choice of gen_len that means a block of more than 65536 loop iterations
inline unsigned len_unit(Call const & c) { return c.form == 'r' ? 64 / (c.type == 'f' ? 4 : 8) : 1; }
inline unsigned huge_len(Src & s, Call const & c)
{
    unsigned unit = len_unit(c); u64 k = s.draw(64);
    if (unit == 1) return (65536u << s.draw(5)) + 1 + (unsigned)k;
    return unit * (65536 + 1 + (unsigned)k);
}
inline unsigned gen_len(Src & s, Call const & c, unsigned maxn = 140000, bool huge = true)
{
    if (c.form == 'c') return c.N;
    unsigned unit = len_unit(c);
    u64 k = s.draw(LEN_HUGE + 1);
    unsigned n;
    if (k == LEN_HUGE && huge) return huge_len(s, c);
    if (k >= 98000 && k < 99000) { unsigned e = (unsigned)s.draw(13); int q = 1 << e; n = unit * (unsigned)std::max(1, q + (int)s.draw(3) - 1); }      // around powers of two
    else if (k < 90000) n = unit == 1 ? 1 + (unsigned)s.draw(40) : unit * (1 + (unsigned)s.draw(6));
    else if (k < 99000) n = unit == 1 ? 1 + (unsigned)s.draw(300) : unit * (1 + (unsigned)s.draw(40));
    else if (k < 99900) n = unit * (1 + (unsigned)s.draw(unit == 1 ? 5000 : 400));
    else n = unit * (1 + (unsigned)s.draw(std::max(1u, maxn / unit)));
    return std::min(n, maxn / unit * unit);
}
}
#endif
