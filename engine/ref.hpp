// Reference semantics of the element-wise functions.
#ifndef PBT_REF_HPP
#define PBT_REF_HPP
#include "gen.hpp"
namespace pbt {
enum OpId { O_plus, O_minus, O_times, O_over, O_min, O_max, O_less, O_less_equal, O_greater, O_greater_equal, O_equal, O_notequal, O_clip2,
    O_sum2, O_clip, O_muladd, O_ampmod, O_sum3, O_mix, O_sum4, O_pow, O_spow,
    O_abs, O_sgn, O_square, O_cube, O_undenormalize, O_reciprocal, O_round, O_frac, O_ceil, O_floor, O_trunc,
    O_sin, O_cos, O_tan, O_asin, O_acos, O_atan, O_tanh, O_log, O_log2, O_log10, O_exp, O_signed_sqrt,
    O_midi2freq, O_freq2midi, O_midi2ratio, O_ratio2midi, O_oct2freq, O_freq2oct, O_amp2db, O_db2amp, O_softclip, O_COUNT };
inline const char * const * op_names()
{
    static const char * n[] = { "plus", "minus", "times", "over", "min", "max", "less", "less_equal", "greater", "greater_equal", "equal", "notequal", "clip2",
    "sum2", "clip", "muladd", "ampmod", "sum3", "mix", "sum4", "pow", "spow",
    "abs", "sgn", "square", "cube", "undenormalize", "reciprocal", "round", "frac", "ceil", "floor", "trunc",
    "sin", "cos", "tan", "asin", "acos", "atan", "tanh", "log", "log2", "log10", "exp", "signed_sqrt",
    "midi2freq", "freq2midi", "midi2ratio", "ratio2midi", "oct2freq", "freq2oct", "amp2db", "db2amp", "softclip" };
    return n;
}
inline int op_id(std::string const & s) { for (int i = 0; i < O_COUNT; ++i) if (s == op_names()[i]) return i; return -1; }

template <class F> struct Ref {
    enum Mode { SKIP, EXACT, EXACT_BITS, EITHER, TOL } mode;
    F v, v2; ld lv, tol;
    Ref() : mode(SKIP), v(0), v2(0), lv(0), tol(0) {}
    static Ref skip() { return Ref(); }
    static Ref exact(F x) { Ref r; r.mode = EXACT; r.v = x; r.lv = x; return r; }
    static Ref exactbits(F x) { Ref r; r.mode = EXACT_BITS; r.v = x; r.lv = x; return r; }
    static Ref either(F a, F b) { Ref r; r.mode = EITHER; r.v = a; r.v2 = b; r.lv = a; return r; }
    static Ref tolerance(ld x, ld t)
    {
        if (!(x == x) || !(t == t) || fabsl(x) + t > FT<F>::mx()) return Ref();
        Ref r; r.mode = TOL; r.lv = x; r.tol = t; return r;
    }
    bool ok(F g) const
    {
        switch (mode) {
        case SKIP: return true;
        case EXACT: return g == v || (g != g && v != v);
        case EXACT_BITS: return bits_of(g) == bits_of(v) || (g != g && v != v);
        case EITHER: return g == v || g == v2;
        default: return g == g && fabsl((ld)g - lv) <= tol;
        }
    }
    // may two results of correct implementations be g and h?
    bool agree(F g, F h) const { return ok(g) && ok(h); }
    std::string str() const
    {
        switch (mode) {
        case SKIP: return "unspecified";
        case EXACT: case EXACT_BITS: return show(v);
        case EITHER: return show(v) + " or " + show(v2);
        default: return strf("%.20Lg +- %.3Lg", lv, tol);
        }
    }
};

// math function in higher precision
template <class F> inline ld hp(int op, ld x)
{
    if (sizeof(F) == 4) {
        double d = (double)x;
        switch (op) { case O_sin: return sin(d); case O_cos: return cos(d); case O_tan: return tan(d); case O_asin: return asin(d); case O_acos: return acos(d); case O_atan: return atan(d);
        case O_tanh: return tanh(d); case O_log: return log(d); case O_log2: return log2(d); case O_log10: return log10(d); case O_exp: return exp(d); }
    }
    switch (op) { case O_sin: return sinl(x); case O_cos: return cosl(x); case O_tan: return tanl(x); case O_asin: return asinl(x); case O_acos: return acosl(x); case O_atan: return atanl(x);
    case O_tanh: return tanhl(x); case O_log: return logl(x); case O_log2: return log2l(x); case O_log10: return log10l(x); case O_exp: return expl(x); }
    return NAN;
}

// x: operand values, d: uncertainty of each operand (0 unless it comes from a ramp), exact: no operand is uncertain
template <class F> Ref<F> reference(int op, const F * a, const ld * x, const ld * d, bool exact)
{
    typedef Ref<F> R;
    const ld eps = FT<F>::eps(), den = FT<F>::den(), MX = FT<F>::mx(), MN = FT<F>::mn();
    const bool flt = sizeof(F) == 4;
    const ld C = flt ? 5e-7L : 1e-14L;
    if (op <= O_clip2 || op == O_sum2) {
        if (exact) {
            F p = a[0], q = a[1];
            bool nan = p != p || q != q;
            switch (op) {
            case O_plus: case O_sum2: return R::exactbits(p + q);
            case O_minus: return R::exactbits(p - q);
            case O_times: return R::exactbits(p * q);
            case O_over: return R::exactbits(p / q);
            case O_min: return nan ? R::skip() : R::exact(p < q ? p : q);
            case O_max: return nan ? R::skip() : R::exact(p > q ? p : q);
            case O_less: return R::exact(p < q);
            case O_less_equal: return R::exact(p <= q);
            case O_greater: return R::exact(p > q);
            case O_greater_equal: return R::exact(p >= q);
            case O_equal: return R::exact(p == q);
            case O_notequal: return R::exact(p != q);
            case O_clip2: if (nan || q < 0) return R::skip(); return R::exact(p > q ? q : p < -q ? -q : p);
            }
        }
        ld p = x[0], q = x[1], dp = d[0], dq = d[1];
        if (!(p == p) || !(q == q)) return op >= O_less && op <= O_notequal ? R::exact(op == O_notequal) : R::skip();
        bool close = fabsl(p - q) <= dp + dq;
        switch (op) {
        case O_plus: case O_sum2: return R::tolerance(p + q, dp + dq + eps * fabsl(p + q));
        case O_minus: return R::tolerance(p - q, dp + dq + eps * fabsl(p - q));
        case O_times: return R::tolerance(p * q, fabsl(p) * dq + fabsl(q) * dp + dp * dq + eps * fabsl(p * q) + den);
        case O_over: if (fabsl(q) <= 4 * dq || q == 0) return R::skip();
            return R::tolerance(p / q, (dp + fabsl(p / q) * dq) / (fabsl(q) - dq) + eps * fabsl(p / q) + den);
        case O_min: return R::tolerance(p < q ? p : q, std::max(dp, dq));
        case O_max: return R::tolerance(p > q ? p : q, std::max(dp, dq));
        case O_less: return close ? R::skip() : R::exact(p < q);
        case O_less_equal: return close ? R::skip() : R::exact(p <= q);
        case O_greater: return close ? R::skip() : R::exact(p > q);
        case O_greater_equal: return close ? R::skip() : R::exact(p >= q);
        case O_equal: return close ? R::skip() : R::exact(0);
        case O_notequal: return close ? R::skip() : R::exact(1);
        case O_clip2: if (q - dq < 0) return R::skip(); return R::tolerance(p > q ? q : p < -q ? -q : p, dp + dq);
        }
        return R::skip();
    }
    if (op <= O_sum4) {
        int n = op <= O_sum3 ? 3 : 4;
        for (int i = 0; i < n; ++i) if (!(fabsl(x[i]) <= MX)) {
            if (op == O_clip && exact && a[0] == a[0] && a[1] == a[1] && a[2] == a[2]) break;   // infinities are fine for clipping
            return R::skip();
        }
        switch (op) {
        case O_clip: if (x[1] + d[1] > x[2] - d[2]) { if (!exact || x[1] > x[2]) return R::skip(); }
            if (exact) return R::exact(a[0] < a[1] ? a[1] : a[0] > a[2] ? a[2] : a[0]);
            return R::tolerance(x[0] < x[1] ? x[1] : x[0] > x[2] ? x[2] : x[0], std::max(d[0], std::max(d[1], d[2])));
        case O_muladd: { ld m = fabsl(x[0] * x[1]) + fabsl(x[2]); if (m > MX / 4) return R::skip();
            return R::tolerance(x[0] * x[1] + x[2], 2 * eps * m + 2 * den + fabsl(x[0]) * d[1] + fabsl(x[1]) * d[0] + d[0] * d[1] + d[2]); }
        case O_ampmod: { ld p = fabsl(x[1] * x[2]); ld m = fabsl(x[0]) * (1 + p); if (p > MX / 8 || m > MX / 8) return R::skip();
            ld dp = fabsl(x[1]) * d[2] + fabsl(x[2]) * d[1] + d[1] * d[2];
            // reassociated evaluation s + s*m*a is allowed as well
            return R::tolerance(x[0] * (1 + x[1] * x[2]), 3 * eps * m + 4 * den * (1 + fabsl(x[0])) + fabsl(x[0]) * dp + (1 + p) * d[0] + dp * d[0]); }
        case O_mix: { ld m = fabsl(x[0] * x[1]) + fabsl(x[2] * x[3]); if (m > MX / 4) return R::skip();
            ld dd = 0; for (int i = 0; i < 4; i += 2) dd += fabsl(x[i]) * d[i + 1] + fabsl(x[i + 1]) * d[i] + d[i] * d[i + 1];
            return R::tolerance(x[0] * x[1] + x[2] * x[3], 2 * eps * m + 4 * den + dd); }
        default: { ld v = 0, m = 0, dd = 0; for (int i = 0; i < n; ++i) { v += x[i]; m += fabsl(x[i]); dd += d[i]; }
            if (m > MX / 4) return R::skip();
            return R::tolerance(v, 2 * eps * m + dd); }
        }
    }
    if (op == O_pow || op == O_spow) {
        ld b = x[0], e = x[1], sg = 1;
        if (!(fabsl(b) <= MX) || !(fabsl(e) <= MX)) return R::skip();
        if (b == 0 && exact) return e > 0 ? R::exact(0) : R::skip();
        if (b < 0) { if (op == O_pow) return R::skip(); b = -b; sg = -1; }
        if (b < MN || b <= 4 * d[0]) return R::skip();
        ld l = e * logl(b);
        if (fabsl(l) > 85) return R::skip();
        ld c = flt ? 5e-7L : 1e-13L;
        ld rel = c * (1 + fabsl(l)) + fabsl(e) * d[0] / (b - d[0]) + fabsl(logl(b)) * d[1] * (exact ? 1 : 2);
        if (rel > 0.05L) return R::skip();
        ld v = sg * expl(l);
        return R::tolerance(v, rel * fabsl(v));
    }
    // one operand
    F p = a[0]; ld q = x[0];
    switch (op) {
    case O_abs: return p != p ? R::skip() : R::exactbits(std::fabs(p));
    case O_sgn: return p != p ? R::skip() : R::exact(p > 0 ? 1 : p < 0 ? -1 : 0);
    case O_square: return p != p ? R::skip() : R::exact(p * p);
    case O_cube: { if (p != p) return R::skip(); if (std::isinf(p)) return R::exact(p);
        ld v = q * q * q; if (!(fabsl(v) <= MX * 0.999L)) return fabsl(v) > MX * 1.001L ? R::exact(v > 0 ? (F)INFINITY : -(F)INFINITY) : R::skip();
        return R::tolerance(v, 1.25L * eps * fabsl(v) + 2 * den); }
    case O_undenormalize: return std::fabs(p) < (F)MN ? R::exact(0) : R::exactbits(p);
    case O_reciprocal: { ld lo = flt ? 0x1p-124L : 0x1p-1000L, hi = flt ? 0x1p124L : 0x1p1000L; if (!(fabsl(q) >= lo && fabsl(q) <= hi)) return R::skip();
        return R::tolerance(1 / q, (flt ? 5e-7L : 4 * eps) / fabsl(q)); }
    case O_round: { if (!(fabsl(q) <= MX)) return R::skip(); F f = std::floor(p); F r = p - f;   // exact for the comparison with 1/2 whenever p is not integral
        if (r == 0) return R::exact(f); ld rr = q - (ld)f; F u = f + 1; return rr < 0.5L ? R::exact(f) : rr > 0.5L ? R::exact(u) : R::either(f, u); }
    case O_floor: return fabsl(q) <= MX ? R::exact(std::floor(p)) : R::skip();
    case O_ceil: return fabsl(q) <= MX ? R::exact(std::ceil(p)) : R::skip();
    case O_trunc: return fabsl(q) <= MX ? R::exact(std::trunc(p)) : R::skip();
    case O_frac: return fabsl(q) <= MX ? R::exact(p - std::floor(p)) : R::skip();
    case O_signed_sqrt: { if (p != p) return R::skip(); F r = std::sqrt(std::fabs(p)); return R::exact(p < 0 ? -r : r); }
    case O_softclip: { if (!(fabsl(q) <= MX)) return R::skip(); if (fabsl(q) < 0.5L) return R::exactbits(p);
        ld v = (fabsl(q) - 0.25L) / q; return R::tolerance(v, 1.25L * eps * fabsl(v)); }
    case O_sin: case O_cos: {
        if (!(fabsl(q) <= 8192)) return R::skip(); ld v = hp<F>(op, q);
        if (!flt) return R::tolerance(v, C * fabsl(v));
        if (p != 0 && fabsl(q) < MN) return R::skip();
        return R::tolerance(v, fabsl(q) <= 3.2L ? std::min(2e-7L, C * fabsl(v)) : 2e-7L); }
    case O_tan: {
        if (!(fabsl(q) <= 8192)) return R::skip(); ld v = hp<F>(op, q);
        if (p != 0 && fabsl(q) < MN) return R::skip();
        return R::tolerance(v, flt ? C * fabsl(v) + 1e-8L * (1 + v * v) : C * fabsl(v)); }
    case O_asin: case O_acos: case O_atan: case O_tanh: case O_log: case O_log2: case O_log10: case O_exp: {
        if (p != p || std::isinf(p) || (p != 0 && fabsl(q) < MN)) return R::skip();
        if ((op == O_asin || op == O_acos) && fabsl(q) > 1) return R::skip();
        if (op >= O_log && op <= O_log10 && q <= 0) return R::skip();
        if (op == O_exp && (q > (flt ? 88.7228L : 709.7L) || q < (flt ? -87.33L : -708.3L))) return R::skip();
        ld v = hp<F>(op, q);
        return R::tolerance(v, C * fabsl(v)); }
    }
    if (op >= O_midi2freq && op <= O_db2amp) {
        if (p != p || std::isinf(p)) return R::skip();
        const ld c = flt ? 5e-7L : 1e-9L, LN2 = 0.693147180559945309417232121458L, LN10 = 2.30258509299404568401799145468L;
        ld e = 0, scale = 1;
        switch (op) {
        case O_midi2freq: e = (q - 69) / 12 * LN2; scale = 440; break;
        case O_midi2ratio: e = q / 12 * LN2; break;
        case O_oct2freq: e = (q - 4.75L) * LN2; scale = 440; break;
        case O_db2amp: e = q / 20 * LN10; break;
        case O_freq2midi: case O_freq2oct: { ld f = fabsl(q); if (f < 1e-30L || f > 1e30L) return R::skip();
            ld l = log2l(f / 440), k = op == O_freq2midi ? 12 : 1, off = op == O_freq2midi ? 69 : 4.75L; return R::tolerance(k * l + off, c * (k * fabsl(l) + off)); }
        case O_ratio2midi: { if (q < MN) return R::skip(); ld v = 12 * log2l(q); return R::tolerance(v, c * fabsl(v)); }
        case O_amp2db: { ld f = fabsl(q); if (f < MN) return R::skip(); ld v = 20 * log10l(f); return R::tolerance(v, c * fabsl(v)); }
        }
        if (fabsl(e) > 78) return R::skip();
        ld v = scale * expl(e);
        return R::tolerance(v, c * (1 + fabsl(e)) * v);
    }
    return R::skip();
}
template <class F> Ref<F> reference(int op, const F * a)
{
    ld x[4] = { 0, 0, 0, 0 }, d[4] = { 0, 0, 0, 0 };
    int n = op <= O_clip2 || op == O_sum2 || op == O_pow || op == O_spow ? 2 : op <= O_sum3 ? 3 : op <= O_sum4 ? 4 : 1;
    for (int i = 0; i < n; ++i) x[i] = a[i];
    return reference<F>(op, a, x, d, true);
}
// domains used by block sweeps
inline std::vector<Dom> domains(int op, bool flt)
{
    std::vector<Dom> v; const double M = flt ? 3.4e38 : 1.7e308, m = flt ? 1.1754944e-38 : 2.3e-308;
    #define D(a, b) { Dom d = { a, b }; v.push_back(d); }
    switch (op) {
    case O_sin: case O_cos: case O_tan: D(-3.2, 3.2) D(-100, 100) D(-8192, 8192) D(1e-6, 0.8) D(0.7, 1.6) break;
    case O_asin: case O_acos: D(-1, 1) D(0.45, 0.55) D(-0.55, -0.45) D(0.99, 1) D(-1, -0.99) D(-0.1, 0.1) break;
    case O_atan: D(-M, M) D(-3, 3) D(0.4, 0.43) D(2.4, 2.43) D(-1000, 1000) break;
    case O_tanh: D(-M, M) D(-25, 25) D(0.6, 0.65) D(-1, 1) D(8, 23) break;
    case O_log: case O_log2: case O_log10: D(m, M) D(0.5, 2) D(0.9, 1.1) D(1e-6, 1e6) D(0.70, 0.71) break;
    case O_exp: if (flt) { D(-87.33, 88.7228) D(-1, 1) D(-10, 10) D(80, 88.7228) D(-87.33, -80) } else { D(-708, 709.5) D(-1, 1) D(-10, 10) } break;
    case O_midi2freq: D(-100, 200) D(0, 127) D(-1000, 1000) break;
    case O_midi2ratio: D(-100, 100) D(-24, 24) D(-1000, 1000) break;
    case O_oct2freq: D(-10, 20) D(0, 10) D(-80, 80) break;
    case O_db2amp: D(-140, 140) D(-20, 20) D(-600, 600) break;
    case O_freq2midi: case O_freq2oct: D(20, 20000) D(1e-3, 1e6) D(-20000, -20) D(400, 480) D(1e-29, 1e29) break;
    case O_ratio2midi: D(0.01, 100) D(0.5, 2) D(m, M) break;
    case O_amp2db: D(1e-7, 10) D(-10, -1e-7) D(m, M) D(0.9, 1.1) break;
    case O_softclip: D(-1, 1) D(0.49, 0.51) D(-0.51, -0.49) D(-M, M) break;
    case O_undenormalize: D(-4 * m, 4 * m) D(-m, m) D(-M, M) break;
    case O_round: case O_frac: case O_ceil: case O_floor: case O_trunc: D(-4, 4) D(-1000, 1000) D(-0.75, 0.75) D(4e6, 3.4e7) D(-3.4e7, -4e6) D(-M, M) D(1e9, 1e10) D(1e15, 4e16) break;
    default: D(-M, M) D(-2, 2) D(-1000, 1000) break;
    }
    #undef D
    return v;
}
}
#endif
