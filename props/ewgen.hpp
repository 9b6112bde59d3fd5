// Generation and judging of element-wise calls.
#ifndef PBT_EWGEN_HPP
#define PBT_EWGEN_HPP
#include "run.hpp"
namespace pbt {
// operands of an element-wise call; head: choices drawn before the operands (for shrink suggestions)
template <class F> void gen_operands(Ctx & ctx, Inst<F> & I, int op, std::vector<u64> & head)
{
    Call const & c = *I.c;
    if (ctx.sh) head.assign(ctx.sh->choices, ctx.sh->choices + std::min<u64>(ctx.pos, MAX_CHOICES));
    u64 prof = ctx.draw(6);                      // 0: anything
    unsigned fl = prof < 2 ? ANY : prof == 2 ? FINITE : prof == 3 ? AUDIO : MODERATE;
    if (has(c.kinds, 'r') && prof) fl |= FINITE;
    const bool pw = op == O_pow || op == O_spow;
    std::vector<Dom> doms;
    I.a.assign(c.kinds.size(), Operand<F>());
    for (size_t i = 0; i < c.kinds.size(); ++i) {
        Operand<F> & o = I.a[i]; o.kind = c.kinds[i];
        if (c.kinds.size() == 1) doms = domains(op, sizeof(F) == 4);
        if (pw) { doms.clear(); Dom d0[] = { { 1e-3, 1e3 }, { 0.5, 2 }, { sizeof(F) == 4 ? 1.2e-38 : 1e-300, sizeof(F) == 4 ? 3e38 : 1e300 }, { 0, 1 } }, d1[] = { { -10, 10 }, { -2, 2 }, { -80, 80 }, { 0, 4 } };
            doms.assign(i ? d1 : d0, (i ? d1 : d0) + 4); }
        std::vector<std::vector<F> > near(i); const F * rel[4]; F one[4];
        for (size_t k = 0; k < i; ++k) { if (isbuf(I.a[k].kind)) near[k] = I.a[k].v; else near[k].assign(I.n, I.a[k].b); rel[k] = &near[k][0]; one[k] = near[k][0]; }
        if (isbuf(o.kind)) { o.v.resize(I.n); gen_block<F>(ctx, &o.v[0], I.n, fl, doms, rel, (int)i); }
        else o.b = gen_value<F>(ctx, fl, one, (int)i);
        if (o.kind == 'r') {
            u64 rk = ctx.draw(4);
            o.s = gen_value<F>(ctx, prof ? fl : (unsigned)ANY);
            if (rk == 1) o.s = (F)(o.s / (F)I.n); else if (rk == 2) o.s = (F)(o.s * (F)1e-3); else if (rk == 3) o.s = (F)(o.b / (F)I.n) * (ctx.draw(2) ? 1 : -1);
            if (prof) { ld lim = FT<F>::mx() / 64; if (fabsl((ld)o.b) > lim) o.b = (F)1; if (fabsl((ld)o.s) * I.n > lim) o.s = (F)(1.0L / I.n); }
        }
    }
    if (!prof) return;
    if (op == O_clip2 && ctx.draw(8)) { Operand<F> & o = I.a[1]; for (size_t k = 0; k < o.v.size(); ++k) o.v[k] = std::fabs(o.v[k]); o.b = std::fabs(o.b); if (o.kind == 'r') o.s = std::fabs(o.s); }
    if (op == O_clip) {
        Operand<F> & lo = I.a[1], & hi = I.a[2];
        if (lo.kind == 'r' || hi.kind == 'r') {      // make most intervals non-empty
            if (lo.kind != 'v') { lo.b = -std::fabs(lo.b); lo.s = -std::fabs(lo.s); } else for (unsigned k = 0; k < I.n; ++k) lo.v[k] = -std::fabs(lo.v[k]);
            if (hi.kind != 'v') { hi.b = std::fabs(hi.b) + 1; hi.s = std::fabs(hi.s); } else for (unsigned k = 0; k < I.n; ++k) hi.v[k] = std::fabs(hi.v[k]) + 1;
        } else for (unsigned k = 0; k < I.n; ++k) {
            F l = lo.at(k), h = hi.at(k);
            if (l > h) { if (isbuf(lo.kind)) lo.v[k] = h; else lo.b = h; if (isbuf(hi.kind)) hi.v[k] = isbuf(lo.kind) ? l : h; else if (!isbuf(lo.kind)) hi.b = l; if (isbuf(lo.kind) && isbuf(hi.kind)) { lo.v[k] = h; hi.v[k] = l; } if (!isbuf(lo.kind) && isbuf(hi.kind)) { lo.b = l; hi.v[k] = l; } }
        }
    }
    if (pw) {
        Operand<F> & b = I.a[0], & e = I.a[1];
        if (ctx.draw(4)) {                            // scale exponents into the specified range
            Src sub(ctx.draw(0));
            if (op == O_pow || sub.draw(2)) { for (size_t k = 0; k < b.v.size(); ++k) b.v[k] = std::fabs(b.v[k]); if (b.kind != 'r') b.b = std::fabs(b.b); }
            if (e.kind == 'r') { e.b = (F)((double)(int)sub.draw(2001) / 100 - 10); e.s = (F)(((double)(int)sub.draw(2001) / 100 - 10) / I.n); }
            if (b.kind == 'r') { b.b = (F)(0.01 + (double)sub.draw(1000) / 100); b.s = (F)((double)sub.draw(1000) / 100 / I.n); }
            if (isbuf(e.kind)) for (unsigned k = 0; k < I.n; ++k) { double l = std::log(std::fabs((double)b.at(k))); if (std::fabs(l) > 1e-6 && std::fabs(l) < 800) e.v[k] = (F)(((double)(int)sub.draw(16401) / 100 - 82) / l); }
            else if (isbuf(b.kind) && e.kind != 'r' && sub.draw(2)) { double m = 1e-9; for (unsigned k = 0; k < I.n; ++k) { double l = std::fabs(std::log(std::fabs((double)b.v[k]))); if (l < 800) m = std::max(m, l); } if (std::fabs((double)e.b) * m > 84) e.b = (F)((e.b < 0 ? -84 : 84) / m); }
        }
    }
}

template <class F> std::vector<u64> suggestion(Ctx & ctx, Inst<F> const & I, std::vector<u64> const & head, unsigned k)
{
    std::vector<u64> s(head); s.push_back(0);
    for (size_t i = 0; i < I.a.size(); ++i) {
        Operand<F> const & o = I.a[i];
        s.push_back(0); s.push_back((u64)bits_of(isbuf(o.kind) ? o.v[k] : o.b));
        if (o.kind == 'r') { s.push_back(0); s.push_back(0); s.push_back((u64)bits_of(o.s)); }
    }
    return s;
}

template <class F> Ref<F> ref_at(Inst<F> const & I, int op, unsigned k)
{
    F a[4]; ld x[4], d[4]; bool exact = true;
    for (size_t i = 0; i < I.a.size(); ++i) {
        Operand<F> const & o = I.a[i];
        if (o.kind == 'r') {
            ramp_at(o.b, o.s, k, x[i], d[i]); a[i] = (F)x[i]; if (d[i] != 0) exact = false;
            if (!(o.b == o.b) || !(o.s == o.s) || std::isinf(o.b) || std::isinf(o.s)) return Ref<F>();
            if (fabsl((ld)o.b) + ((ld)I.n + 16) * fabsl((ld)o.s) > FT<F>::mx() / 2) return Ref<F>();
        } else { a[i] = o.at(k); x[i] = a[i]; d[i] = 0; }
    }
    return reference<F>(op, a, x, d, exact);
}

template <class F> void judge(Ctx & ctx, Inst<F> const & I, int op, std::vector<u64> const & head)
{
    std::vector<Ref<F> > r(I.n); unsigned judged = 0, interesting = 0;
    for (unsigned k = 0; k < I.n; ++k) {
        r[k] = ref_at(I, op, k);
        if (r[k].mode != Ref<F>::SKIP) { ++judged; if (r[k].lv != 0 && fabsl(r[k].lv) <= FT<F>::mx()) ++interesting; }
    }
    if (interesting * 4 >= I.n) ctx.nontrivial();
    std::vector<F> out[2];
    for (size_t m = 0; m < I.c->impl.size(); ++m) {
        execute(ctx, I, (int)m, out);
        for (unsigned k = 0; k < I.n; ++k) if (!r[k].ok(out[0][k])) {
            ctx.suggest(suggestion(ctx, I, head, k));
            std::string ops;
            for (size_t i = 0; i < I.a.size(); ++i) ops += (i ? ", " : "") + (I.a[i].kind == 'r' ? "ramp " + show(I.a[i].b) + " step " + show(I.a[i].s) : show(I.a[i].at(k)));
            ctx.fail("%s build %s n=%u: sample %u of (%s) is %s, expected %s", I.c->name().c_str(), libs[I.c->impl[m].first].cfg.c_str(), I.n, k, ops.c_str(), show(out[0][k]).c_str(), r[k].str().c_str());
        }
        ctx.points(judged);
    }
    ctx.label(I.c->op); ctx.label(strf("form %c %c", I.c->form, I.c->type)); ctx.label("kinds " + I.c->kinds);
    if (ctx.nontriv) ctx.desc = I.str();
}
}
#endif
