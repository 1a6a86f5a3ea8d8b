// Random trials for every operation, compared with the reference semantics.
#pragma once
#include "ref.hpp"
namespace rf {
using grb::OutputControlEnum;
struct Call {            // one randomly chosen configuration
    int mk; bool acc; bool replace; bool ta, tb; bool ok = true;
    OutputControlEnum outp() const { return replace ? grb::REPLACE : grb::MERGE; }
};
inline Call rndCall(Ctx &c) { Call k; k.mk = c.rng.below(5); k.acc = c.rng.chance(1, 2); k.replace = c.rng.chance(1, 2); k.ta = c.rng.chance(1, 2); k.tb = c.rng.chance(1, 2); return k; }
inline void describe(Ctx &c, Call const &k) {
    c.log << c.op << " " << mkname(k.mk) << (k.acc ? " accum" : " noaccum") << (k.replace ? " REPLACE" : " MERGE") << (k.ta ? " A'" : "") << (k.tb ? " B'" : "") << (k.ok ? "" : " (ill-shaped)") << "\n";
    c.shape_key = k.mk + 8 * k.acc + 16 * k.replace + 32 * k.ta + 64 * k.tb;
}
// perturb one of the dimensions when ill-shaped calls are wanted
inline Ix pert(Ctx &c, Ix d) { if (c.bad && c.rng.chance(1, 8)) return c.rng.chance(1, 2) && d > 1 ? d - 1 : d + 1 + c.rng.below(2); return d; }

// run f under the exception rules; true when the call completed
template<class F> bool guarded(Ctx &c, bool ok, F f) {
    try { f(); if (!ok) c.fail(THROW, "ill-shaped call was accepted"); return true; }
    catch (grb::DimensionException const &) {}
    catch (grb::InvalidIndexException const &) {}
    catch (grb::IndexOutOfBoundsException const &) {}
    catch (grb::InvalidValueException const &) { if (!ok) c.fail(THROW, "wrong kind of error"); }
    catch (std::exception const &) { c.fail(THROW, "unexpected exception"); return false; }
    if (ok) c.fail(THROW, "well-shaped call was rejected");
    return false;
}
template<class F> void tflag(bool t, F f) { if (t) f(std::true_type()); else f(std::false_type()); }
#define VW(X, t) ([&]() -> decltype(auto) { if constexpr (decltype(t)::value) return grb::transpose(X); else return (X); }())

// aliasing: which of the operands is the output object itself
template<class Ty> struct Al { bool a = false, b = false, m = false, ab = false; };
template<class Ty> Al<Ty> rndAl(Ctx &c) { Al<Ty> x; if constexpr (Ty::same) { do { x.a = c.rng.chance(1, 3); x.b = c.rng.chance(1, 3); x.m = c.rng.chance(1, 3); x.ab = c.rng.chance(1, 6); } while (!(x.a || x.b || x.m || x.ab)); } return x; }

template<class G, class H> H const &as(G const &own, H const &) { return own; }
template<class H, class G, class O> H const &sel(bool al, G &out, O const &own) { if constexpr (std::is_same_v<H, G>) return al ? static_cast<H const &>(out) : static_cast<H const &>(own); else return own; }

// ---- matrix = f(A,B) -----------------------------------------------------------
// shape(c, C dims out, A dims, B dims): fills effective shapes; T(A,B) gives the result
template<class Ty> struct MatAB {
    using A = typename Ty::A; using B = typename Ty::B; using C = typename Ty::C; using M = typename Ty::M; using T = typename Ty::T;
    using F = Fn<Ty>;
    template<class Shape, class Ref, class Real> static void go(Ctx &c, Shape shape, Ref ref, Real real) {
        Call k = rndCall(c); Al<Ty> al = rndAl<Ty>(c);
        Ix ar, ac, br, bc, cr, cc; 
        if constexpr (Ty::same) { k.tb = k.tb; Ix d = c.dim(); ar = ac = br = bc = cr = cc = d; if (!shape(c, cr, cc, ar, ac, br, bc, true)) return; }
        else shape(c, cr, cc, ar, ac, br, bc, false);
        Ix o[8] = {ar, ac, br, bc, cr, cc, cr, cc}; Ix n[8]; for (int i = 0; i < 8; ++i) n[i] = pert(c, o[i]);
        if (c.bad && k.mk == NOMASK) { n[6] = o[6]; n[7] = o[7]; }
        RM<A> a = rndM<A>(c, k.ta ? n[1] : n[0], k.ta ? n[0] : n[1]); RM<B> b = rndM<B>(c, k.tb ? n[3] : n[2], k.tb ? n[2] : n[3]);
        RM<C> C0 = rndM<C>(c, n[4], n[5]); RM<M> m = rndM<M>(c, n[6], n[7]);
        if constexpr (Ty::same) { if (al.a) a = C0; if (al.b) b = C0; if (al.m) m = C0; if (al.ab) { if (al.a) b = a; else if (al.b) a = b; else b = a; } }
        RM<A> ea = k.ta ? tr(a) : a; RM<B> eb = k.tb ? tr(b) : b;
        k.ok = shape.compat(C0.r, C0.c, ea.r, ea.c, eb.r, eb.c) && (k.mk == NOMASK || (m.r == C0.r && m.c == C0.c));
        describe(c, k); if (Ty::same) c.log << "alias: A=C:" << al.a << " B=C:" << al.b << " Mask=C:" << al.m << " A=B:" << al.ab << "\n";
        c.log << "A=" << show(a) << "\nB=" << show(b) << "\nC=" << show(C0) << "\nMask=" << show(m) << "\n";
        c.nontrivial = !a.e.empty() && !b.e.empty();
        auto gC = toG(C0); auto gA = toG(a); auto gB = toG(b); auto gM = toG(m);
        auto const &xA = sel<grb::Matrix<A>>(al.a, gC, gA);
        auto const &xB0 = sel<grb::Matrix<B>>(al.b, gC, gB);
        grb::Matrix<B> const *pB = &xB0; if constexpr (Ty::same) { if (al.ab && !al.b && !al.a) pB = &gA; if (al.ab && (al.a != al.b)) pB = &gC; if (al.ab && al.b && !al.a) pB = &gC; }
        auto const &xB = *pB;
        grb::Matrix<A> const *pA = &xA; if constexpr (Ty::same) { if (al.ab && al.b && !al.a) pA = &gC; }
        auto const &xM = sel<grb::Matrix<M>>(al.m, gC, gM);
        bool done = guarded(c, k.ok, [&] { tflag(k.ta, [&](auto ta) { tflag(k.tb, [&](auto tb) { tflag(k.acc, [&](auto ac) { with_mask(k.mk, xM, [&](auto const &mv) {
            if constexpr (decltype(ac)::value) real(gC, mv, typename F::ACC(), VW(*pA, ta), VW(xB, tb), k.outp());
            else real(gC, mv, grb::NoAccumulate(), VW(*pA, ta), VW(xB, tb), k.outp()); }); }); }); }); });
        RM<C> want = C0;
        if (done && k.ok) {
            std::map<Pos, T> t = ref(ea, eb);
            std::map<Pos, C> z = k.acc ? zaccum(C0.e, t, typename F::ACC()) : zaccum(C0.e, t, grb::NoAccumulate());
            want.e = masked(C0.e, z, m.e, k.mk, k.replace);
        }
        if (!done || k.ok) check_out(c, gC, want, "C");
        if (!k.ok && !c.fails.empty() && c.fails.back().a == VALUE) c.fails.back().a = THROW;
        check_in(c, gA, a, "A"); check_in(c, gB, b, "B"); check_in(c, gM, m, "Mask");
    }
};
struct ShMxm {
    template<class X> bool operator()(X &c, Ix &cr, Ix &cc, Ix &ar, Ix &ac, Ix &br, Ix &bc, bool same) const { if (same) return true; cr = ar = c.dim(); cc = bc = c.dim(); ac = br = c.dim(); return true; }
    bool compat(Ix cr, Ix cc, Ix ar, Ix ac, Ix br, Ix bc) const { return cr == ar && cc == bc && ac == br; }
};
struct ShEw {
    template<class X> bool operator()(X &c, Ix &cr, Ix &cc, Ix &ar, Ix &ac, Ix &br, Ix &bc, bool same) const { if (same) return true; cr = ar = br = c.dim(); cc = bc = ac = c.dim(); return true; }
    bool compat(Ix cr, Ix cc, Ix ar, Ix ac, Ix br, Ix bc) const { return cr == ar && cc == ac && ar == br && ac == bc; }
};
struct ShKron {
    template<class X> bool operator()(X &c, Ix &cr, Ix &cc, Ix &ar, Ix &ac, Ix &br, Ix &bc, bool same) const {
        if (same) { cr = cc = ar = ac = br = bc = 1 ; if (c.rng.chance(1, 2)) { /* only the mask can alias in general */ ar = ac = 1 + c.rng.below(3); br = bc = 1; cr = cc = ar; } return true; }
        ar = 1 + c.rng.below(4); ac = 1 + c.rng.below(4); br = 1 + c.rng.below(4); bc = 1 + c.rng.below(4); if (c.rng.chance(1, 20)) { br = 1 + c.rng.below(9); ac = 1 + c.rng.below(9); } cr = ar * br; cc = ac * bc; return true; }
    bool compat(Ix cr, Ix cc, Ix ar, Ix ac, Ix br, Ix bc) const { return cr == ar * br && cc == ac * bc; }
};
template<class Ty> void t_mxm(Ctx &c) {
    using F = Fn<Ty>; using T = typename Ty::T; c.op = "mxm";
    MatAB<Ty>::go(c, ShMxm(), [](auto const &a, auto const &b) { std::map<Pos, T> t; typename F::SR sr;
        for (auto &x : a.e) for (auto &y : b.e) if (x.first.second == y.first.first) { Pos p{x.first.first, y.first.second}; auto v = sr.mult(x.second, y.second); auto it = t.find(p); if (it == t.end()) t.emplace(p, v); else it->second = sr.add(it->second, v); }
        return t; },
        [](auto &C, auto const &m, auto acc, auto const &a, auto const &b, auto o) { grb::mxm(C, m, acc, typename F::SR(), a, b, o); });
}
template<class Ty> void t_ewadd(Ctx &c) {
    using F = Fn<Ty>; using T = typename Ty::T; c.op = "eWiseAdd(matrix)";
    MatAB<Ty>::go(c, ShEw(), [](auto const &a, auto const &b) { std::map<Pos, T> t; typename F::BOP op;
        for (auto &x : a.e) { auto y = b.e.find(x.first); t.emplace(x.first, y == b.e.end() ? T(x.second) : op(x.second, y->second)); }
        for (auto &y : b.e) if (!a.e.count(y.first)) t.emplace(y.first, T(y.second)); return t; },
        [](auto &C, auto const &m, auto acc, auto const &a, auto const &b, auto o) { grb::eWiseAdd(C, m, acc, typename F::BOP(), a, b, o); });
}
template<class Ty> void t_ewmult(Ctx &c) {
    using F = Fn<Ty>; using T = typename Ty::T; c.op = "eWiseMult(matrix)";
    MatAB<Ty>::go(c, ShEw(), [](auto const &a, auto const &b) { std::map<Pos, T> t; typename F::BOP op;
        for (auto &x : a.e) { auto y = b.e.find(x.first); if (y != b.e.end()) t.emplace(x.first, op(x.second, y->second)); } return t; },
        [](auto &C, auto const &m, auto acc, auto const &a, auto const &b, auto o) { grb::eWiseMult(C, m, acc, typename F::BOP(), a, b, o); });
}
template<class Ty> void t_kron(Ctx &c) {
    using F = Fn<Ty>; using T = typename Ty::T; c.op = "kronecker";
    MatAB<Ty>::go(c, ShKron(), [](auto const &a, auto const &b) { std::map<Pos, T> t; typename F::BOP op;
        for (auto &x : a.e) for (auto &y : b.e) t.emplace(Pos{x.first.first * b.r + y.first.first, x.first.second * b.c + y.first.second}, op(x.second, y.second)); return t; },
        [](auto &C, auto const &m, auto acc, auto const &a, auto const &b, auto o) { grb::kronecker(C, m, acc, typename F::BOP(), a, b, o); });
}
// ---- matrix = f(A) ------------------------------------------------------------
// X: what the accumulator combines with C (ACC / ACA)
template<class Ty, class Acc, class TT> struct MatA {
    using A = typename Ty::A; using C = typename Ty::C; using M = typename Ty::M;
    template<class Shape, class Compat, class Ref, class Real> static void go(Ctx &c, Shape shape, Compat compat, Ref ref, Real real, std::function<void(std::ostream &)> extra = {}) {
        Call k = rndCall(c); k.tb = false; Al<Ty> al = rndAl<Ty>(c); if (Ty::same) { al.b = al.ab = false; if (!al.a && !al.m) al.a = true; }
        Ix ar, ac, cr, cc; shape(ar, ac, cr, cc);
        Ix n[6] = {pert(c, ar), pert(c, ac), pert(c, cr), pert(c, cc), pert(c, cr), pert(c, cc)};
        RM<A> a = rndM<A>(c, k.ta ? n[1] : n[0], k.ta ? n[0] : n[1]); RM<C> C0 = rndM<C>(c, n[2], n[3]); RM<M> m = rndM<M>(c, n[4], n[5]);
        if constexpr (Ty::same) { if (al.a) a = C0; if (al.m) m = C0; }
        RM<A> ea = k.ta ? tr(a) : a;
        k.ok = compat(C0.r, C0.c, ea.r, ea.c) && (k.mk == NOMASK || (m.r == C0.r && m.c == C0.c));
        describe(c, k); if (Ty::same) c.log << "alias: A=C:" << al.a << " Mask=C:" << al.m << "\n";
        c.log << "A=" << show(a) << "\nC=" << show(C0) << "\nMask=" << show(m) << "\n"; if (extra) extra(c.log);
        c.nontrivial = !a.e.empty();
        auto gC = toG(C0); auto gA = toG(a); auto gM = toG(m);
        auto const &xA = sel<grb::Matrix<A>>(al.a, gC, gA); auto const &xM = sel<grb::Matrix<M>>(al.m, gC, gM);
        bool done = guarded(c, k.ok, [&] { tflag(k.ta, [&](auto ta) { tflag(k.acc, [&](auto ac2) { with_mask(k.mk, xM, [&](auto const &mv) {
            if constexpr (decltype(ac2)::value) real(gC, mv, Acc(), VW(xA, ta), k.outp()); else real(gC, mv, grb::NoAccumulate(), VW(xA, ta), k.outp()); }); }); }); });
        RM<C> want = C0;
        if (done && k.ok) {
            std::map<Pos, C> z = ref(ea, C0, k.acc);
            want.e = masked(C0.e, z, m.e, k.mk, k.replace);
        }
        if (!done || k.ok) check_out(c, gC, want, "C");
        if (!k.ok && !c.fails.empty() && c.fails.back().a == VALUE) c.fails.back().a = THROW;
        check_in(c, gA, a, "A"); check_in(c, gM, m, "Mask");
    }
};
template<class Ty> void t_apply(Ctx &c) {
    using F = Fn<Ty>; using T = typename Ty::T; using V = typename Ty::V; using A = typename Ty::A; c.op = "apply(matrix)";
    Ix r = c.dim(), n = Ty::same ? r : c.dim(); int which = c.rng.below(3); V val = rnd<V>(c.rng);
    auto f = [=](A x) -> T { return which == 0 ? typename F::UOP()(x) : which == 1 ? typename F::B1()(val, x) : typename F::B2()(x, val); };
    MatA<Ty, typename F::ACC, T>::go(c, [&](Ix &ar, Ix &ac, Ix &cr, Ix &cc) { ar = cr = r; ac = cc = n; }, [](Ix cr, Ix cc, Ix ar, Ix ac) { return cr == ar && cc == ac; },
        [=](auto const &a, auto const &C0, bool acc) { std::map<Pos, T> t; for (auto &x : a.e) t.emplace(x.first, f(x.second)); return acc ? zaccum(C0.e, t, typename F::ACC()) : zaccum(C0.e, t, grb::NoAccumulate()); },
        [=](auto &C, auto const &m, auto acc, auto const &a, auto o) { if (which == 0) grb::apply(C, m, acc, typename F::UOP(), a, o); else if (which == 1) grb::apply(C, m, acc, typename F::B1(), val, a, o); else grb::apply(C, m, acc, typename F::B2(), a, val, o); },
        [=](std::ostream &o) { o << (which == 0 ? "unary\n" : which == 1 ? "bound first\n" : "bound second\n"); });
}
template<class Ty> void t_transpose(Ctx &c) {
    using F = Fn<Ty>; using A = typename Ty::A; c.op = "transpose";
    Ix r = c.dim(), n = Ty::same ? r : c.dim();
    MatA<Ty, typename F::ACA, A>::go(c, [&](Ix &ar, Ix &ac, Ix &cr, Ix &cc) { ar = cc = r; ac = cr = n; }, [](Ix cr, Ix cc, Ix ar, Ix ac) { return cr == ac && cc == ar; },
        [=](auto const &a, auto const &C0, bool acc) { std::map<Pos, A> t; for (auto &x : a.e) t.emplace(Pos{x.first.second, x.first.first}, x.second); return acc ? zaccum(C0.e, t, typename F::ACA()) : zaccum(C0.e, t, grb::NoAccumulate()); },
        [=](auto &C, auto const &m, auto acc, auto const &a, auto o) { grb::transpose(C, m, acc, a, o); });
}
inline std::vector<Ix> ixlist(Ctx &c, Ix n, Ix bound, bool dup) {
    std::vector<Ix> v; if (dup) { for (Ix i = 0; i < n; ++i) v.push_back(c.rng.below(bound)); if (c.rng.chance(1, 3)) std::sort(v.begin(), v.end()); }
    else { std::vector<Ix> all; for (Ix i = 0; i < bound; ++i) all.push_back(i); std::shuffle(all.begin(), all.end(), c.rng.g); v.assign(all.begin(), all.begin() + std::min(n, bound)); if (c.rng.chance(1, 3)) std::sort(v.begin(), v.end()); }
    return v;
}
inline void spoil(Ctx &c, std::vector<Ix> &v, Ix bound) { if (c.bad && !v.empty() && c.rng.chance(1, 5)) v[c.rng.below(v.size())] = bound + c.rng.below(2); if (c.bad && c.rng.chance(1, 8)) { if (!v.empty() && c.rng.chance(1, 2)) v.pop_back(); else { Ix x = 0; while (std::find(v.begin(), v.end(), x) != v.end()) ++x; v.push_back(x); } } }
inline bool inb(std::vector<Ix> const &v, Ix b) { for (auto x : v) if (x >= b) return false; return true; }
inline bool dupfree(std::vector<Ix> v) { std::sort(v.begin(), v.end()); for (size_t i = 1; i < v.size(); ++i) if (v[i] == v[i - 1]) return false; return true; }
inline std::vector<Ix> iota(Ix n) { std::vector<Ix> v; for (Ix i = 0; i < n; ++i) v.push_back(i); return v; }

template<class Ty> void t_extract(Ctx &c) {
    using F = Fn<Ty>; using A = typename Ty::A; c.op = "extract(matrix)";
    Ix ar0 = c.dim(), ac0 = Ty::same ? ar0 : c.dim(); bool allr = c.rng.chance(1, 4), allc = c.rng.chance(1, 4);
    Ix cr0 = allr || Ty::same ? ar0 : c.dim(), cc0 = allc || Ty::same ? ac0 : c.dim();
    std::vector<Ix> ri = ixlist(c, cr0, ar0, true), ci = ixlist(c, cc0, ac0, true); if (!allr) spoil(c, ri, ar0); if (!allc) spoil(c, ci, ac0);
    bool skip = false;
    MatA<Ty, typename F::ACA, A>::go(c, [&](Ix &ar, Ix &ac, Ix &cr, Ix &cc) { ar = ar0; ac = ac0; cr = cr0; cc = cc0; },
        [&](Ix cr, Ix cc, Ix ar, Ix ac) { if ((allr && cr != ar) || (allc && cc != ac)) { skip = true; }
            return (allr || (ri.size() == cr && inb(ri, ar))) && (allc || (ci.size() == cc && inb(ci, ac))); },
        [&](auto const &a, auto const &C0, bool acc) { std::map<Pos, A> t; auto R = allr ? iota(std::min(a.r, C0.r)) : ri; auto K = allc ? iota(std::min(a.c, C0.c)) : ci;
            for (Ix i = 0; i < R.size(); ++i) for (Ix j = 0; j < K.size(); ++j) { auto x = a.e.find({R[i], K[j]}); if (x != a.e.end()) t.emplace(Pos{i, j}, x->second); }
            return acc ? zaccum(C0.e, t, typename F::ACA()) : zaccum(C0.e, t, grb::NoAccumulate()); },
        [&](auto &C, auto const &m, auto acc, auto const &a, auto o) {
            if (allr && allc) grb::extract(C, m, acc, a, grb::AllIndices(), grb::AllIndices(), o); else if (allr) grb::extract(C, m, acc, a, grb::AllIndices(), ci, o);
            else if (allc) grb::extract(C, m, acc, a, ri, grb::AllIndices(), o); else grb::extract(C, m, acc, a, ri, ci, o); },
        [&](std::ostream &o) { o << "rows=" << (allr ? "all" : show(ri)) << " cols=" << (allc ? "all" : show(ci)) << "\n"; });
}
template<class Ty, class Acc, class K, class SC, class TS> std::map<K, SC> stencil(std::map<K, SC> const &C0, std::map<K, TS> const &t, std::set<K> const &region, bool acc) {
    if (acc) return zaccum(C0, t, Acc());
    std::map<K, SC> z; for (auto &x : C0) if (!region.count(x.first)) z[x.first] = x.second; for (auto &x : t) z[x.first] = SC(x.second); return z;
}
template<class Ty> void t_assign(Ctx &c) {
    using F = Fn<Ty>; using A = typename Ty::A; c.op = "assign(matrix)";
    Ix cr0 = c.dim(), cc0 = Ty::same ? cr0 : c.dim(); bool allr = Ty::same ? c.rng.chance(1, 4) : c.rng.chance(1, 4), allc = c.rng.chance(1, 4);
    Ix ar0 = allr || Ty::same ? cr0 : 1 + c.rng.below(cr0), ac0 = allc || Ty::same ? cc0 : 1 + c.rng.below(cc0);
    std::vector<Ix> ri = ixlist(c, ar0, cr0, false), ci = ixlist(c, ac0, cc0, false); if (!allr) spoil(c, ri, cr0); if (!allc) spoil(c, ci, cc0);
    MatA<Ty, typename F::ACA, A>::go(c, [&](Ix &ar, Ix &ac, Ix &cr, Ix &cc) { ar = ar0; ac = ac0; cr = cr0; cc = cc0; },
        [&](Ix cr, Ix cc, Ix ar, Ix ac) { return (allr ? ar <= cr : (ri.size() == ar && inb(ri, cr))) && (allc ? ac <= cc : (ci.size() == ac && inb(ci, cc))); },
        [&](auto const &a, auto const &C0, bool acc) { std::map<Pos, A> t; std::set<Pos> reg; auto R = allr ? iota(a.r) : ri; auto K = allc ? iota(a.c) : ci;
            for (Ix i = 0; i < R.size(); ++i) for (Ix j = 0; j < K.size(); ++j) { reg.insert({R[i], K[j]}); auto x = a.e.find({i, j}); if (x != a.e.end()) t.emplace(Pos{R[i], K[j]}, x->second); }
            return stencil<Ty, typename F::ACA>(C0.e, t, reg, acc); },
        [&](auto &C, auto const &m, auto acc, auto const &a, auto o) {
            if (allr && allc) grb::assign(C, m, acc, a, grb::AllIndices(), grb::AllIndices(), o); else if (allr) grb::assign(C, m, acc, a, grb::AllIndices(), ci, o);
            else if (allc) grb::assign(C, m, acc, a, ri, grb::AllIndices(), o); else grb::assign(C, m, acc, a, ri, ci, o); },
        [&](std::ostream &o) { o << "rows=" << (allr ? "all" : show(ri)) << " cols=" << (allc ? "all" : show(ci)) << "\n"; });
}
template<class Ty> void t_assignc(Ctx &c) {
    using F = Fn<Ty>; using C = typename Ty::C; using M = typename Ty::M; using V = typename Ty::V; c.op = "assign(matrix constant)";
    Call k = rndCall(c); k.ta = k.tb = false; Ix r = c.dim(), n = c.dim(); bool allr = c.rng.chance(1, 4), allc = c.rng.chance(1, 4);
    RM<C> C0 = rndM<C>(c, r, n); RM<M> m = rndM<M>(c, pert(c, r), pert(c, n)); if constexpr (Ty::same) m = C0;
    std::vector<Ix> ri = ixlist(c, c.rng.below(r + 1), r, false), ci = ixlist(c, c.rng.below(n + 1), n, false);
    if (!allr) spoil(c, ri, r); if (!allc) spoil(c, ci, n); if ((!allr && !dupfree(ri)) || (!allc && !dupfree(ci))) { if (inb(ri, r) && inb(ci, n) && ri.size() <= r && ci.size() <= n) return; }
    k.ok = (k.mk == NOMASK || (m.r == r && m.c == n)) && (allr || (inb(ri, r) && ri.size() <= r)) && (allc || (inb(ci, n) && ci.size() <= n));
    V val = rnd<V>(c.rng); describe(c, k); c.log << "C=" << show(C0) << "\nMask=" << show(m) << (Ty::same ? " (is C)" : "") << "\nrows=" << (allr ? "all" : show(ri)) << " cols=" << (allc ? "all" : show(ci)) << "\n"; c.nontrivial = true;
    auto gC = toG(C0); auto gM = toG(m); auto const &xM = sel<grb::Matrix<M>>(Ty::same, gC, gM);
    bool done = guarded(c, k.ok, [&] { tflag(k.acc, [&](auto ac) { with_mask(k.mk, xM, [&](auto const &mv) {
        auto f = [&](auto acc) { if (allr && allc) grb::assign(gC, mv, acc, val, grb::AllIndices(), grb::AllIndices(), k.outp()); else if (allr) grb::assign(gC, mv, acc, val, grb::AllIndices(), ci, k.outp());
            else if (allc) grb::assign(gC, mv, acc, val, ri, grb::AllIndices(), k.outp()); else grb::assign(gC, mv, acc, val, ri, ci, k.outp()); };
        if constexpr (decltype(ac)::value) f(typename F::ACV()); else f(grb::NoAccumulate()); }); }); });
    RM<C> want = C0;
    if (done && k.ok) { std::map<Pos, V> t; std::set<Pos> reg; auto R = allr ? iota(r) : ri; auto K = allc ? iota(n) : ci; for (auto i : R) for (auto j : K) { t.emplace(Pos{i, j}, val); reg.insert({i, j}); }
        want.e = masked(C0.e, stencil<Ty, typename F::ACV>(C0.e, t, reg, k.acc), m.e, k.mk, k.replace); }
    if (!done || k.ok) check_out(c, gC, want, "C");
    if (!k.ok && !c.fails.empty() && c.fails.back().a == VALUE) c.fails.back().a = THROW;
    check_in(c, gM, m, "Mask");
}
// assign a vector to a row / column
template<class Ty> void t_assignrc(Ctx &c) {
    using F = Fn<Ty>; using C = typename Ty::C; using M = typename Ty::M; using A = typename Ty::A; bool col = c.rng.chance(1, 2); c.op = col ? "assign(column)" : "assign(row)";
    Call k = rndCall(c); k.ta = k.tb = false; Ix r = c.dim(), n = c.dim(); Ix len = col ? r : n; bool all = c.rng.chance(1, 4);
    RM<C> C0 = rndM<C>(c, r, n); RV<M> m = rndV<M>(c, pert(c, len)); Ix un = all ? len : 1 + c.rng.below(len); RV<A> u = rndV<A>(c, pert(c, un));
    std::vector<Ix> ix = ixlist(c, un, len, false); if (!all) spoil(c, ix, len); if (!all && !dupfree(ix)) if (inb(ix, len) && ix.size() == u.n) return;
    Ix other = col ? n : r; Ix at = c.rng.below(other); if (c.bad && c.rng.chance(1, 6)) at = other + c.rng.below(2);
    k.ok = (k.mk == NOMASK || m.n == len) && at < other && (all ? u.n <= len : (ix.size() == u.n && inb(ix, len)));
    describe(c, k); c.log << "C=" << show(C0) << "\nmask=" << show(m) << "\nu=" << show(u) << "\nindices=" << (all ? "all" : show(ix)) << " at " << at << "\n"; c.nontrivial = !u.e.empty();
    auto gC = toG(C0); auto gM = toG(m); auto gu = toG(u);
    bool done = guarded(c, k.ok, [&] { tflag(k.acc, [&](auto ac) { with_mask(k.mk, gM, [&](auto const &mv) {
        auto f = [&](auto acc) { if (col) { if (all) grb::assign(gC, mv, acc, gu, grb::AllIndices(), at, k.outp()); else grb::assign(gC, mv, acc, gu, ix, at, k.outp()); }
            else { if (all) grb::assign(gC, mv, acc, gu, at, grb::AllIndices(), k.outp()); else grb::assign(gC, mv, acc, gu, at, ix, k.outp()); } };
        if constexpr (decltype(ac)::value) f(typename F::ACA()); else f(grb::NoAccumulate()); }); }); });
    RM<C> want = C0;
    if (done && k.ok) { std::map<Ix, C> w0; for (auto &x : C0.e) if ((col ? x.first.second : x.first.first) == at) w0[col ? x.first.first : x.first.second] = x.second;
        std::map<Ix, A> t; std::set<Ix> reg; auto K = all ? iota(u.n) : ix; for (Ix i = 0; i < K.size(); ++i) { reg.insert(K[i]); auto x = u.e.find(i); if (x != u.e.end()) t.emplace(K[i], x->second); }
        auto w1 = masked(w0, stencil<Ty, typename F::ACA>(w0, t, reg, k.acc), m.e, k.mk, k.replace);
        for (auto it = want.e.begin(); it != want.e.end();) { if ((col ? it->first.second : it->first.first) == at) it = want.e.erase(it); else ++it; }
        for (auto &x : w1) want.e[col ? Pos{x.first, at} : Pos{at, x.first}] = x.second; }
    if (!done || k.ok) check_out(c, gC, want, "C");
    if (!k.ok && !c.fails.empty() && c.fails.back().a == VALUE) c.fails.back().a = THROW;
    check_in(c, gM, m, "mask"); check_in(c, gu, u, "u");
}
// ---- vectors --------------------------------------------------------------------
// generic: w = f(...) ; ops supply input construction themselves
template<class Ty, class Acc, class TS, class Real, class Ref> void vecop(Ctx &c, Call k, bool compat, RV<typename Ty::C> const &w0, RV<typename Ty::M> m, bool almask, grb::Vector<typename Ty::C> &gw, Real real, Ref ref) {
    using C = typename Ty::C; using M = typename Ty::M;
    if constexpr (Ty::same) if (almask) m = w0;
    k.ok = compat && (k.mk == NOMASK || m.n == w0.n);
    describe(c, k); c.log << "w=" << show(w0) << "\nmask=" << show(m) << (almask ? " (is w)" : "") << "\n";
    auto gM = toG(m); auto const &xM = sel<grb::Vector<M>>(almask, gw, gM);
    bool done = guarded(c, k.ok, [&] { tflag(k.acc, [&](auto ac) { with_mask(k.mk, xM, [&](auto const &mv) { if constexpr (decltype(ac)::value) real(gw, mv, Acc(), k.outp()); else real(gw, mv, grb::NoAccumulate(), k.outp()); }); }); });
    RV<C> want = w0;
    if (done && k.ok) want.e = masked(w0.e, ref(w0, k.acc), m.e, k.mk, k.replace);
    if (!done || k.ok) check_out(c, gw, want, "w");
    if (!k.ok && !c.fails.empty() && c.fails.back().a == VALUE) c.fails.back().a = THROW;
    check_in(c, gM, m, "mask");
}
template<class Acc, class SC, class TS> std::map<Ix, SC> zacc(std::map<Ix, SC> const &w, std::map<Ix, TS> const &t, bool acc) { return acc ? zaccum(w, t, Acc()) : zaccum(w, t, grb::NoAccumulate()); }
template<class Ty> void t_mxv(Ctx &c) {
    using F = Fn<Ty>; using A = typename Ty::A; using B = typename Ty::B; using C = typename Ty::C; using M = typename Ty::M; using T = typename Ty::T; c.op = "mxv";
    Call k = rndCall(c); Al<Ty> al = rndAl<Ty>(c); k.tb = false; Ix r = c.dim(), n = Ty::same ? r : c.dim();
    Ix er = pert(c, r), ec = pert(c, n); RM<A> a = rndM<A>(c, k.ta ? ec : er, k.ta ? er : ec); RV<C> w0 = rndV<C>(c, pert(c, r)); RV<B> u = rndV<B>(c, pert(c, n)); RV<M> m = rndV<M>(c, pert(c, r));
    if constexpr (Ty::same) if (al.a) u = w0;
    RM<A> ea = k.ta ? tr(a) : a; auto gw = toG(w0); auto gA = toG(a); auto gu = toG(u); auto const &xu = sel<grb::Vector<B>>(al.a, gw, gu);
    c.log << "A=" << show(a) << "\nu=" << show(u) << (al.a ? " (is w)" : "") << "\n"; c.nontrivial = !a.e.empty() && !u.e.empty();
    vecop<Ty, typename F::ACC, T>(c, k, ea.r == w0.n && ea.c == u.n, w0, m, al.m, gw, [&](auto &w, auto const &mv, auto acc, auto o) { tflag(k.ta, [&](auto ta) { grb::mxv(w, mv, acc, typename F::SR(), VW(gA, ta), xu, o); }); },
        [&](auto const &w, bool acc) { std::map<Ix, T> t; typename F::SR sr; for (auto &x : ea.e) { auto y = u.e.find(x.first.second); if (y != u.e.end()) { auto v = sr.mult(x.second, y->second); auto it = t.find(x.first.first); if (it == t.end()) t.emplace(x.first.first, v); else it->second = sr.add(it->second, v); } } return zacc<typename F::ACC>(w.e, t, acc); });
    check_in(c, gA, a, "A"); check_in(c, gu, u, "u");
}
template<class Ty> void t_vxm(Ctx &c) {
    using F = Fn<Ty>; using A = typename Ty::A; using B = typename Ty::B; using C = typename Ty::C; using M = typename Ty::M; using T = typename Ty::T; c.op = "vxm";
    Call k = rndCall(c); Al<Ty> al = rndAl<Ty>(c); k.ta = false; Ix r = c.dim(), n = Ty::same ? r : c.dim();
    Ix er = pert(c, r), ec = pert(c, n); RM<B> b = rndM<B>(c, k.tb ? ec : er, k.tb ? er : ec); RV<C> w0 = rndV<C>(c, pert(c, n)); RV<A> u = rndV<A>(c, pert(c, r)); RV<M> m = rndV<M>(c, pert(c, n));
    if constexpr (Ty::same) if (al.a) u = w0;
    RM<B> eb = k.tb ? tr(b) : b; auto gw = toG(w0); auto gB = toG(b); auto gu = toG(u); auto const &xu = sel<grb::Vector<A>>(al.a, gw, gu);
    c.log << "A=" << show(b) << "\nu=" << show(u) << (al.a ? " (is w)" : "") << "\n"; c.nontrivial = !b.e.empty() && !u.e.empty();
    vecop<Ty, typename F::ACC, T>(c, k, eb.c == w0.n && eb.r == u.n, w0, m, al.m, gw, [&](auto &w, auto const &mv, auto acc, auto o) { tflag(k.tb, [&](auto tb) { grb::vxm(w, mv, acc, typename F::SR(), xu, VW(gB, tb), o); }); },
        [&](auto const &w, bool acc) { std::map<Ix, T> t; typename F::SR sr; for (auto &x : eb.e) { auto y = u.e.find(x.first.first); if (y != u.e.end()) { auto v = sr.mult(y->second, x.second); auto it = t.find(x.first.second); if (it == t.end()) t.emplace(x.first.second, v); else it->second = sr.add(it->second, v); } } return zacc<typename F::ACC>(w.e, t, acc); });
    check_in(c, gB, b, "A"); check_in(c, gu, u, "u");
}
template<class Ty> void t_ewv(Ctx &c) {
    using F = Fn<Ty>; using A = typename Ty::A; using B = typename Ty::B; using C = typename Ty::C; using M = typename Ty::M; using T = typename Ty::T; bool add = c.op == "eWiseAdd(vector)";
    Call k = rndCall(c); Al<Ty> al = rndAl<Ty>(c); k.ta = k.tb = false; Ix n = c.dim();
    RV<C> w0 = rndV<C>(c, pert(c, n)); RV<A> u = rndV<A>(c, pert(c, n)); RV<B> v = rndV<B>(c, pert(c, n)); RV<M> m = rndV<M>(c, pert(c, n));
    if constexpr (Ty::same) { if (al.a) u = w0; if (al.b) v = w0; }
    auto gw = toG(w0); auto gu = toG(u); auto gv = toG(v); auto const &xu = sel<grb::Vector<A>>(al.a, gw, gu); auto const &xv = sel<grb::Vector<B>>(al.b, gw, gv);
    c.log << "u=" << show(u) << (al.a ? " (is w)" : "") << "\nv=" << show(v) << (al.b ? " (is w)" : "") << "\n"; c.nontrivial = !u.e.empty() && !v.e.empty();
    vecop<Ty, typename F::ACC, T>(c, k, u.n == w0.n && v.n == u.n, w0, m, al.m, gw, [&](auto &w, auto const &mv, auto acc, auto o) { if (add) grb::eWiseAdd(w, mv, acc, typename F::BOP(), xu, xv, o); else grb::eWiseMult(w, mv, acc, typename F::BOP(), xu, xv, o); },
        [&](auto const &w, bool acc) { std::map<Ix, T> t; typename F::BOP op; for (auto &x : u.e) { auto y = v.e.find(x.first); if (y != v.e.end()) t.emplace(x.first, op(x.second, y->second)); else if (add) t.emplace(x.first, T(x.second)); }
            if (add) for (auto &y : v.e) if (!u.e.count(y.first)) t.emplace(y.first, T(y.second)); return zacc<typename F::ACC>(w.e, t, acc); });
    check_in(c, gu, u, "u"); check_in(c, gv, v, "v");
}
template<class Ty> void t_ewaddv(Ctx &c) { c.op = "eWiseAdd(vector)"; t_ewv<Ty>(c); }
template<class Ty> void t_ewmultv(Ctx &c) { c.op = "eWiseMult(vector)"; t_ewv<Ty>(c); }
template<class Ty> void t_applyv(Ctx &c) {
    using F = Fn<Ty>; using A = typename Ty::A; using C = typename Ty::C; using M = typename Ty::M; using T = typename Ty::T; using V = typename Ty::V; c.op = "apply(vector)";
    Call k = rndCall(c); Al<Ty> al = rndAl<Ty>(c); k.ta = k.tb = false; Ix n = c.dim(); int which = c.rng.below(3); V val = rnd<V>(c.rng);
    RV<C> w0 = rndV<C>(c, pert(c, n)); RV<A> u = rndV<A>(c, pert(c, n)); RV<M> m = rndV<M>(c, pert(c, n)); if constexpr (Ty::same) if (al.a) u = w0;
    auto gw = toG(w0); auto gu = toG(u); auto const &xu = sel<grb::Vector<A>>(al.a, gw, gu);
    c.log << "u=" << show(u) << (al.a ? " (is w)" : "") << (which == 0 ? "\nunary" : which == 1 ? "\nbound first" : "\nbound second") << "\n"; c.nontrivial = !u.e.empty();
    auto f = [=](A x) -> T { return which == 0 ? typename F::UOP()(x) : which == 1 ? typename F::B1()(val, x) : typename F::B2()(x, val); };
    vecop<Ty, typename F::ACC, T>(c, k, u.n == w0.n, w0, m, al.m, gw, [&](auto &w, auto const &mv, auto acc, auto o) { if (which == 0) grb::apply(w, mv, acc, typename F::UOP(), xu, o); else if (which == 1) grb::apply(w, mv, acc, typename F::B1(), val, xu, o); else grb::apply(w, mv, acc, typename F::B2(), xu, val, o); },
        [&](auto const &w, bool acc) { std::map<Ix, T> t; for (auto &x : u.e) t.emplace(x.first, f(x.second)); return zacc<typename F::ACC>(w.e, t, acc); });
    check_in(c, gu, u, "u");
}
template<class Ty> void t_extractv(Ctx &c) {
    using F = Fn<Ty>; using A = typename Ty::A; using C = typename Ty::C; using M = typename Ty::M; c.op = "extract(vector)";
    Call k = rndCall(c); Al<Ty> al = rndAl<Ty>(c); k.ta = k.tb = false; bool all = c.rng.chance(1, 4); Ix n = c.dim(), wn = all || al.a ? n : c.dim();
    RV<C> w0 = rndV<C>(c, all ? n : pert(c, wn)); RV<A> u = rndV<A>(c, n); RV<M> m = rndV<M>(c, pert(c, wn)); if constexpr (Ty::same) if (al.a) u = w0;
    std::vector<Ix> ix = ixlist(c, wn, n, true); if (!all) spoil(c, ix, n);
    auto gw = toG(w0); auto gu = toG(u); auto const &xu = sel<grb::Vector<A>>(al.a, gw, gu);
    c.log << "u=" << show(u) << (al.a ? " (is w)" : "") << "\nindices=" << (all ? "all" : show(ix)) << "\n"; c.nontrivial = !u.e.empty();
    vecop<Ty, typename F::ACA, A>(c, k, all || (ix.size() == w0.n && inb(ix, u.n)), w0, m, al.m, gw, [&](auto &w, auto const &mv, auto acc, auto o) { if (all) grb::extract(w, mv, acc, xu, grb::AllIndices(), o); else grb::extract(w, mv, acc, xu, ix, o); },
        [&](auto const &w, bool acc) { std::map<Ix, A> t; auto K = all ? iota(n) : ix; for (Ix i = 0; i < K.size(); ++i) { auto x = u.e.find(K[i]); if (x != u.e.end()) t.emplace(i, x->second); } return zacc<typename F::ACA>(w.e, t, acc); });
    check_in(c, gu, u, "u");
}
template<class Ty> void t_extractcol(Ctx &c) {
    using F = Fn<Ty>; using A = typename Ty::A; using C = typename Ty::C; using M = typename Ty::M; c.op = "extract(column)";
    Call k = rndCall(c); Al<Ty> al = rndAl<Ty>(c); k.tb = false; bool all = c.rng.chance(1, 4); Ix r = c.dim(), n = c.dim(), wn = all ? r : c.dim();
    RM<A> a = rndM<A>(c, k.ta ? n : r, k.ta ? r : n); RV<C> w0 = rndV<C>(c, all ? r : pert(c, wn)); RV<M> m = rndV<M>(c, pert(c, wn)); RM<A> ea = k.ta ? tr(a) : a;
    std::vector<Ix> ix = ixlist(c, wn, r, true); if (!all) spoil(c, ix, r); Ix at = c.rng.below(n); if (c.bad && c.rng.chance(1, 6)) at = n + c.rng.below(2);
    auto gw = toG(w0); auto gA = toG(a);
    c.log << "A=" << show(a) << "\nindices=" << (all ? "all" : show(ix)) << " column " << at << "\n"; c.nontrivial = !a.e.empty();
    vecop<Ty, typename F::ACA, A>(c, k, at < n && (all || (ix.size() == w0.n && inb(ix, r))), w0, m, al.m, gw, [&](auto &w, auto const &mv, auto acc, auto o) { tflag(k.ta, [&](auto ta) { if (all) grb::extract(w, mv, acc, VW(gA, ta), grb::AllIndices(), at, o); else grb::extract(w, mv, acc, VW(gA, ta), ix, at, o); }); },
        [&](auto const &w, bool acc) { std::map<Ix, A> t; auto K = all ? iota(r) : ix; for (Ix i = 0; i < K.size(); ++i) { auto x = ea.e.find({K[i], at}); if (x != ea.e.end()) t.emplace(i, x->second); } return zacc<typename F::ACA>(w.e, t, acc); });
    check_in(c, gA, a, "A");
}
template<class Ty> void t_assignv(Ctx &c) {
    using F = Fn<Ty>; using A = typename Ty::A; using C = typename Ty::C; using M = typename Ty::M; c.op = "assign(vector)";
    Call k = rndCall(c); Al<Ty> al = rndAl<Ty>(c); k.ta = k.tb = false; bool all = c.rng.chance(1, 4); Ix n = c.dim(), un = all || al.a ? n : 1 + c.rng.below(n);
    RV<C> w0 = rndV<C>(c, n); RV<A> u = rndV<A>(c, pert(c, un)); RV<M> m = rndV<M>(c, pert(c, n)); if constexpr (Ty::same) if (al.a) u = w0;
    std::vector<Ix> ix = ixlist(c, un, n, false); if (!all) spoil(c, ix, n); if (!all && !dupfree(ix) && inb(ix, n) && ix.size() == u.n) return;
    auto gw = toG(w0); auto gu = toG(u); auto const &xu = sel<grb::Vector<A>>(al.a, gw, gu);
    c.log << "u=" << show(u) << (al.a ? " (is w)" : "") << "\nindices=" << (all ? "all" : show(ix)) << "\n"; c.nontrivial = !u.e.empty();
    vecop<Ty, typename F::ACA, A>(c, k, all ? u.n <= n : (ix.size() == u.n && inb(ix, n)), w0, m, al.m, gw, [&](auto &w, auto const &mv, auto acc, auto o) { if (all) grb::assign(w, mv, acc, xu, grb::AllIndices(), o); else grb::assign(w, mv, acc, xu, ix, o); },
        [&](auto const &w, bool acc) { std::map<Ix, A> t; std::set<Ix> reg; auto K = all ? iota(u.n) : ix; for (Ix i = 0; i < K.size(); ++i) { reg.insert(K[i]); auto x = u.e.find(i); if (x != u.e.end()) t.emplace(K[i], x->second); } return stencil<Ty, typename F::ACA>(w.e, t, reg, acc); });
    check_in(c, gu, u, "u");
}
template<class Ty> void t_assigncv(Ctx &c) {
    using F = Fn<Ty>; using V = typename Ty::V; using C = typename Ty::C; using M = typename Ty::M; c.op = "assign(vector constant)";
    Call k = rndCall(c); k.ta = k.tb = false; bool all = c.rng.chance(1, 4); Ix n = c.dim(); RV<C> w0 = rndV<C>(c, n); RV<M> m = rndV<M>(c, pert(c, n)); V val = rnd<V>(c.rng);
    std::vector<Ix> ix = ixlist(c, c.rng.below(n + 1), n, false); if (!all) spoil(c, ix, n); if (!all && !dupfree(ix) && inb(ix, n) && ix.size() <= n) return;
    auto gw = toG(w0); c.log << "indices=" << (all ? "all" : show(ix)) << "\n"; c.nontrivial = true;
    vecop<Ty, typename F::ACV, V>(c, k, all || (ix.size() <= n && inb(ix, n)), w0, m, Ty::same, gw, [&](auto &w, auto const &mv, auto acc, auto o) { if (all) grb::assign(w, mv, acc, val, grb::AllIndices(), o); else grb::assign(w, mv, acc, val, ix, o); },
        [&](auto const &w, bool acc) { std::map<Ix, V> t; std::set<Ix> reg; for (auto i : all ? iota(n) : ix) { t.emplace(i, val); reg.insert(i); } return stencil<Ty, typename F::ACV>(w.e, t, reg, acc); });
}
template<class Ty> void t_reduce(Ctx &c) {
    using F = Fn<Ty>; using A = typename Ty::A; using C = typename Ty::C; using M = typename Ty::M; using T = typename Ty::T; c.op = "reduce(rows)";
    Call k = rndCall(c); Al<Ty> al = rndAl<Ty>(c); k.tb = false; Ix r = c.dim(), n = c.dim(); RM<A> a = rndM<A>(c, k.ta ? n : r, k.ta ? r : n); RV<C> w0 = rndV<C>(c, pert(c, r)); RV<M> m = rndV<M>(c, pert(c, r)); RM<A> ea = k.ta ? tr(a) : a;
    auto gw = toG(w0); auto gA = toG(a); c.log << "A=" << show(a) << "\n"; c.nontrivial = !a.e.empty();
    vecop<Ty, typename F::ACC, T>(c, k, w0.n == ea.r, w0, m, al.m, gw, [&](auto &w, auto const &mv, auto acc, auto o) { tflag(k.ta, [&](auto ta) { grb::reduce(w, mv, acc, typename F::MON(), VW(gA, ta), o); }); },
        [&](auto const &w, bool acc) { std::map<Ix, T> t; typename F::MON mon; for (auto &x : ea.e) { auto it = t.find(x.first.first); if (it == t.end()) t.emplace(x.first.first, T(x.second)); else it->second = mon(it->second, T(x.second)); } return zacc<typename F::ACC>(w.e, t, acc); });
    check_in(c, gA, a, "A");
}
template<class Ty> void t_reduces(Ctx &c) {
    using F = Fn<Ty>; using A = typename Ty::A; using C = typename Ty::C; using T = typename Ty::T; bool mat = c.rng.chance(1, 2); bool acc = c.rng.chance(1, 2); c.op = mat ? "reduce(matrix to scalar)" : "reduce(vector to scalar)";
    C s0 = rnd<C>(c.rng), s = s0; T t = typename F::MON().identity(); typename F::MON mon; c.log << c.op << (acc ? " accum" : " noaccum") << "\n"; c.shape_key = acc + 2 * mat;
    if (mat) { RM<A> a = rndM<A>(c, c.dim(), c.dim()); auto g = toG(a); c.log << "A=" << show(a) << "\n"; c.nontrivial = !a.e.empty(); guarded(c, true, [&] { if (acc) grb::reduce(s, typename F::ACC(), mon, g); else grb::reduce(s, grb::NoAccumulate(), mon, g); }); for (auto &x : a.e) t = mon(t, T(x.second)); check_in(c, g, a, "A"); }
    else { RV<A> a = rndV<A>(c, c.dim()); auto g = toG(a); c.log << "u=" << show(a) << "\n"; c.nontrivial = !a.e.empty(); guarded(c, true, [&] { if (acc) grb::reduce(s, typename F::ACC(), mon, g); else grb::reduce(s, grb::NoAccumulate(), mon, g); }); for (auto &x : a.e) t = mon(t, T(x.second)); check_in(c, g, a, "u"); }
    C want = acc ? C(typename F::ACC()(s0, t)) : C(t);
    if (!(s == want)) { std::ostringstream o; o << "scalar is " << s << " expected " << want; c.fail(VALUE, o.str()); }
}
}
