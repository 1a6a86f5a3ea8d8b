// diag, scaled_identity, split, normalize_rows, normalize_cols
#include "ops.hpp"
using namespace rf;
struct Fld { u64 h; Fld() : h(0) {} template<class T, class = std::enable_if_t<std::is_arithmetic_v<T>>> explicit Fld(T x) : h((u64)x) {} Fld(u64 x, int) : h(x) {}
    bool operator==(Fld const &o) const { return h == o.h; } bool operator!=(Fld const &o) const { return h != o.h; } };
inline Fld operator+(Fld a, Fld b) { return Fld(a.h + b.h, 0); }
inline Fld operator*(Fld a, Fld b) { return Fld(mix(mix(21, a.h), b.h), 0); }
inline Fld operator/(Fld a, Fld b) { return Fld(mix(mix(22, a.h), b.h), 0); }
inline std::ostream &operator<<(std::ostream &os, Fld const &v) { return os << std::hex << (v.h & 0xffffff) << std::dec; }
static void t_utils(Ctx &c) {
    c.op = "matrix_utils"; int w = c.rng.below(5); Ix r = c.dim(), n = c.dim(); RM<Fld> a = rndM<Fld>(c, r, n); c.nontrivial = !a.e.empty(); RM<Fld> want; c.shape_key = w;
    if (w == 0) { RV<Fld> v = rndV<Fld>(c, r); c.log << "diag " << show(v) << "\n"; auto gv = toG(v); auto d = grb::diag<grb::Matrix<Fld>>(gv); want.r = want.c = r; for (auto &x : v.e) want.e[{x.first, x.first}] = x.second; check_out(c, d, want, "diag"); check_in(c, gv, v, "v"); return; }
    if (w == 1) { Fld val = rnd<Fld>(c.rng); c.log << "scaled_identity " << r << "\n"; auto d = grb::scaled_identity<grb::Matrix<Fld>>(r, val); want.r = want.c = r; for (Ix i = 0; i < r; ++i) want.e[{i, i}] = val; check_out(c, d, want, "identity");
        auto d1 = grb::scaled_identity<grb::Matrix<Fld>>(r); for (auto &x : want.e) x.second = Fld(1); check_out(c, d1, want, "default identity"); return; }
    auto g = toG(a);
    if (w == 2) { c.log << "split " << show(a) << "\n"; grb::Matrix<Fld> L(r, n), U(r, n); grb::split(g, L, U); RM<Fld> l, u; l.r = u.r = r; l.c = u.c = n; for (auto &x : a.e) (x.first.first < x.first.second ? u : l).e.insert(x); check_out(c, L, l, "L"); check_out(c, U, u, "U"); check_in(c, g, a, "A"); return; }
    bool rows = w == 3; c.log << (rows ? "normalize_rows " : "normalize_cols ") << show(a) << "\n"; std::map<Ix, Fld> s;
    for (auto &x : a.e) { Ix k = rows ? x.first.first : x.first.second; auto it = s.find(k); if (it == s.end()) s.emplace(k, x.second); else it->second = it->second + x.second; }
    want = a; for (auto &x : want.e) { Fld i = Fld(1) / s[rows ? x.first.first : x.first.second]; x.second = rows ? i * x.second : x.second * i; }
    try { if (rows) grb::normalize_rows(g); else grb::normalize_cols(g); } catch (std::exception const &) { c.fail(THROW, "exception"); return; }
    check_out(c, g, want, "A");
}
static Reg r1("utils", "matrix", t_utils);
