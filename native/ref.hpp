// Executable reference semantics for the GraphBLAS operations, on plain maps,
// and a random-trial harness that compares the real library with it.
// Scalars are 64-bit hashes of the expression that produced them, one C++ type
// per domain, so a swapped operand, a lost conversion or a wrong element shows.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <random>
#include <string>
#include <sstream>
#include <vector>
#include <functional>
#include <memory>
#include <algorithm>
#include <type_traits>
#include <graphblas/graphblas.hpp>
#include <graphblas/matrix_utils.hpp>

namespace rf {
using u64 = uint64_t;
inline u64 mix(u64 a, u64 b) { u64 z = a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C15ull; z ^= z >> 30; z *= 0xBF58476D1CE4E5B9ull; z ^= z >> 27; z *= 0x94D049BB133111EBull; z ^= z >> 31; return z; }
struct ValBase {};
template<int K> struct Val : ValBase {
    u64 h;
    Val() : h(0xDEFA17ull) {}
    explicit Val(u64 x, int) : h(x) {}
    template<class T, class = std::enable_if_t<std::is_base_of_v<ValBase, T>>> Val(T const &o) : h(T::kind == K ? o.h : mix(o.h, 100 + T::kind * 16 + K)) {}
    Val(Val const &o) = default; Val &operator=(Val const &) = default;
    static constexpr int kind = K;
    explicit operator bool() const { return (h & 3) != 0; }
    bool operator==(Val const &o) const { return h == o.h; }
    bool operator!=(Val const &o) const { return h != o.h; }
    bool operator<(Val const &o) const { return h < o.h; }
};
template<int K> std::ostream &operator<<(std::ostream &os, Val<K> const &v) { return os << std::hex << (v.h & 0xffffff) << std::dec; }

// two families of scalar types: all different, or all the same (for aliasing)
struct TyD { using A = Val<1>; using B = Val<2>; using C = Val<3>; using M = Val<4>; using T = Val<5>; using U = Val<3>; using V = Val<7>; static constexpr bool same = false; };
struct TyX { using A = Val<1>; using B = Val<1>; using C = Val<1>; using M = Val<1>; using T = Val<5>; using U = Val<1>; using V = Val<7>; static constexpr bool same = true; };

template<class R> R mk(u64 tag, u64 a, u64 b) { return R(mix(mix(tag, a), b), 0); }
template<class Ty> struct Fn {
    using A = typename Ty::A; using B = typename Ty::B; using C = typename Ty::C; using T = typename Ty::T; using U = typename Ty::U; using V = typename Ty::V;
    struct SR { using result_type = T; T zero() const { return T(0, 0); } T add(T a, T b) const { return T(a.h + b.h, 0); } T mult(A a, B b) const { return mk<T>(1, a.h, b.h); } };
    struct ACC { using result_type = U; U operator()(C c, T t) const { return mk<U>(2, c.h, t.h); } };
    struct ACA { using result_type = U; U operator()(C c, A t) const { return mk<U>(3, c.h, t.h); } };
    struct ACV { using result_type = U; U operator()(C c, V t) const { return mk<U>(4, c.h, t.h); } };
    struct BOP { using result_type = T; T operator()(A a, B b) const { return mk<T>(5, a.h, b.h); } };
    struct UOP { using result_type = T; T operator()(A a) const { return mk<T>(6, a.h, 0); } };
    struct B1 { using result_type = T; T operator()(V v, A a) const { return mk<T>(7, v.h, a.h); } };
    struct B2 { using result_type = T; T operator()(A a, V v) const { return mk<T>(8, a.h, v.h); } };
    struct MON { using result_type = T; T identity() const { return T(0, 0); } T operator()(T a, T b) const { return T(a.h + b.h, 0); } };
    struct DUP { A operator()(A a, A b) const { return mk<A>(9, a.h, b.h); } };
};

using Ix = grb::IndexType;
using Pos = std::pair<Ix, Ix>;
template<class S> struct RM { Ix r = 1, c = 1; std::map<Pos, S> e; bool operator==(RM const &o) const { return r == o.r && c == o.c && e == o.e; } };
template<class S> struct RV { Ix n = 1; std::map<Ix, S> e; bool operator==(RV const &o) const { return n == o.n && e == o.e; } };
template<class S> RM<S> tr(RM<S> const &a) { RM<S> t; t.r = a.c; t.c = a.r; for (auto &x : a.e) t.e[{x.first.second, x.first.first}] = x.second; return t; }

enum Aspect { VALUE, CANON, INPUT, THROW, SAFETY };
struct Fail { Aspect a; std::string msg; };

struct Rng {
    std::mt19937_64 g; Rng(u64 s) : g(s) {}
    u64 operator()() { return g(); }
    Ix below(Ix n) { return n ? g() % n : 0; }
    bool chance(int num, int den) { return (int)(g() % den) < num; }
    template<class T> T const &pick(std::vector<T> const &v) { return v[below(v.size())]; }
};

struct Ctx {
    Rng rng; std::vector<Fail> fails; std::ostringstream log; std::string op;
    std::vector<Ix> special;   // sizes around integer literals found in the source
    bool alias = false;        // produce aliasing calls
    bool bad = false;          // produce ill-shaped calls
    bool nontrivial = false; u64 shape_key = 0;
    int big = 0;
    Ctx(u64 seed) : rng(seed) {}
    void fail(Aspect a, std::string m) { fails.push_back({a, m}); }
    Ix dim() {
        int k = rng.below(40);
        if (k == 0 && !special.empty() && big < 2) { ++big; return std::max<Ix>(1, rng.pick(special)); }
        if (k < 3) return 1; if (k < 8) return 2; if (k < 30) return 2 + rng.below(4); return 1 + rng.below(9);
    }
};

template<class S> S rnd(Rng &g) { u64 h = g() >> 8; if (g.chance(1, 3)) h &= ~3ull; return S(h, 0); }
template<class S> RM<S> rndM(Ctx &c, Ix r, Ix n) {
    RM<S> m; m.r = r; m.c = n; int mode = c.rng.below(6);
    int den = mode == 0 ? 0 : mode == 1 ? 8 : 2 + (int)c.rng.below(5);
    for (Ix i = 0; i < r; ++i) {
        int d = den; int w = c.rng.below(6); if (w == 0) d = 0; else if (w == 1) d = 8;
        if (r * n > 600 && d < 8) d = std::min(d, 1);
        for (Ix j = 0; j < n; ++j) if ((int)c.rng.below(8) < d) m.e[{i, j}] = rnd<S>(c.rng);
    }
    return m;
}
template<class S> RV<S> rndV(Ctx &c, Ix n) {
    RV<S> v; v.n = n; int mode = c.rng.below(6); int d = mode == 0 ? 0 : mode == 1 ? 8 : 1 + (int)c.rng.below(7);
    for (Ix j = 0; j < n; ++j) if ((int)c.rng.below(8) < d) v.e[j] = rnd<S>(c.rng);
    return v;
}
template<class S> grb::Matrix<S> toG(RM<S> const &m) {
    grb::Matrix<S> g(m.r, m.c); grb::IndexArrayType i, j; std::vector<S> v;
    for (auto &x : m.e) { i.push_back(x.first.first); j.push_back(x.first.second); v.push_back(x.second); }
    if (v.size()) g.build(i, j, v); return g;
}
template<class S> grb::Vector<S> toG(RV<S> const &m) {
    grb::Vector<S> g(m.n); grb::IndexArrayType i; std::vector<S> v;
    for (auto &x : m.e) { i.push_back(x.first); v.push_back(x.second); }
    if (v.size()) g.build(i, v); return g;
}
template<class S> RM<S> fromG(grb::Matrix<S> const &g) {
    RM<S> m; m.r = g.nrows(); m.c = g.ncols(); auto const &d = get_internal_matrix(g);
    for (Ix i = 0; i < m.r; ++i) for (auto &x : d[i]) m.e[{i, std::get<0>(x)}] = std::get<1>(x);
    return m;
}
template<class S> RV<S> fromG(grb::Vector<S> const &g) {
    RV<S> m; m.n = g.size(); for (Ix i = 0; i < m.n; ++i) if (g.hasElement(i)) m.e[i] = g.extractElement(i); return m;
}
template<class S> std::string show(RM<S> const &m) {
    std::ostringstream o; o << m.r << "x" << m.c << " {"; for (auto &x : m.e) o << "(" << x.first.first << "," << x.first.second << ")=" << x.second << " "; o << "}"; return o.str();
}
template<class S> std::string show(RV<S> const &m) {
    std::ostringstream o; o << m.n << " {"; for (auto &x : m.e) o << "(" << x.first << ")=" << x.second << " "; o << "}"; return o.str();
}
inline std::string show(std::vector<Ix> const &v) { std::ostringstream o; o << "["; for (auto x : v) o << x << " "; o << "]"; return o.str(); }

// canonical-form checks on the real containers
template<class S> bool canon(grb::Matrix<S> const &g, std::string &why) {
    auto const &d = get_internal_matrix(g); Ix n = 0, r = g.nrows(), c = g.ncols(); std::ostringstream o;
    grb::IndexArrayType ii, jj; std::vector<S> vv;
    for (Ix i = 0; i < r; ++i) {
        bool first = true; Ix prev = 0;
        for (auto &x : d[i]) { Ix k = std::get<0>(x); ++n;
            if (k >= c) { o << "row " << i << " stores column " << k << " of " << c; why = o.str(); return false; }
            if (!first && k <= prev) { o << "row " << i << " not strictly increasing at column " << k << " after " << prev; why = o.str(); return false; }
            first = false; prev = k; }
    }
    if (n != g.nvals()) { o << "nvals()=" << g.nvals() << " but " << n << " elements stored"; why = o.str(); return false; }
    return true;
}
template<class S> bool canon(grb::Vector<S> const &g, std::string &why) {
    Ix n = 0; for (Ix i = 0; i < g.size(); ++i) if (g.nvals() <= g.size() && get_internal_vector(g).get_bitmap()[i]) ++n;
    if (n != g.nvals()) { std::ostringstream o; o << "nvals()=" << g.nvals() << " but " << n << " elements stored"; why = o.str(); return false; }
    if (get_internal_vector(g).get_bitmap().size() != g.size() || get_internal_vector(g).get_vals().size() != g.size()) { why = "storage size differs from size()"; return false; }
    return true;
}

// ---- masks -----------------------------------------------------------------
enum MK { NOMASK, PLAIN, COMP, STRUCT, SCOMP };
inline const char *mkname(int k) { static const char *n[] = {"NoMask", "mask", "complement(mask)", "structure(mask)", "complement(structure(mask))"}; return n[k]; }
template<class S> bool men(std::map<Pos, S> const &e, Pos p, int k) {
    auto it = e.find(p); bool has = it != e.end(), t = has && (bool)it->second;
    return k == NOMASK ? true : k == PLAIN ? t : k == COMP ? !t : k == STRUCT ? has : !has;
}
template<class S> bool men(std::map<Ix, S> const &e, Ix p, int k) {
    auto it = e.find(p); bool has = it != e.end(), t = has && (bool)it->second;
    return k == NOMASK ? true : k == PLAIN ? t : k == COMP ? !t : k == STRUCT ? has : !has;
}
template<class F, class Mx> void with_mask(int k, Mx const &m, F f) {
    switch (k) {
    case NOMASK: f(grb::NoMask()); break;
    case PLAIN: f(m); break;
    case COMP: f(grb::complement(m)); break;
    case STRUCT: f(grb::structure(m)); break;
    default: f(grb::complement(grb::structure(m))); break;
    }
}
// Z = C accumulated with T (values already in their domains), then masked write
template<class SC, class K, class ST, class Acc> std::map<K, SC> zaccum(std::map<K, SC> const &C, std::map<K, ST> const &T, Acc acc) {
    std::map<K, SC> Z;
    if constexpr (std::is_same_v<Acc, grb::NoAccumulate>) { for (auto &x : T) Z[x.first] = SC(x.second); }
    else {
        using U = typename Acc::result_type;
        for (auto &x : C) { auto it = T.find(x.first); Z[x.first] = it == T.end() ? SC(U(x.second)) : SC(acc(x.second, it->second)); }
        for (auto &x : T) if (!C.count(x.first)) Z[x.first] = SC(U(x.second));
    }
    return Z;
}
template<class SC, class K, class SM> std::map<K, SC> masked(std::map<K, SC> const &C, std::map<K, SC> const &Z, std::map<K, SM> const &M, int mk, bool replace) {
    std::map<K, SC> R;
    for (auto &x : Z) if (men(M, x.first, mk)) R[x.first] = x.second;
    if (!replace) for (auto &x : C) if (!men(M, x.first, mk)) R[x.first] = x.second;
    return R;
}

// compare helpers
template<class S> void check_out(Ctx &c, grb::Matrix<S> const &g, RM<S> const &want, const char *name) {
    std::string why; if (!canon(g, why)) c.fail(CANON, std::string(name) + ": " + why);
    RM<S> got = fromG(g);
    if (!(got == want)) c.fail(VALUE, std::string(name) + " is " + show(got) + " expected " + show(want));
}
template<class S> void check_out(Ctx &c, grb::Vector<S> const &g, RV<S> const &want, const char *name) {
    std::string why; if (!canon(g, why)) c.fail(CANON, std::string(name) + ": " + why);
    RV<S> got = fromG(g);
    if (!(got == want)) c.fail(VALUE, std::string(name) + " is " + show(got) + " expected " + show(want));
}
template<class G, class R> void check_in(Ctx &c, G const &g, R const &was, const char *name) {
    std::string why; if (!(fromG(g) == was) || !canon(g, why)) c.fail(INPUT, std::string("input ") + name + " changed: now " + show(fromG(g)) + " was " + show(was));
}

// ---- registry ----------------------------------------------------------------
struct Trial { std::string name; std::string group; std::function<void(Ctx &)> f; };
inline std::vector<Trial> &registry() { static std::vector<Trial> r; return r; }
struct Reg { Reg(std::string n, std::string g, std::function<void(Ctx &)> f) { registry().push_back({n, g, f}); } };
}
