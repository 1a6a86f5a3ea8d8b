// Histories of container methods against a plain map.
#include "ops.hpp"
using namespace rf;
namespace {
using S = TY::A; using DUP = Fn<TY>::DUP;
enum { ACCESS = 1, BUILD = 2, SHAPE = 4, CTOR = 8 };
// expect: 0 no exception, else the class that must be thrown
enum Ex { NONE, OOB, NOVAL, DIM, INVAL };
template<class F> Ex run(F f) {
    try { f(); return NONE; } catch (grb::IndexOutOfBoundsException const &) { return OOB; } catch (grb::NoValueException const &) { return NOVAL; }
    catch (grb::DimensionException const &) { return DIM; } catch (grb::InvalidValueException const &) { return INVAL; } catch (std::exception const &) { return Ex(99); }
}
template<class F> bool expect(Ctx &c, Ex want, const char *what, F f) {
    Ex got = run(f); if (got != want) { std::ostringstream o; o << what << ": error kind " << got << " expected " << want; c.fail(THROW, o.str()); } return got == NONE; }
void matrix(Ctx &c, int kinds) {
    c.op = "matrix methods"; RM<S> m; grb::Matrix<S> *g = nullptr; std::ostringstream &L = c.log; L << "matrix history:";
    Ix r = c.dim(), n = c.dim();
    if ((kinds & CTOR) && c.rng.chance(1, 2)) {
        std::vector<std::vector<S>> d(r); bool rag = c.rng.chance(1, 10); Ix rr = c.rng.below(r);
        S zero = rnd<S>(c.rng); bool z = c.rng.chance(1, 2);
        for (Ix i = 0; i < r; ++i) { Ix w = rag && i == rr && i ? n + 1 : n; for (Ix j = 0; j < w; ++j) d[i].push_back(c.rng.chance(1, 3) ? zero : rnd<S>(c.rng)); }
        bool ragged = rag && rr;
        L << " dense " << r << "x" << n << (z ? " zero" : "") << (ragged ? " ragged" : "");
        if (z) { if (!expect(c, ragged ? DIM : NONE, "dense ctor", [&] { g = new grb::Matrix<S>(d, zero); })) return; }
        else if (!expect(c, ragged ? DIM : NONE, "dense ctor", [&] { g = new grb::Matrix<S>(d); })) return;
        m.r = r; m.c = n; for (Ix i = 0; i < r; ++i) for (Ix j = 0; j < n; ++j) if (!z || d[i][j] != zero) m.e[{i, j}] = d[i][j];
    } else { g = new grb::Matrix<S>(r, n); m.r = r; m.c = n; if (c.rng.chance(2, 3)) { m = rndM<S>(c, r, n); delete g; g = new grb::Matrix<S>(toG(m)); } L << " start " << show(m); }
    std::unique_ptr<grb::Matrix<S>> own(g);
    int steps = 1 + c.rng.below(12); c.nontrivial = true;
    for (int s = 0; s < steps && c.fails.empty(); ++s) {
        grb::Matrix<S> &x = *own; int what = c.rng.below(10);
        Ix i = c.rng.chance(1, 12) ? m.r + c.rng.below(2) : c.rng.below(m.r), j = c.rng.chance(1, 12) ? m.c + c.rng.below(2) : c.rng.below(m.c);
        bool out = i >= m.r || j >= m.c; S v = rnd<S>(c.rng);
        if (what < 3 && (kinds & ACCESS)) { L << "; set " << i << "," << j; expect(c, out ? OOB : NONE, "setElement", [&] { x.setElement(i, j, v); }); if (!out) m.e[{i, j}] = v; }
        else if (what < 5 && (kinds & ACCESS)) { L << "; remove " << i << "," << j; expect(c, out ? OOB : NONE, "removeElement", [&] { x.removeElement(i, j); }); if (!out) m.e.erase({i, j}); }
        else if (what < 6 && (kinds & ACCESS)) {
            bool has = m.e.count({i, j}); L << "; read " << i << "," << j; bool h = false; S q;
            expect(c, out ? OOB : NONE, "hasElement", [&] { h = x.hasElement(i, j); }); if (!out && h != has) c.fail(VALUE, "hasElement");
            expect(c, out ? OOB : has ? NONE : NOVAL, "extractElement", [&] { q = x.extractElement(i, j); }); if (!out && has && q != m.e[{i, j}]) c.fail(VALUE, "extractElement");
        } else if (what < 7 && (kinds & SHAPE)) { Ix a = c.rng.chance(1, 15) ? 0 : c.dim(), b = c.rng.chance(1, 15) ? 0 : c.dim(); L << "; resize " << a << "x" << b;
            expect(c, !a || !b ? INVAL : NONE, "resize", [&] { x.resize(a, b); });
            if (a && b) { for (auto it = m.e.begin(); it != m.e.end();) if (it->first.first >= a || it->first.second >= b) it = m.e.erase(it); else ++it; m.r = a; m.c = b; } }
        else if (what < 8 && (kinds & SHAPE)) { L << "; clear"; x.clear(); m.e.clear(); }
        else if (what < 9 && (kinds & BUILD)) {
            x.clear(); m.e.clear(); Ix k = c.rng.below(12); if (c.rng.chance(1, 30)) k += 40; grb::IndexArrayType ii, jj; std::vector<S> vv; bool bad = false; L << "; build";
            RM<S> nm = m; bool dup = c.rng.chance(1, 2);
            for (Ix t = 0; t < k; ++t) { Ix a = c.rng.below(m.r), b = c.rng.below(m.c); if (c.rng.chance(1, 60)) { a = m.r; } if (c.rng.chance(1, 60)) b = m.c + 1; bad |= a >= m.r || b >= m.c; S w = rnd<S>(c.rng); ii.push_back(a); jj.push_back(b); vv.push_back(w); L << " (" << a << "," << b << ")";
                if (!bad) { auto it = nm.e.find({a, b}); if (it == nm.e.end()) nm.e[{a, b}] = w; else it->second = dup ? DUP()(it->second, w) : w; } }
            bool len = c.rng.chance(1, 15); if (len) { int q = c.rng.below(3); if (q == 0) ii.push_back(0); else if (q == 1) jj.push_back(0); else vv.push_back(v); L << " (lengths differ)"; }
            bool itv = c.rng.chance(1, 2) && !len;
            Ex got = run([&] { if (itv) { if (dup) x.build(ii.begin(), jj.begin(), vv.begin(), vv.size(), DUP()); else x.build(ii.begin(), jj.begin(), vv.begin(), vv.size()); } else if (dup) x.build(ii, jj, vv, DUP()); else x.build(ii, jj, vv); });
            Ex want = len ? DIM : bad ? OOB : NONE; if (got != want) c.fail(THROW, "build: wrong error");
            if (want == NONE) m = nm; else if (want == OOB) { std::string why; if (!canon(x, why)) c.fail(CANON, why); m = fromG(x); }
        } else if (kinds & BUILD) {
            Ix k = x.nvals(); if (k != m.e.size()) { c.fail(CANON, "nvals"); continue; } grb::IndexArrayType ii(k), jj(k); std::vector<S> vv(k); L << "; extractTuples";
            if (c.rng.chance(1, 2)) x.extractTuples(ii, jj, vv); else x.extractTuples(ii.begin(), jj.begin(), vv.begin());
            Ix t = 0; for (auto &e : m.e) { if (ii[t] != e.first.first || jj[t] != e.first.second || vv[t] != e.second) { c.fail(VALUE, "extractTuples entry"); break; } ++t; }
        } else if (kinds & CTOR) {
            L << "; copy"; grb::Matrix<S> y(x); if (!(y == x) || (y != x)) c.fail(VALUE, "copy not equal"); if (m.r && m.c) { y.setElement(0, 0, v); check_in(c, x, m, "copied matrix"); }
            grb::Matrix<S> z(m.r, m.c); z = x; if (!(z == x)) c.fail(VALUE, "assignment not equal"); RM<S> t2 = m; if (!t2.e.empty()) { t2.e.begin()->second = S(t2.e.begin()->second.h + 1, 0); if (toG(t2) == x) c.fail(VALUE, "different matrices compare equal"); }
            grb::Matrix<S> w(m.r + 1, m.c); expect(c, DIM, "assignment of different shape", [&] { w = x; });
        }
        if (c.fails.empty()) { if (x.nrows() != m.r || x.ncols() != m.c) c.fail(VALUE, "dimensions"); else check_out(c, x, m, "matrix"); }
    }
    L << "\n";
}
void vector_(Ctx &c, int kinds) {
    c.op = "vector methods"; RV<S> m; grb::Vector<S> *g = nullptr; std::ostringstream &L = c.log; L << "vector history:"; Ix n = c.dim();
    int how = (kinds & CTOR) ? c.rng.below(5) : 3;
    S zero = rnd<S>(c.rng); std::vector<S> d; for (Ix i = 0; i < n; ++i) d.push_back(c.rng.chance(1, 3) ? zero : rnd<S>(c.rng)); if (c.rng.chance(1, 20)) d.clear();
    m.n = n;
    if (how == 0) { L << " fill " << n; g = new grb::Vector<S>(n, zero); for (Ix i = 0; i < n; ++i) m.e[i] = zero; }
    else if (how == 1) { L << " dense " << d.size(); if (!expect(c, d.empty() ? INVAL : NONE, "dense ctor", [&] { g = new grb::Vector<S>(d); })) return; for (Ix i = 0; i < d.size(); ++i) m.e[i] = d[i]; }
    else if (how == 2) { L << " dense-zero " << d.size(); if (!expect(c, d.empty() ? INVAL : NONE, "dense ctor", [&] { g = new grb::Vector<S>(d, zero); })) return; for (Ix i = 0; i < d.size(); ++i) if (d[i] != zero) m.e[i] = d[i]; }
    else if (how == 3) { m = rndV<S>(c, n); L << " start " << show(m); g = new grb::Vector<S>(toG(m)); }
    else { L << " empty " << n; g = new grb::Vector<S>(n); }
    std::unique_ptr<grb::Vector<S>> own(g); int steps = 1 + c.rng.below(12); c.nontrivial = true;
    for (int s = 0; s < steps && c.fails.empty(); ++s) {
        grb::Vector<S> &x = *own; int what = c.rng.below(10); Ix i = c.rng.chance(1, 10) ? m.n + c.rng.below(2) : c.rng.below(m.n); bool out = i >= m.n; S v = rnd<S>(c.rng);
        if (what < 3 && (kinds & ACCESS)) { L << "; set " << i; expect(c, out ? OOB : NONE, "setElement", [&] { x.setElement(i, v); }); if (!out) m.e[i] = v; }
        else if (what < 5 && (kinds & ACCESS)) { L << "; remove " << i; expect(c, out ? OOB : NONE, "removeElement", [&] { x.removeElement(i); }); if (!out) m.e.erase(i); }
        else if (what < 6 && (kinds & ACCESS)) { bool has = m.e.count(i), h = false; S q; L << "; read " << i;
            expect(c, out ? OOB : NONE, "hasElement", [&] { h = x.hasElement(i); }); if (!out && h != has) c.fail(VALUE, "hasElement");
            expect(c, out ? OOB : has ? NONE : NOVAL, "extractElement", [&] { q = x.extractElement(i); }); if (!out && has && q != m.e[i]) c.fail(VALUE, "extractElement"); }
        else if (what < 7 && (kinds & SHAPE)) { Ix a = c.rng.chance(1, 15) ? 0 : c.dim(); L << "; resize " << a; expect(c, !a ? INVAL : NONE, "resize", [&] { x.resize(a); });
            if (a) { m.e.erase(m.e.lower_bound(a), m.e.end()); m.n = a; } }
        else if (what < 8 && (kinds & SHAPE)) { L << "; clear"; x.clear(); m.e.clear(); }
        else if (what < 9 && (kinds & BUILD)) { x.clear(); m.e.clear(); Ix k = c.rng.below(12); if (c.rng.chance(1, 30)) k += 40; grb::IndexArrayType ii; std::vector<S> vv; bool bad = false, dup = c.rng.chance(1, 2); RV<S> nm = m; L << "; build";
            for (Ix t = 0; t < k; ++t) { Ix a = c.rng.below(m.n); if (c.rng.chance(1, 50)) a = m.n + c.rng.below(2); bad |= a >= m.n; S w = rnd<S>(c.rng); ii.push_back(a); vv.push_back(w); L << " " << a;
                if (!bad) { auto it = nm.e.find(a); if (it == nm.e.end()) nm.e[a] = w; else it->second = dup ? DUP()(it->second, w) : w; } }
            bool len = c.rng.chance(1, 15); if (len) { if (c.rng.chance(1, 2)) ii.push_back(0); else vv.push_back(v); L << " (lengths differ)"; }
            bool itv = c.rng.chance(1, 2) && !len;
            Ex got = run([&] { if (itv) { if (dup) x.build(ii.begin(), vv.begin(), vv.size(), DUP()); else x.build(ii.begin(), vv.begin(), vv.size()); } else if (dup) x.build(ii, vv, DUP()); else x.build(ii, vv); });
            Ex want = len ? DIM : bad ? OOB : NONE; if (got != want) c.fail(THROW, "build: wrong error"); if (want == NONE) m = nm; }
        else if (kinds & BUILD) { Ix k = x.nvals(); if (k != m.e.size()) { c.fail(CANON, "nvals"); continue; } grb::IndexArrayType ii(k); std::vector<S> vv(k); L << "; extractTuples"; if (c.rng.chance(1, 2)) x.extractTuples(ii, vv); else x.extractTuples(ii.begin(), vv.begin());
            Ix t = 0; for (auto &e : m.e) { if (ii[t] != e.first || vv[t] != e.second) { c.fail(VALUE, "extractTuples entry"); break; } ++t; } }
        else if (kinds & CTOR) { L << "; copy"; grb::Vector<S> y(x); if (!(y == x) || (y != x)) c.fail(VALUE, "copy not equal"); y.setElement(0, v); check_in(c, x, m, "copied vector"); grb::Vector<S> z(m.n); z = x; if (!(z == x)) c.fail(VALUE, "assignment not equal");
            RV<S> t2 = m; if (!t2.e.empty()) { t2.e.begin()->second = S(t2.e.begin()->second.h + 1, 0); if (toG(t2) == x) c.fail(VALUE, "different vectors compare equal"); } RV<S> t3 = m; if (!t3.e.empty()) { t3.e.erase(t3.e.begin()); if (toG(t3) == x) c.fail(VALUE, "different vectors compare equal"); }
            grb::Vector<S> w(m.n + 1); expect(c, DIM, "assignment of different size", [&] { w = x; });
            std::vector<S> dd(c.rng.chance(1, 8) ? m.n + 1 : m.n, v); L << " dense="; expect(c, dd.size() == m.n ? NONE : DIM, "dense assignment", [&] { x = dd; }); if (dd.size() == m.n) for (Ix q = 0; q < m.n; ++q) m.e[q] = v; }
        if (c.fails.empty()) { if (x.size() != m.n) c.fail(VALUE, "size"); else check_out(c, x, m, "vector"); }
    }
    L << "\n";
}
Reg a1("maccess", "matrix", [](Ctx &c) { matrix(c, ACCESS); }), a2("mbuild", "matrix", [](Ctx &c) { matrix(c, BUILD); }), a3("mshape", "matrix", [](Ctx &c) { matrix(c, SHAPE | ACCESS); }), a4("mhist", "matrix", [](Ctx &c) { matrix(c, 15); });
Reg b1("vaccess", "vector", [](Ctx &c) { vector_(c, ACCESS); }), b2("vbuild", "vector", [](Ctx &c) { vector_(c, BUILD); }), b3("vshape", "vector", [](Ctx &c) { vector_(c, SHAPE | ACCESS); }), b4("vhist", "vector", [](Ctx &c) { vector_(c, 15); });
}
