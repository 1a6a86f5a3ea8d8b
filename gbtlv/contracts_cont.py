"""Contracts on the containers: LilSparseMatrix and BitmapSparseVector methods,
and the thin front-end classes around them."""
import z3
from z3 import And, Or, Not, Implies, If, IntVal, BoolVal, Int
import theory as th, specs as sp
from theory import rowt, vect, sort, I, B, fresh, is_row, is_vec, rowt_of, vect_of, nv
import contracts as co
from contracts import Eff, M, VV, contract, wf, wfrows, vwf, vshape, vset, setnvals, is_lil, is_vecobj, same, functor_op, sortof_lv, canon, canonical, labelled
from symex import Iter, Obj, Loc, Ref, LV, Unsupported, UNINIT

def front(name, cls, *props, match=None):
    """contract of a front-end method grb::<cls>::<name>"""
    def d(f): co.FRONT.setdefault((cls, name), []).append((f, props, match)); return f
    return d
lil = lambda q, d, a, this, eng, st: is_lil(this)
vec = lambda q, d, a, this, eng, st: is_vecobj(this)
def sig(s, other):
    def m(q, d, a, this, eng, st): return other(q, d, a, this, eng, st) and s(d.type or "")
    return m
def nparams(n, other):
    import cast as ca
    return lambda q, d, a, this, eng, st: other(q, d, a, this, eng, st) and len(ca.params(d)) == n

def vcanon(e, v):
    e.post = getattr(e, "post", []) + [canonical("vector representation invariant %d" % i, lambda st, i=i: v.at(st).wf()[i]) for i in range(3)]
    return e

# =========================================================================== matrix element access
def oob(m, i, j): return Or(i >= m.nr, j >= m.nc)
def mat(cx):
    o = cx.this
    return M(cx, o.fields["m_mat"] if isinstance(o, Obj) and "m_mat" in o.fields else o)
def vecof(cx):
    o = cx.this
    return VV(cx, o.fields["m_vec"] if isinstance(o, Obj) and "m_vec" in o.fields else o)

def missed(e, j):
    """the elements a scan has passed do not have column j"""
    x = Int("x?")
    def inv(add, h):
        for c in h.mits:
            r = c.cont(h.head)
            if is_row(r):
                T = rowt_of(r)
                add("elements before %s have another column" % c.name, lambda st, c=c, T=T: th.forall([x], Implies(And(0 <= x, x < c.get(st)), T.idx(c.cont(st), x) != j), T.idx(c.cont(st), x)))
    e.invs.append(inv)
def _has(cx):
    e = Eff(); m = mat(cx); i, j = cx.v(0), cx.v(1); wfrows(e, m, "matrix"); missed(e, j)
    e.throw("IndexOutOfBoundsException", oob(m, i, j)); e.ret = m.T.has(m.row(i), j); return e
contract("hasElement", "C03", match=lil)(_has); front("hasElement", "Matrix", "C03")(_has)
def _ext(cx):
    e = Eff(); m = mat(cx); i, j = cx.v(0), cx.v(1); wfrows(e, m, "matrix"); missed(e, j); b = oob(m, i, j)
    e.throw("IndexOutOfBoundsException", b); e.throw("NoValueException", And(Not(b), Not(m.T.has(m.row(i), j)))); e.ret = m.T.vat(m.row(i), j); return e
contract("extractElement", "C03", match=lil)(_ext); front("extractElement", "Matrix", "C03")(_ext)
def setel(cx, e, m, i, j, v):
    r = m.row(i)
    e.set(m.ldata, m.V.upd(m.data, i, sp.SETEL(m.S)(r, j, v))); e.set(m.lnvals, m.nvals + If(m.T.has(r, j), 0, 1)); return canon(e, cx, m)
def scalar(cx, i, S):
    v = cx.v(i)
    return th.conv(v.sort(), S)(v) if isinstance(v, z3.ExprRef) and v.sort() != S else v
def _set(cx):
    e = Eff(); m = mat(cx); i, j, v = cx.v(0), cx.v(1), scalar(cx, 2, mat(cx).S); wf(e, m, "matrix")
    e.throw("IndexOutOfBoundsException", oob(m, i, j)); return setel(cx, e, m, i, j, v)
contract("setElement", "C03", match=nparams(3, lil))(_set); front("setElement", "Matrix", "C03")(_set)
@contract("setElement", "C04", match=nparams(4, lil))
def _setm(cx):
    e = Eff(); m = mat(cx); i, j, v = cx.v(0), cx.v(1), scalar(cx, 2, mat(cx).S); wf(e, m, "matrix"); op = dupop(cx, 3, m.S)
    e.throw("IndexOutOfBoundsException", oob(m, i, j)); r = m.row(i)
    return setel(cx, e, m, i, j, If(m.T.has(r, j), sp.cv(op(m.T.vat(r, j), v), m.S), v))
def _rem(cx):
    e = Eff(); m = mat(cx); i, j = cx.v(0), cx.v(1); wf(e, m, "matrix")
    e.throw("IndexOutOfBoundsException", oob(m, i, j)); r = m.row(i)
    e.set(m.ldata, m.V.upd(m.data, i, sp.REMEL(m.S)(r, j))); e.set(m.lnvals, m.nvals - If(m.T.has(r, j), 1, 0)); return canon(e, cx, m)
contract("removeElement", "C03", match=lil)(_rem); front("removeElement", "Matrix", "C03")(_rem)

# =========================================================================== matrix shape
def resized(cx, e, m, nr, nc):
    e.rows(m.ldata, nr, lambda r: If(r < m.nr, m.T.below(m.row(r), nc), m.T.empty))
    e.rel(m.lnvals, lambda: fresh("nvals", I), lambda new: [])
    e.set(m.lnr, nr); e.set(m.lnc, nc); return canon(e, cx, m)
@contract("resize", "C05", match=lil)
def _resize(cx):
    e = Eff(); m = mat(cx); wf(e, m, "matrix"); return resized(cx, e, m, cx.v(0), cx.v(1))
@front("resize", "Matrix", "C05")
def _fresize(cx):
    e = Eff(); m = mat(cx); wf(e, m, "matrix"); nr, nc = cx.v(0), cx.v(1)
    e.throw("InvalidValueException", Or(nr == 0, nc == 0)); return resized(cx, e, m, nr, nc)
@front("clear", "Matrix", "C05")
def _fclear(cx):
    e = Eff(); m = mat(cx); wf(e, m, "matrix")
    e.rows(m.ldata, m.V.len(m.data), lambda r: m.T.empty); e.set(m.lnvals, IntVal(0)); return canon(e, cx, m)
def copied(cx, e, d, s, dims):
    e.set(d.ldata, s.data); e.set(d.lnvals, s.nvals)
    if dims: e.set(d.lnr, s.nr); e.set(d.lnc, s.nc)
    return canon(e, cx, d)
def _assignop(cx):
    e = Eff(); d = mat(cx); a = cx.args[0]
    if isinstance(a, Ref): a = a.lv
    if isinstance(a, LV) and not isinstance(a, Obj): a = cx.e.rv(cx.st, a)
    s = M(cx, a.fields["m_mat"] if "m_mat" in a.fields else a); wf(e, d, "target"); wf(e, s, "source")
    if d.obj is not s.obj: e.throw("DimensionException", Or(d.nr != s.nr, d.nc != s.nc))
    return copied(cx, e, d, s, False)
def argkind(f, pat):
    import re
    return lambda q, d, a, this, eng, st: f(q, d, a, this, eng, st) and re.search(pat, d.type or "") is not None
contract("operator=", "C03", match=argkind(lil, r"\((const )?(grb::backend::)?LilSparseMatrix<"))(_assignop)
front("operator=", "Matrix", "C03")(_assignop)
@contract("swap", "C03", match=lil)
def _swap(cx):
    e = Eff(); a = mat(cx); b = M(cx, cx.args[0])
    for x, y in ((a, b), (b, a)): e.set(x.ldata, y.data); e.set(x.lnvals, y.nvals); e.set(x.lnr, y.nr); e.set(x.lnc, y.nc)
    return e
@contract("getCol", "C15", match=lil)
def _getcol(cx):
    e = Eff(); m = mat(cx); wfrows(e, m, "matrix"); j = cx.v(0); C = sp.COL(m.S); e.ret = C(m.data, j, m.nr)
    def inv(add, h):
        for nm, lv, mod in h.rows:
            if not mod or not is_row(h.eng.rv(h.head, lv)): continue
            for c in h.mits:
                if not is_row(c.cont(h.head)): continue
                for kn, K in h.counters:
                    seen = lambda st, c=c: m.T.has(m.T.prefix(c.cont(st), c.get(st)), j)
                    add("%s is the column up to row %s" % (nm, kn), lambda st, lv=lv, K=K, seen=seen: Implies(Not(seen(st)), h.eng.rv(st, lv) == C(m.data, j, K)))
                    add("%s is the column up to and with row %s" % (nm, kn), lambda st, lv=lv, K=K, seen=seen: Implies(seen(st), h.eng.rv(st, lv) == C(m.data, j, K + 1)))
    e.invs.append(inv); return e
@contract("setCol", "C01", match=lil)
def _setcol(cx):
    e = Eff(); m = mat(cx); wf(e, m, "matrix"); j = cx.v(0); c = co.rowwf(e, "column data", cx.row(1)); C = rowt_of(c)
    e.req("column index in range", And(0 <= j, j < m.nc)); e.req("column data within the rows", C.inrange(c, m.nr))
    se, re_ = sp.SETEL(m.S), sp.REMEL(m.S)
    e.rows(m.ldata, m.nr, lambda r: If(C.has(c, r), se(m.row(r), j, sp.cv(C.vat(c, r), m.S)), re_(m.row(r), j)))
    cc = c; x = Int("x?"); missed(e, j)
    def inv(add, h):
        for c in h.mits:
            if not z3.eq(c.cont(h.head), cc): continue
            for k in h.mints:
                add("%s stands at the first entry not below %s" % (c.name, k.name), lambda st, c=c, k=k: Implies(c.get(st) < C.len(c.cont(st)), C.idx(c.cont(st), c.get(st)) >= k.get(st)))
                add("entries before %s lie below %s" % (c.name, k.name), lambda st, c=c, k=k: th.forall([x], Implies(And(0 <= x, x < c.get(st)), C.idx(c.cont(st), x) < k.get(st)), C.idx(c.cont(st), x)))
    e.invs.append(inv)
    e.rel(m.lnvals, lambda: fresh("nvals", I), lambda new: []); return canon(e, cx, m)
@contract("mergeRow", "C01", match=lil)
def _mergerow(cx):
    e = Eff(); m = mat(cx); wf(e, m, "matrix"); i = cx.v(0); r = co.rowwf(e, "row data", cx.row(1)); acc = cx.v(2)
    e.req("row index in range", And(0 <= i, i < m.nr)); e.req("row data within the columns", rowt_of(r).inrange(r, m.nc))
    new = sp.CONVROW(rowt_of(r).S, m.S)(r) if co.is_noacc(acc) else sp.EOR(functor_op(cx.e, acc), m.S, rowt_of(r).S, m.S)(m.row(i), r)
    e.set(m.ldata, m.V.upd(m.data, i, new)); e.rel(m.lnvals, lambda: fresh("nvals", I), lambda new: []); return canon(e, cx, m)

# =========================================================================== matrix constructors
def fresh_matrix(e, cx, m, nr, nc, f=None):
    e.set(m.lnr, nr); e.set(m.lnc, nc)
    e.rows(m.ldata, nr, f or (lambda r: m.T.empty)); e.rel(m.lnvals, lambda: fresh("nvals", I), lambda new: []); return canon(e, cx, m)
class MNew:
    """a matrix under construction"""
    def __init__(s, cx):
        o = cx.this; o = o.fields["m_mat"] if "m_mat" in o.fields else o
        s.obj = o; s.ldata, s.lnvals, s.lnr, s.lnc = [o.fields[f] for f in ("m_data", "m_nvals", "m_num_rows", "m_num_cols")]
        d = cx.e.read(cx.st, s.ldata); s.V = vect_of(d); s.T = rowt(sort(s.V.T.name()[4:])); s.S = s.T.S
def ctor(pat, cls):
    import re
    return lambda q, d, a, this, eng, st: cls(q, d, a, this, eng, st) and d.kind == "CXXConstructorDecl" and re.search(pat, d.type or "") is not None
@contract("LilSparseMatrix", "C05", match=ctor(r"^void \((grb::)?IndexType, (grb::)?IndexType\)", lil))
def _ctor(cx): return fresh_matrix(Eff(), cx, MNew(cx), cx.v(0), cx.v(1))
@contract("LilSparseMatrix", "C03", match=ctor(r"^void \((const )?(grb::backend::)?LilSparseMatrix<", lil))
def _cctor(cx):
    e = Eff(); m = MNew(cx); s = M(cx, cx.args[0]); wf(e, s, "source")
    e.set(m.ldata, s.data); e.set(m.lnvals, s.nvals); e.set(m.lnr, s.nr); e.set(m.lnc, s.nc); return canon(e, cx, m)
@front("Matrix", "Matrix", "C03", match=ctor(r"^void \((const )?(grb::)?Matrix<", lambda *a: True))
def _fcctor(cx):
    e = Eff(); m = MNew(cx); o = cx.e.rv(cx.st, cx.args[0]); s = M(cx, o.fields["m_mat"]); wf(e, s, "source")
    e.set(m.ldata, s.data); e.set(m.lnvals, s.nvals); e.set(m.lnr, s.nr); e.set(m.lnc, s.nc); return canon(e, cx, m)
@front("Matrix", "Matrix", "C05", match=ctor(r"^void \((grb::)?IndexType, (grb::)?IndexType\)", lambda *a: True))
def _fctor(cx): return fresh_matrix(Eff(), cx, MNew(cx), cx.v(0), cx.v(1))

# =========================================================================== vectors
def _vhas(cx):
    e = Eff(); v = vshape(e, vecof(cx), "vector"); i = cx.v(0); e.throw("IndexOutOfBoundsException", i >= v.size); e.ret = v.T.has(v.cont, i); return e
contract("hasElement", "C03", match=vec)(_vhas); front("hasElement", "Vector", "C03")(_vhas)
def _vext(cx):
    e = Eff(); v = vshape(e, vecof(cx), "vector"); i = cx.v(0); e.throw("IndexOutOfBoundsException", i >= v.size)
    e.throw("NoValueException", And(i < v.size, Not(v.T.has(v.cont, i)))); e.ret = v.T.vat(v.cont, i); return e
contract("extractElement", "C03", match=vec)(_vext); front("extractElement", "Vector", "C03")(_vext)
def _vset(cx):
    e = Eff(); v = vwf(e, vecof(cx), "vector"); i = cx.v(0); x = scalar(cx, 1, v.S); e.throw("IndexOutOfBoundsException", i >= v.size)
    vset(e, v, sp.SETEL(v.S)(v.cont, i, x)); e.post.append(lambda st: v.at(st).nvals == v.nvals + If(v.T.has(v.cont, i), 0, 1)); return e
contract("setElement", "C03", match=vec)(_vset); front("setElement", "Vector", "C03")(_vset)
def _vrem(cx):
    e = Eff(); v = vwf(e, vecof(cx), "vector"); i = cx.v(0); e.throw("IndexOutOfBoundsException", i >= v.size)
    vset(e, v, sp.REMEL(v.S)(v.cont, i)); return e
contract("removeElement", "C03", match=vec)(_vrem); front("removeElement", "Vector", "C03")(_vrem)
def vresized(e, v, n): vset(e, v, v.T.below(v.cont, n), size=n); return e
@contract("resize", "C05", match=vec)
def _vresize(cx):
    e = Eff(); v = vwf(e, vecof(cx), "vector"); return vresized(e, v, cx.v(0))
@front("resize", "Vector", "C05")
def _fvresize(cx):
    e = Eff(); v = vwf(e, vecof(cx), "vector"); e.throw("InvalidValueException", cx.v(0) == 0); return vresized(e, v, cx.v(0))
@front("clear", "Vector", "C05")
def _fvclear(cx):
    e = Eff(); v = vwf(e, vecof(cx), "vector"); vset(e, v, v.T.empty); return e
def _vassign(cx):
    e = Eff(); d = vecof(cx); a = cx.e.rv(cx.st, cx.args[0])
    s = VV(cx, a.fields["m_vec"] if "m_vec" in a.fields else a); vwf(e, d, "target"); vwf(e, s, "source")
    if d.obj is not s.obj: e.throw("DimensionException", d.size != s.size)
    vset(e, d, s.cont); return e
contract("operator=", "C03", match=argkind(vec, r"\((const )?(grb::backend::)?BitmapSparseVector<"))(_vassign)
front("operator=", "Vector", "C03", match=argkind(lambda *a: True, r"\((const )?(grb::)?Vector<"))(_vassign)
def vdense(e, v, n, vals):
    """size n, every position holding vals[i]"""
    vset(e, v, sp.DENSE(v.S)(vals, n), size=n); return e
@contract("operator=", "C02", match=argkind(vec, r"\((const )?(std::)?vector<"))
def _vassignd(cx):
    e = Eff(); d = vwf(e, vecof(cx), "target"); s = cx.v(0); V = vect_of(s)
    k = Int("k?")
    def inv(add, h):
        for c in h.mints:
            add("bits before %s are set" % c.name, lambda st, c=c: th.forall([k], Implies(And(0 <= k, k < c.get(st)), vect(B).at(h.eng.rv(st, d.lbits), k)), vect(B).at(h.eng.rv(st, d.lbits), k)))
            add("values before %s are copied" % c.name, lambda st, c=c: th.forall([k], Implies(And(0 <= k, k < c.get(st)), V.at(h.eng.rv(st, d.lvals), k) == V.at(s, k)), V.at(h.eng.rv(st, d.lvals), k)))
    e.invs.append(inv)
    e.throw("DimensionException", V.len(s) != d.size); vset(e, d, sp.DENSE(d.S)(s, d.size)); return e
class VNew(VV):
    def __init__(s, cx):
        o = cx.this; o = o.fields["m_vec"] if "m_vec" in o.fields else o
        s.obj = o; s.cx = cx; s.lsize, s.lnvals, s.lvals, s.lbits = [o.fields[f] for f in ("m_size", "m_nvals", "m_vals", "m_bitmap")]
        s.vals, s.bits = cx.e.read(cx.st, s.lvals), cx.e.read(cx.st, s.lbits); s.V = vect_of(s.vals); s.Bv = vect_of(s.bits); s.S = s.V.T; s.T = rowt(s.S)
IX = r"(const )?(grb::)?IndexType( &)?"
@contract("BitmapSparseVector", "C05", match=ctor(r"^void \(%s\)" % IX, vec))
def _vctor(cx):
    e = Eff(); v = VNew(cx); n = cx.v(0); e.throw("InvalidValueException", n == 0); vset(e, v, v.T.empty, size=n); return e
front("Vector", "Vector", "C02", match=ctor(r"^void \(%s\)" % IX, lambda *a: True))(_vctor)
@contract("BitmapSparseVector", "C02", match=ctor(r"^void \(%s, (const )?\S+( &)?\)" % IX, vec))
def _vctorf(cx):
    e = Eff(); v = VNew(cx); n, x = cx.v(0), cx.v(1); vset(e, v, sp.DENSE(v.S)(v.V.fill(n, x), n), size=n); return e
front("Vector", "Vector", "C02", match=ctor(r"^void \(%s, (const )?\S+( &)?\)" % IX, lambda *a: True))(_vctorf)
@contract("BitmapSparseVector", "C02", match=ctor(r"^void \((const )?(std::)?vector<[^,]*( &)?\)", vec))
def _vctord(cx):
    e = Eff(); v = VNew(cx); s = cx.v(0); n = v.V.len(s); e.throw("InvalidValueException", n == 0); return vdense(e, v, n, s)
front("Vector", "Vector", "C02", match=ctor(r"^void \((const )?(std::)?vector<[^,]*( &)?\)", lambda *a: True))(_vctord)
@contract("BitmapSparseVector", "C02", match=ctor(r"^void \((const )?(grb::backend::)?BitmapSparseVector<", vec))
def _vcctor(cx):
    e = Eff(); v = VNew(cx); s = VV(cx, cx.args[0]); vwf(e, s, "source"); vset(e, v, s.cont, size=s.size); return e
@contract("BitmapSparseVector", "C02", match=ctor(r"^void \(%s, (const )?(grb::)?IndexArrayType|^void \(%s, (const )?(std::)?vector<" % (IX, IX), vec))
def _vctori(cx):
    e = Eff(); v = VNew(cx); n = cx.v(0); ii, xs = cx.v(1), cx.v(2); L = vect(I).len(ii); x = Int("x?")
    e.req("one value per index", v.V.len(xs) >= L)
    e.throw("DimensionException", z3.Exists([x], And(0 <= x, x < L, vect(I).at(ii, x) >= n)))
    op = sp.Op("Second", lambda a, b: b, v.S)
    vbuild_inv(e, v, op, ii, xs, v.S); vset(e, v, sp.VBLD(op, v.S, v.S)(ii, xs, L, n), size=n); return e

# =========================================================================== build
lists = lambda q, d, a, this, eng, st: "iterator" not in (d.type or "")
iters = lambda q, d, a, this, eng, st: "iterator" in (d.type or "")
def iter0(cx, i, e, what, n):
    it = cx.v(i)
    if not isinstance(it, Iter): raise Unsupported("iterator argument")
    c = cx.e.rv(cx.st, it.cont); V = vect_of(c)
    e.req("%s list starts at the iterator and has at least n entries" % what, And(it.pos == 0, V.len(c) >= n)); return c
def dupop(cx, i, S):
    f = cx.v(i)
    if getattr(f, "tname", "").split("<")[0].split("::")[-1] == "Second": return sp.Op("Second", lambda a, b: sp.cv(b, S), S)
    return functor_op(cx.e, f)
def vbuild_inv(e, v, op, ii, xs, S):
    Vi, Vx = vect(I), vect_of(xs); k = Int("k?")
    H, X = sp.BLIST(op, v.S, Vx.T)
    def inv(add, h):
        pairs = []
        for nb, lb, _ in h.rows:
            if h.eng.rv(h.head, lb).sort().name() != "Vec_Bool": continue
            for nx, lx, _ in h.rows:
                if h.eng.rv(h.head, lx).sort() == v.V.V: pairs.append((nb, lb, nx, lx))
        for c in h.mints:
            add("indices before %s in range" % c.name, lambda st, c=c: th.forall([k], Implies(And(0 <= k, k < c.get(st)), Vi.at(ii, k) < h.size(st)), Vi.at(ii, k)))
            for nb, lb, nx, lx in pairs:
                add("%s marks the indices before %s" % (nb, c.name), lambda st, c=c, lb=lb: th.forall([k], Implies(And(0 <= k, k < h.size(st)), vect(B).at(h.eng.rv(st, lb), k) == H(ii, c.get(st), k)), vect(B).at(h.eng.rv(st, lb), k)))
                add("%s holds the values before %s" % (nx, c.name), lambda st, c=c, lb=lb, lx=lx: th.forall([k], Implies(And(0 <= k, k < h.size(st), vect(B).at(h.eng.rv(st, lb), k)), v.V.at(h.eng.rv(st, lx), k) == X(ii, xs, c.get(st), k)), v.V.at(h.eng.rv(st, lx), k)))
    def inv2(add, h):
        h.size = lambda st: h.eng.rv(st, v.lsize); inv(add, h)
        for l in h.modints:
            for nb, lb, _ in h.rows:
                if h.eng.rv(h.head, lb).sort().name() == "Vec_Bool":
                    add("#%d counts %s" % (l, nb), lambda st, l=l, lb=lb: st.store[l] == sp.BCNT()(h.eng.rv(st, lb), h.size(st)))
        for nb, lb, _ in h.rows:
            s_ = h.eng.rv(h.head, lb)
            if is_vec(s_): add("len %s is the size" % nb, lambda st, lb=lb: vect_of(h.eng.rv(st, lb)).len(h.eng.rv(st, lb)) == h.size(st))
    e.invs.append(inv2)
def _vbuild(cx):
    e = Eff(); v = vwf(e, vecof(cx), "vector"); n = cx.v(2); ii = iter0(cx, 0, e, "index", n); xs = iter0(cx, 1, e, "value", n); x = Int("x?")
    op = dupop(cx, 3, v.S)
    e.throw("IndexOutOfBoundsException", z3.Exists([x], And(0 <= x, x < n, vect(I).at(ii, x) >= v.size)))
    vbuild_inv(e, v, op, ii, xs, v.S)
    vset(e, v, sp.VBLD(op, v.S, vect_of(xs).T)(ii, xs, n, v.size)); return e
_vbuild.separate = True; contract("build", "C04", match=vec)(_vbuild); front("build", "Vector", "C04", match=iters)(_vbuild)
def _mbuild(cx):
    e = Eff(); m = mat(cx); wf(e, m, "matrix"); n = cx.v(3); ii = iter0(cx, 0, e, "row index", n); jj = iter0(cx, 1, e, "column index", n); xs = iter0(cx, 2, e, "value", n)
    op = dupop(cx, 4, m.S); r = Int("r?"); x = Int("x?"); At = vect(I).at
    e.req("the matrix is empty", th.forall([r], Implies(And(0 <= r, r < m.nr), m.row(r) == m.T.empty), m.row(r)))
    e.throw("IndexOutOfBoundsException", z3.Exists([x], And(0 <= x, x < n, Or(At(ii, x) >= m.nr, At(jj, x) >= m.nc))))
    F = sp.MBLD(op, m.S, vect_of(xs).T)
    e.rows(m.ldata, m.nr, lambda r: F(ii, jj, xs, n, r, m.nc)); e.rel(m.lnvals, lambda: fresh("nvals", I), lambda new: [])
    def inv(add, h):
        k = Int("k?")
        for c in h.mints:
            add("indices before %s in range" % c.name, lambda st, c=c: th.forall([k], Implies(And(0 <= k, k < c.get(st)), And(At(ii, k) < m.nr, At(jj, k) < m.nc)), At(ii, k)))
    e.invs.append(inv); e.partial = True
    return canon(e, cx, m)
_mbuild.separate = True; contract("build", "C04", match=lil)(_mbuild); front("build", "Matrix", "C04", match=iters)(_mbuild)
@front("build", "Matrix", "C04", match=lists)
def _fmbuild(cx):
    e = Eff(); m = mat(cx); wf(e, m, "matrix"); ii, jj, xs = cx.v(0), cx.v(1), cx.v(2); op = dupop(cx, 3, m.S); r = Int("r?"); x = Int("x?"); V = vect(I); At = V.at; Vx = vect_of(xs); n = Vx.len(xs)
    e.req("the matrix is empty", th.forall([r], Implies(And(0 <= r, r < m.nr), m.row(r) == m.T.empty), m.row(r)))
    bad = Or(V.len(ii) != n, V.len(jj) != n)
    e.throw("DimensionException", bad)
    e.throw("IndexOutOfBoundsException", And(Not(bad), z3.Exists([x], And(0 <= x, x < n, Or(At(ii, x) >= m.nr, At(jj, x) >= m.nc)))))
    F = sp.MBLD(op, m.S, Vx.T)
    e.rows(m.ldata, m.nr, lambda r: F(ii, jj, xs, n, r, m.nc)); e.rel(m.lnvals, lambda: fresh("nvals", I), lambda new: []); e.partial = True
    return canon(e, cx, m)
@front("build", "Vector", "C04", match=lists)
def _fvbuild(cx):
    e = Eff(); v = vwf(e, vecof(cx), "vector"); ii, xs = cx.v(0), cx.v(1); op = dupop(cx, 2, v.S); x = Int("x?"); V = vect(I); Vx = vect_of(xs); n = Vx.len(xs)
    bad = V.len(ii) != n; e.throw("DimensionException", bad)
    e.throw("IndexOutOfBoundsException", And(Not(bad), z3.Exists([x], And(0 <= x, x < n, V.at(ii, x) >= v.size))))
    vset(e, v, sp.VBLD(op, v.S, Vx.T)(ii, xs, n, v.size)); return e

# =========================================================================== extractTuples
def outlist(cx, i, e, n, what, front=False):
    if front: l = cx.lv(i); c = cx.v(i); p = IntVal(0)
    else:
        it = cx.v(i)
        if not isinstance(it, Iter): raise Unsupported("iterator argument")
        l = it.cont; c = cx.e.rv(cx.st, it.cont); p = it.pos
    if isinstance(l, Ref): l = l.lv
    V = vect_of(c); e.req("the %s list is long enough" % what, And(p == 0, V.len(c) >= n)); return l, c, V
def _mtuples(front_):
    def f(cx):
        e = Eff(); m = mat(cx); wf(e, m, "matrix"); N = m.nvals
        (li, ci, Vi), (lj, cj, _), (lx, cx_, Vx) = [outlist(cx, i, e, N, w, front_) for i, w in enumerate(("row", "column", "value"))]
        e.req("the lists are distinct", BoolVal(not same(li, lj))); r, p = Int("r?"), Int("p?"); off = lambda r: nv(m.S)(m.data, r)
        cc = lambda x: sp.cv(x, Vx.T)
        def upto(a, b, c, R, P):
            """lists a b c hold the elements of the rows before R and the first P of row R"""
            dom = And(0 <= r, 0 <= p, p < m.T.len(m.row(r)), m.T.idx(m.row(r), p) >= 0, Or(r < R, And(r == R, p < P)))
            return [th.forall([r, p], Implies(dom, body), m.T.idx(m.row(r), p)) for body in
                    (Vi.at(a, off(r) + p) == r, Vi.at(b, off(r) + p) == m.T.idx(m.row(r), p), Vx.at(c, off(r) + p) == cc(m.T.val(m.row(r), p)))]
        for l, V in ((li, Vi), (lj, Vi), (lx, Vx)): e.rel(l, (lambda V=V: fresh("tup", V.V)), lambda new: [])
        rd = lambda st: (cx.e.rv(st, li), cx.e.rv(st, lj), cx.e.rv(st, lx))
        e.post = [lambda st: And(*upto(*rd(st), m.nr, IntVal(0))), lambda st: And(*[V.len(n_) == V.len(o) for n_, o, V in zip(rd(st), (ci, cj, cx_), (Vi, Vi, Vx))])]
        def inv(add, h):
            outs = [l for l in (li, lj, lx) if l.id in h.mod]
            rowc = [(c.name, c.get) for c in h.mints] + [(nm, (lambda st, t=t: t)) for nm, t in h.counters]
            for l, V, o in zip((li, lj, lx), (Vi, Vi, Vx), (ci, cj, cx_)):
                if l.id in h.mod: add("length of #%d kept" % l.id, lambda st, l=l, V=V, o=o: V.len(h.eng.rv(st, l)) == V.len(o))
            inner = [c for c in h.mits if is_row(c.cont(h.head)) and c.mod]
            outc = [c for c in h.mits if c.mod and not is_row(c.cont(h.head))]
            for rn, rg in rowc:
                for P, pn in [(lambda st: IntVal(0), "0")] + [(c.get, c.name) for c in inner]:
                    for i in range(3): add("tuples of rows before %s and %s entries, list %d" % (rn, pn, i), lambda st, rg=rg, P=P, i=i: upto(*rd(st), rg(st), P(st))[i])
                    for c in outc: add("%s is at the start of row %s plus %s" % (c.name, rn, pn), lambda st, rg=rg, P=P, c=c: c.get(st) == off(rg(st)) + P(st))
        e.invs.append(inv); return e
    return f
f_ = _mtuples(False); f_.separate = True
contract("extractTuples", "C04", match=lil)(f_); front("extractTuples", "Matrix", "C04", match=iters)(f_)
front("extractTuples", "Matrix", "C04", match=lambda q, d, a, this, eng, st: "iterator" not in (d.type or ""))(_mtuples(True))
def _vtuples(front_):
    def f(cx):
        e = Eff(); v = vecof(cx); vwf(e, v, "vector"); (li, ci, Vi), (lx, cx_, Vx) = [outlist(cx, i, e, v.nvals, w, front_) for i, w in enumerate(("index", "value"))]
        k = Int("k?"); bc = sp.BCNT()
        def upto(a, b, n):
            dom = And(0 <= k, k < n, v.Bv.at(v.bits, k)); pos = bc(v.bits, k)
            return [th.forall([k], Implies(dom, body), v.Bv.at(v.bits, k)) for body in (Vi.at(a, pos) == k, Vx.at(b, pos) == sp.cv(v.V.at(v.vals, k), Vx.T))]
        for l, V in ((li, Vi), (lx, Vx)): e.rel(l, (lambda V=V: fresh("tup", V.V)), lambda new: [])
        rd = lambda st: (cx.e.rv(st, li), cx.e.rv(st, lx))
        e.post = [lambda st: And(*upto(*rd(st), v.size)), lambda st: And(*[V.len(n_) == V.len(o) for n_, o, V in zip(rd(st), (ci, cx_), (Vi, Vx))])]
        def inv(add, h):
            for l, V, o in zip((li, lx), (Vi, Vx), (ci, cx_)):
                if l.id in h.mod: add("length of #%d kept" % l.id, lambda st, l=l, V=V, o=o: V.len(h.eng.rv(st, l)) == V.len(o))
            for c in h.mints:
                for i in range(2): add("elements before %s, list %d" % (c.name, i), lambda st, c=c, i=i: upto(*rd(st), c.get(st))[i])
                for o in h.mits: add("%s counts the elements before %s" % (o.name, c.name), lambda st, c=c, o=o: o.get(st) == bc(v.bits, c.get(st)))
        e.invs.append(inv); return e
    return f
f_ = _vtuples(False); f_.separate = True
contract("extractTuples", "C04", match=sig(lambda t: "iterator" in t, vec))(f_); front("extractTuples", "Vector", "C04", match=iters)(f_)
contract("extractTuples", "C04", match=sig(lambda t: "iterator" not in t, vec))(_vtuples(True))
front("extractTuples", "Vector", "C04", match=lambda q, d, a, this, eng, st: "iterator" not in (d.type or ""))(_vtuples(True))
