"""Contracts on assign and its helpers."""
import z3, itertools
from z3 import And, Or, Not, Implies, If, IntVal, BoolVal, Int, Exists
import theory as th, specs as sp, cast as ca, symex as sx
from theory import rowt, vect, sort, I, fresh, is_row, is_vec, rowt_of, vect_of, nv
from symex import Obj, Iter, LV, Ref, Unsupported, ElemLV
import contracts as co
from contracts import Eff, contract, M, VV, Seq, same, wf, wfrows, vshape, uwf, uvwf, operand, onr, onc, masksort, vmask, masked, vmasked, vset, isvec, rowwf, setnvals, canon, base, is_noacc, functor_op, outsplit, labelled
from contracts_ext import VI, seqvec, seqlen, full, Pair, below_req, oob_throw, rangewalk, counters
_x, _y, _r = Int("x?"), Int("y?"), Int("r?")

def distinct(e, label, s):
    """the index list names no position twice"""
    if s.kind == "vec": e.req("%s names no position twice" % label, sp.NODUP()(s.v))
def oi(s): 
    """the (index, position) pairs of a sequence"""
    sp.OI(); e = seqvec(s); return sp.OI()(e)
def range_nodup():
    V = VI(); b, e = z3.Ints("b e"); f = sp.IOTA()(b, e)
    ax = th.forall([b, e], Implies(b <= e, sp.NODUP()(f)), f)
    if not getattr(range_nodup, "done", False): range_nodup.done = True; th.axiom(ax, th.fn("iota", I, I, V.V))
range_nodup()
def mempos(v, k): sp.MEM(); return th.fn("mempos", VI().V, I, I)(v, k)
def ascending(v): return th.forall([_x, _y], Implies(And(0 <= _x, _x < _y, _y < VI().len(v)), VI().at(v, _x) < VI().at(v, _y)), [VI().at(v, _x), VI().at(v, _y)])

def vecwalkers(h):
    """positions walked along an index sequence: iterators over vectors, and counters"""
    out = [(c.name, c.get, c.cont) for c in h.mits if is_vec(c.cont(h.head)) and c.cont(h.head).sort().name() == "Vec_Int"]
    return out
def modrows(h):
    for nm, lv, m in h.rows:
        if m and is_row(h.eng.rv(h.head, lv)): yield nm, (lambda st, lv=lv: h.eng.rv(st, lv)), rowt_of(h.eng.rv(h.head, lv))
def modvecs(h):
    for nm, lv, m in h.rows:
        if m and is_vec(h.eng.rv(h.head, lv)) and h.eng.rv(h.head, lv).sort().name() == "Vec_Int": yield nm, (lambda st, lv=lv: h.eng.rv(st, lv))
def follows(add, h, seqs, vals=()):
    """rows whose k-th index is the k-th of a sequence, and whose values are given"""
    V = VI()
    for nm, g, T in modrows(h):
        for n, w in counters(h): add("%s has %s elements" % (nm, n), lambda st, g=g, w=w, T=T: T.len(g(st)) == w(st))
        for k, s in enumerate(seqs):
            v = seqvec(s)
            add("%s follows list %d" % (nm, k), lambda st, g=g, T=T, v=v: And(T.len(g(st)) <= V.len(v), th.forall([_x], Implies(And(0 <= _x, _x < T.len(g(st))), T.idx(g(st), _x) == V.at(v, _x)), T.idx(g(st), _x), V.at(v, _x))))
        if T.S == I: add("%s holds positions" % nm, lambda st, g=g, T=T: th.forall([_x], Implies(And(0 <= _x, _x < T.len(g(st))), T.val(g(st), _x) == _x), T.val(g(st), _x), T.idx(g(st), _x)))
        for k, x in enumerate(vals):
            if x.sort() == T.S: add("%s holds value %d" % (nm, k), lambda st, g=g, T=T, x=x: th.forall([_x], Implies(And(0 <= _x, _x < T.len(g(st))), T.val(g(st), _x) == x), T.val(g(st), _x)))
    for nm, g in modvecs(h):
        for n, w in counters(h): add("%s has %s elements" % (nm, n), lambda st, g=g, w=w: V.len(g(st)) == w(st))
        for n, w, c in vecwalkers(h): add("%s has the walked length %s" % (nm, n), lambda st, g=g, w=w: V.len(g(st)) == w(st))
        for k, s in enumerate(seqs):
            v = seqvec(s)
            add("%s copies list %d" % (nm, k), lambda st, g=g, v=v: And(V.len(g(st)) <= V.len(v), th.forall([_x], Implies(And(0 <= _x, _x < V.len(g(st))), V.at(g(st), _x) == V.at(v, _x)), V.at(g(st), _x), V.at(v, _x))))
            if s.kind == "range":
                for n, w in counters(h): add("%s copies %s - begin elements" % (nm, n), lambda st, g=g, w=w, s=s: V.len(g(st)) == w(st) - s.b)
    for nm, g, T in modrows(h):
        for k, s in enumerate(seqs):
            if s.kind == "range":
                for n, w in counters(h): add("%s has %s - begin elements" % (nm, n), lambda st, g=g, w=w, T=T, s=s: T.len(g(st)) == w(st) - s.b)

# ---------------------------------------------------------------- helpers
@contract("sorted_unique_indices", "C18")
def _sui(cx):
    e = Eff(); s = Seq(cx, cx.args[0]).wf(e); v = seqvec(s); V = VI(); mem = sp.MEM()
    e.retrel = ((lambda: fresh("distinct", V.V)), lambda r: [
        ("indices are strictly ascending", ascending(r)),
        ("holds exactly the listed indices", th.forall([_x], mem(r, _x) == mem(v, _x), mem(r, _x), mem(v, _x))),
        ("empty exactly when the list is", (V.len(r) == 0) == (V.len(v) == 0))])
    e.invs.append(lambda add, h: (rangewalk(add, h, [s]), follows(add, h, [s]))); return e

@contract("compute_outin_mapping", "C18")
def _com(cx):
    e = Eff(); s = Seq(cx, cx.args[0]).wf(e); distinct(e, "the list", s)
    e.set(cx.lv(1), oi(s))
    e.invs.append(lambda add, h: (rangewalk(add, h, [s]), follows(add, h, [s]))); return e

@contract("vectorExpand", "C18")
def _vexp(cx):
    e = Eff(); T = rowt_of(cx.row(0)); s = rowwf(e, "source", cx.row(1)); p = rowwf(e, "pairs", cx.row(2)); A, P = rowt_of(s), rowt_of(p)
    e.req("result is distinct from the inputs", BoolVal(not same(cx.lv(0), cx.lv(1)) and not same(cx.lv(0), cx.lv(2))))
    e.set(cx.lv(0), sp.EXPAND(A.S, T.S)(s, p))
    def invs(add, h):
        ca_ = [c for c in h.cur if c.kind == "it" and not c.name.startswith("__end") and z3.eq(c.cont(h.head), s)]
        cp = [c for c in h.cur if c.kind == "it" and not c.name.startswith("__end") and z3.eq(c.cont(h.head), p)]
        for a in ca_:
            for b in cp:
                if not (a.mod or b.mod): continue
                add("source before %s is below the position at %s" % (a.name, b.name), lambda st, a=a, b=b: Or(b.get(st) == P.len(p), a.get(st) == 0, A.idx(s, a.get(st) - 1) < P.val(p, b.get(st))))
    e.invs.append(invs); return e

def exprow(t, a, rs, cs, S):
    """row r of the expanded matrix"""
    rv = seqvec(rs); mem = sp.MEM(); E = rowt(S).empty
    if t: X = sp.EXPT(a.S, S); return lambda r: If(mem(rv, r), X(a.data, oi(cs), mempos(rv, r)), E)
    X = sp.EXPAND(a.S, S); return lambda r: If(mem(rv, r), X(a.row(mempos(rv, r)), oi(cs)), E)
@contract("matrixExpand", "C18")
def _mexp(cx):
    e = Eff(); c = M(cx, cx.v(0)); t, a = operand(cx, 1); rs, cs = Seq(cx, cx.args[2]).wf(e), Seq(cx, cx.args[3]).wf(e)
    e.req("result is distinct from the source", BoolVal(c.obj is not a.obj)); wfrows(e, a, "A")
    e.req("T has one row vector per row", c.V.len(c.data) == c.nr)
    distinct(e, "the row list", rs); distinct(e, "the column list", cs)
    below_req(e, "row indices lie within T", rs, c.nr)
    e.req("A has a row for every index", seqlen(cs if t else rs) <= a.nr)
    row = exprow(t, a, rs, cs, c.S)
    e.rows(c.ldata, c.nr, row); setnvals(e, cx, c)
    rv = seqvec(rs); mem = sp.MEM(); V = c.V; E = c.T.empty
    if t: e.pool += [sp.EXPAND(a.S, c.S)(a.row(Int("zz")), oi(rs))]
    def invs(add, h):
        rd = lambda st: cx.e.read(st, c.ldata)
        add("row count", lambda st: V.len(rd(st)) == c.nr)
        add("element count", lambda st: cx.e.read(st, c.lnvals) == nv(c.S)(rd(st), c.nr))
        if not t:
            for n, g in counters(h):
                add("rows named by the first %s indices" % n, lambda st, g=g: th.forall([_r], Implies(And(0 <= _r, _r < c.nr), V.at(rd(st), _r) == If(And(mem(rv, _r), mempos(rv, _r) < g(st)), sp.EXPAND(a.S, c.S)(a.row(mempos(rv, _r)), oi(cs)), E)), V.at(rd(st), _r)))
        else:
            X = sp.EXPT(a.S, c.S); P = rowt(I); pc = oi(cs)
            its = [x for x in h.cur if x.kind == "it" and not x.name.startswith("__end") and is_row(x.cont(h.head))]
            outer = [x for x in its if z3.eq(x.cont(h.head), pc)]
            for b in outer:
                upto = lambda r, q: X(a.data, P.prefix(pc, q), mempos(rv, r))
                add("first columns by %s" % b.name, lambda st, b=b: th.forall([_r], Implies(And(0 <= _r, _r < c.nr), V.at(rd(st), _r) == If(mem(rv, _r), upto(_r, b.get(st)), E)), V.at(rd(st), _r)))
                for i in its:
                    if i is b or not i.mod: continue
                    T = rowt_of(i.cont(h.head))
                    add("first columns by %s, with those before %s" % (b.name, i.name), lambda st, b=b, i=i, T=T: th.forall([_r], Implies(And(0 <= _r, _r < c.nr), V.at(rd(st), _r) == If(mem(rv, _r), If(T.has(T.prefix(i.cont(st), i.get(st)), _r), upto(_r, b.get(st) + 1), upto(_r, b.get(st))), E)), V.at(rd(st), _r)))
    e.invs.append(invs); return e

def _acon(paired):
    def f(cx):
        e = Eff(); c = M(cx, cx.v(0)); val = cx.v(1)
        if paired: rs, cs = Pair(cx, e, 2), Pair(cx, e, 4)
        else: rs, cs = Seq(cx, cx.args[2]).wf(e), Seq(cx, cx.args[3]).wf(e)
        e.req("T has one row vector per row", c.V.len(c.data) == c.nr); e.req("T's stored-element count is right", c.nvals == c.nv())
        if paired and cs.kind == "vec": e.req("columns are strictly ascending", ascending(cs.v))
        below_req(e, "row indices lie within T", rs, c.nr)
        rv, cv_ = seqvec(rs), seqvec(cs); mem = sp.MEM(); C = sp.CROW(c.S)(cv_, val)
        e.rows(c.ldata, c.nr, lambda r: If(And(mem(rv, r), VI().len(cv_) > 0), C, c.row(r))); setnvals(e, cx, c)
        def invs(add, h):
            V = c.V; rd = lambda st: cx.e.read(st, c.ldata)
            rangewalk(add, h, [rs, cs]); follows(add, h, [cs], [val])
            add("row count", lambda st: V.len(rd(st)) == c.nr)
            add("element count", lambda st: cx.e.read(st, c.lnvals) == nv(c.S)(rd(st), c.nr))
            for n, g in counters(h) + [(n, w) for n, w, _ in vecwalkers(h)]:
                for lab, k in [("", lambda st, g=g: g(st))] + ([(" - begin", lambda st, g=g: g(st) - rs.b)] if rs.kind == "range" else []):
                    add("rows named by the first %s%s indices" % (n, lab), lambda st, k=k: And(k(st) <= VI().len(rv), th.forall([_r], Implies(And(0 <= _r, _r < c.nr), V.at(rd(st), _r) == If(And(sp.MEMPRE()(rv, k(st), _r), VI().len(cv_) > 0), C, c.row(_r))), V.at(rd(st), _r))))
        e.invs.append(invs); return e
    f.pairs = paired
    return f
contract("assignConstant", "C18", match=lambda q, d, a, this, eng, st: len(ca.params(d)) == 6)(_acon(True))
contract("assignConstant", "C18", match=lambda q, d, a, this, eng, st: len(ca.params(d)) == 4)(_acon(False))

# ---------------------------------------------------------------- the operation
def vresult(cx, s0, s, acc, S, old, t, T_):
    """content before masking: t over the addressed positions, old content elsewhere (combined with it where there is an accumulator)"""
    if not is_noacc(acc): return sp.EOR(functor_op(cx.e, acc), S, T_, functor_op(cx.e, acc).res)(old, t)
    return s.stencil(S, T_, S)(old, t)
def _avec(cx):
    e = Eff(); w = VV(cx, cx.args[0]); mk = vmask(cx, 1); acc = cx.v(2); u = VV(cx, cx.args[3]); o = cx.v(5)
    uvwf(e, [(w, "w"), (u, "u")] + ([(mk[1], "mask")] if mk[1] else []))
    s0 = Seq(cx, cx.args[4]).wf(e); s = full(cx, s0, u.size)
    if mk[1] is not None: e.shape("mask has w's size", mk[1].size == w.size); outsplit(e, o)
    if s0.kind != "all": e.shape("one index per element of u", seqlen(s) == u.size)
    distinct(e, "the list", s0); oob_throw(e, s, w.size)
    t = sp.EXPAND(u.S, u.S)(u.cont, oi(s)); z = vresult(cx, s0, s, acc, w.S, w.cont, t, u.S)
    e.pool += [t, z]; vset(e, w, vmasked(w, mk, z, o)); return e
def _amat(cx):
    e = Eff(); c = M(cx, cx.args[0]); mk = masksort(cx, cx.args[1]); acc = cx.v(2); t, a = A = operand(cx, 3); o = cx.v(6)
    uwf(e, [(c, "C"), (a, "A")] + ([(mk[1], "mask")] if mk[1] else []))
    r0, c0 = Seq(cx, cx.args[4]).wf(e), Seq(cx, cx.args[5]).wf(e); rs, cs = full(cx, r0, onr(A)), full(cx, c0, onc(A))
    if mk[1] is not None: e.shape("mask has C's shape", And(mk[1].nr == c.nr, mk[1].nc == c.nc)); outsplit(e, o)
    if r0.kind != "all": e.shape("one row index per row of A", seqlen(rs) == onr(A))
    if c0.kind != "all": e.shape("one column index per column of A", seqlen(cs) == onc(A))
    distinct(e, "the row list", r0); distinct(e, "the column list", c0)
    oob_throw(e, rs, c.nr); oob_throw(e, cs, c.nc)
    return amatrix(cx, e, c, mk, acc, o, rs, cs, exprow(t, a, rs, cs, a.S), a.S)
def amatrix(cx, e, c, mk, acc, o, rs, cs, trow, T_):
    if is_noacc(acc):
        st_, cr = cs.stencil(c.S, T_, c.S), sp.CONVROW(c.S, c.S); Z_ = c.S
        zrow = lambda r: If(rs.mem(r), st_(c.row(r), trow(r)), cr(c.row(r)))
    else:
        op = functor_op(cx.e, acc); Z_ = op.res; F = sp.EOR(op, c.S, T_, Z_); zrow = lambda r: F(c.row(r), trow(r))
    e.rows(c.ldata, c.nr, lambda r: masked(c, mk, Z_, zrow(r), r, o)); e.rel(c.lnvals, lambda: fresh("nvals", I), lambda new: [])
    return canon(e, cx, c)
def _acvec(cx):
    e = Eff(); w = VV(cx, cx.args[0]); mk = vmask(cx, 1); acc = cx.v(2); val = cx.v(3); o = cx.v(5)
    uvwf(e, [(w, "w")] + ([(mk[1], "mask")] if mk[1] else []))
    s0 = Seq(cx, cx.args[4]).wf(e); s = full(cx, s0, w.size)
    if mk[1] is not None: e.shape("mask has w's size", mk[1].size == w.size); outsplit(e, o)
    if s0.kind != "all": e.toolong = [("no more indices than elements of w", seqlen(s) <= w.size)]
    oob_throw(e, s0, w.size); S = val.sort()
    t = sp.CROW(S)(seqvec(s), val); z = vresult(cx, s0, s, acc, w.S, w.cont, t, S)
    def invs(add, h): rangewalk(add, h, [s]); follows(add, h, [s], [val]); seqfollow(add, h, val)
    e.invs.append(invs); e.pool += [t, z]; vset(e, w, vmasked(w, mk, z, o)); return e
def seqfollow(add, h, val):
    """a row built along a walked local index list"""
    V = VI()
    for n, w, c in vecwalkers(h):
        for nm, g, T in modrows(h):
            add("%s follows %s" % (nm, n), lambda st, g=g, T=T, w=w, c=c: And(T.len(g(st)) == w(st), th.forall([_x], Implies(And(0 <= _x, _x < w(st)), T.idx(g(st), _x) == V.at(c(st), _x)), T.idx(g(st), _x), V.at(c(st), _x))))
def _acmat(cx):
    e = Eff(); c = M(cx, cx.args[0]); mk = masksort(cx, cx.args[1]); acc = cx.v(2); val = cx.v(3); o = cx.v(6)
    uwf(e, [(c, "C")] + ([(mk[1], "mask")] if mk[1] else []))
    r0, c0 = Seq(cx, cx.args[4]).wf(e), Seq(cx, cx.args[5]).wf(e); rs, cs = full(cx, r0, c.nr), full(cx, c0, c.nc)
    if mk[1] is not None: e.shape("mask has C's shape", And(mk[1].nr == c.nr, mk[1].nc == c.nc)); outsplit(e, o)
    e.toolong = [(l, seqlen(s) <= n) for l, s, n in (("no more row indices than rows of C", r0, c.nr), ("no more column indices than columns of C", c0, c.nc)) if s.kind != "all"]
    oob_throw(e, r0, c.nr); oob_throw(e, c0, c.nc); S = val.sort(); mem = sp.MEM()
    rv, cv_ = seqvec(rs), seqvec(cs); C = sp.CROW(S)(cv_, val)
    return amatrix(cx, e, c, mk, acc, o, rs, cs, lambda r: If(And(mem(rv, r), VI().len(cv_) > 0), C, rowt(S).empty), S)
def line(cx, e, c, old, n, mk, acc, u, s0, o):
    """the new content of a row or column of C that has n positions"""
    s = full(cx, s0, u.size)
    if mk[1] is not None: e.shape("mask has the size of the row or column", mk[1].size == n); outsplit(e, o)
    if s0.kind != "all": e.shape("one index per element of u", seqlen(s) == u.size)
    distinct(e, "the list", s0); oob_throw(e, s, n)
    t = sp.EXPAND(u.S, u.S)(u.cont, oi(s)); z = vresult(cx, s0, s, acc, c.S, old, t, u.S)
    if mk[0] == "none": return sp.CONVROW(rowt_of(z).S, c.S)(z)
    mr = co.vmaskrow(mk); return sp.MW(c.S, rowt_of(z).S, rowt_of(mr).S)(old, z, mr, o)
def copied(cx, e, old):
    """invariants of the loops that move a row or column in and out of a vector"""
    e.own_invs = True; V = VI(); e.hyps.append(sp.CONTPOS(rowt_of(old).S))
    def invs(add, h):
        import cands
        for ob in cands.vecobjs(h.eng, h.entry):
            g = cands.contof(h.eng, ob)
            for it in [c for c in h.mits if is_row(c.cont(h.head))]:
                T = rowt_of(it.cont(h.head))
                try: S = g(h.head).sort()
                except Exception: continue
                if S != it.cont(h.head).sort(): continue
                add("vector holds the elements before %s" % it.name, lambda st, g=g, it=it, T=T: g(st) == T.prefix(it.cont(st), it.get(st)))
        vecs = []
        for nm, lv, m in h.rows:
            v = h.eng.rv(h.head, lv)
            if is_vec(v) and not m and not v.sort().name().startswith("Vec_Row") : vecs.append((nm, (lambda st, lv=lv: h.eng.rv(st, lv)), vect_of(v)))
        for nm, g, T in modrows(h):
            for n, w in counters(h): add("%s has %s elements" % (nm, n), lambda st, g=g, w=w, T=T: T.len(g(st)) == w(st))
            for vn, vg, W in vecs:
                if W.T == I: add("%s takes indices from %s" % (nm, vn), lambda st, g=g, T=T, vg=vg, W=W: th.forall([_x], Implies(And(0 <= _x, _x < T.len(g(st))), T.idx(g(st), _x) == W.at(vg(st), _x)), T.idx(g(st), _x), W.at(vg(st), _x)))
                if W.T == I:
                    for ob in cands.vecobjs(h.eng, h.entry):
                        cg = cands.contof(h.eng, ob)
                        try: S = cg(h.head).sort()
                        except Exception: continue
                        if S == g(h.head).sort(): add("%s complete by %s is the content of %s" % (nm, vn, ob.name), lambda st, g=g, T=T, vg=vg, W=W, cg=cg: Implies(T.len(g(st)) == W.len(vg(st)), g(st) == cg(st)))
                if W.T == T.S: add("%s takes values from %s" % (nm, vn), lambda st, g=g, T=T, vg=vg, W=W: th.forall([_x], Implies(And(0 <= _x, _x < T.len(g(st))), T.val(g(st), _x) == W.at(vg(st), _x)), T.val(g(st), _x), W.at(vg(st), _x)))
    e.invs.append(invs)
def _acol(cx):
    e = Eff(); c = M(cx, cx.args[0]); mk = vmask(cx, 1); acc = cx.v(2); u = VV(cx, cx.args[3]); j = cx.v(5); o = cx.v(6)
    uwf(e, [(c, "C")]); uvwf(e, [(u, "u")] + ([(mk[1], "mask")] if mk[1] else []))
    e.index("column index is in range", j < c.nc); e.req("C has positive dimensions", And(c.nr > 0, c.nc > 0))
    old = sp.COL(c.S)(c.data, j, c.nr); new = line(cx, e, c, old, c.nr, mk, acc, u, Seq(cx, cx.args[4]).wf(e), o)
    se, re_ = sp.SETEL(c.S), sp.REMEL(c.S); e.pool.append(new); copied(cx, e, old)
    e.rows(c.ldata, c.nr, lambda r: If(c.T.has(new, r), se(c.row(r), j, c.T.vat(new, r)), re_(c.row(r), j)))
    e.rel(c.lnvals, lambda: fresh("nvals", I), lambda new: []); return canon(e, cx, c)
def _arow(cx):
    e = Eff(); c = M(cx, cx.args[0]); mk = vmask(cx, 1); acc = cx.v(2); u = VV(cx, cx.args[3]); i = cx.v(4); o = cx.v(6)
    uwf(e, [(c, "C")]); uvwf(e, [(u, "u")] + ([(mk[1], "mask")] if mk[1] else []))
    e.index("row index is in range", i < c.nr); e.req("C has positive dimensions", And(c.nr > 0, c.nc > 0))
    old = c.row(i); new = line(cx, e, c, old, c.nc, mk, acc, u, Seq(cx, cx.args[5]).wf(e), o); e.pool.append(new); copied(cx, e, old)
    e.set(c.ldata, c.V.upd(c.data, i, new)); e.rel(c.lnvals, lambda: fresh("nvals", I), lambda new: []); return canon(e, cx, c)
def isint(cx, i):
    try: v = cx.v(i)
    except Exception: return False
    return isinstance(v, z3.ExprRef) and v.sort() == I
def _assign(cx):
    if isvec(cx, 0): return _avec(cx)
    if not isvec(cx, 3): return _amat(cx)
    return _acol(cx) if isint(cx, 5) else _arow(cx)
contract("assign", "C18")(_assign)
contract("assign_constant", "C18")(lambda cx: _acvec(cx) if isvec(cx, 0) else _acmat(cx))
