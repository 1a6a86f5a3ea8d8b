"""Contracts on extract and its helpers."""
import z3, itertools
from z3 import And, Or, Not, Implies, If, IntVal, BoolVal, Int, Exists
import theory as th, specs as sp, cast as ca, symex as sx
from theory import rowt, vect, sort, I, fresh, is_row, is_vec, rowt_of, vect_of, nv
from symex import Obj, Iter, LV, Ref, Unsupported, ElemLV
import contracts as co
from contracts import Eff, contract, M, VV, Seq, same, wf, wfrows, wfrows_f, vshape, uwf, uvwf, operand, onr, onc, masksort, vmask, matrix_op, vector_op, isvec, rowwf, setnvals, canon, base, is_noacc
_x = Int("x?"); _r = Int("r?")
VI = lambda: vect(I)

# ---------------------------------------------------------------- index sequences as index vectors
def seqvec(s):
    """the sequence's indices as a vector"""
    return s.v if s.kind == "vec" else sp.IOTA()(s.b, s.n)
def seqlen(s): return VI().len(s.v) if s.kind == "vec" else s.n - s.b
def full(cx, s, n):
    """the sequence after setupIndices(s, n)"""
    if s.kind == "all":
        t = Seq.__new__(Seq); t.kind = "range"; t.b = IntVal(0); t.n = n; t.v = None; return t
    return s
class Pair(Seq):
    """an iterator pair over a whole index sequence"""
    def __init__(s, cx, e, i):
        a, b = cx.v(i), cx.v(i + 1)
        if isinstance(a, Iter) and isinstance(b, Iter):
            v = cx.e.rv(cx.st, a.cont)
            if not is_vec(v) or v.sort().name() != "Vec_Int": raise Unsupported("iterators over %s" % (v,))
            e.req("iterators delimit a whole index list", And(BoolVal(sx.same_lv(a.cont, b.cont)), a.pos == 0, b.pos == VI().len(v)))
            s.kind = "vec"; s.v = v
        elif isinstance(a, Obj) and base(a.tname) == "IndexGenerator":
            s.kind = "range"; s.b = cx.e.rv(cx.st, a.fields["m_value"]); s.n = cx.e.rv(cx.st, b.fields["m_value"]); s.v = None
            e.req("index range is ordered", s.b <= s.n)
        else: raise Unsupported("index iterators %r" % (a,))
def allbelow(v, n): return th.forall([_x], Implies(And(0 <= _x, _x < VI().len(v)), VI().at(v, _x) < n), VI().at(v, _x))
def below_req(e, label, s, n):
    e.req(label, allbelow(s.v, n) if s.kind == "vec" else Or(s.b >= s.n, s.n <= n))
def oob_throw(e, s, n):
    if s.kind == "vec": e.throw("IndexOutOfBoundsException", Exists([_x], And(0 <= _x, _x < VI().len(s.v), VI().at(s.v, _x) >= n)))
    elif s.kind == "range": e.throw("IndexOutOfBoundsException", And(s.b < s.n, s.n > n))

def counters(h):
    """modified integer locals: functions of the state"""
    return [(c.name, c.get) for c in h.cur if c.kind == "int" and c.mod]
def rangewalk(add, h, seqs):
    """a generator that walks a range moves in step with a counter"""
    for (n, g), (n2, g2) in itertools.permutations(counters(h), 2):
        for k, s in enumerate(seqs):
            if s.kind == "range": add("%s is index %s of range %d" % (n, n2, k), lambda st, g=g, g2=g2, s=s: And(g(st) == s.b + g2(st), VI().at(seqvec(s), g2(st)) == g(st)))
    for n, g in counters(h):
        for k, s in enumerate(seqs):
            if s.kind == "range": add("%s within range %d" % (n, k), lambda st, g=g, s=s: And(s.b <= g(st), g(st) <= s.n))

# ---------------------------------------------------------------- helpers
@contract("vectorExtract", "C17", match=lambda q, d, a, this, eng, st: len(ca.params(d)) == 4)
def _vx(cx):
    e = Eff(); T = rowt_of(cx.row(0)); r = rowwf(e, "source", cx.row(1)); s = Pair(cx, e, 2)
    e.req("result is distinct from the source", BoolVal(not same(cx.lv(0), cx.lv(1))))
    v = seqvec(s); X = sp.XT(rowt_of(r).S, T.S)
    e.set(cx.lv(0), X(r, v, seqlen(s)))
    def invs(add, h):
        rangewalk(add, h, [s])
        for n, g in counters(h):
            add("prefix by %s" % n, lambda st, g=g: cx.e.rv(st, cx.lv(0)) == X(r, v, g(st)))
            if s.kind == "vec": add("%s within the list" % n, lambda st, g=g: And(0 <= g(st), g(st) <= seqlen(s)))
    e.invs.append(invs); return e
_vx.pairs = True
@contract("vectorExtract", "C17", match=lambda q, d, a, this, eng, st: len(ca.params(d)) == 3)
def _vxs(cx):
    e = Eff(); T = rowt_of(cx.row(0)); r = rowwf(e, "source", cx.row(1)); s = Seq(cx, cx.args[2]).wf(e)
    e.req("result is distinct from the source", BoolVal(not same(cx.lv(0), cx.lv(1))))
    e.set(cx.lv(0), sp.XT(rowt_of(r).S, T.S)(r, seqvec(s), seqlen(s))); return e

@contract("extractColumn", "C17")
def _xc(cx):
    e = Eff(); T = rowt_of(cx.row(0)); t, a = operand(cx, 1); s = Pair(cx, e, 2); col = cx.v(4); v = seqvec(s)
    wfrows(e, a, "A")
    if t:
        e.req("row of the transposed matrix is in range", col < a.nr)
        X = sp.XT(a.S, T.S); f = lambda n: X(a.row(col), v, n)
    else:
        below_req(e, "row indices are in range", s, a.nr)
        X = sp.XC(a.S, T.S); f = lambda n: X(a.data, v, col, n)
    e.set(cx.lv(0), f(seqlen(s)))
    def invs(add, h):
        rangewalk(add, h, [s])
        for n, g in counters(h):
            add("prefix by %s" % n, lambda st, g=g: cx.e.rv(st, cx.lv(0)) == f(g(st)))
            if s.kind == "vec": add("%s within the list" % n, lambda st, g=g: And(0 <= g(st), g(st) <= seqlen(s)))
        # scanning the stored elements of one row: either still at the prefix, or the wanted element has been appended
        for it in [c for c in h.mits if is_row(c.cont(h.head))]:
            R = rowt_of(it.cont(h.head))
            for n, g in [(l, (lambda st, w=w: w)) for l, w in h.counters]:
                def want(st, g=g): return VI().at(v, g(st))
                add("nothing wanted before %s (%s)" % (it.name, n), lambda st, it=it, want=want, R=R: th.forall([_x], Implies(And(0 <= _x, _x < it.get(st)), R.idx(it.cont(st), _x) != (want(st) if t else col)), R.idx(it.cont(st), _x)))
                if t:
                    add("scan %s by %s" % (it.name, n), lambda st, it=it, g=g, want=want, R=R: cx.e.rv(st, cx.lv(0)) == If(R.has(R.prefix(it.cont(st), it.get(st)), want(st)), f(g(st) + 1), f(g(st))))
                add("still at prefix %s" % n, lambda st, g=g: cx.e.rv(st, cx.lv(0)) == f(g(st)))
    e.invs.append(invs); return e
_xc.pairs = True

def xrow(t, a, rs, cs):
    """row r of the extracted matrix"""
    rv, cv_ = seqvec(rs), seqvec(cs)
    if t:
        X = sp.XC(a.S, a.S); return lambda r: X(a.data, cv_, VI().at(rv, r), seqlen(cs))
    X = sp.XT(a.S, a.S); return lambda r: X(a.row(VI().at(rv, r)), cv_, seqlen(cs))
def _mx(paired):
    def f(cx):
        e = Eff(); c = M(cx, cx.v(0)); t, a = operand(cx, 1)
        if paired: rs, cs = Pair(cx, e, 2), Pair(cx, e, 4)
        else: rs, cs = Seq(cx, cx.args[2]).wf(e), Seq(cx, cx.args[3]).wf(e)
        e.req("result is distinct from the source", BoolVal(c.obj is not a.obj))
        wfrows(e, a, "A"); e.req("C has one row vector per row", c.V.len(c.data) == c.nr)
        e.req("C has a row for every extracted row", seqlen(rs) <= c.nr)
        if t: below_req(e, "column indices are in range", cs, a.nr)
        else: below_req(e, "row indices are in range", rs, a.nr)
        if c.S != a.S: raise Unsupported("matrixExtract with conversion")
        row = xrow(t, a, rs, cs)
        e.rows(c.ldata, c.nr, lambda r: If(r < seqlen(rs), row(r), c.T.empty)); setnvals(e, cx, c)
        def invs(add, h):
            rangewalk(add, h, [rs, cs]); rd = lambda st: cx.e.read(st, c.ldata); V = c.V
            add("row count", lambda st: V.len(rd(st)) == c.nr)
            add("element count", lambda st: cx.e.read(st, c.lnvals) == nv(c.S)(rd(st), c.nr))
            X = sp.XC(a.S, a.S); rv, cv_ = seqvec(rs), seqvec(cs)
            for k, s in enumerate((rs, cs)):
                for n, g in counters(h): add("%s within list %d" % (n, k), lambda st, g=g, s=s: And(0 <= g(st), g(st) <= seqlen(s)))
            for n, g in counters(h):
                if not t: add("rows below %s extracted" % n, lambda st, g=g: th.forall([_r], Implies(And(0 <= _r, _r < c.nr), V.at(rd(st), _r) == If(_r < g(st), row(_r), c.T.empty)), V.at(rd(st), _r)))
                else:
                    add("first %s columns" % n, lambda st, g=g: th.forall([_r], Implies(And(0 <= _r, _r < c.nr), V.at(rd(st), _r) == If(_r < seqlen(rs), X(a.data, cv_, VI().at(rv, _r), g(st)), c.T.empty)), V.at(rd(st), _r)))
                    for m, K in h.counters:
                        add("first %s(+1 below %s) columns" % (m, n), lambda st, g=g, K=K: th.forall([_r], Implies(And(0 <= _r, _r < c.nr), V.at(rd(st), _r) == If(_r < g(st), X(a.data, cv_, VI().at(rv, _r), K + 1), If(_r < seqlen(rs), X(a.data, cv_, VI().at(rv, _r), K), c.T.empty))), V.at(rd(st), _r)))
        e.invs.append(invs); return e
    f.pairs = paired
    return f
contract("matrixExtract", "C17", match=lambda q, d, a, this, eng, st: len(ca.params(d)) == 6)(_mx(True))
contract("matrixExtract", "C17", match=lambda q, d, a, this, eng, st: len(ca.params(d)) == 4)(_mx(False))

# ---------------------------------------------------------------- the operation
def minz(a, b): return If(b < a, b, a)
def _extract(cx):
    e = Eff(); acc = cx.v(2); n = len(ca.params(cx.decl)); o = cx.v(n - 1)
    if isvec(cx, 0):
        w = VV(cx, cx.args[0]); mk = vmask(cx, 1)
        if n == 6:
            u = VV(cx, cx.args[3]); uvwf(e, [(w, "w"), (u, "u")] + ([(mk[1], "mask")] if mk[1] else [])); dim = u.size
        else:
            t, a = A = operand(cx, 3); uvwf(e, [(w, "w")] + ([(mk[1], "mask")] if mk[1] else [])); wf(e, a, "A"); dim = onr(A); col = cx.v(5)
            e.index("column index is in range", col < onc(A))
        s0 = Seq(cx, cx.args[4]).wf(e); s = full(cx, s0, minz(w.size, dim)); v = seqvec(s); k = seqlen(s)
        if s0.kind != "all": e.shape("one index per element of w", k == w.size)
        oob_throw(e, s0, dim)
        if n == 6: T_ = u.S; tt = sp.XT(T_, T_)(u.cont, v, k)
        else: T_ = a.S; tt = sp.XT(T_, T_)(a.row(col), v, k) if t else sp.XC(T_, T_)(a.data, v, col, k)
        return vector_op(cx, e, w, mk, acc, o, tt, T_)
    c = M(cx, cx.args[0]); mk = masksort(cx, cx.args[1]); t, a = A = operand(cx, 3)
    uwf(e, [(c, "C"), (a, "A")] + ([(mk[1], "mask")] if mk[1] else []))
    r0, c0 = Seq(cx, cx.args[4]).wf(e), Seq(cx, cx.args[5]).wf(e); rs, cs = full(cx, r0, minz(onr(A), c.nr)), full(cx, c0, minz(onc(A), c.nc))
    if r0.kind != "all": e.shape("one row index per row of C", seqlen(rs) == c.nr)
    if c0.kind != "all": e.shape("one column index per column of C", seqlen(cs) == c.nc)
    oob_throw(e, r0, onr(A)); oob_throw(e, c0, onc(A))
    row = xrow(t, a, rs, cs)
    return matrix_op(cx, e, c, mk, acc, o, lambda r: If(r < seqlen(rs), row(r), rowt(a.S).empty), a.S)
contract("extract", "C17")(_extract)
