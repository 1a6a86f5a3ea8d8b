"""Contracts on the real functions, and the candidate loop invariants derived
from them.  A contract maps a symbolic entry state to an effect (what the
function requires, when it throws, what every written location and the result
hold afterwards).  The same effect is assumed at calls and checked against the
body, so a caller sees exactly what was proved."""
import z3, itertools
from z3 import And, Or, Not, Implies, If, IntVal, BoolVal, ForAll, Int, Const
import theory as th, specs as sp, cast as ca
from theory import rowt, vect, sort, I, B, fresh, is_row, is_vec, rowt_of, vect_of, nv
import symex as sx
from symex import Loc, Obj, Ref, Tup, Iter, Functor, Ptr, LV, ElemLV, CompLV, Unsupported, UNINIT, Obl, CandError, kind, sort_of, strip_t

class Eff:
    def __init__(s):
        s.requires = []; s.throws = []; s.writes = []; s.ret = None; s.retrel = None; s.pool = []; s.hyps = []; s.hints = []; s.invs = []; s.partial = False; s.shapes = []; s.indexes = []
    def req(s, label, f): s.requires.append((label, f)); return s
    def shape(s, label, f): s.shapes.append((label, f)); return s.req(label, f)
    def index(s, label, f): s.indexes.append((label, f)); return s.req(label, f)
    def throw(s, exc, cond): s.throws.append((exc, cond)); return s
    def set(s, lv, term): s.writes.append(("eq", lv, term)); return s
    def rel(s, lv, mk, facts):
        """lv gets a new value; mk() makes a symbolic one, facts(new)->[(label, Bool)]"""
        s.writes.append(("rel", lv, (mk, facts))); return s
    def rows(s, lv, n, f, label="rows"):
        """lv (vector of rows) gets n rows, row r being f(r)"""
        s.writes.append(("rows", lv, (n, f))); return s

class Ctx:
    def __init__(s, eng, st, decl, args, this):
        s.e = eng; s.st = st; s.decl = decl; s.args = args; s.this = this
    def v(s, i): return s.e.rv(s.st, s.args[i])
    def lv(s, i):
        a = s.args[i]
        if isinstance(a, Ref): a = a.lv
        return a
    def row(s, i):
        r = s.v(i)
        if not is_row(r): raise Unsupported("argument %d is not a row" % i)
        return r
    def op(s, i): return functor_op(s.e, s.v(i))
    def sr(s, i): return semiring(s.e, s.st, s.v(i))

_sigs = {}
def method_sig(eng, tname, mname):
    """-> (param sorts, result sort) of an opaque functor's method, read from opaque.hpp"""
    if not _sigs:
        import re, os
        txt = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "opaque.hpp")).read()
        for m in re.finditer(r"^struct (\w+)\s*\{(.*?)\};", txt, re.M):
            for x in re.finditer(r"(S[ABCMTV]|bool) (operator\(\)|\w+)\(([\w, ]*)\) const;", m.group(2)):
                _sigs[(m.group(1), x.group(2))] = ([sort_of(kind(a.strip())) for a in x.group(3).split(",") if a.strip()], sort_of(kind(x.group(1))))
    k = (tname.split("::")[-1], mname)
    if k not in _sigs: raise Unsupported("method %s of %s" % (mname, tname))
    return _sigs[k]
def functor_fn(eng, tname, mname):
    ps, rs = method_sig(eng, tname, mname)
    nm = "call" if mname == "operator()" else mname
    f = th.fn("op_%s_%s" % (tname.split("::")[-1], nm), *(ps + [rs]))
    return sp.Op(tname.split("::")[-1], lambda *a: f(*[sp.cv(x, p) for x, p in zip(a, ps)]), rs)
def is_noacc(f): return isinstance(f, Functor) and f.tname.split("::")[-1].startswith("NoAccumulate")
def functor_op(eng, f):
    if isinstance(f, Functor) and f.tname.startswith("gv::"): return functor_fn(eng, f.tname, "operator()")
    raise Unsupported("operator %r" % (f,))
class Semi:
    def __init__(s, name, add, mult, res): s.name = name; s.add = add; s.mult = mult; s.res = res
def semiring(eng, st, f):
    if isinstance(f, Functor) and f.tname.startswith("gv::"):
        a = functor_fn(eng, f.tname, "add"); m = functor_fn(eng, f.tname, "mult")
        return Semi(f.tname.split("::")[-1], a, m, m.res)
    if isinstance(f, Obj) and "ReversedMultSemiring" in f.tname:
        inner = [eng.rv(st, x) for x in f.fields.values()]
        b = semiring(eng, st, inner[0])
        return Semi("rev" + b.name, b.add, lambda x, y: b.mult(y, x), b.res)
    raise Unsupported("semiring %r" % (f,))

def rowwf(e, label, r): e.req("%s has strictly increasing indices" % label, rowt_of(r).sorted(r)); return r

# =========================================================================== row helpers
FRONT = {}         # (class, method) or ('', function) of the front end -> the same
CONTRACTS = {}     # unqualified backend name -> (spec, props, match)
def contract(name, *props, match=None):
    def d(f): CONTRACTS.setdefault(name, []).append((f, props, match)); return f
    return d

def iterargs(cx, a=0, b=1):
    it, en = cx.v(a), cx.v(b)
    if not isinstance(it, Iter) or not isinstance(en, Iter): raise Unsupported("iterator arguments")
    r = cx.e.rv(cx.st, it.cont)
    if not is_row(r): raise Unsupported("iterator over non-row")
    return it, en, r
def advance(cx):
    e = Eff(); it, en, r = iterargs(cx); tgt = cx.v(2); T = rowt_of(r)
    e.req("iterator range is valid", And(0 <= it.pos, it.pos <= en.pos, en.pos <= T.len(r)))
    x = Int("x?")
    new = fresh("adv", I)
    def facts(n):
        p = n.pos
        return [("position does not go back", it.pos <= p), ("position stays at or before the end", p <= en.pos),
                ("every skipped index is below the target", th.forall([x], Implies(And(it.pos <= x, x < p), T.idx(r, x) < tgt), T.idx(r, x))),
                ("last skipped index is below the target", Or(p == it.pos, T.idx(r, p - 1) < tgt)),
                ("stops at the first index not below the target", Or(p == en.pos, T.idx(r, p) >= tgt))]
    e.rel(cx.lv(0), lambda: Iter(it.cont, new), facts)
    e.retfn = lambda st: And(cx.e.rv(st, cx.lv(0)).pos != en.pos, T.idx(r, cx.e.rv(st, cx.lv(0)).pos) == tgt)
    return e
contract("increment_while_below", "C06", "C07")(advance)
contract("advance_and_check_tuple_iterator", "C09")(advance)

@contract("increment_until_true", "C06", "C07")
def _iut(cx):
    e = Eff(); it, en, r = iterargs(cx); T = rowt_of(r)
    e.req("iterator range is valid", And(0 <= it.pos, it.pos <= en.pos, en.pos <= T.len(r)))
    x = Int("x?"); new = fresh("adv", I); tb = th.tobool(T.S)
    def facts(n):
        p = n.pos
        return [("position does not go back", it.pos <= p), ("position stays at or before the end", p <= en.pos),
                ("every skipped value is false", th.forall([x], Implies(And(it.pos <= x, x < p), Not(tb(T.val(r, x)))), T.val(r, x))),
                ("stops at a true value", Or(p == en.pos, tb(T.val(r, p))))]
    e.rel(cx.lv(0), lambda: Iter(it.cont, new), facts)
    return e

@contract("ewise_or", "C11")
def _ewise_or(cx):
    e = Eff(); a = rowwf(e, "first operand", cx.row(1)); b = rowwf(e, "second operand", cx.row(2)); op = cx.op(3)
    ans = cx.lv(0); T = rowt_of(cx.row(0))
    al = Or(*[BoolVal(same(ans, cx.lv(i))) for i in (1, 2)])
    e.throw("PanicException", z3.simplify(al))
    e.set(ans, sp.EOR(op, rowt_of(a).S, rowt_of(b).S, T.S)(a, b)); return e

@contract("ewise_and", "C12")
def _ewise_and(cx):
    e = Eff(); a = rowwf(e, "first operand", cx.row(1)); b = rowwf(e, "second operand", cx.row(2)); op = cx.op(3)
    T = rowt_of(cx.row(0))
    e.req("result is distinct from the operands", BoolVal(not same(cx.lv(0), cx.lv(1)) and not same(cx.lv(0), cx.lv(2))))
    e.set(cx.lv(0), sp.EAND(op, rowt_of(a).S, rowt_of(b).S, T.S)(a, b)); return e

def same(a, b): return isinstance(a, LV) and isinstance(b, LV) and sx.same_lv(a, b)

@contract("apply_with_mask", "C06", "C07")
def _awm(cx):
    e = Eff(); c = rowwf(e, "old content", cx.row(1)); z = rowwf(e, "new content", cx.row(2)); m = rowwf(e, "mask", cx.row(3)); o = cx.v(4)
    e.req("result is distinct from the inputs", BoolVal(not any(same(cx.lv(0), cx.lv(i)) for i in (1, 2, 3))))
    e.set(cx.lv(0), sp.MW(rowt_of(c).S, rowt_of(z).S, rowt_of(m).S)(c, z, m, o))
    e.split = [o == sp.MERGE, o == sp.REPLACE]
    e.req("output control is MERGE or REPLACE", Or(o == sp.MERGE, o == sp.REPLACE))
    return e

@contract("dot", "C08", "C10")
def _dot(cx):
    e = Eff(); a = rowwf(e, "first vector", cx.row(1)); b = rowwf(e, "second vector", cx.row(2)); sr = cx.sr(3)
    D3 = sortof_lv(cx, 0)
    H, V = sp.DOT(sr, rowt_of(a).S, rowt_of(b).S, D3)
    old = valueof(cx, 0, D3)
    e.set(cx.lv(0), If(H(a, b), V(a, b), old)); e.ret = H(a, b); return e

contract("dot_rev", "C10")(_dot)

def sortof_lv(cx, i):
    v = cx.v(i)
    if isinstance(v, z3.ExprRef): return v.sort()
    p = ca.params(cx.decl)[i]
    return sort_of(kind(p.dtype))
def valueof(cx, i, S):
    v = cx.v(i)
    if isinstance(v, z3.ExprRef): return v
    return fresh("uninit", S)

@contract("reduction", "C14")
def _reduction(cx):
    e = Eff(); a = cx.row(1); op = cx.op(2); D3 = sortof_lv(cx, 0); T = rowt_of(a)
    e.set(cx.lv(0), If(T.len(a) > 0, sp.cv(sp.FOLD(op, T.S)(a), D3), valueof(cx, 0, D3))); e.ret = T.len(a) > 0; return e

@contract("axpy", "C08", "C09")
def _axpy(cx):
    e = Eff(); c = rowwf(e, "accumulated row", cx.row(0)); sr = cx.sr(1); a = cx.v(2); b = rowwf(e, "scaled row", cx.row(3))
    e.req("accumulated row is distinct from the scaled row", BoolVal(not same(cx.lv(0), cx.lv(3))))
    e.set(cx.lv(0), sp.AXPY(sr, rowt_of(c).S, a.sort(), rowt_of(b).S)(c, a, b)); return e

@contract("xpey", "C08", "C09")
def _xpey(cx):
    e = Eff(); c = rowwf(e, "accumulated row", cx.row(0)); b = rowwf(e, "added row", cx.row(1)); op = cx.op(2)
    e.req("accumulated row is distinct from the added row", BoolVal(not same(cx.lv(0), cx.lv(1))))
    e.set(cx.lv(0), sp.EOR(op, rowt_of(c).S, rowt_of(b).S, rowt_of(c).S)(c, b)); return e

# =========================================================================== matrices
def deref(cx, f, st=None):
    if isinstance(f, Ref): f = f.lv
    return f if isinstance(f, Obj) else cx.e.rv(st or cx.st, f)
class M:
    """the fields of a backend matrix object in the entry state"""
    def __init__(s, cx, obj):
        if isinstance(obj, LV) and not isinstance(obj, Obj): obj = cx.e.rv(cx.st, obj)
        while isinstance(obj, Obj) and "m_mat" in obj.fields and base(obj.tname) == "Matrix": obj = deref(cx, obj.fields["m_mat"])
        if not isinstance(obj, Obj): raise Unsupported("matrix argument %r" % (obj,))
        for f in ("m_num_rows", "m_num_cols", "m_nvals", "m_data"):
            if f not in obj.fields: raise Unsupported("matrix field %s" % f)
        s.obj = obj; rd = lambda f: cx.e.read(cx.st, obj.fields[f])
        s.nr, s.nc, s.nvals, s.data = rd("m_num_rows"), rd("m_num_cols"), rd("m_nvals"), rd("m_data")
        s.V = vect_of(s.data); s.T = rowt(sort(s.V.T.name()[4:])); s.S = s.T.S
        s.ldata = obj.fields["m_data"]; s.lnvals = obj.fields["m_nvals"]; s.lnr = obj.fields["m_num_rows"]; s.lnc = obj.fields["m_num_cols"]
    def row(s, r): return s.V.at(s.data, r)
    def nv(s, d=None, n=None): return nv(s.S)(s.data if d is None else d, s.nr if n is None else n)
_rr = Int("r?")
def wfrows_f(m, data=None):
    d = m.data if data is None else data
    return [m.V.len(d) == m.nr, m.nr >= 0, m.nc >= 0,
            th.forall([_rr], Implies(And(0 <= _rr, _rr < m.nr), And(m.T.sorted(m.V.at(d, _rr)), m.T.inrange(m.V.at(d, _rr), m.nc))), m.V.at(d, _rr))]
def wfrows(e, m, label):
    f = wfrows_f(m)
    e.req("%s has one row vector per row" % label, f[0]); e.req("%s: every row is sorted and in range" % label, f[3]); return m
def wf(e, m, label):
    wfrows(e, m, label); e.req("%s: stored-element count equals the number of stored elements" % label, m.nvals == m.nv()); return m
def labelled(label, f): f.label = label; return f
def canonical(label, f): f.label = label; f.kind = "canon"; return f
def setnvals(e, cx, m, n=None):
    e.rel(m.lnvals, lambda: fresh("nvals", I), lambda new: [])
    e.post = getattr(e, "post", []) + [canonical("stored-element count equals the number of stored elements", lambda st: cx.e.read(st, m.lnvals) == nv(m.S)(cx.e.read(st, m.ldata), m.nr if n is None else n))]

def is_view(cx, i, name):
    v = cx.v(i)
    return isinstance(v, Obj) and v.tname.split("<")[0].split("::")[-1] == name
def inner(cx, v):
    f = v.fields.get("m_mat", v.fields.get("m_vec"))
    if f is None: raise Unsupported("view %s" % v.tname)
    if isinstance(f, Ref): f = f.lv
    if isinstance(f, Loc): f = cx.e.rv(cx.st, f)
    return f
def base(t): return strip_t(t).split("<")[0].split("::")[-1]
def masksort(cx, v):
    """(kind, matrix or None)"""
    if isinstance(v, LV) and not isinstance(v, Obj): v = cx.e.rv(cx.st, v)
    if isinstance(v, Functor) or (isinstance(v, Obj) and base(v.tname) == "NoMask"): return "none", None
    b = base(v.tname)
    if b == "MatrixComplementView": return "cmpl", M(cx, inner(cx, v))
    if b == "MatrixStructureView": return "struct", M(cx, inner(cx, v))
    if b == "MatrixStructuralComplementView": return "scmpl", M(cx, inner(cx, v))
    return "value", M(cx, v)
def maskrow(mk, r):
    k, m = mk
    if k == "value": return m.row(r)
    if k == "struct": return sp.STRUCT(m.S)(m.row(r))
    if k == "cmpl": return sp.CMPL(m.S)(m.row(r), m.nc)
    if k == "scmpl": return sp.SCMPL(m.S)(m.row(r), m.nc)
def masked(c, mk, z, zrow, r, o):
    """content of row r after writing z through the mask"""
    if mk[0] == "none": return sp.CONVROW(z, c.S)(zrow)
    mr = maskrow(mk, r)
    return sp.MW(c.S, z, rowt_of(mr).S)(c.row(r), zrow, mr, o)
def outsplit(e, o):
    e.req("output control is MERGE or REPLACE", Or(o == sp.MERGE, o == sp.REPLACE)); e.split = [o == sp.MERGE, o == sp.REPLACE]

@contract("setRow", "C01", match=lambda q, d, a, this, eng, st: "&&" not in (d.type or ""))
def _setrow(cx):
    e = Eff(); m = M(cx, cx.this); i = cx.v(0); r = cx.row(1)
    e.req("row index within the stored rows", And(0 <= i, i < m.V.len(m.data)))
    e.req("stored-element count covers the replaced row", m.nvals >= m.T.len(m.row(i)))
    if same(cx.lv(1), ElemLV(m.ldata, i)): e.req("row data is not the row being replaced", BoolVal(False))
    e.set(m.ldata, m.V.upd(m.data, i, sp.CONVROW(rowt_of(r).S, m.S)(r)))
    e.set(m.lnvals, m.nvals - m.T.len(m.row(i)) + rowt_of(r).len(r)); return e
@contract("setRow", "C01", match=lambda q, d, a, this, eng, st: "&&" in (d.type or ""))
def _setrowm(cx):
    e = Eff(); m = M(cx, cx.this); i = cx.v(0); r = cx.row(1)
    e.req("row index within the stored rows", And(0 <= i, i < m.V.len(m.data)))
    e.req("stored-element count covers the replaced row", m.nvals >= m.T.len(m.row(i)))
    e.set(m.ldata, m.V.upd(m.data, i, r)); e.set(m.lnvals, m.nvals - m.T.len(m.row(i)) + rowt_of(r).len(r))
    e.set(cx.lv(1), m.row(i)); return e
def is_lil(this): return isinstance(this, Obj) and "m_data" in this.fields
def is_vecobj(this): return isinstance(this, Obj) and "m_bitmap" in this.fields

@contract("clear", "C05", match=lambda q, d, a, this, eng, st: is_lil(this))
def _mclear(cx):
    e = Eff(); m = M(cx, cx.this)
    e.rows(m.ldata, m.V.len(m.data), lambda r: m.T.empty); e.set(m.lnvals, IntVal(0)); return e
@contract("recomputeNvals", "C01")
def _recompute(cx):
    e = Eff(); m = M(cx, cx.this); e.set(m.lnvals, m.nv(n=m.V.len(m.data))); return e

@contract("sparse_copy", "C06")
def _sparse_copy(cx):
    e = Eff(); d = M(cx, cx.v(0)); s = M(cx, cx.v(1))
    e.req("destination is not the source", BoolVal(d.obj is not s.obj))
    e.req("destination has one row vector per row", d.V.len(d.data) == d.nr); e.req("source covers every row of the destination", s.V.len(s.data) >= d.nr)
    cr = sp.CONVROW(s.S, d.S)
    e.rows(d.ldata, d.nr, lambda r: cr(s.row(r))); setnvals(e, cx, d); return e

@contract("ewise_or_opt_accum", "C06")
def _eooa(cx):
    e = Eff(); z = M(cx, cx.v(0)); c = M(cx, cx.v(1)); t = M(cx, cx.v(2)); acc = cx.v(3)
    e.req("Z is distinct from C and T", BoolVal(z.obj is not c.obj and z.obj is not t.obj))
    e.req("Z has one row vector per row", z.V.len(z.data) == z.nr)
    e.req("T covers every row of Z", t.V.len(t.data) >= z.nr)
    if is_noacc(acc):
        cr = sp.CONVROW(t.S, z.S); e.rows(z.ldata, z.nr, lambda r: cr(t.row(r)))
    else:
        e.req("Z's stored-element count is right", z.nvals == z.nv())
        op = functor_op(cx.e, acc); e.req("C covers every row of Z", c.V.len(c.data) >= z.nr)
        for m, l in ((c, "C"), (t, "T")):
            e.req("rows of %s are sorted" % l, th.forall([_rr], Implies(And(0 <= _rr, _rr < z.nr), m.T.sorted(m.row(_rr))), m.row(_rr)))
        F = sp.EOR(op, c.S, t.S, z.S); e.rows(z.ldata, z.nr, lambda r: F(c.row(r), t.row(r)))
    setnvals(e, cx, z); return e

@contract("write_with_opt_mask", "C06")
def _wwom(cx):
    e = Eff(); c = M(cx, cx.v(0)); z = M(cx, cx.v(1)); o = cx.v(3); mk = masksort(cx, cx.args[2])
    e.req("Z is distinct from C", BoolVal(z.obj is not c.obj))
    if mk[0] == "none":
        e.req("C has one row vector per row", c.V.len(c.data) == c.nr)
        e.req("Z covers every row of C", z.V.len(z.data) >= c.nr)
    else:
        wf(e, c, "C"); e.req("Z covers every row of C", z.V.len(z.data) >= c.nr)
        e.req("rows of Z are sorted", th.forall([_rr], Implies(And(0 <= _rr, _rr < c.nr), z.T.sorted(z.row(_rr))), z.row(_rr)))
        m = mk[1]
        if m.obj is not c.obj: wfrows(e, m, "mask")
        e.req("mask has C's shape", And(m.nr == c.nr, m.nc == c.nc)); outsplit(e, o)
    e.rows(c.ldata, c.nr, lambda r: masked(c, mk, z.S, z.row(r), r, o)); setnvals(e, cx, c); return e

def _getrow(kind):
    def f(cx):
        e = Eff(); m = M(cx, cx.v(0)); i = cx.v(1)
        e.req("row index in range", And(0 <= i, i < m.V.len(m.data))); e.req("row is sorted", m.T.sorted(m.row(i))); e.req("row is in range", m.T.inrange(m.row(i), m.nc)); e.req("sane width", m.nc >= 0)
        e.ret = maskrow((kind, m), i); return e
    return f
contract("get_structure_row", "C06")(_getrow("struct"))
contract("get_complement_row", "C06")(_getrow("cmpl"))
contract("get_structural_complement_row", "C06")(_getrow("scmpl"))

# =========================================================================== vectors
class VV:
    """the fields of a backend vector object in the entry state"""
    def __init__(s, cx, obj, st=None):
        st = st or cx.st
        if isinstance(obj, LV) and not isinstance(obj, Obj): obj = cx.e.rv(st, obj)
        while isinstance(obj, Obj) and "m_vec" in obj.fields and base(obj.tname) == "Vector": obj = deref(cx, obj.fields["m_vec"], st)
        if not isinstance(obj, Obj): raise Unsupported("vector argument %r" % (obj,))
        for f in ("m_size", "m_nvals", "m_vals", "m_bitmap"):
            if f not in obj.fields: raise Unsupported("vector field %s" % f)
        s.obj = obj; s.cx = cx; rd = lambda f: cx.e.read(st, obj.fields[f])
        s.size, s.nvals, s.vals, s.bits = rd("m_size"), rd("m_nvals"), rd("m_vals"), rd("m_bitmap")
        s.V = vect_of(s.vals); s.Bv = vect_of(s.bits); s.S = s.V.T; s.T = rowt(s.S)
        s.lsize, s.lnvals, s.lvals, s.lbits = [obj.fields[f] for f in ("m_size", "m_nvals", "m_vals", "m_bitmap")]
        s.cont = sp.CONT(s.S)(s.bits, s.vals, s.size)
    def at(s, st): return VV(s.cx, s.obj, st)
    def wf(s): return [s.Bv.len(s.bits) == s.size, s.V.len(s.vals) == s.size, s.nvals == sp.BCNT()(s.bits, s.size)]
def vshape(e, v, label):
    f = v.wf(); e.req("%s: bitmap and values have the vector's size" % label, And(f[0], f[1])); return v
def vwf(e, v, label):
    vshape(e, v, label); e.req("%s: stored-element count equals the number of stored elements" % label, v.wf()[2]); return v
def vset(e, v, content=None, size=None, facts=lambda v: []):
    """the vector gets new content; size kept unless given; the representation invariant is re-established"""
    for l, S in ((v.lvals, v.V.V), (v.lbits, v.Bv.V), (v.lnvals, I)):
        e.rel(l, (lambda S=S: fresh("nv", S)), lambda new: [])
    if size is not None: e.set(v.lsize, size)
    P = []
    P += [canonical(["bitmap has the vector's size", "value list has the vector's size", "stored-element count equals the number of set bits"][i], lambda st, i=i: v.at(st).wf()[i]) for i in range(3)]
    if content is not None: P.append(labelled("contents are as specified", lambda st: v.at(st).cont == content)); e.pool.append(content)
    e.post = getattr(e, "post", []) + P
def vmask(cx, i):
    v = cx.args[i]
    if isinstance(v, LV) and not isinstance(v, Obj): v = cx.e.rv(cx.st, v)
    if isinstance(v, Ref): v = v.lv
    if isinstance(v, Functor) or (isinstance(v, Obj) and base(v.tname) == "NoMask"): return "none", None
    b = base(v.tname)
    if b == "VectorComplementView": return "cmpl", VV(cx, inner(cx, v))
    if b == "VectorStructureView": return "struct", VV(cx, inner(cx, v))
    if b == "VectorStructuralComplementView": return "scmpl", VV(cx, inner(cx, v))
    return "value", VV(cx, v)
def vmaskrow(mk):
    k, m = mk
    if k == "value": return m.cont
    if k == "struct": return sp.STRUCT(m.S)(m.cont)
    if k == "cmpl": return sp.CMPL(m.S)(m.cont, m.size)
    if k == "scmpl": return sp.SCMPL(m.S)(m.cont, m.size)
def vmasked(w, mk, z, o):
    if mk[0] == "none": return sp.CONVROW(rowt_of(z).S, w.S)(z)
    mr = vmaskrow(mk)
    return sp.MW(w.S, rowt_of(z).S, rowt_of(mr).S)(w.cont, z, mr, o)

@contract("getContents", "C05")
def _getcontents(cx):
    e = Eff(); v = vshape(e, VV(cx, cx.this), "vector"); e.ret = v.cont; return e
@contract("setContents", "C05")
def _setcontents(cx):
    e = Eff(); v = VV(cx, cx.this); r = rowwf(e, "new contents", cx.row(0)); vshape(e, v, "vector")
    e.req("new contents are within the vector", rowt_of(r).inrange(r, v.size))
    vset(e, v, sp.CONVROW(rowt_of(r).S, v.S)(r)); return e
@contract("clear", "C05", match=lambda q, d, a, this, eng, st: is_vecobj(this))
def _vclear(cx):
    e = Eff(); v = VV(cx, cx.this); e.req("values cover the vector", v.V.len(v.vals) == v.size)
    e.set(v.lbits, v.Bv.fill(v.size, BoolVal(False))); e.set(v.lnvals, IntVal(0))
    e.post = [lambda st: v.at(st).cont == v.T.empty]; return e

@contract("ewise_or_opt_accum_1D", "C06")
def _eooa1(cx):
    e = Eff(); w = vshape(e, VV(cx, cx.v(1)), "w"); t = rowwf(e, "t", cx.row(2)); acc = cx.v(3); zT = rowt_of(cx.row(0))
    e.req("z is distinct from t", BoolVal(not same(cx.lv(0), cx.lv(2))))
    if is_noacc(acc):
        e.req("z starts empty", cx.row(0) == zT.empty)
        e.set(cx.lv(0), sp.CONVROW(rowt_of(t).S, zT.S)(t))
    else: e.set(cx.lv(0), sp.EOR(functor_op(cx.e, acc), w.S, rowt_of(t).S, zT.S)(w.cont, t))
    return e
@contract("opt_accum_scalar", "C06", "C14")
def _oas(cx):
    e = Eff(); S = sortof_lv(cx, 0); acc = cx.v(3)
    e.set(cx.lv(0), sp.cv(cx.v(2), S) if is_noacc(acc) else sp.cv(functor_op(cx.e, acc)(cx.v(1), cx.v(2)), S)); return e

def _getcont(kind):
    def f(cx):
        e = Eff(); v = vshape(e, VV(cx, cx.v(0)), "mask"); e.ret = vmaskrow((kind, v)); return e
    return f
contract("get_structure_contents", "C06")(_getcont("struct"))
contract("get_complement_contents", "C06")(_getcont("cmpl"))
contract("get_structural_complement_contents", "C06")(_getcont("scmpl"))

@contract("write_with_opt_mask_1D", "C06")
def _wwom1(cx):
    e = Eff(); w = vshape(e, VV(cx, cx.v(0)), "w"); z = rowwf(e, "z", cx.row(1)); o = cx.v(3); mk = vmask(cx, 2)
    e.req("z is within w", rowt_of(z).inrange(z, w.size))
    if mk[0] != "none":
        m = mk[1]
        if m.obj is not w.obj: vshape(e, m, "mask")
        e.req("mask has w's size", m.size == w.size); outsplit(e, o)
    vset(e, w, vmasked(w, mk, z, o)); return e

# =========================================================================== index sequences
class Seq:
    """an index sequence argument"""
    def __init__(s, cx, v):
        if isinstance(v, LV) and not isinstance(v, Obj): v = cx.e.rv(cx.st, v)
        s.v = v
        if isinstance(v, z3.ExprRef) and is_vec(v): s.kind = "vec"
        elif isinstance(v, Obj) and base(v.tname) == "IndexSequenceRange":
            s.kind = "range"; s.b = cx.e.rv(cx.st, v.fields["m_begin"]); s.n = cx.e.rv(cx.st, v.fields["m_end"])
        elif base(getattr(v, "tname", "")) == "AllIndices": s.kind = "all"
        else: raise Unsupported("index sequence %r" % (v,))
    def wf(s, e):
        if s.kind == "range": e.req("index range is ordered", s.b <= s.n)
        return s
    def mem(s, k):
        if s.kind == "all": return BoolVal(True)
        if s.kind == "range": return And(s.b <= k, k < s.n)
        return sp.MEM()(s.v, k)
    def stencil(s, A_, B_, S):
        if s.kind == "all": return lambda a, b: sp.CONVROW(B_, S)(b)
        if s.kind == "vec": return lambda a, b: sp.STENCIL(A_, B_, S, s.v.sort(), sp.MEM())(a, b, s.v)
        return lambda a, b: sp.RSTENCIL(A_, B_, S)(a, b, s.b, s.n)

@contract("searchIndices", "C15")
def _search(cx):
    e = Eff(); s = Seq(cx, cx.args[0]); s.wf(e); e.ret = s.mem(cx.v(1)); return e
@contract("check_index_array_content", "C19")
def _ciac(cx):
    e = Eff(); s = Seq(cx, cx.args[0])
    if s.kind == "vec":
        x = Int("x?"); V = vect_of(s.v); d = cx.v(1)
        e.throw("IndexOutOfBoundsException", z3.Exists([x], And(0 <= x, x < V.len(s.v), V.at(s.v, x) >= d)))
    elif s.kind == "range": e.req("index range is ordered", s.b <= s.n); e.throw("IndexOutOfBoundsException", And(s.b < s.n, s.n > cx.v(1)))
    if s.kind == "range":
        def invs(add, h):
            for c in h.cur:
                if c.kind == "int" and c.mod:
                    add("%s within the range" % c.name, lambda st, c=c: And(s.b <= c.get(st), c.get(st) <= s.n))
                    add("%s accepted so far" % c.name, lambda st, c=c: Or(c.get(st) == s.b, c.get(st) <= cx.v(1)))
        e.invs.append(invs)
    return e
@contract("ewise_or_stencil", "C15")
def _eos(cx):
    e = Eff(); a = rowwf(e, "old content", cx.row(1)); b = rowwf(e, "new content", cx.row(2)); s = Seq(cx, cx.args[3]).wf(e); T = rowt_of(cx.row(0))
    e.req("result is distinct from the inputs", BoolVal(not same(cx.lv(0), cx.lv(1)) and not same(cx.lv(0), cx.lv(2))))
    e.set(cx.lv(0), s.stencil(rowt_of(a).S, rowt_of(b).S, T.S)(a, b)); return e
@contract("ewise_or_stencil_opt_accum_1D", "C15")
def _eosa1(cx):
    e = Eff(); w = vshape(e, VV(cx, cx.v(1)), "w"); t = rowwf(e, "t", cx.row(2)); s = Seq(cx, cx.args[3]).wf(e); acc = cx.v(4); zT = rowt_of(cx.row(0))
    e.req("z is distinct from t", BoolVal(not same(cx.lv(0), cx.lv(2))))
    if is_noacc(acc): e.set(cx.lv(0), s.stencil(w.S, rowt_of(t).S, zT.S)(w.cont, t))
    else: e.set(cx.lv(0), sp.EOR(functor_op(cx.e, acc), w.S, rowt_of(t).S, zT.S)(w.cont, t))
    return e
@contract("ewise_or_stencil_opt_accum", "C15")
def _eosa(cx):
    e = Eff(); z = M(cx, cx.v(0)); c = M(cx, cx.v(1)); t = M(cx, cx.v(2)); acc = cx.v(5)
    e.req("Z is distinct from C and T", BoolVal(z.obj is not c.obj and z.obj is not t.obj))
    e.req("Z has one row vector per row", z.V.len(z.data) == z.nr); e.req("T covers every row of Z", t.V.len(t.data) >= z.nr); e.req("C covers every row of Z", c.V.len(c.data) >= z.nr)
    e.req("Z's stored-element count is right", z.nvals == z.nv())
    for m, l in ((c, "C"), (t, "T")):
        e.req("rows of %s are sorted" % l, th.forall([_rr], Implies(And(0 <= _rr, _rr < z.nr), m.T.sorted(m.row(_rr))), m.row(_rr)))
    if is_noacc(acc):
        rs, cs = Seq(cx, cx.args[3]).wf(e), Seq(cx, cx.args[4]).wf(e); st_ = cs.stencil(c.S, t.S, z.S); cr = sp.CONVROW(c.S, z.S)
        f = lambda r: st_(c.row(r), t.row(r)) if rs.kind == "all" else If(rs.mem(r), st_(c.row(r), t.row(r)), cr(c.row(r)))
    else:
        F = sp.EOR(functor_op(cx.e, acc), c.S, t.S, z.S); f = lambda r: F(c.row(r), t.row(r))
    e.rows(z.ldata, z.nr, f); setnvals(e, cx, z); return e

# =========================================================================== masked products
def madvance(cx):
    e = Eff(); it, en, r = iterargs(cx); s = cx.v(2); tgt = cx.v(3); T = rowt_of(r)
    e.req("iterator range is valid", And(0 <= it.pos, it.pos <= en.pos, en.pos <= T.len(r)))
    x = Int("x?"); new = fresh("adv", I)
    def facts(n):
        p = n.pos
        return [("position does not go back", it.pos <= p), ("position stays at or before the end", p <= en.pos),
                ("every skipped index is below the target", th.forall([x], Implies(And(it.pos <= x, x < p), T.idx(r, x) < tgt), T.idx(r, x))),
                ("last skipped index is below the target", Or(p == it.pos, T.idx(r, p - 1) < tgt)),
                ("stops at the first index not below the target", Or(p == en.pos, T.idx(r, p) >= tgt))]
    e.rel(cx.lv(0), lambda: Iter(it.cont, new), facts)
    def ret(st):
        p = cx.e.rv(st, cx.lv(0)).pos
        return And(p != en.pos, T.idx(r, p) == tgt, Or(s, th.tobool(T.S)(T.val(r, p))))
    e.retfn = ret
    return e
contract("advance_and_check_mask_iterator", "C09")(madvance)

@contract("masked_axpy", "C09")
def _maxpy(cx):
    e = Eff(); c = rowwf(e, "accumulated row", cx.row(0)); m = rowwf(e, "mask row", cx.row(1)); sf, cf = cx.v(2), cx.v(3); sr = cx.sr(4); a = cx.v(5); b = rowwf(e, "scaled row", cx.row(6))
    e.req("accumulated row is distinct from the mask and the scaled row", BoolVal(not same(cx.lv(0), cx.lv(1)) and not same(cx.lv(0), cx.lv(6))))
    e.set(cx.lv(0), sp.MAXPY(sr, rowt_of(c).S, rowt_of(m).S, a.sort(), rowt_of(b).S)(c, m, sf, cf, a, b))
    e.split = [And(x, y) for x in (sf, Not(sf)) for y in (cf, Not(cf))]; return e
@contract("masked_accum", "C09")
def _maccum(cx):
    e = Eff(); z = cx.row(0); m = rowwf(e, "mask row", cx.row(1)); sf, cf = cx.v(2), cx.v(3); op = cx.op(4); c = rowwf(e, "old content", cx.row(5)); t = rowwf(e, "computed row", cx.row(6)); Z = rowt_of(z)
    e.req("z starts empty", z == Z.empty)
    e.req("z is distinct from the inputs", BoolVal(not any(same(cx.lv(0), cx.lv(i)) for i in (1, 5, 6))))
    e.set(cx.lv(0), sp.MACC(op, Z.S, rowt_of(m).S, rowt_of(c).S, rowt_of(t).S)(m, sf, cf, c, t))
    e.split = [And(x, y) for x in (sf, Not(sf)) for y in (cf, Not(cf))]; return e
@contract("masked_merge", "C09")
def _mmerge(cx):
    e = Eff(); c = cx.row(0); m = rowwf(e, "mask row", cx.row(1)); sf, cf = cx.v(2), cx.v(3); ci = rowwf(e, "old content", cx.row(4)); z = rowwf(e, "new content", cx.row(5)); C = rowt_of(c); Z = rowt_of(z)
    k = Int("k?"); en = sp.EN(rowt_of(m).S)
    e.req("result is distinct from the inputs", BoolVal(not any(same(cx.lv(0), cx.lv(i)) for i in (1, 4, 5))))
    e.req("new content lies in the mask", th.forall([k], Implies(Z.has(z, k), en(m, sf, cf, k)), Z.has(z, k)))
    e.set(cx.lv(0), sp.MMERGE(C.S, rowt_of(m).S, Z.S)(m, sf, cf, ci, z))
    e.split = [And(x, y) for x in (sf, Not(sf)) for y in (cf, Not(cf))]; return e

# =========================================================================== operations
def operand(cx, i):
    """(transposed?, matrix) of an operation's matrix operand"""
    v = cx.args[i]
    if isinstance(v, LV) and not isinstance(v, Obj): v = cx.e.rv(cx.st, v)
    if isinstance(v, Ref): v = v.lv
    if isinstance(v, Obj) and base(v.tname) == "TransposeView": return True, M(cx, inner(cx, v))
    return False, M(cx, v)
def onr(o): return o[1].nc if o[0] else o[1].nr
def onc(o): return o[1].nr if o[0] else o[1].nc
def orow(o, r, n=None):
    t, m = o
    return sp.COL(m.S)(m.data, r, m.nr if n is None else n) if t else m.row(r)
def uwf(e, ms):
    """well-formedness of distinct matrix objects, each once"""
    seen = []
    for m, l in ms:
        if any(m.obj is x for x in seen): continue
        seen.append(m.obj); wf(e, m, l)
def matrix_op(cx, e, c, mk, acc, o, trow, T_):
    """C<M,o> = C accum T, row by row; trow(r) is row r of the computed result with element sort T_"""
    if mk[1] is not None: e.shape("mask has C's shape", And(mk[1].nr == c.nr, mk[1].nc == c.nc)); outsplit(e, o)
    if is_noacc(acc): Z_ = T_; zrow = trow
    else:
        op = functor_op(cx.e, acc); Z_ = op.res; F = sp.EOR(op, c.S, T_, Z_); zrow = lambda r: F(c.row(r), trow(r))
    e.rows(c.ldata, c.nr, lambda r: masked(c, mk, Z_, zrow(r), r, o)); e.rel(c.lnvals, lambda: fresh("nvals", I), lambda new: []); e.trow = trow
    return canon(e, cx, c)
def canon(e, cx, m):
    """afterwards the matrix satisfies its representation invariant again"""
    def rd(st, f): return cx.e.read(st, m.obj.fields[f])
    r = Int("r?")
    e.post = getattr(e, "post", []) + [
        canonical("one row list per row", lambda st: m.V.len(rd(st, "m_data")) == rd(st, "m_num_rows")),
        canonical("rows are sorted, without duplicates, with indices in range", lambda st: th.forall([r], Implies(And(0 <= r, r < rd(st, "m_num_rows")), And(m.T.sorted(m.V.at(rd(st, "m_data"), r)), m.T.inrange(m.V.at(rd(st, "m_data"), r), rd(st, "m_num_cols")))), m.V.at(rd(st, "m_data"), r))),
        canonical("stored-element count equals the number of stored elements", lambda st: rd(st, "m_nvals") == nv(m.S)(rd(st, "m_data"), rd(st, "m_num_rows")))]
    return e

@contract("mxm", "C08")
def _mxm(cx):
    e = Eff(); c = M(cx, cx.args[0]); mk = masksort(cx, cx.args[1]); acc = cx.v(2); sr = cx.sr(3); A, B = operand(cx, 4), operand(cx, 5); o = cx.v(6)
    uwf(e, [(c, "C"), (A[1], "A"), (B[1], "B")] + ([(mk[1], "mask")] if mk[1] else []))
    e.shape("inner dimensions agree", onc(A) == onr(B)); e.shape("C has the product's shape", And(c.nr == onr(A), c.nc == onc(B)))
    T_ = sr.res; a_, b_ = A[1], B[1]
    if B[0]: P = sp.PRODT(sr, a_.S, b_.S, T_); trow = lambda r: P(orow(A, r), b_.data, c.nc)
    else: P = sp.PRODN(sr, a_.S, b_.S, T_); trow = lambda r: P(orow(A, r), b_.data, b_.nr, c.nc)
    if A[0] and B[0]:
        L = sp.PRODL(sr, a_.S, b_.S, T_); e.hints.append(lambda r: L(a_.data, a_.nr, b_.row(r), a_.nc))
    return matrix_op(cx, e, c, mk, acc, o, trow, T_)

def vector_op(cx, e, w, mk, acc, o, t, T_):
    """w<m,o> = w accum t"""
    if mk[1] is not None: e.shape("mask has w's size", mk[1].size == w.size); outsplit(e, o)
    if is_noacc(acc): z = t
    else:
        op = functor_op(cx.e, acc); z = sp.EOR(op, w.S, T_, op.res)(w.cont, t)
    e.pool += [t, z]; e.t = t
    vset(e, w, vmasked(w, mk, z, o)); return e
def uvwf(e, vs):
    seen = []
    for v, l in vs:
        if any(v.obj is x for x in seen): continue
        seen.append(v.obj); vwf(e, v, l)
def isvec(cx, i):
    v = cx.args[i]
    if isinstance(v, Ref): v = v.lv
    if isinstance(v, LV) and not isinstance(v, Obj): v = cx.e.rv(cx.st, v)
    return isinstance(v, Obj) and ("m_bitmap" in v.fields or "m_vec" in v.fields)

@contract("mxv", "C10")
def _mxv(cx):
    e = Eff(); w = VV(cx, cx.args[0]); mk = vmask(cx, 1); acc = cx.v(2); sr = cx.sr(3); A = operand(cx, 4); u = VV(cx, cx.args[5]); o = cx.v(6)
    uvwf(e, [(w, "w"), (u, "u")] + ([(mk[1], "mask")] if mk[1] else [])); wf(e, A[1], "A")
    e.shape("u has one element per column", u.size == onc(A)); e.shape("w has one element per row", w.size == onr(A))
    a = A[1]
    t = sp.PRODL(sr, a.S, u.S, sr.res)(a.data, a.nr, u.cont, w.size) if A[0] else sp.PRODR(sr, a.S, u.S, sr.res)(a.data, u.cont, w.size)
    return vector_op(cx, e, w, mk, acc, o, t, sr.res)

@contract("vxm", "C10")
def _vxm(cx):
    e = Eff(); w = VV(cx, cx.args[0]); mk = vmask(cx, 1); acc = cx.v(2); sr = cx.sr(3); u = VV(cx, cx.args[4]); A = operand(cx, 5); o = cx.v(6)
    uvwf(e, [(w, "w"), (u, "u")] + ([(mk[1], "mask")] if mk[1] else [])); wf(e, A[1], "A")
    e.shape("u has one element per row", u.size == onr(A)); e.shape("w has one element per column", w.size == onc(A))
    a = A[1]
    t = sp.PRODT(sr, u.S, a.S, sr.res)(u.cont, a.data, w.size) if A[0] else sp.PRODN(sr, u.S, a.S, sr.res)(u.cont, a.data, a.nr, w.size)
    return vector_op(cx, e, w, mk, acc, o, t, sr.res)

def _ewise(spec):
    def f(cx):
        e = Eff(); acc = cx.v(2); op = cx.op(3); o = cx.v(6)
        if isvec(cx, 0):
            w = VV(cx, cx.args[0]); mk = vmask(cx, 1); u = VV(cx, cx.args[4]); v = VV(cx, cx.args[5])
            uvwf(e, [(w, "w"), (u, "u"), (v, "v")] + ([(mk[1], "mask")] if mk[1] else []))
            e.shape("u and v have w's size", And(u.size == w.size, v.size == w.size))
            return vector_op(cx, e, w, mk, acc, o, spec(op, u.S, v.S, op.res)(u.cont, v.cont), op.res)
        c = M(cx, cx.args[0]); mk = masksort(cx, cx.args[1]); A, Bm = operand(cx, 4), operand(cx, 5)
        uwf(e, [(c, "C"), (A[1], "A"), (Bm[1], "B")] + ([(mk[1], "mask")] if mk[1] else []))
        e.shape("A and B have C's shape", And(onr(A) == c.nr, onc(A) == c.nc, onr(Bm) == c.nr, onc(Bm) == c.nc))
        F = spec(op, A[1].S, Bm[1].S, op.res)
        return matrix_op(cx, e, c, mk, acc, o, lambda r: F(orow(A, r, c.nc), orow(Bm, r, c.nc)), op.res)
    return f
contract("eWiseAdd", "C11")(_ewise(sp.EOR))
contract("eWiseMult", "C12")(_ewise(sp.EAND))

@contract("transpose", "C17")
def _transpose(cx):
    e = Eff(); c = M(cx, cx.args[0]); mk = masksort(cx, cx.args[1]); acc = cx.v(2); A = operand(cx, 3); o = cx.v(4)
    uwf(e, [(c, "C"), (A[1], "A")] + ([(mk[1], "mask")] if mk[1] else []))
    e.shape("C has the shape of A transposed", And(c.nr == onc(A), c.nc == onr(A)))
    t, a = A
    return matrix_op(cx, e, c, mk, acc, o, (lambda r: a.row(r)) if t else (lambda r: sp.COL(a.S)(a.data, r, c.nc)), a.S)

def _applyc(mode):
    def f(cx):
        e = Eff(); acc = cx.v(2); op = cx.op(3)
        ai, xi = {"un": (4, None), "1st": (5, 4), "2nd": (4, 5)}[mode]
        o = cx.v(5 if mode == "un" else 6); x = None if xi is None else cx.v(xi)
        def mp(S):
            if mode == "un": return sp.UMAP(op, S)
            if mode == "1st": F = sp.MAP(op.name + "_1st", S, op.res, lambda v, y: op(y, v), [x.sort()])
            else: F = sp.MAP(op.name + "_2nd", S, op.res, lambda v, y: op(v, y), [x.sort()])
            return lambda r: F(r, x)
        if isvec(cx, 0):
            w = VV(cx, cx.args[0]); mk = vmask(cx, 1); u = VV(cx, cx.args[ai])
            uvwf(e, [(w, "w"), (u, "u")] + ([(mk[1], "mask")] if mk[1] else []))
            e.shape("u has w's size", u.size == w.size)
            return vector_op(cx, e, w, mk, acc, o, mp(u.S)(u.cont), op.res)
        c = M(cx, cx.args[0]); mk = masksort(cx, cx.args[1]); A = operand(cx, ai)
        uwf(e, [(c, "C"), (A[1], "A")] + ([(mk[1], "mask")] if mk[1] else []))
        e.shape("A has C's shape", And(onr(A) == c.nr, onc(A) == c.nc))
        F = mp(A[1].S)
        return matrix_op(cx, e, c, mk, acc, o, lambda r: F(orow(A, r, c.nc)), op.res)
    return f
contract("apply", "C13")(_applyc("un"))
contract("apply_binop_1st", "C13")(_applyc("1st"))
contract("apply_binop_2nd", "C13")(_applyc("2nd"))

@contract("reduce", "C14")
def _reduce(cx):
    e = Eff(); w = VV(cx, cx.args[0]); mk = vmask(cx, 1); acc = cx.v(2); op = cx.op(3); A = operand(cx, 4); o = cx.v(5)
    uvwf(e, [(w, "w")] + ([(mk[1], "mask")] if mk[1] else [])); wf(e, A[1], "A"); a = A[1]
    e.shape("w has one element per row", w.size == onr(A))
    t = sp.REDC(op, a.S)(a.data, a.nr, w.size) if A[0] else sp.REDR(op, a.S)(a.data, w.size)
    return vector_op(cx, e, w, mk, acc, o, t, op.res)
def scalar_out(cx, e, acc, t):
    S = sortof_lv(cx, 0)
    e.set(cx.lv(0), sp.cv(t, S) if is_noacc(acc) else sp.cv(functor_op(cx.e, acc)(cx.v(0), t), S)); e.pool.append(t); return e
def identity(cx, i): return functor_fn(cx.e, cx.v(i).tname, "identity")()
@contract("reduce_vector_to_scalar", "C14")
def _rvs(cx):
    e = Eff(); acc = cx.v(1); op = cx.op(2); u = VV(cx, cx.args[3]); vwf(e, u, "u")
    return scalar_out(cx, e, acc, If(u.T.len(u.cont) == 0, identity(cx, 2), sp.FOLD(op, u.S)(u.cont)))
@contract("reduce_matrix_to_scalar", "C14")
def _rms(cx):
    e = Eff(); acc = cx.v(1); op = cx.op(2); A = operand(cx, 3); wf(e, A[1], "A"); a = A[1]
    return scalar_out(cx, e, acc, sp.RFOLD(op, a.S)(identity(cx, 2), a.data, a.nr))

def lookup(q, d, args, this, eng, st):
    if q.startswith("grb::backend::"): l = CONTRACTS.get(d.name)
    elif q.startswith("grb::"):
        p = q.split("::"); l = FRONT.get((p[-2] if len(p) > 2 else "", p[-1]))
    else: return None
    for f, props, match in l or ():
        if match is not None and not match(q, d, args, this, eng, st): continue
        return Bound(f, d.name, props, q)
    return None
class Contracts:
    def __init__(s, use_cands=True): s.use = True
    # ---- lookup
    def find(s, d, args, this, eng, st):
        return lookup(ca.qualname(d), d, args, this, eng, st)
    def candidates(s, eng, entry, head, mod, node):
        import cands
        return cands.candidates(eng, entry, head, mod, node)

class Bound:
    """a contract attached to one function instantiation"""
    def __init__(s, spec, name, props, q): s.spec = spec; s.name = name; s.props = props; s.q = q
    def eff(s, eng, st, decl, args, this):
        return s.spec(Ctx(eng, st, decl, args, this))
    def apply(s, eng, st, decl, args, this, node):
        e = s.eff(eng, st, decl, args, this)
        for label, f in e.requires: eng.oblige(st, f, "precondition of %s: %s" % (s.name, label), node, "pre")
        if not eng.dry:
            for label, f in e.requires: st.assume(f)
        for f in e.hyps: st.assume(f)
        for exc, cond in e.throws:
            cond = z3.simplify(cond)
            if z3.is_false(cond): continue
            t = st.clone(); t.assume(cond)
            if eng.feasible(t): eng.throws.append((t, exc, node))
            st.assume(Not(cond))
            if z3.is_true(cond): return []
        e.writes = [resolve(w) for w in e.writes]
        for k, lv, val in e.writes:
            if k == "eq": eng.write(st, lv, val, node)
            elif k == "rel":
                mk, facts = val; new = mk(); eng.write(st, lv, new, node)
                for _, f in facts(new): st.assume(f)
            elif k == "rows":
                n, f = val; old = eng.read(st, lv); D = fresh("rows", old.sort()); V = vect_of(old); r = Int("r?")
                eng.write(st, lv, D, node)
                st.assume(V.len(D) == n)
                st.assume(th.forall([r], Implies(And(0 <= r, r < n), V.at(D, r) == f(r)), V.at(D, r)))
        for mkf in getattr(e, "post", []): st.assume(mkf(st))
        ret = e.ret
        if hasattr(e, "retfn"): ret = e.retfn(st)
        if e.retrel is not None:
            mk, facts = e.retrel; ret = mk()
            for _, f in facts(ret): st.assume(f)
        return [(st, ret)]
def resolve(w): return w

import contracts_cont, contracts_ext, contracts_asg, contracts_front
