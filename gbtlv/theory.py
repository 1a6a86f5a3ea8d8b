"""First-order theory used by the verifier: sparse rows (vectors of
(index,value) tuples), plain vectors, and the specification functions over
them.  Everything is stated as axioms with explicit triggers; every axiom that
is not a definition is listed as a lemma and proved by lemmas.py."""
import z3, itertools
from z3 import (Int, Ints, IntVal, Bool, BoolVal, And, Or, Not, Implies, If, ForAll, Exists, Const, Consts,
                Function, IntSort, BoolSort, DeclareSort, is_int_value)

I, B = IntSort(), BoolSort()
W64 = 2 ** 64

_sorts = {}
def sort(name):
    if name == "Int": return I
    if name == "Bool": return B
    if name not in _sorts: _sorts[name] = DeclareSort(name)
    return _sorts[name]

# ---- axiom registry: symbol name -> list of axioms --------------------------
AX = {}          # symbol -> [axiom]
_axseq = {}; _axkeep = []
def axiom(ax, *symbols):
    """attach an axiom to the symbols whose presence requires it (any of them)"""
    _axseq.setdefault(ax.get_id(), len(_axseq))
    for s in symbols: AX.setdefault(s.name() if hasattr(s, "name") else s, []).append(ax)

_fn = {}
def fn(name, *sorts):
    if name not in _fn: _fn[name] = Function(name, *sorts)
    return _fn[name]

_fresh = itertools.count()
def fresh(name, s):
    return Const("%s!%d" % (name, next(_fresh)), s)

def forall(vs, body, *pats):
    ps = []
    for p in pats:
        l = list(p) if isinstance(p, (list, tuple)) else [p]
        if any(has_ite(x) for x in l): continue      # only in goals, where patterns play no part
        ps.append(z3.MultiPattern(*l) if len(l) > 1 else l[0])
    return ForAll(vs, body, patterns=ps)
def has_ite(e):
    st = [e]
    while st:
        x = st.pop()
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_ITE: return True
            st.extend(x.children())
    return False

# ---- opaque functions -----------------------------------------------------------
def conv(s, t):
    """conversion from scalar sort s to t (identity when equal)"""
    if s == t: return lambda x: x
    return fn("conv_%s_%s" % (s.name(), t.name()), s, t)
def tobool(s):
    if s == B: return lambda x: x
    if s == I: return lambda x: x != 0
    return fn("tobool_%s" % s.name(), s, B)

# ---- rows ---------------------------------------------------------------------
class RowT:
    """theory of vector<tuple<Index,S>>"""
    def __init__(t, S):
        n = "Row_" + S.name()
        t.S = S; t.R = R = sort(n)
        t.len = fn("len_" + n, R, I)
        t.idx = fn("idx_" + n, R, I, I)
        t.val = fn("val_" + n, R, I, S)
        t.sorted = fn("sorted_" + n, R, B)
        t.has = fn("has_" + n, R, I, B)
        t.pos = fn("pos_" + n, R, I, I)
        t.vat = fn("vat_" + n, R, I, S)
        t.inrange = fn("inrange_" + n, R, I, B)
        t.empty = Const("empty_" + n, R); t.emptyf = t.empty.decl()
        t.push = fn("push_" + n, R, I, S, R)
        t.ins = fn("ins_" + n, R, I, I, S, R)
        t.setv = fn("setv_" + n, R, I, S, R)
        t.setkv = fn("setkv_" + n, R, I, I, S, R)
        t.erase = fn("erase_" + n, R, I, R)
        t.prefix = fn("prefix_" + n, R, I, R)
        r, r2 = Consts("r r2", R); p, q, k, m = Ints("p q k m"); v = Const("v", S)
        base = [
            forall([r], t.len(r) >= 0, t.len(r)),
            forall([r, p, q], Implies(And(t.sorted(r), 0 <= p, p < q, q < t.len(r)), t.idx(r, p) < t.idx(r, q)),
                   [t.sorted(r), t.idx(r, p), t.idx(r, q)]),
            forall([r, p], Implies(And(0 <= p, p < t.len(r)), And(t.has(r, t.idx(r, p)), t.idx(r, p) >= 0)), t.idx(r, p)),
            forall([r, p], Implies(And(t.sorted(r), 0 <= p, p < t.len(r)), t.pos(r, t.idx(r, p)) == p), [t.sorted(r), t.idx(r, p)]),
            forall([r, k], Implies(t.has(r, k), And(0 <= t.pos(r, k), t.pos(r, k) < t.len(r), t.idx(r, t.pos(r, k)) == k)), t.has(r, k)),
            forall([r, k], Implies(t.has(r, k), t.vat(r, k) == t.val(r, t.pos(r, k))), t.vat(r, k)),
            forall([r, p], Implies(And(t.sorted(r), 0 <= p, p < t.len(r)), t.vat(r, t.idx(r, p)) == t.val(r, p)), [t.sorted(r), t.val(r, p)]),
            forall([r, k, m], Implies(And(t.inrange(r, m), t.has(r, k)), And(0 <= k, k < m)), [t.inrange(r, m), t.has(r, k)]),
            forall([r, p, m], Implies(And(t.inrange(r, m), 0 <= p, p < t.len(r)), t.idx(r, p) < m), [t.inrange(r, m), t.idx(r, p)]),
        ]
        for a in base: axiom(a, n)
        # empty
        for a in [t.len(t.empty) == 0, t.sorted(t.empty), forall([k], Not(t.has(t.empty, k)), t.has(t.empty, k)),
                  forall([m], t.inrange(t.empty, m), t.inrange(t.empty, m)),
                  forall([r], Implies(t.len(r) == 0, r == t.empty), t.len(r))]:
            axiom(a, n)
        P = t.push(r, k, v)
        for a in [forall([r, k, v], t.len(P) == t.len(r) + 1, P),
                  forall([r, k, v, p], Implies(k >= 0, t.idx(P, p) == If(p == t.len(r), k, t.idx(r, p))), t.idx(P, p)),
                  forall([r, k, v, p], t.val(P, p) == If(p == t.len(r), v, t.val(r, p)), t.val(P, p)),
                  forall([r, k, v, q], Implies(k >= 0, t.has(P, q) == Or(t.has(r, q), q == k)), t.has(P, q)),
                  forall([r, k, v, q], t.vat(P, q) == If(t.has(r, q), t.vat(r, q), If(q == k, v, t.vat(r, q))), t.vat(P, q)),
                  forall([r, k, v], t.sorted(P) == And(t.sorted(r), Or(t.len(r) == 0, t.idx(r, t.len(r) - 1) < k)), t.sorted(P)),
                  forall([r, k, v, m], t.inrange(P, m) == And(t.inrange(r, m), 0 <= k, k < m), t.inrange(P, m))]:
            axiom(a, t.push)
        P = t.ins(r, q, k, v)
        ok = And(0 <= q, q <= t.len(r), k >= 0)
        srt = And(t.sorted(r), ok, Or(q == 0, t.idx(r, q - 1) < k), Or(q == t.len(r), k < t.idx(r, q)))
        for a in [forall([r, q, k, v], Implies(ok, t.len(P) == t.len(r) + 1), P),
                  forall([r, q, k, v, p], Implies(ok, t.idx(P, p) == If(p < q, t.idx(r, p), If(p == q, k, t.idx(r, p - 1)))), t.idx(P, p)),
                  forall([r, q, k, v, p], Implies(ok, t.val(P, p) == If(p < q, t.val(r, p), If(p == q, v, t.val(r, p - 1)))), t.val(P, p)),
                  forall([r, q, k, v, m], Implies(ok, t.has(P, m) == Or(t.has(r, m), m == k)), t.has(P, m)),
                  forall([r, q, k, v, m], Implies(srt, t.vat(P, m) == If(m == k, v, t.vat(r, m))), t.vat(P, m)),
                  forall([r, q, k, v, m], Implies(And(srt, t.has(r, m)), t.pos(P, m) == If(m < k, t.pos(r, m), t.pos(r, m) + 1)), [t.pos(P, m), t.has(r, m)]),
                  forall([r, q, k, v], Implies(srt, And(t.sorted(P), Not(t.has(r, k)))), P),
                  forall([r, q, k, v, m], Implies(ok, t.inrange(P, m) == And(t.inrange(r, m), 0 <= k, k < m)), t.inrange(P, m))]:
            axiom(a, t.ins)
        P = t.setv(r, q, v); ok = And(0 <= q, q < t.len(r))
        for a in [forall([r, q, v], Implies(ok, t.len(P) == t.len(r)), P),
                  forall([r, q, v, p], Implies(ok, t.idx(P, p) == t.idx(r, p)), t.idx(P, p)),
                  forall([r, q, v, p], Implies(ok, t.val(P, p) == If(p == q, v, t.val(r, p))), t.val(P, p)),
                  forall([r, q, v, m], Implies(ok, t.has(P, m) == t.has(r, m)), t.has(P, m)),
                  forall([r, q, v, m], Implies(And(ok, t.sorted(r)), t.vat(P, m) == If(m == t.idx(r, q), v, t.vat(r, m))), t.vat(P, m)),
                  forall([r, q, v, m], Implies(And(ok, t.sorted(r)), t.pos(P, m) == t.pos(r, m)), t.pos(P, m)),
                  forall([r, q, v], Implies(ok, t.sorted(P) == t.sorted(r)), P),
                  forall([r, q, v, m], Implies(ok, t.inrange(P, m) == t.inrange(r, m)), t.inrange(P, m))]:
            axiom(a, t.setv)
        P = t.setkv(r, q, k, v)
        for a in [forall([r, q, k, v], Implies(ok, t.len(P) == t.len(r)), P),
                  forall([r, q, k, v, p], Implies(And(ok, k >= 0), t.idx(P, p) == If(p == q, k, t.idx(r, p))), t.idx(P, p)),
                  forall([r, q, k, v, p], Implies(ok, t.val(P, p) == If(p == q, v, t.val(r, p))), t.val(P, p)),
                  forall([r, q, k, v], Implies(And(ok, k == t.idx(r, q)), P == t.setv(r, q, v)), P)]:
            axiom(a, t.setkv)
        P = t.erase(r, q)
        for a in [forall([r, q], Implies(ok, t.len(P) == t.len(r) - 1), P),
                  forall([r, q, p], Implies(ok, t.idx(P, p) == If(p < q, t.idx(r, p), t.idx(r, p + 1))), t.idx(P, p)),
                  forall([r, q, p], Implies(ok, t.val(P, p) == If(p < q, t.val(r, p), t.val(r, p + 1))), t.val(P, p)),
                  forall([r, q, m], Implies(And(ok, t.sorted(r)), t.has(P, m) == And(t.has(r, m), m != t.idx(r, q))), t.has(P, m)),
                  forall([r, q, m], Implies(And(ok, t.sorted(r), t.has(P, m)), t.vat(P, m) == t.vat(r, m)), t.vat(P, m)),
                  forall([r, q], Implies(And(ok, t.sorted(r)), t.sorted(P)), P),
                  forall([r, q, m], Implies(And(ok, t.inrange(r, m)), t.inrange(P, m)), t.inrange(P, m))]:
            axiom(a, t.erase)
        P = t.prefix(r, q); ok = And(0 <= q, q <= t.len(r))
        for a in [forall([r, q], Implies(ok, t.len(P) == q), P),
                  forall([r], t.prefix(r, 0) == t.empty, t.prefix(r, 0)),
                  forall([r, q], Implies(q == t.len(r), P == r), P),
                  forall([r, q], Implies(q == 0, P == t.empty), P),
                  forall([r, q, p], Implies(And(ok, p < q), t.idx(P, p) == t.idx(r, p)), t.idx(P, p)),
                  forall([r, q, p], Implies(And(ok, p < q), t.val(P, p) == t.val(r, p)), t.val(P, p)),
                  forall([r, q, m], Implies(And(ok, t.sorted(r)), t.has(P, m) == And(t.has(r, m), t.pos(r, m) < q)), t.has(P, m)),
                  forall([r, q, m], Implies(And(ok, t.sorted(r), t.has(P, m)), t.vat(P, m) == t.vat(r, m)), t.vat(P, m)),
                  forall([r, q, m], Implies(And(ok, t.sorted(r), t.has(P, m)), t.pos(P, m) == t.pos(r, m)), t.pos(P, m)),
                  forall([r, q], Implies(And(ok, t.sorted(r)), t.sorted(P)), P),
                  forall([r, q, m], Implies(And(ok, t.inrange(r, m)), t.inrange(P, m)), t.inrange(P, m)),
                  forall([r, q], Implies(And(0 <= q, q < t.len(r)), t.prefix(r, q + 1) == t.push(P, t.idx(r, q), t.val(r, q))), [P, t.idx(r, q)], [P, t.val(r, q)])]:
            axiom(a, t.prefix)

        # below(r,i): the elements with key < i ; cnt(r,i) = their number
        t.below = fn("below_" + n, R, I, R)
        P = t.below(r, q)
        for a in [forall([r, q, m], Implies(t.sorted(r), t.has(P, m) == And(t.has(r, m), m < q)), t.has(P, m)),
                  forall([r, q, m], Implies(And(t.sorted(r), t.has(P, m)), t.vat(P, m) == t.vat(r, m)), t.vat(P, m)),
                  forall([r, q], Implies(t.sorted(r), t.sorted(P)), P),
                  forall([r, q], Implies(q <= 0, P == t.empty), P),
                  forall([r, q], Implies(And(t.sorted(r), t.inrange(r, q)), P == r), P),
                  forall([r, q, m], Implies(And(t.sorted(r), t.inrange(r, m)), t.inrange(P, m)), t.inrange(P, m)),
                  forall([r, q], Implies(And(t.sorted(r), q >= 0), t.below(r, q + 1) == If(t.has(r, q), t.push(P, q, t.vat(r, q)), P)), [P, t.has(r, q)])]:
            axiom(a, t.below)

_rowt = {}
def rowt(S):
    if S.name() not in _rowt: _rowt[S.name()] = RowT(S)
    return _rowt[S.name()]
def rowt_of(e):
    n = e.sort().name()
    return rowt(sort(n[4:]))
def is_row(e): return isinstance(e, z3.ExprRef) and e.sort().name().startswith("Row_")

# ---- plain vectors -------------------------------------------------------------
class VecT:
    def __init__(t, T):
        n = "Vec_" + T.name(); t.T = T; t.V = V = sort(n)
        t.len = fn("len_" + n, V, I); t.at = fn("at_" + n, V, I, T)
        t.empty = Const("empty_" + n, V)
        t.push = fn("push_" + n, V, T, V)
        t.upd = fn("upd_" + n, V, I, T, V)
        t.fill = fn("fill_" + n, I, T, V)
        t.resize = fn("resize_" + n, V, I, T, V)
        v = Const("vv", V); x = Const("xx", T); i, j = Ints("i j")
        xok = (x >= 0) if T == I else BoolVal(True)
        for a in [forall([v], t.len(v) >= 0, t.len(v)), t.len(t.empty) == 0,
                  forall([v], Implies(t.len(v) == 0, v == t.empty), t.len(v))]: axiom(a, n)
        P = t.push(v, x)
        for a in [forall([v, x], t.len(P) == t.len(v) + 1, P),
                  forall([v, x, j], Implies(xok, t.at(P, j) == If(j == t.len(v), x, t.at(v, j))), t.at(P, j))]: axiom(a, t.push)
        P = t.upd(v, i, x)
        for a in [forall([v, i, x], t.len(P) == t.len(v), P),
                  forall([v, i, x, j], Implies(And(0 <= i, i < t.len(v), xok), t.at(P, j) == If(j == i, x, t.at(v, j))), t.at(P, j))]: axiom(a, t.upd)
        P = t.fill(i, x)
        for a in [forall([i, x], Implies(i >= 0, t.len(P) == i), P),
                  forall([i, x, j], Implies(And(0 <= j, j < i, xok), t.at(P, j) == x), t.at(P, j))]: axiom(a, t.fill)
        P = t.resize(v, i, x)
        for a in [forall([v, i, x], Implies(i >= 0, t.len(P) == i), P),
                  forall([v, i, x, j], Implies(And(0 <= j, j < i, xok), t.at(P, j) == If(j < t.len(v), t.at(v, j), x)), t.at(P, j))]: axiom(a, t.resize)
        t.prefix = fn("prefix_" + n, V, I, V); P = t.prefix(v, i)
        for a in [forall([v, i], Implies(And(0 <= i, i <= t.len(v)), t.len(P) == i), P),
                  forall([v, i, j], Implies(And(0 <= j, j < i, i <= t.len(v)), t.at(P, j) == t.at(v, j)), t.at(P, j), [P, t.at(v, j)])]: axiom(a, t.prefix)
        if T == I:
            axiom(forall([v, j], Implies(And(0 <= j, j < t.len(v)), t.at(v, j) >= 0), t.at(v, j)), n)
_vect = {}
def vect(T):
    if T.name() not in _vect: _vect[T.name()] = VecT(T)
    return _vect[T.name()]
def vect_of(e): return vect(sort(e.sort().name()[4:]))
def is_vec(e): return isinstance(e, z3.ExprRef) and e.sort().name().startswith("Vec_")

# ---- number of stored elements of a list of rows --------------------------------
def nv(S):
    """nv(data, n) = sum of the lengths of the first n rows"""
    name = "nv_" + S.name()
    if name in _fn: return _fn[name]
    RT = rowt(S); VT = vect(RT.R)
    f = fn(name, VT.V, I, I)
    d, d2 = Consts("d d2", VT.V); n, m, i = Ints("n m i"); r = Const("r", RT.R)
    wit = fn("nvw_" + S.name(), VT.V, VT.V, I, I)
    axs = [forall([d, n], f(d, n) >= 0, f(d, n)),
           forall([d, n], Implies(n <= 0, f(d, n) == 0), f(d, n)),
           forall([d, n], Implies(n >= 0, f(d, n + 1) == f(d, n) + RT.len(VT.at(d, n))), [f(d, n), VT.at(d, n)]),
           # lemmas (proved by induction in lemmas.py)
           forall([d, n], Or(f(d, n) == 0, And(0 <= wit(d, d, n), wit(d, d, n) < n, RT.len(VT.at(d, wit(d, d, n))) > 0)), f(d, n)),
           forall([d, n, m], Implies(And(0 <= m, m < n), f(d, n) >= RT.len(VT.at(d, m))), [f(d, n), VT.at(d, m)]),
           forall([d, n, m], Implies(And(0 <= m, m < n), f(d, n) >= f(d, m) + RT.len(VT.at(d, m))), [f(d, n), f(d, m), VT.at(d, m)]),
           forall([d, i, r, n], Implies(And(0 <= i, i < n, n <= VT.len(d)), f(VT.upd(d, i, r), n) == f(d, n) - RT.len(VT.at(d, i)) + RT.len(r)), f(VT.upd(d, i, r), n)),
           forall([d, i, r, n], Implies(And(0 <= i, n <= i, i < VT.len(d)), f(VT.upd(d, i, r), n) == f(d, n)), f(VT.upd(d, i, r), n)),
           forall([d, d2, n], Or(f(d, n) == f(d2, n), And(0 <= wit(d, d2, n), wit(d, d2, n) < n, RT.len(VT.at(d, wit(d, d2, n))) != RT.len(VT.at(d2, wit(d, d2, n))))), [f(d, n), f(d2, n)]),
           forall([i, n], Implies(And(0 <= n, n <= i), f(VT.fill(i, RT.empty), n) == 0), f(VT.fill(i, RT.empty), n)),
           forall([d, i, r, n], Implies(And(0 <= n, n <= i, Or(n <= VT.len(d), RT.len(r) == 0)), f(VT.resize(d, i, r), n) == f(d, If(n <= VT.len(d), n, VT.len(d)))), f(VT.resize(d, i, r), n)),
           ]
    for a in axs: axiom(a, f)
    return f

# ---- prover -------------------------------------------------------------------
def symbols(e, out, seen):
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
            for j in range(x.num_patterns()): st.append(x.pattern(j))
            for j in range(x.num_vars()): out.add(x.var_sort(j).name())
        elif z3.is_app(x):
            out.add(x.decl().name()); out.add(x.sort().name())
            st.extend(x.children())
    return out

_axsym = {}
def closure(exprs):
    todo = set(); seen = set()
    for e in exprs: symbols(e, todo, seen)
    done = set(); axs = []; axset = set()
    while todo:
        s = todo.pop()
        if s in done: continue
        done.add(s)
        for a in AX.get(s, ()):
            i = a.get_id()
            if i in axset: continue
            axset.add(i); axs.append(a)
            if i not in _axsym: _axsym[i] = (a, symbols(a, set(), set()))
            todo |= _axsym[i][1] - done
    axs.sort(key=lambda a: _axseq[a.get_id()])
    if SHUF:
        import random; random.Random(SHUF).shuffle(axs)
    return axs
import os as _os
SHUF = int(_os.environ.get("GVSHUF", "0"))     # robustness experiments: other axiom orders

EXT_HOOKS = []   # extra goal-directed instances
def ext_instances(goal, hyps=()):
    """instances of extensionality / definition axioms for the atoms of the goal"""
    out = []; seen = set(); st = [goal]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): continue
        if not z3.is_app(x): continue
        ch = x.children()
        if z3.is_eq(x) or z3.is_distinct(x):
            a, b = ch[0], ch[1]
            sn = a.sort().name()
            if sn.startswith("Row_"):
                T = rowt_of(a); w = fresh("xk", I); u = fresh("xp", I)
                out.append(Implies(And(T.sorted(a), T.sorted(b), T.has(a, w) == T.has(b, w), Implies(T.has(a, w), T.vat(a, w) == T.vat(b, w))), a == b))
                out.append(Implies(And(T.len(a) == T.len(b), Implies(And(0 <= u, u < T.len(a)), And(T.idx(a, u) == T.idx(b, u), T.val(a, u) == T.val(b, u)))), a == b))
            elif sn.startswith("Vec_"):
                T = vect_of(a); u = fresh("xp", I)
                inner = T.at(a, u) == T.at(b, u)
                out.append(Implies(And(T.len(a) == T.len(b), Implies(And(0 <= u, u < T.len(a)), inner)), a == b))
                st.append(inner)
        else:
            nm = x.decl().name()
            if nm.startswith("sorted_Row_"):
                T = rowt_of(ch[0]); r = ch[0]; u, w = fresh("xp", I), fresh("xq", I)
                out.append(Implies(Implies(And(0 <= u, u < w, w < T.len(r)), T.idx(r, u) < T.idx(r, w)), T.sorted(r)))
            elif nm.startswith("inrange_Row_"):
                T = rowt_of(ch[0]); r = ch[0]; w = fresh("xk", I); u = fresh("xp", I)
                out.append(Implies(Implies(T.has(r, w), And(0 <= w, w < ch[1])), T.inrange(r, ch[1])))
                out.append(Implies(Implies(And(0 <= u, u < T.len(r)), T.idx(r, u) < ch[1]), T.inrange(r, ch[1])))
            elif nm.startswith("len_Row_"):
                T = rowt_of(ch[0]); out.append(Implies(T.len(ch[0]) > 0, T.has(ch[0], T.idx(ch[0], IntVal(0)))))
            elif nm.startswith("nv_") and nm[3:] in _sorts and len(ch) == 2:
                e1 = z3.simplify(ch[1] - 1); f = x.decl(); VT = vect_of(ch[0]); RT = rowt(sort(nm[3:]))
                out.append(Implies(e1 >= 0, x == f(ch[0], e1) + RT.len(VT.at(ch[0], e1))))
            elif nm.startswith("prefix_Row_") and z3.is_int_value(ch[1]) and 1 <= ch[1].as_long() <= 4:
                T = rowt_of(ch[0]); r = ch[0]
                for q in range(ch[1].as_long()):
                    out.append(Implies(q < T.len(r), T.prefix(r, IntVal(q + 1)) == T.push(T.prefix(r, IntVal(q)), T.idx(r, IntVal(q)), T.val(r, IntVal(q)))))
        st.extend(ch)
    for h in EXT_HOOKS: out.extend(h(goal, hyps))
    return out

STATS = dict(queries=0, time=0.0)
import time as _time
def mk_solver(timeout):
    s = z3.SimpleSolver()
    s.set("timeout", int(timeout)); s.set("smt.mbqi", False); s.set("smt.auto_config", False)
    s.set("smt.qi.eager_threshold", 60.0); s.set("smt.random_seed", 7)
    return s

def portfolio(fs, timeout, seeds=(7, 1, 2, 3)):
    """is the conjunction unsatisfiable?  several seeds while z3 saturates quickly"""
    axs = closure(fs)
    for sd in seeds:
        t0 = _time.time(); s = mk_solver(timeout); s.set("smt.random_seed", sd)
        s.add(*axs); s.add(*fs); r = s.check(); dt = _time.time() - t0
        STATS["queries"] += 1; STATS["time"] += dt
        if r == z3.unsat: return True
        if r == z3.sat or dt > 0.35: return False
    return False

def decompose(goal):
    """-> list of (extra hyps, atomic goal)"""
    if z3.is_and(goal):
        r = []
        for c in goal.children(): r += decompose(c)
        return r
    if z3.is_implies(goal):
        h, g = goal.children()
        return [([h] + e, x) for e, x in decompose(g)]
    if z3.is_quantifier(goal) and goal.is_forall():
        cs = [fresh("sk_" + goal.var_name(i), goal.var_sort(i)) for i in range(goal.num_vars())]
        b = z3.substitute_vars(goal.body(), *reversed(cs))
        return decompose(b)
    return [([], goal)]

def check(hyps, goal, timeout=4000, seeds=(7, 1, 2, 3)):
    """-> 'proved' / 'unknown' / 'sat'"""
    if z3.is_true(goal): return "proved"
    for extra, g in decompose(goal):
        ext = ext_instances(g, hyps)
        if not portfolio(list(hyps) + extra + ext + [Not(g)], timeout, seeds): return "unknown"
    return "proved"


def explain(hyps, goal):
    for extra, g in decompose(goal):
        if z3.is_eq(g) and is_row(g.arg(0)):
            a, b = g.arg(0), g.arg(1); T = rowt_of(a); w = fresh("dk", I)
            for nm, f in [("sorted l", T.sorted(a)), ("sorted r", T.sorted(b)), ("has", T.has(a, w) == T.has(b, w)), ("has->", Implies(T.has(a, w), T.has(b, w))), ("has<-", Implies(T.has(b, w), T.has(a, w))),
                          ("vat", Implies(And(T.has(a, w), T.has(b, w)), T.vat(a, w) == T.vat(b, w)))]:
                print("     ", nm, check(list(hyps) + extra, f, 3000))
