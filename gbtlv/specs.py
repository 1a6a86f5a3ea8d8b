"""Specification functions.  Each is an uninterpreted function with defining
axioms (explicit triggers).  Recursive folds come with lemma axioms, which
lemmas.py proves by induction from the defining equations."""
import z3
from z3 import And, Or, Not, Implies, If, ForAll, Consts, Const, Ints, Int, IntVal, BoolVal
import theory as th
from theory import rowt, vect, sort, I, B, fn, forall, axiom, nv

_made = {}
LEMMAS = []      # (name, axiom) : induction lemmas, proved in lemmas.py
def once(key, mk):
    if key not in _made: _made[key] = mk()
    return _made[key]

class Op:
    """a binary/unary scalar function: name, argument sorts, result sort, python function"""
    def __init__(s, name, f, res): s.name = name; s.f = f; s.res = res
    def __call__(s, *a): return s.f(*a)

def opname(t): return t.split("::")[-1].split("<")[0] if "<" not in t else t.replace("::", ".")

def cv(x, S): return th.conv(x.sort(), S)(x)

def _comp(name, sorts, S, h, v, inr=True):
    """row comprehension: C(params.., n) holds key k iff 0<=k<n and h(params,k); value v(params,k)"""
    def mk():
        T = rowt(S); f = fn(name, *(list(sorts) + [I, T.R]))
        ps = [Const("c%d" % i, s) for i, s in enumerate(sorts)]; n, k = Ints("n k")
        C = f(*(ps + [n]))
        hh = h(*(ps + [k]))
        for a in [forall(ps + [n], T.sorted(C), C),
                  forall(ps + [n, k], T.has(C, k) == And(0 <= k, k < n, hh), T.has(C, k)),
                  forall(ps + [n, k], Implies(And(0 <= k, k < n, hh), T.vat(C, k) == v(*(ps + [k]))), T.vat(C, k)),
                  forall(ps + [n, k], Implies(n <= k, T.inrange(C, k)), T.inrange(C, k))]:
            axiom(a, f)
        return f
    return once(name, mk)

# ---- element-wise union / intersection -------------------------------------------
def EOR(op, D1, D2, D3):
    """union: op on both, conversion of the single one"""
    name = "EOR_%s_%s_%s_%s" % (op.name, D1, D2, D3)
    def mk():
        A, Bt, T = rowt(D1), rowt(D2), rowt(D3)
        f = fn(name, A.R, Bt.R, T.R); a = Const("a", A.R); b = Const("b", Bt.R); k, m = Ints("k m")
        C = f(a, b); ok = And(A.sorted(a), Bt.sorted(b))
        for x in [forall([a, b], Implies(ok, T.sorted(C)), C),
                  forall([a, b, k], Implies(ok, T.has(C, k) == Or(A.has(a, k), Bt.has(b, k))), T.has(C, k)),
                  forall([a, b, k], Implies(ok, T.vat(C, k) == If(A.has(a, k), If(Bt.has(b, k), cv(op(A.vat(a, k), Bt.vat(b, k)), D3), cv(A.vat(a, k), D3)),
                                                                   If(Bt.has(b, k), cv(Bt.vat(b, k), D3), T.vat(C, k)))), T.vat(C, k)),
                  forall([a, b, m], Implies(And(ok, A.inrange(a, m), Bt.inrange(b, m)), T.inrange(C, m)), T.inrange(C, m))]:
            axiom(x, f)
        return f
    return once(name, mk)

def EAND(op, D1, D2, D3):
    name = "EAND_%s_%s_%s_%s" % (op.name, D1, D2, D3)
    def mk():
        A, Bt, T = rowt(D1), rowt(D2), rowt(D3)
        f = fn(name, A.R, Bt.R, T.R); a = Const("a", A.R); b = Const("b", Bt.R); k, m = Ints("k m")
        C = f(a, b); ok = And(A.sorted(a), Bt.sorted(b))
        for x in [forall([a, b], Implies(ok, T.sorted(C)), C),
                  forall([a, b, k], Implies(ok, T.has(C, k) == And(A.has(a, k), Bt.has(b, k))), T.has(C, k)),
                  forall([a, b, k], Implies(And(ok, A.has(a, k), Bt.has(b, k)), T.vat(C, k) == cv(op(A.vat(a, k), Bt.vat(b, k)), D3)), T.vat(C, k)),
                  forall([a, b, m], Implies(And(ok, A.inrange(a, m)), T.inrange(C, m)), T.inrange(C, m)),
                  forall([a, b, m], Implies(And(ok, Bt.inrange(b, m)), T.inrange(C, m)), T.inrange(C, m))]:
            axiom(x, f)
        return f
    return once(name, mk)

def MAP(name, D1, D2, g, extra=()):
    """g(value, *extra params)"""
    name = "MAP_%s_%s_%s" % (name, D1, D2)
    def mk():
        A, T = rowt(D1), rowt(D2)
        f = fn(name, *([A.R] + list(extra) + [T.R])); a = Const("a", A.R); k, m, p = Ints("k m p")
        xs = [Const("x%d" % i, s) for i, s in enumerate(extra)]
        C = f(a, *xs); vs = [a] + xs
        for x in [forall(vs, T.len(C) == A.len(a), C),
                  forall(vs + [p], Implies(And(0 <= p, p < A.len(a)), And(T.idx(C, p) == A.idx(a, p))), T.idx(C, p)),
                  forall(vs + [p], Implies(And(0 <= p, p < A.len(a)), And(T.val(C, p) == g(A.val(a, p), *xs))), T.val(C, p)),
                  forall(vs, T.sorted(C) == A.sorted(a), T.sorted(C)),
                  forall(vs + [k], T.has(C, k) == A.has(a, k), T.has(C, k)),
                  forall(vs + [k], Implies(And(A.sorted(a), A.has(a, k)), T.vat(C, k) == g(A.vat(a, k), *xs)), T.vat(C, k)),
                  forall(vs + [m], T.inrange(C, m) == A.inrange(a, m), T.inrange(C, m))]:
            axiom(x, f)
        return f
    return once(name, mk)

def CONVROW(D1, D2):
    """conversion of a row, identity when the types agree"""
    if D1 == D2: return lambda a: a
    return MAP("conv", D1, D2, lambda v: cv(v, D2))
def UMAP(op, D1): return MAP(op.name, D1, op.res, lambda v: op(v))

# ---- index sequences ----------------------------------------------------------------
def MEM():
    """membership in a vector of indices"""
    def mk():
        V = vect(I); f = fn("mem_Vec_Int", V.V, I, B); w = fn("mempos", V.V, I, I)
        v = Const("v", V.V); k, p = Ints("k p")
        axiom(forall([v, p], Implies(And(0 <= p, p < V.len(v)), f(v, V.at(v, p))), V.at(v, p)), f)
        axiom(forall([v, k], Implies(f(v, k), And(0 <= w(v, k), w(v, k) < V.len(v), V.at(v, w(v, k)) == k)), f(v, k)), f)
        return f
    return once("MEM", mk)

def STENCIL(D1, D2, D3, seqsort, mem):
    """b where stored, else a outside the index set"""
    name = "STENCIL_%s_%s_%s_%s" % (D1, D2, D3, seqsort)
    def mk():
        A, Bt, T = rowt(D1), rowt(D2), rowt(D3)
        f = fn(name, A.R, Bt.R, seqsort, T.R); a = Const("a", A.R); b = Const("b", Bt.R); s = Const("s", seqsort); k, m = Ints("k m")
        C = f(a, b, s); ok = And(A.sorted(a), Bt.sorted(b))
        for x in [forall([a, b, s], Implies(ok, T.sorted(C)), C),
                  forall([a, b, s, k], Implies(ok, T.has(C, k) == Or(Bt.has(b, k), And(A.has(a, k), Not(mem(s, k))))), T.has(C, k)),
                  forall([a, b, s, k], Implies(ok, T.vat(C, k) == If(Bt.has(b, k), cv(Bt.vat(b, k), D3), If(And(A.has(a, k), Not(mem(s, k))), cv(A.vat(a, k), D3), T.vat(C, k)))), T.vat(C, k)),
                  forall([a, b, s, m], Implies(And(ok, A.inrange(a, m), Bt.inrange(b, m)), T.inrange(C, m)), T.inrange(C, m))]:
            axiom(x, f)
        return f
    return once(name, mk)

def RMEM(): return lambda s, k: And(s[0] <= k, k < s[1])
def RSTENCIL(D1, D2, D3):
    """b where stored, else a outside the range [lo,hi)"""
    name = "RSTENCIL_%s_%s_%s" % (D1, D2, D3)
    def mk():
        A, Bt, T = rowt(D1), rowt(D2), rowt(D3)
        f = fn(name, A.R, Bt.R, I, I, T.R); a = Const("a", A.R); b = Const("b", Bt.R); lo, hi, k, m = Ints("lo hi k m")
        vs = [a, b, lo, hi]; C = f(*vs); ok = And(A.sorted(a), Bt.sorted(b)); keep = And(A.has(a, k), Not(And(lo <= k, k < hi)))
        for x in [forall(vs, Implies(ok, T.sorted(C)), C),
                  forall(vs + [k], Implies(ok, T.has(C, k) == Or(Bt.has(b, k), keep)), T.has(C, k)),
                  forall(vs + [k], Implies(ok, T.vat(C, k) == If(Bt.has(b, k), cv(Bt.vat(b, k), D3), If(keep, cv(A.vat(a, k), D3), T.vat(C, k)))), T.vat(C, k)),
                  forall(vs + [m], Implies(And(ok, A.inrange(a, m), Bt.inrange(b, m)), T.inrange(C, m)), T.inrange(C, m))]:
            axiom(x, f)
        return f
    return once(name, mk)

# ---- element updates and build --------------------------------------------------------
def SETEL(S):
    """the row with element k set to v"""
    name = "SETEL_%s" % S
    def mk():
        T = rowt(S); f = fn(name, T.R, I, S, T.R); r = Const("r", T.R); k, q, n = Ints("k q n"); v = Const("v", S); P = f(r, k, v); ok = And(T.sorted(r), k >= 0)
        for x in [forall([r, k, v], Implies(ok, T.sorted(P)), P),
                  forall([r, k, v, q], Implies(ok, T.has(P, q) == Or(T.has(r, q), q == k)), T.has(P, q)),
                  forall([r, k, v, q], Implies(ok, T.vat(P, q) == If(q == k, v, If(T.has(r, q), T.vat(r, q), T.vat(P, q)))), T.vat(P, q)),
                  forall([r, k, v], Implies(ok, T.len(P) == T.len(r) + If(T.has(r, k), 0, 1)), P),
                  forall([r, k, v, n], Implies(And(ok, T.inrange(r, n), k < n), T.inrange(P, n)), T.inrange(P, n))]:
            axiom(x, f)
        return f
    return once(name, mk)
def REMEL(S):
    """the row without element k"""
    name = "REMEL_%s" % S
    def mk():
        T = rowt(S); f = fn(name, T.R, I, T.R); r = Const("r", T.R); k, q, n = Ints("k q n"); P = f(r, k); ok = T.sorted(r)
        for x in [forall([r, k], Implies(ok, T.sorted(P)), P),
                  forall([r, k, q], Implies(ok, T.has(P, q) == And(T.has(r, q), q != k)), T.has(P, q)),
                  forall([r, k, q], Implies(And(ok, T.has(r, q), q != k), T.vat(P, q) == T.vat(r, q)), T.vat(P, q)),
                  forall([r, k], Implies(ok, T.len(P) == T.len(r) - If(T.has(r, k), 1, 0)), P),
                  forall([r, k, n], Implies(And(ok, T.inrange(r, n)), T.inrange(P, n)), T.inrange(P, n))]:
            axiom(x, f)
        return f
    return once(name, mk)
def DENSE(S):
    """every position below n holds v[i]"""
    V = vect(S)
    return _comp("DENSE_%s" % S, [V.V], S, lambda v, k: BoolVal(True), lambda v, k: V.at(v, k))
def BLIST(op, S, X):
    """positions marked and values combined by the first n (index, value) pairs, in list order"""
    name = "BLIST_%s_%s_%s" % (op.name, S, X)
    def mk():
        Vi, Vx = vect(I), vect(X); H = fn("H" + name, Vi.V, I, I, B); F = fn("V" + name, Vi.V, Vx.V, I, I, S)
        a = Const("a", Vi.V); x = Const("x", Vx.V); n, k = Ints("n k")
        axiom(forall([a, n, k], Implies(n <= 0, Not(H(a, n, k))), H(a, n, k)), H)
        axiom(forall([a, n, k], Implies(n >= 0, H(a, n + 1, k) == Or(H(a, n, k), Vi.at(a, n) == k)), [H(a, n + 1, k), Vi.at(a, n)], [H(a, n, k), Vi.at(a, n)]), H)
        axiom(forall([a, x, n, k], Implies(n >= 0, F(a, x, n + 1, k) == If(Vi.at(a, n) == k, If(H(a, n, k), cv(op(F(a, x, n, k), Vx.at(x, n)), S), cv(Vx.at(x, n), S)), F(a, x, n, k))), [F(a, x, n + 1, k), Vi.at(a, n)], [F(a, x, n, k), Vi.at(a, n)], [F(a, x, n, k), Vi.at(a, n)]), F)
        return H, F
    return once(name, mk)
def VBLD(op, S, X):
    """contents of a vector built from the first n (index, value) pairs"""
    Vi, Vx = vect(I), vect(X); H, F = BLIST(op, S, X)
    return _comp("VBLD_%s_%s_%s" % (op.name, S, X), [Vi.V, Vx.V, I], S, lambda a, x, n, k: H(a, n, k), lambda a, x, n, k: F(a, x, n, k))
def MLIST(op, S, X):
    name = "MLIST_%s_%s_%s" % (op.name, S, X)
    def mk():
        Vi, Vx = vect(I), vect(X); H = fn("H" + name, Vi.V, Vi.V, I, I, I, B); F = fn("V" + name, Vi.V, Vi.V, Vx.V, I, I, I, S)
        a, b = Const("a", Vi.V), Const("b", Vi.V); x = Const("x", Vx.V); n, r, k = Ints("n r k"); here = And(Vi.at(a, n) == r, Vi.at(b, n) == k)
        axiom(forall([a, b, n, r, k], Implies(n <= 0, Not(H(a, b, n, r, k))), H(a, b, n, r, k)), H)
        axiom(forall([a, b, n, r, k], Implies(n >= 0, H(a, b, n + 1, r, k) == Or(H(a, b, n, r, k), here)), [H(a, b, n + 1, r, k), Vi.at(a, n)], [H(a, b, n, r, k), Vi.at(a, n)]), H)
        axiom(forall([a, b, x, n, r, k], Implies(n >= 0, F(a, b, x, n + 1, r, k) == If(here, If(H(a, b, n, r, k), cv(op(F(a, b, x, n, r, k), Vx.at(x, n)), S), cv(Vx.at(x, n), S)), F(a, b, x, n, r, k))), [F(a, b, x, n + 1, r, k), Vi.at(a, n)], [F(a, b, x, n, r, k), Vi.at(a, n)]), F)
        return H, F
    return once(name, mk)
def MBLD(op, S, X):
    """row r of a matrix built from the first n (row, column, value) triples, over c columns"""
    Vi, Vx = vect(I), vect(X); H, F = MLIST(op, S, X)
    return _comp("MBLD_%s_%s_%s" % (op.name, S, X), [Vi.V, Vi.V, Vx.V, I, I], S, lambda a, b, x, n, r, k: H(a, b, n, r, k), lambda a, b, x, n, r, k: F(a, b, x, n, r, k))

# ---- mask ------------------------------------------------------------------------------
MERGE, REPLACE = IntVal(0), IntVal(1)     # replaced by the values of OutputControlEnum when the AST is loaded
def enabled(M):
    RT = rowt(M)
    def en(m, k): return And(RT.has(m, k), th.tobool(M)(RT.vat(m, k)))
    return en
def MW(C_, Z_, M_):
    """masked write of z over c; outp as integer"""
    name = "MW_%s_%s_%s" % (C_, Z_, M_)
    def mk():
        A, Z, M = rowt(C_), rowt(Z_), rowt(M_)
        f = fn(name, A.R, Z.R, M.R, I, A.R); c = Const("c", A.R); z = Const("z", Z.R); m = Const("m", M.R); o, k, n = Ints("o k n")
        W = f(c, z, m, o); ok = And(A.sorted(c), Z.sorted(z), M.sorted(m)); en = enabled(M_)
        for x in [forall([c, z, m, o], Implies(ok, A.sorted(W)), W),
                  forall([c, z, m, o, k], Implies(ok, A.has(W, k) == If(en(m, k), Z.has(z, k), And(o == MERGE, A.has(c, k)))), A.has(W, k)),
                  forall([c, z, m, o, k], Implies(ok, A.vat(W, k) == If(And(en(m, k), Z.has(z, k)), cv(Z.vat(z, k), C_), If(And(Not(en(m, k)), o == MERGE, A.has(c, k)), A.vat(c, k), A.vat(W, k)))), A.vat(W, k)),
                  forall([c, z, m, o, n], Implies(And(ok, A.inrange(c, n), Or(M.inrange(m, n), Z.inrange(z, n))), A.inrange(W, n)), A.inrange(W, n))]:
            axiom(x, f)
        return f
    return once(name, mk)
def CMPL(M_):
    """complement of a value mask: true exactly where the mask does not hold a stored true"""
    M = rowt(M_); en = enabled(M_)
    return _comp("CMPL_%s" % M_, [M.R], B, lambda m, k: Not(en(m, k)), lambda m, k: BoolVal(True))
def SCMPL(M_):
    M = rowt(M_)
    return _comp("SCMPL_%s" % M_, [M.R], B, lambda m, k: Not(M.has(m, k)), lambda m, k: BoolVal(True))
def STRUCT(M_): return MAP("struct", sort(str(M_)), B, lambda v: BoolVal(True))

# ---- bitmap vectors ---------------------------------------------------------------------
def CONT(S):
    """contents of a bitmap vector as a row"""
    V, Bv = vect(S), vect(B)
    new = "CONT_%s" % S not in _made
    f = _comp("CONT_%s" % S, [Bv.V, V.V], S, lambda b, v, k: Bv.at(b, k), lambda b, v, k: V.at(v, k))
    if new:
        T = rowt(S); b = Const("b", Bv.V); v = Const("v", V.V); n, k = Ints("n k")
        axiom(forall([b, v, n, k], Implies(And(0 <= k, k < n, Bv.at(b, k)), T.vat(f(b, v, n), k) == V.at(v, k)), [f(b, v, n), V.at(v, k)]), f)
        axiom(forall([b, v, n, k], T.has(f(b, v, n), k) == And(0 <= k, k < n, Bv.at(b, k)), [f(b, v, n), Bv.at(b, k)]), f)
    return f
def CONTPOS(S):
    """lemma: the position of a stored element is the number of set bits before it"""
    V, Bv, T = vect(S), vect(B), rowt(S); b = Const("b", Bv.V); v = Const("v", V.V); n, k = Ints("n k"); C = CONT(S)(b, v, n)
    l = And(forall([b, v, n], Implies(n >= 0, T.len(C) == BCNT()(b, n)), C),
            forall([b, v, n, k], Implies(T.has(C, k), T.pos(C, k) == BCNT()(b, k)), T.has(C, k), T.pos(C, k)))
    if ("CONTPOS_%s" % S) not in _made: _made["CONTPOS_%s" % S] = l; LEMMAS.append(("CONTPOS_%s" % S, l))
    return l
def BCNT():
    """number of set bits among the first n"""
    def mk():
        V = vect(B); f = fn("bcnt", V.V, I, I); b = Const("b", V.V); n, i, m = Ints("n i m"); x = z3.Bool("x")
        b2 = Const("b2", V.V); w = fn("bcntw", V.V, V.V, I, I)
        for a in [forall([b, n], And(f(b, n) >= 0, Implies(n >= 0, f(b, n) <= n), Implies(n <= 0, f(b, n) == 0)), f(b, n)),
                  forall([b, n], Implies(n >= 0, f(b, n + 1) == f(b, n) + If(V.at(b, n), 1, 0)), [f(b, n), V.at(b, n)]),
                  forall([b, i, x, n], Implies(And(0 <= i, i < n, n <= V.len(b)), f(V.upd(b, i, x), n) == f(b, n) - If(V.at(b, i), 1, 0) + If(x, 1, 0)), f(V.upd(b, i, x), n)),
                  forall([b, i, x, n], Implies(And(0 <= i, n <= i, i < V.len(b)), f(V.upd(b, i, x), n) == f(b, n)), f(V.upd(b, i, x), n)),
                  forall([b, n, m], Implies(And(0 <= m, m < n, V.at(b, m)), f(b, n) >= 1), [f(b, n), V.at(b, m)]),
                  forall([b, b2, n], Or(f(b, n) == f(b2, n), And(0 <= w(b, b2, n), w(b, b2, n) < n, V.at(b, w(b, b2, n)) != V.at(b2, w(b, b2, n)))), [f(b, n), f(b2, n)]),
                  forall([b, n, m], Implies(And(0 <= m, m < n), f(b, n) >= f(b, m) + If(V.at(b, m), 1, 0)), [f(b, n), f(b, m), V.at(b, m)]),
                  forall([b, n], Or(n < 0, f(b, n) == n, And(0 <= w(b, b, n), w(b, b, n) < n, Not(V.at(b, w(b, b, n))))), f(b, n)),
                  forall([b, i, x, n], Implies(And(0 <= n, n <= i), f(V.resize(b, i, x), n) == If(n <= V.len(b), f(b, n), f(b, V.len(b)) + If(x, n - V.len(b), 0))), f(V.resize(b, i, x), n)),
                  forall([i, x, n], Implies(And(0 <= n, n <= i), f(V.fill(i, x), n) == If(x, n, 0)), f(V.fill(i, x), n))]:
            axiom(a, f)
        return f
    return once("bcnt", mk)

# ---- row updates of the products ----------------------------------------------------------
def AXPY(sr, C_, A_, B_):
    """c + a*b ; sr has .add .mult (python functions)"""
    name = "AXPY_%s_%s_%s_%s" % (sr.name, C_, A_, B_)
    def mk():
        C, Bt = rowt(C_), rowt(B_)
        f = fn(name, C.R, A_, Bt.R, C.R); c = Const("c", C.R); a = Const("a", A_); b = Const("b", Bt.R); k, n = Ints("k n")
        W = f(c, a, b); ok = And(C.sorted(c), Bt.sorted(b)); t = sr.mult(a, Bt.vat(b, k))
        for x in [forall([c, a, b], Implies(ok, C.sorted(W)), W),
                  forall([c, a, b, k], Implies(ok, C.has(W, k) == Or(C.has(c, k), Bt.has(b, k))), C.has(W, k)),
                  forall([c, a, b, k], Implies(ok, C.vat(W, k) == If(Bt.has(b, k), If(C.has(c, k), cv(sr.add(C.vat(c, k), t), C_), cv(t, C_)), If(C.has(c, k), C.vat(c, k), C.vat(W, k)))), C.vat(W, k)),
                  forall([c, a, b, n], Implies(And(ok, C.inrange(c, n), Bt.inrange(b, n)), C.inrange(W, n)), C.inrange(W, n))]:
            axiom(x, f)
        return f
    return once(name, mk)

def EN(M_):
    """write permission under the mask flags: k may be written"""
    R = rowt(M_)
    return lambda m, s, c, k: And(R.has(m, k), Or(s, th.tobool(M_)(R.vat(m, k)))) != c
def MAXPY(sr, C_, M_, A_, B_):
    """c + a*b where the mask permits"""
    name = "MAXPY_%s_%s_%s_%s_%s" % (sr.name, C_, M_, A_, B_)
    def mk():
        C, Bt, M = rowt(C_), rowt(B_), rowt(M_)
        f = fn(name, C.R, M.R, B, B, A_, Bt.R, C.R); c = Const("c", C.R); m = Const("m", M.R); a = Const("a", A_); b = Const("b", Bt.R); k, n = Ints("k n"); s, g = z3.Bools("s g")
        W = f(c, m, s, g, a, b); ok = And(C.sorted(c), Bt.sorted(b), M.sorted(m)); t = sr.mult(a, Bt.vat(b, k)); hit = And(Bt.has(b, k), EN(M_)(m, s, g, k)); vs = [c, m, s, g, a, b]
        for x in [forall(vs, Implies(ok, C.sorted(W)), W),
                  forall(vs + [k], Implies(ok, C.has(W, k) == Or(C.has(c, k), hit)), C.has(W, k)),
                  forall(vs + [k], Implies(ok, C.vat(W, k) == If(hit, If(C.has(c, k), cv(sr.add(C.vat(c, k), t), C_), cv(t, C_)), If(C.has(c, k), C.vat(c, k), C.vat(W, k)))), C.vat(W, k)),
                  forall(vs + [n], Implies(And(ok, C.inrange(c, n), Bt.inrange(b, n)), C.inrange(W, n)), C.inrange(W, n))]:
            axiom(x, f)
        return f
    return once(name, mk)
def MACC(op, Z_, M_, C_, T_):
    """t, combined with c by op where both are stored, plus c where the mask permits"""
    name = "MACC_%s_%s_%s_%s_%s" % (op.name, Z_, M_, C_, T_)
    def mk():
        Z, M, C, T = rowt(Z_), rowt(M_), rowt(C_), rowt(T_)
        f = fn(name, M.R, B, B, C.R, T.R, Z.R); m = Const("m", M.R); c = Const("c", C.R); t = Const("t", T.R); k, n = Ints("k n"); s, g = z3.Bools("s g")
        vs = [m, s, g, c, t]; W = f(*vs); ok = And(C.sorted(c), T.sorted(t), M.sorted(m)); keep = And(C.has(c, k), EN(M_)(m, s, g, k))
        for x in [forall(vs, Implies(ok, Z.sorted(W)), W),
                  forall(vs + [k], Implies(ok, Z.has(W, k) == Or(T.has(t, k), keep)), Z.has(W, k)),
                  forall(vs + [k], Implies(ok, Z.vat(W, k) == If(T.has(t, k), If(C.has(c, k), cv(op(C.vat(c, k), T.vat(t, k)), Z_), cv(T.vat(t, k), Z_)), If(keep, cv(C.vat(c, k), Z_), Z.vat(W, k)))), Z.vat(W, k)),
                  forall(vs + [n], Implies(And(ok, C.inrange(c, n), T.inrange(t, n)), Z.inrange(W, n)), Z.inrange(W, n))]:
            axiom(x, f)
        return f
    return once(name, mk)
def MMERGE(C_, M_, Z_):
    """z, plus ci where the mask does not permit a write"""
    name = "MMERGE_%s_%s_%s" % (C_, M_, Z_)
    def mk():
        C, M, Z = rowt(C_), rowt(M_), rowt(Z_)
        f = fn(name, M.R, B, B, C.R, Z.R, C.R); m = Const("m", M.R); c = Const("c", C.R); z = Const("z", Z.R); k, n = Ints("k n"); s, g = z3.Bools("s g")
        vs = [m, s, g, c, z]; W = f(*vs); ok = And(C.sorted(c), Z.sorted(z), M.sorted(m)); keep = And(C.has(c, k), Not(EN(M_)(m, s, g, k)))
        for x in [forall(vs, Implies(ok, C.sorted(W)), W),
                  forall(vs + [k], Implies(ok, C.has(W, k) == Or(Z.has(z, k), keep)), C.has(W, k)),
                  forall(vs + [k], Implies(ok, C.vat(W, k) == If(Z.has(z, k), cv(Z.vat(z, k), C_), If(keep, C.vat(c, k), C.vat(W, k)))), C.vat(W, k)),
                  forall(vs + [n], Implies(And(ok, C.inrange(c, n), Z.inrange(z, n)), C.inrange(W, n)), C.inrange(W, n))]:
            axiom(x, f)
        return f
    return once(name, mk)

def DOT(sr, A_, B_, T_):
    """(has, value) of the semiring sum over the common keys, in increasing key order"""
    name = "DOT_%s_%s_%s_%s" % (sr.name, A_, B_, T_)
    def mk():
        A, Bt = rowt(A_), rowt(B_)
        H = fn("H" + name, A.R, Bt.R, B); V = fn("V" + name, A.R, Bt.R, T_)
        a = Const("a", A.R); b = Const("b", Bt.R); p, k = Ints("p k")
        # definition: recursion over the stored elements of a, in order
        x_ = Const("x", A_); y_ = Const("y", B_); 
        def rec(C, h, v, cond, hit, t):
            return Implies(cond, And(H(*C) == Or(h, hit), Implies(H(*C), V(*C) == If(hit, If(h, cv(sr.add(v, t), T_), cv(t, T_)), v))))
        PA = A.push(a, k, x_); PB = Bt.push(b, k, y_)
        da = rec((PA, b), H(a, b), V(a, b), And(A.sorted(PA), Bt.sorted(b)), Bt.has(b, k), sr.mult(x_, Bt.vat(b, k)))
        d = [forall([b], Not(H(A.empty, b)), H(A.empty, b)),
             forall([a, b, k, x_], da, H(PA, b), V(PA, b))]
        # lemmas: the same recursion over the stored elements of b; no common key -> nothing
        db = rec((a, PB), H(a, b), V(a, b), And(A.sorted(a), Bt.sorted(PB)), A.has(a, k), sr.mult(A.vat(a, k), y_))
        wit = fn("W" + name, A.R, Bt.R, I)
        l = [forall([a], Not(H(a, Bt.empty)), H(a, Bt.empty)),
             forall([a, b, k, y_], db, H(a, PB), V(a, PB)),
             forall([a, b], Implies(And(A.sorted(a), Bt.sorted(b)), Implies(H(a, b), And(A.has(a, wit(a, b)), Bt.has(b, wit(a, b))))), H(a, b)),
             forall([a, b, k], Implies(And(A.sorted(a), Bt.sorted(b), A.has(a, k), Bt.has(b, k)), H(a, b)), [H(a, b), A.has(a, k), Bt.has(b, k)]),
             ]
        for x in d: axiom(x, H); axiom(x, V)
        for x in l: axiom(x, H); axiom(x, V); LEMMAS.append((name, x))
        return H, V
    return once(name, mk)

def FOLD(op, A_):
    """fold of the stored values in order, in the operator's domain; the first value is converted"""
    T_ = op.res
    name = "FOLD_%s_%s_%s" % (op.name, A_, T_)
    def mk():
        A = rowt(A_); f = fn(name, A.R, T_); a = Const("a", A.R); k = Int("k"); x = Const("x", A_); P = A.push(a, k, x)
        axiom(forall([a, k, x], f(P) == If(A.len(a) == 0, cv(x, T_), cv(op(f(a), x), T_)), f(P)), f)
        return f
    return once(name, mk)

# ---- extraction by index lists -------------------------------------------------------------
def IOTA():
    """the index vector b, b+1, .., e-1"""
    def mk():
        V = vect(I); f = fn("iota", I, I, V.V); b, e, k = Ints("b e k")
        axiom(forall([b, e], Implies(b <= e, V.len(f(b, e)) == e - b), f(b, e)), f)
        axiom(forall([b, e, k], V.at(f(b, e), k) == b + k, V.at(f(b, e), k)), f)
        mem, pos = MEM(), th.fn("mempos", V.V, I, I)
        axiom(forall([b, e, k], Implies(b <= e, And(mem(f(b, e), k) == And(b <= k, k < e), Implies(And(b <= k, k < e), pos(f(b, e), k) == k - b))), mem(f(b, e), k)), f)
        return f
    return once("IOTA", mk)
# ---- assignment by index lists ---------------------------------------------------------------
def NODUP():
    """no index occurs twice"""
    def mk():
        V = vect(I); f = fn("nodup", V.V, B); v = Const("v", V.V); p = Int("p"); MEM(); pos = th.fn("mempos", V.V, I, I)
        axiom(forall([v, p], Implies(And(f(v), 0 <= p, p < V.len(v)), pos(v, V.at(v, p)) == p), [f(v), V.at(v, p)]), f)
        return f
    return once("NODUP", mk)
def MEMPRE():
    """k is one of the first n indices"""
    def mk():
        V = vect(I); f = fn("mempre", V.V, I, I, B); w = fn("mempre_w", V.V, I, I, I); v = Const("v", V.V); n, k, p = Ints("n k p"); mem = MEM()
        for a in [forall([v, n, k, p], Implies(And(0 <= p, p < n), Implies(V.at(v, p) == k, f(v, n, k))), [f(v, n, k), V.at(v, p)]),
                  forall([v, n, k], Implies(f(v, n, k), And(0 <= w(v, n, k), w(v, n, k) < n, V.at(v, w(v, n, k)) == k)), f(v, n, k)),
                  forall([v, n, k], Implies(n >= V.len(v), Implies(mem(v, k), f(v, n, k))), f(v, n, k)),
                  forall([v, n, k], Implies(n <= V.len(v), Implies(f(v, n, k), mem(v, k))), f(v, n, k))]: axiom(a, f)
        return f
    return once("MEMPRE", mk)
def OI():
    """the pairs (index, position) of a list without repeated indices, by index"""
    def mk():
        V = vect(I); T = rowt(I); f = fn("OI", V.V, T.R); v = Const("v", V.V); k, n = Ints("k n"); mem = MEM(); nd = NODUP(); pos = th.fn("mempos", V.V, I, I); w = fn("OI_w", V.V, I, I)
        for a in [forall([v], Implies(nd(v), And(T.sorted(f(v)), T.len(f(v)) == V.len(v))), f(v)),
                  forall([v, k], Implies(nd(v), T.has(f(v), k) == mem(v, k)), T.has(f(v), k)),
                  forall([v, k], Implies(And(nd(v), mem(v, k)), T.vat(f(v), k) == pos(v, k)), T.vat(f(v), k)),
                  forall([v, n], Implies(nd(v), Or(T.inrange(f(v), n), And(mem(v, w(v, n)), w(v, n) >= n))), T.inrange(f(v), n))]: axiom(a, f)
        return f
    return once("OI", mk)
def SORTR(S):
    """std::sort of (index, value) pairs by index (trusted; unstable, so the values are fixed only for distinct indices)"""
    name = "SORTR_%s" % S
    def mk():
        T = rowt(S); f = fn(name, T.R, T.R); r = Const("r", T.R); k, p = Ints("k p"); a, b = fn(name + "_a", T.R, I), fn(name + "_b", T.R, I)
        for x in [forall([r], Or(T.sorted(f(r)), And(0 <= a(r), a(r) < b(r), b(r) < T.len(r), T.idx(r, a(r)) == T.idx(r, b(r)))), f(r)),
                  forall([r], T.len(f(r)) == T.len(r), f(r)),
                  forall([r, k], T.has(f(r), k) == T.has(r, k), T.has(f(r), k)),
                  forall([r, p], Implies(And(T.sorted(f(r)), 0 <= p, p < T.len(r)), T.vat(f(r), T.idx(r, p)) == T.val(r, p)), [f(r), T.idx(r, p)])]: axiom(x, f)
        return f
    return once(name, mk)
def EXPAND(S, R_):
    """key k of the pairs takes the source element at the paired position"""
    name = "EXPAND_%s_%s" % (S, R_)
    def mk():
        A, T, P = rowt(S), rowt(R_), rowt(I); f = fn(name, A.R, P.R, T.R); s = Const("s", A.R); oi = Const("oi", P.R); k, m = Ints("k m"); C = f(s, oi)
        ok = And(A.sorted(s), P.sorted(oi)); h = And(P.has(oi, k), A.has(s, P.vat(oi, k)))
        for x in [forall([s, oi], Implies(ok, T.sorted(C)), C),
                  forall([s, oi, k], Implies(ok, T.has(C, k) == h), T.has(C, k)),
                  forall([s, oi, k], Implies(And(ok, h), T.vat(C, k) == cv(A.vat(s, P.vat(oi, k)), R_)), T.vat(C, k)),
                  forall([s, oi, m], Implies(And(ok, P.inrange(oi, m)), T.inrange(C, m)), T.inrange(C, m)),
                  forall([s, oi], Implies(And(ok, A.len(s) == 0), C == T.empty), C)]: axiom(x, f)
        return f
    return once(name, mk)
def EXPT(S, R_):
    """key c of the pairs takes element i of the row at the paired position"""
    name = "EXPT_%s_%s" % (S, R_)
    def mk():
        A, T, P = rowt(S), rowt(R_), rowt(I); D_ = vect(A.R); f = fn(name, D_.V, P.R, I, T.R); D = Const("D", D_.V); oi = Const("oi", P.R); k, m, i, p = Ints("k m i p"); C = f(D, oi, i)
        row = lambda k: D_.at(D, P.vat(oi, k)); ok = P.sorted(oi); h = And(P.has(oi, k), A.has(row(k), i))
        N = f(D, P.prefix(oi, p + 1), i); O = f(D, P.prefix(oi, p), i); r = D_.at(D, P.val(oi, p))
        for x in [forall([D, oi, i], Implies(ok, T.sorted(C)), C),
                  forall([D, oi, i, k], Implies(ok, T.has(C, k) == h), T.has(C, k)),
                  forall([D, oi, i, k], Implies(And(ok, h), T.vat(C, k) == cv(A.vat(row(k), i), R_)), T.vat(C, k)),
                  forall([D, oi, i, m], Implies(And(ok, P.inrange(oi, m)), T.inrange(C, m)), T.inrange(C, m)),
                  forall([D, oi, i], Implies(P.len(oi) == 0, C == T.empty), C)]: axiom(x, f)
        l = forall([D, oi, i, p], Implies(And(ok, 0 <= p, p < P.len(oi)), N == If(A.has(r, i), T.push(O, P.idx(oi, p), cv(A.vat(r, i), R_)), O)), [O, P.idx(oi, p)], [O, P.val(oi, p)])
        axiom(l, f); LEMMAS.append((name, l))
        return f
    return once(name, mk)
def CROW(S):
    """the listed keys, all with the same value"""
    name = "CROW_%s" % S
    def mk():
        V = vect(I); T = rowt(S); f = fn(name, V.V, S, T.R); v = Const("v", V.V); x = Const("x", S); k, n = Ints("k n"); mem = MEM(); C = f(v, x); w = fn("CROW_w", V.V, I, I)
        for a in [forall([v, x], T.sorted(C), C), forall([v, x, k], T.has(C, k) == mem(v, k), T.has(C, k)), forall([v, x, k], Implies(mem(v, k), T.vat(C, k) == x), T.vat(C, k)),
                  forall([v, x, n], Or(T.inrange(C, n), And(mem(v, w(v, n)), w(v, n) >= n)), T.inrange(C, n)), forall([v, x], Implies(V.len(v) == 0, C == T.empty), C)]: axiom(a, f)
        return f
    return once(name, mk)
def XT(S, R_):
    """key k < n holds element ix[k] of the row"""
    A, T = rowt(S), rowt(R_); V = vect(I); name = "XT_%s_%s" % (S, R_); new = name not in _made
    f = _comp(name, [A.R, V.V], R_, lambda r, x, k: A.has(r, V.at(x, k)), lambda r, x, k: cv(A.vat(r, V.at(x, k)), R_))
    if new:
        r = Const("r", A.R); x = Const("x", V.V); k = Int("k")
        for l in [forall([r, x, k], Implies(k >= 0, f(r, x, k + 1) == If(A.has(r, V.at(x, k)), T.push(f(r, x, k), k, cv(A.vat(r, V.at(x, k)), R_)), f(r, x, k))), [f(r, x, k), V.at(x, k)]),
                  forall([r, x, k], Implies(k <= 0, f(r, x, k) == T.empty), f(r, x, k))]:
            axiom(l, f); LEMMAS.append((name, l))
    return f
def XC(S, R_):
    """key k < n holds element c of row ix[k]"""
    A, T = rowt(S), rowt(R_); V = vect(I); D_ = vect(A.R); name = "XC_%s_%s" % (S, R_); new = name not in _made
    f = _comp(name, [D_.V, V.V, I], R_, lambda D, x, c, k: A.has(D_.at(D, V.at(x, k)), c), lambda D, x, c, k: cv(A.vat(D_.at(D, V.at(x, k)), c), R_))
    if new:
        D = Const("D", D_.V); x = Const("x", V.V); k, c = Ints("k c"); row = D_.at(D, V.at(x, k))
        for l in [forall([D, x, c, k], Implies(k >= 0, f(D, x, c, k + 1) == If(A.has(row, c), T.push(f(D, x, c, k), k, cv(A.vat(row, c), R_)), f(D, x, c, k))), [f(D, x, c, k), V.at(x, k)]),
                  forall([D, x, c, k], Implies(k <= 0, f(D, x, c, k) == T.empty), f(D, x, c, k))]:
            axiom(l, f); LEMMAS.append((name, l))
    return f

# ---- matrices ------------------------------------------------------------------------------
def COL(S):
    """column c of a list of rows, over the first n rows"""
    RT = rowt(S); VT = vect(RT.R); new = "COL_%s" % S not in _made
    f = _comp("COL_%s" % S, [VT.V, I], S, lambda D, c, k: RT.has(VT.at(D, k), c), lambda D, c, k: RT.vat(VT.at(D, k), c))
    if new:
        D = Const("D", VT.V); c, k = Ints("c k")
        # lemma (extensionality): one more row
        x = forall([D, c, k], Implies(k >= 0, f(D, c, k + 1) == If(RT.has(VT.at(D, k), c), RT.push(f(D, c, k), k, RT.vat(VT.at(D, k), c)), f(D, c, k))), [f(D, c, k), VT.at(D, k)])
        axiom(x, f); LEMMAS.append(("COL_%s" % S, x))
        axiom(forall([D, c, k], Implies(RT.len(f(D, c, k)) > 0, RT.has(f(D, c, k), RT.idx(f(D, c, k), 0))), RT.len(f(D, c, k))), f)
        x = forall([D, c, k], Implies(k <= 0, f(D, c, k) == RT.empty), f(D, c, k))
        axiom(x, f); LEMMAS.append(("COL_%s" % S, x))
        # lemma: a column of a column-wise restriction is sorted/in range by the comprehension axioms
    return f
def PRODN(sr, A_, B_, T_):
    """row a times a matrix with rows B: key j holds a . column j, over n columns"""
    A, Bt = rowt(A_), rowt(B_); VB = vect(Bt.R); col = COL(B_); H, V = DOT(sr, A_, B_, T_)
    return _comp("PRODN_%s_%s_%s_%s" % (sr.name, A_, B_, T_), [A.R, VB.V, I], T_, lambda a, D, m, j: H(a, col(D, j, m)), lambda a, D, m, j: V(a, col(D, j, m)))
def PRODT(sr, A_, B_, T_):
    """row a times the transpose of a matrix with rows B"""
    A, Bt = rowt(A_), rowt(B_); VB = vect(Bt.R); H, V = DOT(sr, A_, B_, T_)
    return _comp("PRODT_%s_%s_%s_%s" % (sr.name, A_, B_, T_), [A.R, VB.V], T_, lambda a, D, j: H(a, VB.at(D, j)), lambda a, D, j: V(a, VB.at(D, j)))
def PRODL(sr, A_, B_, T_):
    """key j holds (column j of A) . b, over n columns of A"""
    A, Bt = rowt(A_), rowt(B_); VA = vect(A.R); col = COL(A_); H, V = DOT(sr, A_, B_, T_)
    return _comp("PRODL_%s_%s_%s_%s" % (sr.name, A_, B_, T_), [VA.V, I, Bt.R], T_, lambda D, m, b, j: H(col(D, j, m), b), lambda D, m, b, j: V(col(D, j, m), b))
def PRODR(sr, A_, B_, T_):
    """key j holds (row j of A) . b, over n rows of A"""
    A, Bt = rowt(A_), rowt(B_); VA = vect(A.R); H, V = DOT(sr, A_, B_, T_)
    return _comp("PRODR_%s_%s_%s_%s" % (sr.name, A_, B_, T_), [VA.V, Bt.R], T_, lambda D, b, j: H(VA.at(D, j), b), lambda D, b, j: V(VA.at(D, j), b))

def REDR(op, A_):
    """key r holds the fold of row r, over n rows"""
    A = rowt(A_); VA = vect(A.R); f = FOLD(op, A_)
    return _comp("REDR_%s_%s" % (op.name, A_), [VA.V], op.res, lambda D, j: A.len(VA.at(D, j)) > 0, lambda D, j: f(VA.at(D, j)))
def REDC(op, A_):
    """key j holds the fold of column j (of the first m rows), over n columns"""
    A = rowt(A_); VA = vect(A.R); f = FOLD(op, A_); col = COL(A_)
    return _comp("REDC_%s_%s" % (op.name, A_), [VA.V, I], op.res, lambda D, m, j: A.len(col(D, j, m)) > 0, lambda D, m, j: f(col(D, j, m)))
def RFOLD(op, A_):
    """x combined with the folds of the nonempty rows, in order"""
    name = "RFOLD_%s_%s" % (op.name, A_)
    def mk():
        A = rowt(A_); VA = vect(A.R); fo = FOLD(op, A_); f = fn(name, op.res, VA.V, I, op.res)
        x = Const("x", op.res); D = Const("D", VA.V); n, k = Ints("n k")
        axiom(forall([x, D], f(x, D, 0) == x, f(x, D, 0)), f)
        axiom(forall([x, D, n], Implies(n <= 0, f(x, D, n) == x), f(x, D, n)), f)
        axiom(forall([x, D, n], Implies(n >= 0, f(x, D, n + 1) == If(A.len(VA.at(D, n)) == 0, f(x, D, n), cv(op(f(x, D, n), fo(VA.at(D, n))), op.res))), [f(x, D, n), VA.at(D, n)]), f)
        # lemma: only empty rows -> x
        w = fn("W" + name, VA.V, I, I)
        l = forall([x, D, n], Or(f(x, D, n) == x, And(0 <= w(D, n), w(D, n) < n, A.len(VA.at(D, w(D, n))) > 0)), f(x, D, n))
        axiom(l, f); LEMMAS.append((name, l))
        return f
    return once(name, mk)

FOLDS = set()
def _unroll(goal, hyps):
    """one unrolling of the recursion r = push(prefix(r, len-1), last) for the row arguments of folds in the goal"""
    out = []; seen = set(); st = [goal]
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x) or not z3.is_app(x): continue
        seen.add(x.get_id())
        if x.decl().name().startswith(("FOLD_", "HDOT_", "VDOT_")):
            for r in x.children():
                if th.is_row(r) and r.num_args() == 0:
                    T = th.rowt_of(r); n = T.len(r) - 1
                    out.append(Implies(T.len(r) >= 1, r == T.push(T.prefix(r, n), T.idx(r, n), T.val(r, n))))
        st.extend(x.children())
    return out
th.EXT_HOOKS.append(_unroll)
