"""Symbolic execution of instantiated C++ functions (clang AST) into proof
obligations.  Calls to functions with a contract are checked against the
contract; all other grb:: functions are executed inline; std:: containers,
iterators and tuples are builtins with the theory in theory.py."""
import re, z3, time, sys
from z3 import And, Or, Not, Implies, If, IntVal, BoolVal, is_true, is_false
import theory as th
from theory import rowt, vect, sort, I, B, fresh, is_row, is_vec, rowt_of, vect_of
import cast as ca
sys.setrecursionlimit(20000)

class Unsupported(Exception): pass

# ------------------------------------------------------------------ types
def strip_t(t):
    t = t.strip()
    while True:
        o = t
        for q in ("const ", "class ", "struct ", "volatile ", "typename ", "enum "):
            if t.startswith(q): t = t[len(q):].strip()
        for q in (" const", "const"):
            if t.endswith(q) and (q[0] == " " or t.endswith(">const") or t.endswith("*const")): t = t[:-len(q)].strip()
        if t.endswith("&"): t = t.rstrip("&").strip()
        if t == o: return t
def split_args(s):
    out = []; d = 0; cur = ""
    for c in s:
        if c in "<([": d += 1
        if c in ">)]": d -= 1
        if c == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out
def targs(t):
    i = t.find("<")
    return split_args(t[i + 1:t.rindex(">")]) if i >= 0 else []
_INTS = {"unsigned long": True, "unsigned int": True, "unsigned": True, "unsigned char": True, "unsigned short": True, "size_t": True, "std::size_t": True,
         "IndexType": True, "grb::IndexType": True, "size_type": True, "long": False, "int": False, "short": False, "char": False, "unsigned long long": True, "long long": False,
         "difference_type": False, "ptrdiff_t": False, "std::ptrdiff_t": False, "uint64_t": True, "int64_t": False}
def kind(t):
    """classify a (desugared) type string"""
    if t is None: return ("unknown",)
    t = strip_t(t)
    if t in _INTS: return ("int", _INTS[t])
    if t == "bool" or t == "_Bool": return ("bool",)
    if t in ("void",): return ("void",)
    if t.endswith("*"): return ("ptr", t)
    m = re.match(r"^(std::|__gnu_cxx::)?(__cxx11::)?([A-Za-z_]\w*)\b", t)
    base = t.split("<")[0]
    last = base.split("::")[-1]
    if last == "vector": return ("vec", kind(targs(t)[0]))
    if last in ("tuple", "pair"): return ("tuple", [kind(a) for a in targs(t)])
    if last == "__normal_iterator" or last in ("_Bit_iterator", "_Bit_const_iterator"): return ("iter",)
    if last in ("basic_string", "string", "basic_ostringstream", "ostringstream", "basic_stringstream", "ostream", "basic_ostream"): return ("string",)
    if re.match(r"^(gv::)?S[ABCMTV]$", t): return ("opaque", t.split("::")[-1])
    if last == "IndexArrayType": return ("vec", ("int", True))
    if "OutputControlEnum" in t: return ("int", True)
    return ("struct", t)
def sort_of(k):
    if k[0] == "int": return I
    if k[0] == "bool": return B
    if k[0] == "opaque": return sort(k[1])
    if k[0] == "vec":
        e = k[1]
        if e[0] == "tuple":
            if len(e[1]) != 2 or e[1][0][0] != "int": raise Unsupported("vector of tuple %s" % (e,))
            return rowt(sort_of(e[1][1])).R
        return vect(sort_of(e)).V
    raise Unsupported("no sort for type %s" % (k,))

# ------------------------------------------------------------------ values
class LV: pass
class Loc(LV):
    __slots__ = ("id", "name", "ctype")
    def __init__(s, id, name, ctype): s.id = id; s.name = name; s.ctype = ctype
    def __repr__(s): return "Loc(%d:%s)" % (s.id, s.name)
class ElemLV(LV):
    __slots__ = ("base", "i")
    def __init__(s, base, i): s.base = base; s.i = i
    def __repr__(s): return "%r[%s]" % (s.base, s.i)
class CompLV(LV):
    __slots__ = ("base", "n")
    def __init__(s, base, n): s.base = base; s.n = n
    def __repr__(s): return "%r.%d" % (s.base, s.n)
class Obj(LV):
    """a class object; fields: name -> Loc | Obj | Ref"""
    _n = 0
    def __init__(s, tname, fields, name=""): 
        s.tname = tname; s.fields = fields; s.name = name; Obj._n += 1; s.id = Obj._n
    def __repr__(s): return "Obj(%s %s)" % (s.tname, s.name)
class Ref:
    def __init__(s, lv): s.lv = lv
    def __repr__(s): return "Ref(%r)" % (s.lv,)
class Tup:
    def __init__(s, xs): s.xs = xs
    def __repr__(s): return "Tup%r" % (s.xs,)
class Iter:
    __slots__ = ("cont", "pos", "rev")
    def __init__(s, cont, pos): s.cont = cont; s.pos = pos
    def __repr__(s): return "Iter(%r@%s)" % (s.cont, s.pos)
class Ptr:
    def __init__(s, lv): s.lv = lv
class Str:
    def __repr__(s): return "Str"
class Uninit:
    def __repr__(s): return "Uninit"
UNINIT = Uninit(); STR = Str()
class FnRef:
    def __init__(s, rd): s.rd = rd
class Bound:
    def __init__(s, obj, node): s.obj = obj; s.node = node
class Functor:
    def __init__(s, tname): s.tname = tname
    def __repr__(s): return "Functor(%s)" % s.tname
class Lambda:
    def __init__(s, node, env, this): s.node = node; s.env = env; s.this = this

def same_lv(a, b):
    if a is b: return True
    if isinstance(a, Loc) and isinstance(b, Loc): return a.id == b.id
    if isinstance(a, ElemLV) and isinstance(b, ElemLV): return same_lv(a.base, b.base) and z3.eq(z3.simplify(a.i), z3.simplify(b.i))
    if isinstance(a, CompLV) and isinstance(b, CompLV): return a.n == b.n and same_lv(a.base, b.base)
    return False
def root(lv):
    while isinstance(lv, (ElemLV, CompLV)): lv = lv.base
    return lv

class State:
    def __init__(s):
        s.store = {}; s.pc = []; s.written = set(); s.env = {}; s.this = None; s.ret = None; s.trace = ()
    def clone(s):
        t = State(); t.store = dict(s.store); t.pc = list(s.pc); t.written = set(s.written)
        t.env = dict(s.env); t.this = s.this; t.trace = s.trace
        return t
    def assume(s, f):
        if isinstance(f, bool): f = BoolVal(f)
        if z3.is_true(f): return s
        s.pc.append(f); return s

class Obl:
    def __init__(s, label, node, hyps, goal, fn, kind="post"):
        s.label = label; s.line = getattr(node, "line", None); s.file = getattr(node, "file", None)
        s.hyps = list(hyps); s.goal = goal; s.fn = fn; s.kind = kind; s.status = None; s.time = 0

PASS = {"ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ParenExpr", "ConstantExpr",
        "SubstNonTypeTemplateParmExpr", "CXXFunctionalCastExpr", "CXXRewrittenBinaryOperator"}
MAXPATHS = 400

class Engine:
    def __init__(s, index, contracts, timeout=4000, verbose=False):
        s.ix = index; s.contracts = contracts; s.timeout = timeout; s.verbose = verbose
        s.nloc = 0; s.obls = []; s.dry = 0; s.throws = []; s.calls = {}
        s.fnstack = []; s.envstack = []; s.depth = 0; s.loopstack = []; s.trace = []
        s.assumptions = set(); s.inlined = set(); s.loops_seen = 0; s.survivors = {}
        s.deadline = None; s.cur_contract = None; s.cands_used = {}
        s.strict_unsigned = True
        import os
        s.debug = os.environ.get('GVDEBUG')
    # ---- memory
    def new(s, st, val, name="", ctype=None):
        s.nloc += 1
        l = Loc(s.nloc, name, ctype)
        st.store[l.id] = val
        return l
    def read(s, st, lv, node=None):
        if isinstance(lv, Loc):
            v = st.store.get(lv.id, UNINIT)
            return v
        if isinstance(lv, Obj): return lv
        if isinstance(lv, ElemLV):
            c = s.read(st, lv.base)
            if is_row(c):
                T = rowt_of(c); return Tup([T.idx(c, lv.i), T.val(c, lv.i)])
            if is_vec(c): return vect_of(c).at(c, lv.i)
            raise Unsupported("element of %r" % (c,))
        if isinstance(lv, CompLV):
            b = s.read(st, lv.base)
            if isinstance(b, Tup):
                x = b.xs[lv.n]
                return s.rv(st, x) if isinstance(x, LV) else x
            raise Unsupported("component of %r" % (b,))
        raise Unsupported("read %r" % (lv,))
    def rv(s, st, v):
        while isinstance(v, LV) and not isinstance(v, Obj): v = s.read(st, v)
        if isinstance(v, Ref): return s.rv(st, v.lv)
        return v
    def write(s, st, lv, val, node=None):
        if isinstance(lv, Loc):
            st.store[lv.id] = val; st.written.add(lv.id); return
        if isinstance(lv, ElemLV):
            c = s.read(st, lv.base)
            if is_row(c):
                if not isinstance(val, Tup): raise Unsupported("row elem write")
                T = rowt_of(c)
                k, v = [s.rv(st, x) for x in val.xs]
                s.write(st, lv.base, T.setkv(c, lv.i, k, v)); return
            if is_vec(c):
                s.write(st, lv.base, vect_of(c).upd(c, lv.i, val)); return
            raise Unsupported("elem write %r" % (c,))
        if isinstance(lv, CompLV):
            if isinstance(lv.base, ElemLV):
                c = s.read(st, lv.base.base)
                if is_row(c):
                    T = rowt_of(c)
                    if lv.n == 1: s.write(st, lv.base.base, T.setv(c, lv.base.i, val)); return
                    if lv.n == 0: s.write(st, lv.base.base, T.setkv(c, lv.base.i, val, T.val(c, lv.base.i))); return
            b = s.read(st, lv.base)
            if isinstance(b, Tup):
                if isinstance(b.xs[lv.n], LV): s.write(st, b.xs[lv.n], val); return
                xs = list(b.xs); xs[lv.n] = val; s.write(st, lv.base, Tup(xs)); return
        raise Unsupported("write %r" % (lv,))
    def assign(s, st, lv, val, node=None):
        """assignment of value val (rvalue or lvalue) to lvalue lv"""
        if isinstance(lv, Obj):
            src = s.rv(st, val)
            if not isinstance(src, Obj): raise Unsupported("object assignment from %r" % (src,))
            s.copy_fields(st, src, lv); return
        cur = None
        if isinstance(lv, Tup):   # tie(...) = tuple
            src = s.rv(st, val)
            vals = [s.rv(st, x) for x in src.xs]
            for l, v in zip(lv.xs, vals): s.assign(st, l, s.convert_like(st, l, v))
            return
        v = s.rv(st, val)
        if isinstance(v, Tup): v = Tup([s.rv(st, x) for x in v.xs])
        s.write(st, lv, v, node)
    def convert_like(s, st, lv, v):
        """implicit conversion of v to the scalar sort of what lv holds (tie assignment)"""
        ct = getattr(root(lv), "ctype", None) if isinstance(lv, Loc) else None
        if ct:
            k = kind(ct)
            if k[0] == "opaque" and isinstance(v, z3.ExprRef) and v.sort() != sort(k[1]): return th.conv(v.sort(), sort(k[1]))(v)
            if k[0] == "bool" and isinstance(v, z3.ExprRef) and v.sort() != B: return th.tobool(v.sort())(v)
        return v
    def copy_fields(s, st, src, dst):
        for f, v in src.fields.items():
            if isinstance(v, Loc): s.write(st, dst.fields[f], s.read(st, v))
            elif isinstance(v, Obj): s.copy_fields(st, v, dst.fields[f])
    def copy_obj(s, st, src, name=""):
        fl = {}
        for f, v in src.fields.items():
            if isinstance(v, Loc): fl[f] = s.new(st, s.read(st, v), name + "." + f, v.ctype)
            elif isinstance(v, Obj): fl[f] = s.copy_obj(st, v, name + "." + f)
            else: fl[f] = v
        return Obj(src.tname, fl, name)
    # ---- obligations
    def oblige(s, st, goal, label, node, kind="safety"):
        if isinstance(goal, bool): goal = BoolVal(goal)
        if s.dry or z3.is_true(goal): return
        s.obls.append(Obl(label, node, st.pc, goal, s.fnstack[-1] if s.fnstack else "?", kind))
    def bounds(s, st, cont, i, node, what="index"):
        n = s.length(st, cont)
        s.oblige(st, And(0 <= i, i < n), "%s within bounds" % what, node)
        st.assume(And(0 <= i, i < n)) if not s.dry else None
    def length(s, st, lv_or_v):
        v = s.rv(st, lv_or_v)
        if is_row(v): return rowt_of(v).len(v)
        if is_vec(v): return vect_of(v).len(v)
        raise Unsupported("length of %r" % (v,))
    # ---- defaults
    def default(s, st, k, name="", initialised=True):
        if k[0] == "int": return IntVal(0) if initialised else UNINIT
        if k[0] == "bool": return BoolVal(False) if initialised else UNINIT
        if k[0] == "opaque": return z3.Const("default_" + k[1], sort(k[1]))
        if k[0] == "vec":
            S = sort_of(k)
            return (rowt(sort_of(k[1][1][1])).empty if k[1][0] == "tuple" else vect(sort_of(k[1])).empty)
        if k[0] == "tuple": return Tup([s.default(st, x) for x in k[1]])
        if k[0] == "string": return STR
        if k[0] == "iter": return UNINIT
        if k[0] == "ptr": return UNINIT
        raise Unsupported("default of %s" % (k,))
    def default_of_sort(s, S):
        n = S.name()
        if S == I: return IntVal(0)
        if S == B: return BoolVal(False)
        if n.startswith("Row_"): return rowt(sort(n[4:])).empty
        if n.startswith("Vec_"): return vect(sort(n[4:])).empty
        return z3.Const("default_" + n, S)
    # ---- running a function -------------------------------------------------
    def tick(s):
        if s.deadline and time.time() > s.deadline: raise Unsupported("time budget exceeded")
    def call_inline(s, st, fn, args, this, node, ctor_obj=None):
        """execute fn's body; args: list of LV/values. returns [(st, retval)]"""
        if s.depth > 40: raise Unsupported("inline depth")
        b = ca.body(fn)
        if b is None: raise Unsupported("no body for %s" % fn.name)
        s.inlined.add(ca.qualname(fn))
        saved_env, saved_this = st.env, st.this
        s.envstack.append((saved_env, saved_this))
        st.env = dict(); st.this = this
        ps = ca.params(fn)
        for i, p in enumerate(ps):
            if i < len(args): a = args[i]
            else:
                init = [c for c in p.inner if c is not None]
                if not init: raise Unsupported("missing argument")
                (st, a), = s.ev(init[-1], st)
            s.bind_param(st, p, a)
        s.depth += 1; s.fnstack.append(ca.qualname(fn))
        try:
            if ctor_obj is not None:
                outs = []
                for x in s.run_ctor_inits(st, fn, ctor_obj): outs += s.exec(b, x)
            else: outs = s.exec(b, st)
        finally:
            s.depth -= 1; s.fnstack.pop(); s.envstack.pop()
        res = []
        rettype = fn.type or ""
        for o, k, v in outs:
            o.env = saved_env; o.this = saved_this
            if k in ("normal", "return"): res.append((o, v))
            elif k == "throw": raise AssertionError
            else: raise Unsupported("outcome %s" % k)
        return res
    def bind_param(s, st, p, a):
        t = p.type or ""
        if t.rstrip().endswith("&"):
            if not isinstance(a, (LV, Tup)) or isinstance(a, Tup): a = s.new(st, a, p.name or "", p.dtype)
            st.env[p.id] = a
        else:
            st.env[p.id] = s.materialize(st, a, p.name or "", p.dtype)
    def materialize(s, st, a, name, ctype):
        """make a fresh variable holding a copy of a"""
        v = s.rv(st, a)
        if isinstance(v, Obj):
            return s.copy_obj(st, v, name) if isinstance(a, LV) else v
        if isinstance(v, Tup) and not ("&" in (ctype or "") and "tuple" in (ctype or "")):
            v = Tup([s.rv(st, x) for x in v.xs])
        return s.new(st, v, name, ctype)
    def run_ctor_inits(s, st, fn, obj):
        """-> states after the initialisers"""
        cur = [st]
        for c in fn.inner:
            if c is None or c.kind != "CXXCtorInitializer": continue
            e = c.inner[0] if c.inner else None
            nxt = []
            for x in cur:
                if "anyInit" in c.x:
                    f = c.x["anyInit"]["name"]; fd = obj.fields.get(f); ftype = s.ix.by_id(c.x["anyInit"]["id"])
                    for y, v in s.ev(e, x):
                        if ftype is not None and (ftype.type or "").rstrip().endswith("&"): obj.fields[f] = Ref(v if isinstance(v, LV) else s.new(y, v))
                        elif isinstance(fd, Obj): s.copy_fields(y, s.rv(y, v), fd)
                        else: s.assign(y, fd, v)
                        nxt.append(y)
                elif "baseInit" in c.x:
                    e2 = e
                    while e2 is not None and e2.kind in PASS: e2 = e2.inner[0]
                    if e2.kind != "CXXConstructExpr": raise Unsupported("base init %s" % e2.kind)
                    nxt += [y for y, _ in s.construct_into(x, e2, obj)]
                else: raise Unsupported("ctor init")
            cur = nxt
        return cur
    def ev1(s, n, st):
        r = s.ev(n, st)
        if len(r) != 1: raise Unsupported("forking initialiser")
        if r[0][0] is not st: raise Unsupported("forked state")
        return r[0]
    # ---- objects
    def make_obj(s, st, tname, name=""):
        rec = s.ix.record(tname)
        if rec is None: raise Unsupported("unknown record %s" % tname)
        fl = {}
        for f in s.ix.fields(rec):
            t = f.type or ""
            if t.rstrip().endswith("&"): fl[f.name] = None; continue
            k = kind(f.dtype)
            if k[0] == "struct":
                if s.ix.is_functor(f.dtype): fl[f.name] = s.new(st, Functor(strip_t(f.dtype)), f.name); continue
                fl[f.name] = s.make_obj(st, f.dtype, name + "." + f.name)
            else: fl[f.name] = s.new(st, s.default(st, k, initialised=False), name + "." + f.name, f.dtype)
        return Obj(strip_t(tname), fl, name)
    def construct_into(s, st, node, obj):
        """run the constructor denoted by CXXConstructExpr on an existing object (base subobject)"""
        t = node.dtype
        sig = node.x.get("ctorType", {}).get("qualType", "")
        out = []
        for x, args in s.evs([a for a in node.inner if a is not None], st): out += s.do_construct(x, t, sig, args, obj, node)
        return out
    def do_construct(s, st, t, sig, args, obj, node):
        rec = s.ix.record(t)
        if rec is None: raise Unsupported("record %s" % t)
        c = s.ix.ctor(rec, sig)
        if c is not None and ca.body(c) is not None and not c.x.get("isImplicit") and not c.x.get("explicitlyDefaulted"):
            r = s.call_inline(st, c, args, obj, node, ctor_obj=obj)
            return r
        if len(args) == 1:
            src = s.rv(st, args[0])
            if isinstance(src, Obj):
                for f, v in src.fields.items():
                    if isinstance(v, Ref): obj.fields[f] = v
                s.copy_fields(st, src, obj); return [(st, None)]
        if not args: return [(st, None)]
        raise Unsupported("constructor %s %s" % (t, sig))
    # ================================================================ expressions
    def evs(s, ns, st):
        out = [(st, [])]
        for n in ns:
            nxt = []
            for st1, vs in out:
                for st2, v in s.ev(n, st1): nxt.append((st2, vs + [v]))
            out = nxt
        return out
    def evr(s, n, st):
        return [(x, s.rv(x, v)) for x, v in s.ev(n, st)]
    def ev(s, n, st):
        k = n.kind
        if k in PASS:
            return s.ev([c for c in n.inner if c is not None][0], st)
        m = getattr(s, "ev_" + k, None)
        if m is None: raise Unsupported("expression %s at line %s" % (k, n.line))
        r = m(n, st)
        if len(r) > MAXPATHS: raise Unsupported("too many paths")
        return r
    def ev_IntegerLiteral(s, n, st): return [(st, IntVal(int(n.x["value"])))]
    def ev_CXXBoolLiteralExpr(s, n, st): return [(st, BoolVal(str(n.x["value"]).lower() == "true"))]
    def ev_StringLiteral(s, n, st): return [(st, STR)]
    def ev_CXXNullPtrLiteralExpr(s, n, st): return [(st, STR)]
    def ev_CXXThisExpr(s, n, st): return [(st, Ptr(st.this))]
    def ev_CXXDefaultArgExpr(s, n, st):
        c = [c for c in n.inner if c is not None]
        if not c:
            t = kind(n.dtype)
            if t[0] == "int": raise Unsupported("default argument")
            return [(st, STR)]
        return s.ev(c[0], st)
    def ev_ImplicitValueInitExpr(s, n, st): return [(st, s.default(st, kind(n.dtype)))]
    def ev_CXXScalarValueInitExpr(s, n, st): return [(st, s.default(st, kind(n.dtype)))]
    def ev_InitListExpr(s, n, st):
        kd = kind(n.dtype)
        inner = [c for c in n.inner if c is not None]
        if kd[0] in ("int", "bool") :
            return s.ev(inner[0], st) if inner else [(st, s.default(st, kd))]
        if kd[0] == "struct":
            obj = s.make_obj(st, n.dtype, strip_t(n.dtype).split("<")[0].split("::")[-1]); fs = s.ix.fields(s.ix.record(n.dtype))
            if len(inner) != len(fs) or s.ix.bases(s.ix.record(n.dtype)): raise Unsupported("init list")
            out = []
            for x, vs in s.evs(inner, st):
                for f, v in zip(fs, vs):
                    if (f.type or "").rstrip().endswith("&"): obj.fields[f.name] = Ref(v if isinstance(v, LV) else s.new(x, v))
                    else: s.assign(x, obj.fields[f.name], v)
                out.append((x, obj))
            if len(out) != 1: raise Unsupported("init list")
            return out
        raise Unsupported("init list")
    def ev_DeclRefExpr(s, n, st):
        rd = n.x["referencedDecl"]; rk = rd["kind"]
        if rk in ("VarDecl", "ParmVarDecl", "BindingDecl", "DecompositionDecl"):
            v = st.env.get(rd["id"])
            if v is None:
                d = s.ix.by_id(rd["id"])
                if rk == "VarDecl" and d is not None:
                    init = [c for c in d.inner if c is not None and not c.kind.endswith("Type")]
                    if init: return s.ev(init[-1], st)
                raise Unsupported("unbound %s" % rd.get("name"))
            if isinstance(v, Ref): v = v.lv
            return [(st, v)]
        if rk == "EnumConstantDecl": return [(st, IntVal(s.ix.enumval(rd["id"])))]
        if rk in ca.FUNCK: return [(st, FnRef(rd))]
        raise Unsupported("reference to %s %s" % (rk, rd.get("name")))
    def ev_MemberExpr(s, n, st):
        base = n.inner[0]
        out = []
        md = s.ix.by_id(n.x.get("member"))
        for st1, b in s.ev(base, st):
            if n.x.get("isArrow"):
                b = s.rv(st1, b)
                if isinstance(b, Iter):
                    b = s.deref(st1, b, n)
                elif isinstance(b, Ptr): b = b.lv
                else: raise Unsupported("arrow on %r" % (b,))
            o = s.rv(st1, b) if not isinstance(b, Obj) else b
            if (md is not None and md.kind in ca.FUNCK) or n.type == "<bound member function type>":
                out.append((st1, Bound(b, n))); continue
            if isinstance(o, Obj):
                f = o.fields.get(n.name, "missing")
                if isinstance(f, str): raise Unsupported("field %s of %s" % (n.name, o.tname))
                if isinstance(f, Ref): f = f.lv
                out.append((st1, f)); continue
            if isinstance(o, Tup) and n.name in ("first", "second"):
                out.append((st1, CompLV(b, 0 if n.name == "first" else 1))); continue
            out.append((st1, Bound(b, n)))
        return out
    def ev_ImplicitCastExpr(s, n, st): return s.cast(n, st)
    def ev_CXXStaticCastExpr(s, n, st): return s.cast(n, st)
    def ev_CStyleCastExpr(s, n, st): return s.cast(n, st)
    def ev_CXXConstCastExpr(s, n, st): return s.cast(n, st)
    def ev_CXXReinterpretCastExpr(s, n, st): return s.cast(n, st)
    def cast(s, n, st):
        ck = n.x.get("castKind"); e = [c for c in n.inner if c is not None][0]
        rs = s.ev(e, st)
        if ck in ("LValueToRValue",):
            out = []
            for x, v in rs:
                w = s.rv(x, v)
                if w is UNINIT: w = s.uninit_read(x, v, n)
                out.append((x, w))
            return out
        if ck in ("NoOp", "ConstructorConversion", "UserDefinedConversion", "FunctionToPointerDecay", "DerivedToBase", "UncheckedDerivedToBase",
                  "BaseToDerived", "BitCast", "ArrayToPointerDecay", "NullToPointer", "LValueBitCast"):
            return rs
        if ck == "ToVoid": return [(x, None) for x, v in rs]
        if ck == "IntegralCast":
            out = []
            tk = kind(n.dtype)
            for x, v in rs:
                v = s.rv(x, v)
                if z3.is_bool(v): v = If(v, IntVal(1), IntVal(0))
                if z3.is_int_value(v) and v.as_long() < 0 and tk == ("int", True): v = IntVal(v.as_long() % th.W64)
                out.append((x, v))
            return out
        if ck in ("IntegralToBoolean",):
            return [(x, s.rv(x, v) != 0) for x, v in rs]
        if ck == "PointerToBoolean": return [(x, BoolVal(True)) for x, v in rs]
        raise Unsupported("cast %s" % ck)
    def uninit_read(s, st, lv, n):
        k = kind(n.dtype)
        s.oblige(st, BoolVal(False), "read of an uninitialised variable", n)
        v = fresh("uninit", sort_of(k))
        s.write(st, lv, v)
        return v
    def truth(s, st, v, node):
        v = s.rv(st, v)
        if isinstance(v, z3.ExprRef):
            if z3.is_bool(v): return v
            return th.tobool(v.sort())(v)
        raise Unsupported("condition %r" % (v,))
    def evbool(s, n, st):
        """evaluate a condition: list of (state, z3 bool) -- no branching on it yet"""
        return [(x, s.truth(x, v, n)) for x, v in s.ev(n, st)]
    def branch(s, n, st):
        """-> list of (state, True/False) with the path condition extended"""
        if n.kind in PASS and n.inner: return s.branch([c for c in n.inner if c is not None][0], st)
        if n.kind == "ImplicitCastExpr" and n.x.get("castKind") == "NoOp": return s.branch(n.inner[0], st)
        if n.kind == "UnaryOperator" and n.x["opcode"] == "!":
            return [(x, not b) for x, b in s.branch(n.inner[0], st)]
        if n.kind == "BinaryOperator" and n.x["opcode"] in ("&&", "||"):
            isand = n.x["opcode"] == "&&"; out = []
            for x, b in s.branch(n.inner[0], st):
                if b == isand: out += s.branch(n.inner[1], x)
                else: out.append((x, b))
            return out
        out = []
        for x, c in s.evbool(n, st):
            out += s.split(x, c, n.id)
        return out
    def split(s, st, c, where=None):
        c = z3.simplify(c)
        if z3.is_true(c): return [(st, True)]
        if z3.is_false(c): return [(st, False)]
        y = st.clone()
        out = []
        st.assume(c); y.assume(Not(c))
        st.trace = st.trace + ((where, True),); y.trace = y.trace + ((where, False),)
        if s.feasible(st): out.append((st, True))
        if s.feasible(y): out.append((y, False))
        return out
    def feasible(s, st):
        """cheap pruning: quantifier-free part of the path condition, no axioms"""
        sv = z3.SimpleSolver(); sv.set("timeout", 300)
        for f in st.pc:
            if not z3.is_quantifier(f): sv.add(f)
        return sv.check() != z3.unsat
    # ---- operators
    def ev_UnaryOperator(s, n, st):
        op = n.x["opcode"]; e = n.inner[0]
        if op == "!":
            return [(x, Not(c)) for x, c in s.evbool(e, st)]
        if op == "&":
            return [(x, Ptr(v)) for x, v in s.ev(e, st)]
        if op == "*":
            out = []
            for x, v in s.ev(e, st):
                v = s.rv(x, v)
                if isinstance(v, Ptr): out.append((x, v.lv))
                elif isinstance(v, Iter): out.append((x, s.deref(x, v, n)))
                else: raise Unsupported("deref %r" % (v,))
            return out
        if op in ("++", "--"):
            out = []
            for x, lv in s.ev(e, st):
                old = s.rv(x, lv)
                if op == "--" and kind(n.dtype) == ("int", True): s.oblige(x, old >= 1, "unsigned decrement does not wrap", n)
                new = s.incr(x, old, 1 if op == "++" else -1, n)
                s.write(x, lv, new)
                out.append((x, old if n.x.get("isPostfix") else lv))
            return out
        if op == "-":
            return [(x, -s.rv(x, v)) for x, v in s.ev(e, st)]
        if op == "+": return s.ev(e, st)
        raise Unsupported("unary %s" % op)
    def incr(s, st, v, d, n):
        if isinstance(v, Iter):
            p = z3.simplify(v.pos + d)
            ln = s.length(st, v.cont)
            s.oblige(st, And(0 <= v.pos + d, v.pos + d <= ln), "iterator stays within [begin,end]", n)
            if not s.dry: st.assume(And(0 <= v.pos + d, v.pos + d <= ln))
            return Iter(v.cont, p)
        if v is UNINIT: v = s.uninit_fix(st, n)
        return z3.simplify(v + d)
    def uninit_fix(s, st, n):
        s.oblige(st, BoolVal(False), "read of an uninitialised variable", n); return fresh("uninit", I)
    def deref(s, st, it, n):
        s.bounds(st, it.cont, it.pos, n, "iterator dereference")
        return ElemLV(it.cont, it.pos)
    def ev_ConditionalOperator(s, n, st):
        out = []
        for x, b in s.branch(n.inner[0], st): out += s.ev(n.inner[1] if b else n.inner[2], x)
        return out
    def ev_BinaryOperator(s, n, st):
        op = n.x["opcode"]; a, b = n.inner
        if op == "=":
            out = []
            for x, vs in s.evs([b, a], st):
                s.assign(x, vs[1], vs[0], n); out.append((x, vs[1]))
            return out
        if op == ",":
            out = []
            for x, _ in s.ev(a, st): out += s.ev(b, x)
            return out
        if op in ("&&", "||"):
            # short circuit without forking when the right operand has no effect
            out = []
            for x, c in s.evbool(a, st):
                c = z3.simplify(c)
                if z3.is_true(c) or z3.is_false(c):
                    if z3.is_true(c) == (op == "&&"): out += s.evbool(b, x)
                    else: out.append((x, c))
                    continue
                y = x.clone(); y.assume(c if op == "&&" else Not(c)); npc = len(y.pc)
                rs = s.evbool(b, y)
                if len(rs) == 1 and rs[0][0].store == x.store:
                    y2, d = rs[0]
                    # keep facts learnt while evaluating b, under the guard
                    for f in y2.pc[npc:]: x.assume(Implies(c if op == "&&" else Not(c), f))
                    out.append((x, And(c, d) if op == "&&" else Or(c, d)))
                else:
                    z = x
                    z.assume(Not(c) if op == "&&" else c)
                    out.append((z, BoolVal(op == "||")))
                    out += rs
            return out
        return [(x, s.binop(x, op, vs[0], vs[1], n)) for x, vs in s.evs([a, b], st)]
    def ptr_eq(s, st, a, b):
        la, lb = a.lv, b.lv
        if same_lv(la, lb): return True
        if isinstance(la, Obj) and isinstance(lb, Obj): return la is lb
        if isinstance(root(la), Loc) and isinstance(root(lb), Loc) and root(la).id != root(lb).id: return False
        if type(la) != type(lb): return False
        raise Unsupported("pointer comparison")
    def binop(s, st, op, a, b, n):
        a = s.rv(st, a); b = s.rv(st, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op in ("==", "!="):
            return BoolVal(s.ptr_eq(st, a, b) == (op == "=="))
        if isinstance(a, Iter) and isinstance(b, Iter):
            if not same_lv(a.cont, b.cont): raise Unsupported("iterators into different containers")
            if op == "-": return a.pos - b.pos
            return {"==": a.pos == b.pos, "!=": a.pos != b.pos, "<": a.pos < b.pos, ">": a.pos > b.pos, "<=": a.pos <= b.pos, ">=": a.pos >= b.pos}[op]
        if isinstance(a, Iter): return s.incr(st, a, b if op == "+" else -b, n)
        if a is UNINIT or b is UNINIT: raise Unsupported("uninitialised operand")
        if z3.is_bool(a) and z3.is_bool(b):
            if op == "==": return a == b
            if op == "!=": return a != b
            if op in ("&", "|", "^"): return {"&": And(a, b), "|": Or(a, b), "^": z3.Xor(a, b)}[op]
        if isinstance(a, z3.ExprRef) and z3.is_bool(a): a = If(a, IntVal(1), IntVal(0))
        if isinstance(b, z3.ExprRef) and z3.is_bool(b): b = If(b, IntVal(1), IntVal(0))
        if not (z3.is_int(a) and z3.is_int(b)): raise Unsupported("binary %s on %r %r" % (op, a, b))
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
        uns = kind(n.dtype) == ("int", True)
        if op == "+": return s.wrap_add(a, b, uns)
        if op == "-":
            if uns: return s.wrap_sub(a, b)
            return a - b
        if op == "*": return a * b
        if op in ("/", "%"):
            s.oblige(st, b != 0, "division by zero", n)
            if uns: return a / b if op == "/" else a % b
        raise Unsupported("binary %s" % op)
    def is_wrapped(s, a): return z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE
    def wrap_sub(s, a, b):
        if z3.is_int_value(b) and b.as_long() == 0: return a
        if s.is_wrapped(a):
            pass
        return If(a >= b, a - b, a - b + IntVal(th.W64))
    def wrap_add(s, a, b, uns):
        t = a + b
        if uns and (s.is_wrapped(a) or s.is_wrapped(b)): return If(t >= th.W64, t - th.W64, t)
        return z3.simplify(t)
    def ev_CompoundAssignOperator(s, n, st):
        op = n.x["opcode"][:-1]; out = []
        for x, vs in s.evs([n.inner[1], n.inner[0]], st):
            r = s.binop(x, op, vs[1], vs[0], n) if not z3.is_bool(s.rv(x, vs[1])) else s.boolassign(x, op, vs)
            s.assign(x, vs[1], r, n); out.append((x, vs[1]))
        return out
    def boolassign(s, st, op, vs):
        a = s.rv(st, vs[1]); b = s.truth(st, vs[0], None)
        return {"|": Or(a, b), "&": And(a, b), "^": z3.Xor(a, b)}[op]
    def ev_UnaryExprOrTypeTraitExpr(s, n, st): raise Unsupported("sizeof")
    def ev_LambdaExpr(s, n, st):
        return [(st, Lambda(n, st.env, st.this))]
    # ---- construction
    def ev_CXXTemporaryObjectExpr(s, n, st): return s.ev_CXXConstructExpr(n, st)
    def ev_CXXConstructExpr(s, n, st):
        k = kind(n.dtype)
        args = [c for c in n.inner if c is not None]
        sig = n.x.get("ctorType", {}).get("qualType", "")
        if k[0] == "string":
            return [(x, STR) for x, vs in s.evs(args, st)] if not any(s.skippable(a) for a in args) else [(st, STR)]
        out = []
        for x, vs in s.evs(args, st):
            out += s.construct(x, k, vs, sig, n)
        return out
    def skippable(s, a): return True
    def construct(s, st, k, vs, sig, n):
        if k[0] == "opaque":
            if not vs: return [(st, s.default(st, k))]
            v = s.rv(st, vs[0])
            if isinstance(v, z3.ExprRef):
                return [(st, th.conv(v.sort(), sort(k[1]))(v))]
            raise Unsupported("construct %s from %r" % (k, v))
        if k[0] == "int" or k[0] == "bool":
            return [(st, s.rv(st, vs[0]) if vs else s.default(st, k))]
        if k[0] == "iter":
            if not vs: return [(st, UNINIT)]
            return [(st, s.rv(st, vs[0]))]
        if k[0] == "tuple":
            if not vs: return [(st, s.default(st, k))]
            if len(vs) == 1 and len(k[1]) != 1:
                v = s.rv(st, vs[0])
                if isinstance(v, Tup): return [(st, Tup([s.coerce(st, s.rv(st, e), kk) for e, kk in zip(v.xs, k[1])]))]
                raise Unsupported("tuple from %r" % (v,))
            return [(st, Tup([s.coerce(st, s.rv(st, e), kk) for e, kk in zip(vs, k[1])]))]
        if k[0] == "vec":
            vs = [v for v in vs if v is not STR]
            if not vs: return [(st, s.default(st, k))]
            v0 = s.rv(st, vs[0])
            if len(vs) == 1 and isinstance(v0, z3.ExprRef) and (is_row(v0) or is_vec(v0)): return [(st, v0)]
            if isinstance(v0, Iter) and len(vs) == 2:
                v1 = s.rv(st, vs[1])
                whole = s.rv(st, v0.cont)
                if z3.is_int_value(z3.simplify(v0.pos)) and z3.simplify(v0.pos).as_long() == 0 and z3.eq(z3.simplify(v1.pos), z3.simplify(s.length(st, v0.cont))) and whole.sort() == sort_of(k): return [(st, whole)]
                raise Unsupported("vector from iterators")
            if isinstance(v0, z3.ExprRef) and z3.is_int(v0):
                S = sort_of(k)
                if is_rowsort(S):
                    raise Unsupported("sized row")
                V = vect(sort_of(k[1]))
                x = s.rv(st, vs[1]) if len(vs) > 1 else s.default(st, k[1])
                if isinstance(x, z3.ExprRef) and x.sort() != V.T: x = s.coerce(st, x, k[1])
                return [(st, V.fill(v0, x))]
            raise Unsupported("vector ctor %r" % (vs,))
        if k[0] == "struct":
            t = strip_t(n.dtype)
            if s.ix.is_functor(t):
                return [(st, Functor(t))]
            if "initializer_list" in t or "allocator" in t: return [(st, STR)]
            if "Exception" in t: return [(st, STR)]
            if re.match(r"(std::)?(plus|less|greater|equal_to|multiplies|minus)<", t) and not vs: return [(st, Functor(t))]
            v0 = s.rv(st, vs[0]) if len(vs) == 1 else None
            if isinstance(v0, Obj) and same_type(v0.tname, t):
                rec = s.ix.record(t); c = s.ix.ctor(rec, sig) if rec is not None else None
                if c is None or ca.body(c) is None or c.x.get("isImplicit") or c.x.get("explicitlyDefaulted"):
                    if vs[0] is v0 and n.x.get("elidable"): return [(st, v0)]
                    return [(st, s.copy_obj(st, v0, "copy"))]
            obj = s.make_obj(st, t, t.split("<")[0].split("::")[-1])
            return [(x, obj) for x, _ in s.do_construct(st, n.dtype, sig, vs, obj, n)]
        raise Unsupported("construct %s" % (k,))
    def coerce(s, st, v, k):
        """implicit conversion of rvalue v to type kind k (inside std:: templates)"""
        if isinstance(v, z3.ExprRef):
            if k[0] == "opaque" and v.sort() != sort(k[1]): return th.conv(v.sort(), sort(k[1]))(v)
            if k[0] == "bool" and v.sort() != B: return th.tobool(v.sort())(v)
            if k[0] == "int" and v.sort() == B: return If(v, IntVal(1), IntVal(0))
        return v
    def coerce_sort(s, v, S):
        if isinstance(v, z3.ExprRef) and v.sort() != S:
            if S == B: return th.tobool(v.sort())(v)
            if S == I and v.sort() == B: return If(v, IntVal(1), IntVal(0))
            return th.conv(v.sort(), S)(v)
        return v
    # ---- calls
    def ev_CXXOperatorCallExpr(s, n, st):
        cal = n.inner[0]
        while cal.kind in ("ImplicitCastExpr",): cal = cal.inner[0]
        rd = cal.x.get("referencedDecl", {}); name = rd.get("name") or ""
        args = n.inner[1:]
        if name == "operator<<": 
            return [(st, STR)]
        if name == "operator=":
            order = [args[1], args[0]]
            out = []
            for x, vs in s.evs(order, st):
                lhs, rhs = vs[1], vs[0]
                d = s.ix.by_id(rd.get("id"))
                l = s.rv(x, lhs) if not isinstance(lhs, Tup) else lhs
                if isinstance(l, Obj) and d is not None and d.kind == "CXXMethodDecl" and ca.body(s.ix.define(d)) is not None and (not (d.x.get("isImplicit") or d.x.get("explicitlyDefaulted")) or s.custom_assign(d)):
                    out += s.call(x, d, [rhs], l, n)
                    continue
                if isinstance(l, Functor) or isinstance(l, Str): out.append((x, lhs)); continue
                s.assign(x, l if isinstance(l, Tup) and not isinstance(lhs, LV) else lhs, rhs, n); out.append((x, lhs))
            return out
        out = []
        for x, vs in s.evs(args, st):
            out += s.opcall(x, name, rd, vs, n)
        return out
    def custom_assign(s, d):
        """the implicit assignment operator calls a user-written one of a base class"""
        rec = d.parent
        for bt in s.ix.bases(rec):
            r = s.ix.record(bt)
            if r is not None and any(c is not None and c.kind == "CXXMethodDecl" and c.name == "operator=" and not c.x.get("isImplicit") for c in r.inner): return True
        return False
    def opcall(s, st, name, rd, vs, n):
        a = vs[0]; ra = s.rv(st, a)
        d = s.ix.by_id(rd.get("id"))
        if name == "operator()":
            return s.call_functor(st, ra, d, rd, vs[1:], n)
        if isinstance(ra, Obj):
            if d is not None:
                if d.kind == "CXXMethodDecl": return s.call(st, d, vs[1:], ra, n)
                return s.call(st, d, vs, None, n)
            raise Unsupported("operator %s on object" % name)
        if name == "operator[]":
            i = s.rv(st, vs[1])
            if isinstance(ra, Iter):
                s.bounds(st, ra.cont, z3.simplify(ra.pos + i), n, "subscript"); return [(st, ElemLV(ra.cont, z3.simplify(ra.pos + i)))]
            s.bounds(st, a, i, n, "subscript")
            if not isinstance(a, LV): a = s.new(st, ra)
            return [(st, ElemLV(a, i))]
        if isinstance(ra, Iter):
            if name == "operator*": return [(st, s.deref(st, ra, n))]
            if name == "operator->": return [(st, Ptr(s.deref(st, ra, n)))]
            if name in ("operator++", "operator--"):
                new = s.incr(st, ra, 1 if name == "operator++" else -1, n)
                s.write(st, a, new)
                return [(st, ra if len(vs) > 1 else a)]
            if name in ("operator+=", "operator-="):
                d_ = s.rv(st, vs[1]); s.write(st, a, s.incr(st, ra, d_ if name == "operator+=" else -d_, n)); return [(st, a)]
            if name in ("operator==", "operator!=", "operator<", "operator-", "operator+", "operator<=", "operator>", "operator>="):
                return [(st, s.binop(st, name[8:], ra, vs[1], n))]
        if isinstance(ra, Tup):
            if name in ("operator<", "operator==", "operator!="): pass
        if isinstance(ra, Str): return [(st, STR)]
        if name in ("operator==", "operator!=") and isinstance(ra, z3.ExprRef) and ra.sort() not in (I, B):
            rb = s.rv(st, vs[1])
            if is_row(ra) or is_vec(ra): return [(st, (ra == rb) if name == "operator==" else (ra != rb))]
        raise Unsupported("operator call %s on %r" % (name, ra))
    def uf(s, tname, mname, args, rets):
        nm = "op_%s_%s" % (tname.split("::")[-1], re.sub(r"\W", "", mname) or "call")
        return th.fn(nm, *([a.sort() for a in args] + [rets]))
    def call_functor(s, st, f, d, rd, args, n):
        if isinstance(f, Lambda): return s.call_lambda(st, f, args, n)
        if isinstance(f, Functor):
            if d is not None and ca.body(d) is not None and not f.tname.startswith("gv::"):
                return s.call(st, d, args, f, n)
            vals = [s.rv(st, a) for a in args]
            return [(st, s.uf(f.tname, "call", vals, sort_of(kind(n.dtype)))(*vals))]
        if isinstance(f, Obj) and d is not None: return s.call(st, d, args, f, n)
        raise Unsupported("call of %r" % (f,))
    def call_lambda(s, st, f, args, n):
        rec = f.node.inner[0]
        op = None
        for c in rec.inner:
            if c is not None and c.kind == "CXXMethodDecl" and c.name == "operator()": op = c
            if c is not None and c.kind == "FunctionTemplateDecl" and c.name == "operator()":
                want = None
                for c2 in c.inner:
                    if c2 is not None and c2.kind == "CXXMethodDecl" and any(x is not None and x.kind == "TemplateArgument" for x in c2.inner): op = c2
        if op is None or ca.body(op) is None: raise Unsupported("lambda")
        saved = st.env
        st.env = dict(f.env); st.env.update({})
        for p, a in zip(ca.params(op), args): s.bind_param(st, p, a)
        s.depth += 1
        outs = s.exec(ca.body(op), st)
        s.depth -= 1
        for o, k, v in outs: o.env = saved
        return [(o, v) for o, k, v in outs]
    def ev_CXXMemberCallExpr(s, n, st):
        out = []
        for x, b in s.ev(n.inner[0], st):
            if not isinstance(b, Bound): raise Unsupported("member call on %r" % (b,))
            for y, vs in s.evs(n.inner[1:], x): out += s.method(y, b, vs, n)
        return out
    def method(s, st, b, vs, n):
        name = b.node.name; me = s.ix.by_id(b.node.x.get("member"))
        o = b.obj; ro = s.rv(st, o)
        if isinstance(ro, Obj):
            if me is None: raise Unsupported("method %s" % name)
            return s.call(st, me, vs, ro, n)
        if isinstance(ro, Functor):
            if ro.tname.startswith("gv::"):
                vals = [s.rv(st, a) for a in vs]
                S = sort_of(kind(n.dtype))
                if not vals: return [(st, z3.Const("op_%s_%s" % (ro.tname.split("::")[-1], name), S))]
                return [(st, s.uf(ro.tname, name, vals, S)(*vals))]
            if me is not None: return s.call(st, me, vs, ro, n)
        if isinstance(ro, Str): return [(st, STR)]
        if isinstance(ro, z3.ExprRef):
            if name.startswith("operator bool") : return [(st, th.tobool(ro.sort())(ro))]
            if is_row(ro) or is_vec(ro):
                if not isinstance(o, LV): o = s.new(st, ro, "tmp")
                return s.contmethod(st, o, ro, name, vs, n)
        if isinstance(ro, Iter) and name == "operator->": return [(st, Ptr(s.deref(st, ro, n)))]
        raise Unsupported("method %s on %r" % (name, ro))
    def elem_value(s, st, c, vs):
        """element built by push_back/emplace_back arguments -> (k,v) or x"""
        vals = [s.rv(st, v) for v in vs]
        if is_row(c):
            T = rowt_of(c)
            if len(vals) == 1 and isinstance(vals[0], Tup): vals = [s.rv(st, x) for x in vals[0].xs]
            if len(vals) != 2: raise Unsupported("row element %r" % (vals,))
            return [s.coerce_sort(vals[0], I), s.coerce_sort(vals[1], T.S)]
        T = vect_of(c)
        if not vals: return [s.default_of_sort(T.T)]
        return [s.coerce_sort(vals[0], T.T)]
    def contmethod(s, st, o, c, name, vs, n):
        row = is_row(c); T = rowt_of(c) if row else vect_of(c)
        vs = [v for v in vs if v is not STR]      # defaulted arguments
        if name in ("begin", "cbegin"): return [(st, Iter(o, IntVal(0)))]
        if name in ("end", "cend"): return [(st, Iter(o, T.len(c)))]
        if name == "size": return [(st, T.len(c))]
        if name == "empty": return [(st, T.len(c) == 0)]
        if name in ("reserve", "shrink_to_fit"): return [(st, None)]
        if name == "clear": s.write(st, o, T.empty); return [(st, None)]
        if name in ("push_back", "emplace_back"):
            s.write(st, o, T.push(c, *s.elem_value(st, c, vs)))
            return [(st, ElemLV(o, T.len(c)))]
        if name == "at":
            i = s.rv(st, vs[0]); s.bounds(st, o, i, n, "at()"); return [(st, ElemLV(o, i))]
        if name in ("front", "back"):
            i = IntVal(0) if name == "front" else T.len(c) - 1
            s.bounds(st, o, i, n, name); return [(st, ElemLV(o, i))]
        if name in ("insert", "emplace") and row:
            it = s.rv(st, vs[0])
            k, v = s.elem_value(st, c, vs[1:])
            s.oblige(st, And(0 <= it.pos, it.pos <= T.len(c)), "insert position within [begin,end]", n)
            s.write(st, o, T.ins(c, it.pos, k, v))
            return [(st, Iter(o, it.pos))]
        if name == "erase" and row and len(vs) == 1:
            it = s.rv(st, vs[0])
            s.bounds(st, o, it.pos, n, "erase position")
            s.write(st, o, T.erase(c, it.pos)); return [(st, Iter(o, it.pos))]
        if name == "erase" and row and len(vs) == 2:
            a, b2 = s.rv(st, vs[0]), s.rv(st, vs[1])
            if not z3.eq(z3.simplify(b2.pos), z3.simplify(T.len(c))): raise Unsupported("erase of an inner range")
            s.oblige(st, And(0 <= a.pos, a.pos <= T.len(c)), "erase range within [begin,end]", n)
            s.write(st, o, T.prefix(c, a.pos)); return [(st, Iter(o, a.pos))]
        if name == "erase" and not row and len(vs) == 2:
            a, b2 = s.rv(st, vs[0]), s.rv(st, vs[1])
            if not z3.eq(z3.simplify(b2.pos), z3.simplify(T.len(c))): raise Unsupported("erase of an inner range")
            s.oblige(st, And(0 <= a.pos, a.pos <= T.len(c)), "erase range within [begin,end]", n)
            s.write(st, o, T.prefix(c, a.pos)); return [(st, Iter(o, a.pos))]
        if name == "resize" and row and len(vs) == 1: raise Unsupported("row resize")
        if name == "pop_back":
            s.bounds(st, o, T.len(c) - 1, n, "pop_back")
            if row: s.write(st, o, T.prefix(c, T.len(c) - 1)); return [(st, None)]
        if name == "resize" and not row:
            m = s.rv(st, vs[0]); x = s.coerce_sort(s.rv(st, vs[1]), T.T) if len(vs) > 1 else s.default_of_sort(T.T)
            s.write(st, o, T.resize(c, m, x)); return [(st, None)]
        if name == "assign" and not row and len(vs) == 2:
            v0 = s.rv(st, vs[0])
            if z3.is_int(v0): s.write(st, o, T.fill(v0, s.coerce_sort(s.rv(st, vs[1]), T.T))); return [(st, None)]
        if name == "swap":
            other = vs[0]; a, b2 = c, s.rv(st, other)
            s.write(st, o, b2); s.write(st, other, a); return [(st, None)]
        if name == "data": raise Unsupported("data()")
        raise Unsupported("container method %s(%d)" % (name, len(vs)))
    def ev_CallExpr(s, n, st):
        out = []
        cal = n.inner[0]
        for x, f in s.ev(cal, st):
            if isinstance(f, FnRef):
                for y, vs in s.evs(n.inner[1:], x): out += s.fcall(y, f.rd, vs, n)
            elif isinstance(f, Bound):
                for y, vs in s.evs(n.inner[1:], x): out += s.method(y, f, vs, n)
            else: raise Unsupported("call %r" % (f,))
        return out
    def fcall(s, st, rd, vs, n):
        d = s.ix.func(rd)
        name = rd.get("name")
        if d is not None and s.ix.is_grb(d) : return s.call(st, d, vs, None, n)
        m = getattr(s, "std_" + name, None)
        if m is None: raise Unsupported("call of %s at line %s" % (name, n.line))
        return m(st, vs, n, rd)
    # ---- std functions
    def std_get(s, st, vs, n, rd):
        m = re.search(r"__tuple_element_t<(\d+)(UL)?,", rd["type"]["qualType"]) or re.search(r"tuple_element<(\d+)", rd["type"]["qualType"])
        if not m: raise Unsupported("get<> index " + rd["type"]["qualType"][:80])
        i = int(m.group(1)); a = vs[0]
        if isinstance(a, LV): 
            r = s.rv(st, a)
            if isinstance(r, Tup) and isinstance(r.xs[i], LV): return [(st, r.xs[i])]
            return [(st, CompLV(a, i))]
        return [(st, s.rv(st, a).xs[i])]
    def std_make_tuple(s, st, vs, n, rd): return [(st, Tup([s.rv(st, v) for v in vs]))]
    std_make_pair = std_make_tuple
    def std_tie(s, st, vs, n, rd): return [(st, Tup(list(vs)))]
    def std_forward_as_tuple(s, st, vs, n, rd): return [(st, Tup(list(vs)))]
    def std_move(s, st, vs, n, rd): return [(st, vs[0])]
    def std_forward(s, st, vs, n, rd): return [(st, vs[0])]
    def std_as_const(s, st, vs, n, rd): return [(st, vs[0])]
    def std_begin(s, st, vs, n, rd): return s.contmethod(st, vs[0], s.rv(st, vs[0]), "begin", [], n)
    def std_end(s, st, vs, n, rd): return s.contmethod(st, vs[0], s.rv(st, vs[0]), "end", [], n)
    def std_size(s, st, vs, n, rd): return [(st, s.length(st, vs[0]))]
    def std_next(s, st, vs, n, rd): return [(st, s.incr(st, s.rv(st, vs[0]), s.rv(st, vs[1]) if len(vs) > 1 else 1, n))]
    def std_distance(s, st, vs, n, rd): return [(st, s.binop(st, "-", vs[1], vs[0], n))]
    def std_min(s, st, vs, n, rd):
        a, b = s.rv(st, vs[0]), s.rv(st, vs[1]); return [(st, If(b < a, b, a))]
    def std_max(s, st, vs, n, rd):
        a, b = s.rv(st, vs[0]), s.rv(st, vs[1]); return [(st, If(a < b, b, a))]
    def std_swap(s, st, vs, n, rd):
        a, b = s.rv(st, vs[0]), s.rv(st, vs[1])
        if isinstance(a, Obj): raise Unsupported("swap of objects")
        s.write(st, vs[0], b); s.write(st, vs[1], a); return [(st, None)]
    def std_exchange(s, st, vs, n, rd):
        a, b = s.rv(st, vs[0]), s.rv(st, vs[1]); s.write(st, vs[0], b); return [(st, a)]
    def std_copy(s, st, vs, n, rd):
        raise Unsupported("std::copy")
    def std_abs(s, st, vs, n, rd):
        a = s.rv(st, vs[0]); return [(st, If(a < 0, -a, a))]
    def pred_term(s, st, f, args, n):
        """truth of a side-effect free predicate object on symbolic arguments"""
        f = s.rv(st, f) if isinstance(f, LV) else f
        x = st.clone(); x.written = set()
        d = None
        if isinstance(f, (Functor, Obj)) and not f.tname.startswith("gv::"):
            rec = s.ix.record(f.tname)
            ms = [c for c in (rec.inner if rec is not None else ()) if c is not None and c.kind == "CXXMethodDecl" and c.name == "operator()"]
            if len(ms) == 1: d = s.ix.define(ms[0])
        outs = s.call_functor(x, f, d, {}, args, n) if not isinstance(f, Lambda) else s.call_lambda(x, f, args, n)
        if len(outs) != 1: raise Unsupported("branching predicate")
        o, v = outs[0]
        if any(w in st.store and o.store[w] is not st.store[w] for w in o.written): raise Unsupported("predicate with side effects")
        return s.truth(o, v, n)
    def range_of(s, st, vs, n):
        a, b = s.rv(st, vs[0]), s.rv(st, vs[1])
        if not (isinstance(a, Iter) and isinstance(b, Iter) and same_lv(a.cont, b.cont)): raise Unsupported("iterator range")
        L = s.length(st, a.cont)
        s.oblige(st, And(0 <= a.pos, a.pos <= b.pos, b.pos <= L), "iterator range is valid", n)
        if not s.dry: st.assume(And(0 <= a.pos, a.pos <= b.pos, b.pos <= L))
        return a, b
    def elem_pat(s, st, cont, x):
        c = s.rv(st, cont)
        return rowt_of(c).idx(c, x) if is_row(c) else vect_of(c).at(c, x)
    def first_such(s, st, a, b, pred):
        """symbolic position of the first element in [a,b) satisfying pred"""
        p = fresh("find", I); x = z3.Int("x?")
        st.assume(And(a.pos <= p, p <= b.pos)); st.assume(Or(p == b.pos, pred(p)))
        st.assume(th.forall([x], Implies(And(a.pos <= x, x < p), Not(pred(x))), s.elem_pat(st, a.cont, x)))
        return p
    def std_find_if(s, st, vs, n, rd):
        a, b = s.range_of(st, vs, n); p = s.first_such(st, a, b, lambda x: s.pred_term(st, vs[2], [ElemLV(a.cont, x)], n)); return [(st, Iter(a.cont, p))]
    def std_find_if_not(s, st, vs, n, rd):
        a, b = s.range_of(st, vs, n); p = s.first_such(st, a, b, lambda x: Not(s.pred_term(st, vs[2], [ElemLV(a.cont, x)], n))); return [(st, Iter(a.cont, p))]
    def std_find(s, st, vs, n, rd):
        a, b = s.range_of(st, vs, n); v = s.rv(st, vs[2])
        if is_row(s.rv(st, a.cont)): raise Unsupported("find of a tuple")
        p = s.first_such(st, a, b, lambda x: s.rv(st, ElemLV(a.cont, x)) == v); return [(st, Iter(a.cont, p))]
    def std_any_of(s, st, vs, n, rd):
        a, b = s.range_of(st, vs, n); p = s.first_such(st, a, b, lambda x: s.pred_term(st, vs[2], [ElemLV(a.cont, x)], n)); return [(st, p != b.pos)]
    def std_none_of(s, st, vs, n, rd): return [(x, Not(v)) for x, v in s.std_any_of(st, vs, n, rd)]
    def std_all_of(s, st, vs, n, rd):
        a, b = s.range_of(st, vs, n); p = s.first_such(st, a, b, lambda x: Not(s.pred_term(st, vs[2], [ElemLV(a.cont, x)], n))); return [(st, p == b.pos)]
    def std_reduce(s, st, vs, n, rd):
        a, b = s.range_of(st, vs, n); c = s.rv(st, a.cont)
        if not (is_vec(c) and c.sort().name() == "Vec_Bool"): raise Unsupported("reduce")
        import specs as sp
        init = s.rv(st, vs[2]) if len(vs) > 2 else IntVal(0); bc = sp.BCNT(); ap, bp = z3.simplify(a.pos), z3.simplify(b.pos)
        return [(st, init + bc(c, bp) - bc(c, ap))]
    std_accumulate = std_reduce
    def std_lower_bound(s, st, vs, n, rd):
        """first position whose element is not before the value; the range must be partitioned"""
        a, b = s.range_of(st, vs, n); c = s.rv(st, a.cont); x, y = z3.Int("x?"), z3.Int("y?")
        if len(vs) > 3: before = lambda q: s.pred_term(st, vs[3], [ElemLV(a.cont, q), vs[2]], n)
        elif is_vec(c) and vect_of(c).T == I: v = s.rv(st, vs[2]); before = lambda q: vect_of(c).at(c, q) < v
        else: raise Unsupported("lower_bound of tuples")
        return s.bound_pos(st, a, b, before, n)
    def std_partition_point(s, st, vs, n, rd):
        a, b = s.range_of(st, vs, n); return s.bound_pos(st, a, b, lambda q: s.pred_term(st, vs[2], [ElemLV(a.cont, q)], n), n)
    def std_upper_bound(s, st, vs, n, rd):
        a, b = s.range_of(st, vs, n); c = s.rv(st, a.cont)
        if len(vs) > 3: return s.bound_pos(st, a, b, lambda q: Not(s.pred_term(st, vs[3], [vs[2], ElemLV(a.cont, q)], n)), n)
        if is_vec(c) and vect_of(c).T == I: v = s.rv(st, vs[2]); return s.bound_pos(st, a, b, lambda q: vect_of(c).at(c, q) <= v, n)
        raise Unsupported("upper_bound of tuples")
    def bound_pos(s, st, a, b, before, n):
        x, y = z3.Int("x?"), z3.Int("y?")
        s.oblige(st, th.forall([x, y], Implies(And(a.pos <= x, x < y, y < b.pos, before(y)), before(x)), [s.elem_pat(st, a.cont, x), s.elem_pat(st, a.cont, y)]), "range is partitioned for the binary search", n)
        p = fresh("bound", I); st.assume(And(a.pos <= p, p <= b.pos))
        st.assume(th.forall([x], Implies(And(a.pos <= x, x < p), before(x)), s.elem_pat(st, a.cont, x)))
        st.assume(th.forall([x], Implies(And(p <= x, x < b.pos), Not(before(x))), s.elem_pat(st, a.cont, x)))
        return [(st, Iter(a.cont, p))]
    def whole(s, st, vs, n):
        a, b = s.range_of(st, vs, n); c = s.rv(st, a.cont); L = s.length(st, a.cont)
        s.oblige(st, And(a.pos == 0, b.pos == L), "the whole container is meant", n)
        return a.cont, c
    def std_sort(s, st, vs, n, rd):
        """trusted: std::sort with the natural order of indices, or of pairs by index"""
        import specs as sp
        cont, c = s.whole(st, vs, n)
        if is_row(c) and len(vs) == 3:
            T = rowt_of(c); u, w = fresh("xp", I), fresh("xq", I); x = st.clone(); x.assume(And(0 <= u, u < T.len(c), 0 <= w, w < T.len(c)))
            s.oblige(x, s.pred_term(x, vs[2], [ElemLV(cont, u), ElemLV(cont, w)], n) == (T.idx(c, u) < T.idx(c, w)), "the comparison orders by index", n)
            s.write(st, cont, sp.SORTR(T.S)(c)); return [(st, None)]
        if is_vec(c) and vect_of(c).T == I and len(vs) == 2:
            V = vect_of(c); r = fresh("sorted", V.V); x, y = z3.Ints("x? y?"); mem = sp.MEM()
            st.assume(And(V.len(r) == V.len(c), th.forall([x], mem(r, x) == mem(c, x), mem(r, x), mem(c, x))))
            st.assume(th.forall([x, y], Implies(And(0 <= x, x < y, y < V.len(r)), V.at(r, x) <= V.at(r, y)), [V.at(r, x), V.at(r, y)]))
            s.write(st, cont, r); return [(st, None)]
        raise Unsupported("std::sort")
    def std_unique(s, st, vs, n, rd):
        """trusted: std::unique on a sorted list"""
        import specs as sp
        if len(vs) != 2: raise Unsupported("std::unique")
        cont, c = s.whole(st, vs, n)
        if not (is_vec(c) and vect_of(c).T == I): raise Unsupported("std::unique")
        V = vect_of(c); x, y = z3.Ints("x? y?"); mem = sp.MEM()
        s.oblige(st, th.forall([x, y], Implies(And(0 <= x, x < y, y < V.len(c)), V.at(c, x) <= V.at(c, y)), [V.at(c, x), V.at(c, y)]), "the list is sorted before repeated elements are removed", n)
        r = fresh("uniq", V.V); p = fresh("uniqend", I); up = z3.Function("upos!%s" % p, I, I)
        st.assume(And(0 <= p, p <= V.len(c), V.len(r) == V.len(c), (p == 0) == (V.len(c) == 0)))
        st.assume(th.forall([x, y], Implies(And(0 <= x, x < y, y < p), V.at(r, x) < V.at(r, y)), [V.at(r, x), V.at(r, y)]))
        st.assume(th.forall([x], Implies(And(0 <= x, x < p), mem(c, V.at(r, x))), V.at(r, x)))
        st.assume(th.forall([x], Implies(mem(c, x), And(0 <= up(x), up(x) < p, V.at(r, up(x)) == x)), mem(c, x)))
        s.write(st, cont, r); return [(st, Iter(cont, p))]
    def std_advance(s, st, vs, n, rd):
        s.write(st, vs[0], s.incr(st, s.rv(st, vs[0]), s.rv(st, vs[1]), n)); return [(st, None)]
    def std_prev(s, st, vs, n, rd): 
        d = s.rv(st, vs[1]) if len(vs) > 1 else IntVal(1); return [(st, s.incr(st, s.rv(st, vs[0]), -d, n))]
    def find_bound(s, st, vs, n, rd, upper):
        """lower_bound on a sorted container (first, last, value[, cmp]) with default order on ints"""
        a, b = s.rv(st, vs[0]), s.rv(st, vs[1])
        c = s.rv(st, a.cont)
        raise Unsupported("lower_bound")
    # ---- grb calls
    def call(s, st, d, args, this, n):
        s.tick()
        c = s.contracts.find(d, args, this, s, st) if s.contracts else None
        if c is not None and not (s.depth == 0 and False):
            d2 = s.ix.define(d)
            s.calls[d2.id] = (d2, c)
            return c.apply(s, st, d2, args, this, n)
        d2 = s.ix.define(d)
        b = ca.body(d2)
        if b is None:
            raise Unsupported("no definition of %s" % ca.qualname(d))
        return s.call_inline(st, d2, args, this, n)
    # ================================================================ statements
    def exec(s, n, st):
        s.tick()
        m = getattr(s, "st_" + n.kind, None)
        if m is None:
            return [(x, "normal", None) for x, v in s.ev(n, st)]
        r = m(n, st)
        if len(r) > MAXPATHS: raise Unsupported("too many paths")
        return r
    def st_CompoundStmt(s, n, st):
        cur = [(st, "normal", None)]
        for c in n.inner:
            if c is None: continue
            nxt = []
            for x, k, v in cur:
                if k == "normal": nxt += s.exec(c, x)
                else: nxt.append((x, k, v))
            cur = nxt
        return cur
    def st_FullComment(s, n, st): return [(st, "normal", None)]
    def st_NullStmt(s, n, st): return [(st, "normal", None)]
    def st_StaticAssertDecl(s, n, st): return [(st, "normal", None)]
    def st_DeclStmt(s, n, st):
        cur = [st]
        for d in n.inner:
            if d is None: continue
            nxt = []
            for x in cur: nxt += s.decl(d, x)
            cur = nxt
        return [(x, "normal", None) for x in cur]
    def decl(s, d, st):
        if d.kind in ("TypeAliasDecl", "TypedefDecl", "StaticAssertDecl", "UsingDecl", "UsingDirectiveDecl", "CXXRecordDecl", "EmptyDecl"): return [st]
        if d.kind == "DecompositionDecl":
            init = [c for c in d.inner if c is not None and c.kind != "BindingDecl" and not c.kind.endswith("Comment")]
            out = []
            for x, v in s.ev(init[-1], st):
                if (d.type or "").rstrip().endswith("&"):
                    base = v if isinstance(v, LV) else s.new(x, v, "decomp")
                else: base = s.materialize(x, v, "decomp", d.dtype)
                x.env[d.id] = base
                bs = [c for c in d.inner if c is not None and c.kind == "BindingDecl"]
                for i, bd in enumerate(bs):
                    x.env[bd.id] = CompLV(base, i)
                    for vd in bd.inner:
                        if vd is not None and vd.kind == "VarDecl": x.env[vd.id] = CompLV(base, i)
                out.append(x)
            return out
        if d.kind != "VarDecl": raise Unsupported("declaration %s" % d.kind)
        init = [c for c in d.inner if c is not None and not c.kind.endswith("Type") and not c.kind.endswith("Comment") and not c.kind.endswith("Attr")]
        isref = (d.type or "").rstrip().endswith("&")
        if not init:
            x = st
            k = kind(d.dtype)
            if k[0] == "struct": x.env[d.id] = s.make_obj(x, d.dtype, d.name)
            else: x.env[d.id] = s.new(x, s.default(x, k, initialised=False), d.name, d.dtype)
            return [x]
        out = []
        if d.x.get("constexpr"):
            # a compile-time constant whose uses carry their ConstantExpr value
            try: evs = s.ev(init[-1], st)
            except Unsupported:
                st.env[d.id] = s.new(st, s.default(st, kind(d.dtype), initialised=False), d.name, d.dtype)
                return [st]
        else: evs = s.ev(init[-1], st)
        for x, v in evs:
            if isref:
                x.env[d.id] = v if isinstance(v, LV) else (v if isinstance(v, (Functor, Lambda)) else s.new(x, v, d.name, d.dtype))
            else:
                x.env[d.id] = s.materialize(x, v, d.name, d.dtype) if not isinstance(v, (Functor, Lambda)) else s.new(x, v, d.name, d.dtype)
            out.append(x)
        return out
    def st_ReturnStmt(s, n, st):
        e = [c for c in n.inner if c is not None]
        if not e: return [(st, "return", None)]
        out = []
        for x, v in s.ev(e[0], st):
            # a prvalue return of a local object: keep the object; scalars: read now
            if isinstance(v, (Loc, ElemLV, CompLV)) and e[0].x.get("valueCategory") != "lvalue": v = s.rv(x, v)
            out.append((x, "return", v))
        return out
    def st_IfStmt(s, n, st):
        ch = n.inner
        if n.x.get("hasInit"): 
            r = []
            for x, k, v in s.exec(ch[0], st): r.append((x, k, v))
            ch = ch[1:]
            if len(r) != 1: raise Unsupported("if init")
            st = r[0][0]
        if n.x.get("hasVar"): raise Unsupported("if with declaration")
        out = []
        cond = ch[0]
        if n.x.get("isConstexpr") and cond.kind == "ConstantExpr" and "value" in cond.x:
            b = str(cond.x["value"]) in ("true", "1")
            rs = [(st, b)]
        else: rs = s.branch(cond, st)
        for x, b in rs:
            if b: out += s.exec(ch[1], x)
            elif len(ch) > 2 and ch[2] is not None: out += s.exec(ch[2], x)
            else: out.append((x, "normal", None))
        return out
    def st_BreakStmt(s, n, st): return [(st, "break", None)]
    def st_ContinueStmt(s, n, st): return [(st, "continue", None)]
    def st_ExprWithCleanups(s, n, st):
        return s.exec(n.inner[0], st)
    def st_CXXThrowExpr(s, n, st):
        e = n.inner[0] if n.inner else None
        t = None
        x = e
        while x is not None and t is None:
            if x.type and "Exception" in x.type: t = re.search(r"(\w*Exception)", x.type).group(1)
            x = x.inner[0] if x.inner else None
        s.throws.append((st, t or "unknown", n))
        return []
    def st_SwitchStmt(s, n, st): raise Unsupported("switch")
    def st_CXXTryStmt(s, n, st): raise Unsupported("try")
    # ---- loops
    def st_WhileStmt(s, n, st):
        cond, body = n.inner[-2], n.inner[-1]
        return s.loop(n, st, cond, body, None, True)
    def st_DoStmt(s, n, st):
        body, cond = n.inner[0], n.inner[1]
        return s.loop(n, st, cond, body, None, False)
    def st_ForStmt(s, n, st):
        init, _cv, cond, inc, body = n.inner
        out = []
        sts = [(st, "normal", None)] if init is None else s.exec(init, st)
        for x, k, v in sts: out += s.loop(n, x, cond, body, inc, True)
        return out
    def st_CXXForRangeStmt(s, n, st):
        ch = n.inner
        cur = [st]
        if ch[0] is not None: raise Unsupported("range-for init")
        for dcl in ch[1:4]:
            nxt = []
            for x in cur: nxt += [y for y, _, _ in s.exec(dcl, x)]
            cur = nxt
        cond, inc, lv, body = ch[4], ch[5], ch[6], ch[7]
        out = []
        for x in cur: out += s.loop(n, x, cond, [lv, body], inc, True)
        return out
    def loop(s, n, st, cond, body, inc, pre):
        s.tick()
        bodies = body if isinstance(body, list) else [body]
        # 1. which locations does the loop modify?
        mod = set(); saved_throws = s.throws
        lastvals = {}
        s.dry += 1
        for _ in range(6):
            s.throws = []
            h = s.havoc(st.clone(), mod, st, lastvals)
            h.written = set()
            back, ex, esc = s.iteration(h, cond, bodies, inc, pre)
            new = set()
            for x in back:
                for l in x.written:
                    if l in st.store:
                        new.add(l)
                        lastvals.setdefault(l, x.store[l])
            for x in ex + [e[0] for e in esc] + [t[0] for t in s.throws]:
                for l in x.written:
                    if l in st.store and l not in new and any(l in y.written for y in back): new.add(l)
            if new <= mod: break
            mod |= new
        s.dry -= 1
        s.throws = saved_throws
        outer_written = set(st.written)
        if s.dry:
            h = s.havoc(st, mod, st.clone(), lastvals)
            back, ex, esc = s.iteration(h, cond, bodies, inc, pre)
            r = [(x, "normal", None) for x in ex] + esc
            for x, _, _ in r: x.written |= mod
            return r
        # 2. candidate invariants
        s.loops_seen += 1
        key = ("/".join(s.fnstack), n.id, st.trace)
        entry = st.clone()
        for l in mod:      # a variable without a value yet: any value
            if entry.store.get(l) is UNINIT and isinstance(lastvals.get(l), z3.ExprRef): entry.store[l] = fresh("uninit", lastvals[l].sort())
        head = s.havoc(st.clone(), mod, entry, lastvals)
        cands = s.contracts.candidates(s, entry, head, mod, n) if s.contracts else []
        s.tick()
        # evaluate at entry (initiation)
        ck = Checker(entry.pc, s.timeout)
        live = []
        prev = s.survivors.get(key)
        for nm, f in cands:
            if prev is not None and nm not in prev: continue
            try: g = f(entry)
            except (CandError, z3.Z3Exception, AttributeError, TypeError): continue
            if g is None: continue
            r_ = "proved" if z3.is_true(z3.simplify(g)) else ck.check(g)
            if r_ == "proved": live.append((nm, f))
            elif s.debug and s.debug in nm: print("NOINIT", nm, g)
            s.tick()
        # 3. Houdini
        rounds = 0; lost = []
        while True:
            rounds += 1; s.tick()
            h = head.clone()
            assumed = []
            for nm, f in live:
                try: g = f(h)
                except (CandError, z3.Z3Exception, AttributeError, TypeError) as ex_:
                    g = None
                    if s.debug and s.debug in nm: print("EXC", nm, repr(ex_))
                if g is not None: h.assume(g); assumed.append((nm, f))
            live = assumed
            h.written = set()
            no = len(s.obls); nt = len(s.throws)
            back, ex, esc = s.iteration(h.clone(), cond, bodies, inc, pre)
            drop = set()
            for x in back:
                ck = Checker(x.pc, s.timeout)
                for nm, f in live:
                    if nm in drop: continue
                    try: g = f(x)
                    except (CandError, z3.Z3Exception, AttributeError, TypeError): g = None
                    if g is None or ck.check(g) != "proved":
                        drop.add(nm)
                        if s.debug and s.debug in nm: print("DROP", nm, "round", rounds); print("  GOAL", g); [print("   HYP", h_) for h_ in x.pc[-14:]]; th.explain(x.pc, g)
                    s.tick()
            if not drop:
                # z3 may have missed a candidate only because refuted ones were still assumed: one second chance
                if not (Checker.thorough and lost) : break
                live = live + lost; lost = None; del s.obls[no:]; del s.throws[nt:]
                continue
            if lost is not None: lost += [c for c in live if c[0] in drop and not re.match(r"unchanged #|\S+ <= entry", c[0])]
            live = [c for c in live if c[0] not in drop]
            del s.obls[no:]; del s.throws[nt:]
            if rounds > 30: raise Unsupported("Houdini does not converge")
        s.survivors[key] = set(nm for nm, f in live)
        if s.verbose:
            print("   loop line %s: %d/%d invariants, %d rounds; mod=%s" % (n.line, len(live), len(cands), rounds, sorted(mod)))
            for nm, f in live: print("      ", nm)
        s.n_invs = getattr(s, "n_invs", 0) + len(live)
        for nm, f in live: s.cands_used[nm] = s.cands_used.get(nm, 0) + 1
        r = [(x, "normal", None) for x in ex] + esc
        for x, _, _ in r: x.written |= mod | outer_written
        return r
    def loop_ordinal(s, n):
        if not hasattr(s, "_lo"): s._lo = {}
        return n.id
    def iteration(s, h, cond, bodies, inc, pre):
        back, ex, esc = [], [], []
        env0 = h.env
        starts = []
        if pre:
            if cond is None: starts = [h]
            else:
                for x, b in s.branch(cond, h): (starts if b else ex).append(x)
        else: starts = [h]
        ends = []
        for x in starts:
            x.env = dict(x.env)
            cur = [(x, "normal", None)]
            for bnode in bodies:
                nxt = []
                for y, k, v in cur:
                    if k == "normal": nxt += s.exec(bnode, y)
                    else: nxt.append((y, k, v))
                cur = nxt
            for y, k, v in cur:
                if k in ("normal", "continue"): ends.append(y)
                elif k == "break": ex.append(y)
                else: esc.append((y, k, v))
        for y in ends:
            if inc is not None:
                for z, v in s.ev(inc, y): s._post(z, cond, pre, back, ex)
            else: s._post(y, cond, pre, back, ex)
        return back, ex, esc
    def _post(s, z, cond, pre, back, ex):
        if pre: back.append(z)
        else:
            for w, b in s.branch(cond, z): (back if b else ex).append(w)
    def havoc(s, st, mod, entry, lastvals):
        for l in sorted(mod):
            v = entry.store.get(l, UNINIT)
            if v is UNINIT: v = lastvals.get(l, UNINIT)
            st.store[l] = s.havoc_val(st, v, lastvals.get(l))
        return st
    def havoc_val(s, st, v, last=None):
        if isinstance(v, z3.ExprRef):
            c = fresh("h", v.sort())
            if v.sort() == I: st.assume(c >= 0)   # all integer variables of this code base are unsigned (checked: see int_signed)
            return c
        if isinstance(v, Iter):
            if isinstance(last, Iter) and not same_lv(last.cont, v.cont): raise Unsupported("iterator changes container in loop")
            return Iter(v.cont, fresh("it", I))
        if isinstance(v, Tup): return Tup([x if isinstance(x, LV) else s.havoc_val(st, x) for x in v.xs])
        if v is UNINIT: return UNINIT
        if isinstance(v, (Str, Functor)): return v
        raise Unsupported("havoc of %r" % (v,))

class CandError(Exception): pass

class Checker:
    """many goals under one path condition"""
    thorough = False
    def __init__(s, pc, timeout):
        s.pc = list(pc); s.timeout = min(timeout, 2500)
        s.sv = th.mk_solver(s.timeout)
        s.have = set()
        for a in th.closure(s.pc): s.have.add(a.get_id()); s.sv.add(a)
        s.sv.add(*s.pc)
        s.keep = []
    def check(s, goal):
        if z3.is_true(goal): return "proved"
        for extra, g in th.decompose(goal):
            t0 = time.time()
            ext = th.ext_instances(g, s.pc)
            fs = extra + ext + [Not(g)]
            s.sv.push()
            for a in th.closure(fs):
                if a.get_id() not in s.have: s.sv.add(a)
            s.sv.add(*fs)
            r = s.sv.check()
            s.sv.pop()
            th.STATS["queries"] += 1; th.STATS["time"] += time.time() - t0
            if r == z3.unknown and Checker.thorough and fresh_solver(fs, s.pc): continue
            if r != z3.unsat: return "unknown"
        return "proved"
def fresh_solver(fs, pc):
    """further attempts: z3's instantiation is incomplete in ways that depend on search order"""
    return th.portfolio(list(pc) + list(fs), 1500)

def is_rowsort(S): return S.name().startswith("Row_")
def same_type(a, b): return strip_t(a).split("<")[0].split("::")[-1] == strip_t(b).split("<")[0].split("::")[-1]
