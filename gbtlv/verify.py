"""Verification of one function instantiation against its contract."""
import z3, time, sys
from z3 import And, Or, Not, Implies, If, IntVal, BoolVal, Int
import theory as th, specs as sp, cast as ca, symex as sx, contracts as co
from theory import rowt, vect, sort, I, B, fresh, is_row, is_vec, rowt_of, vect_of
from symex import *

class Result:
    def __init__(s, name): s.name = name; s.obls = []; s.unsupported = None; s.time = 0; s.calls = {}; s.inlined = set(); s.invs = 0; s.queries = 0

def sym(eng, st, ctype, name):
    """symbolic value/lvalue for a parameter of the given (desugared) type"""
    k = kind(ctype)
    if k[0] in ("int", "bool", "opaque", "vec"):
        v = z3.Const("in_" + name, sort_of(k))
        if k[0] == "int": st.assume(v >= 0)
        return eng.new(st, v, name, ctype)
    if k[0] == "tuple":
        return eng.new(st, Tup([z3.Const("in_%s_%d" % (name, i), sort_of(x)) for i, x in enumerate(k[1])]), name, ctype)
    if k[0] == "string": return eng.new(st, STR, name)
    if k[0] == "iter":
        a = targs(strip_t(ctype))
        ck = kind(a[1]) if len(a) > 1 else None
        if ck is None: raise Unsupported("iterator type")
        key = ("cont", str(sort_of(ck)))
        if getattr(eng, "separate_iters", False): key = ("cont", name)
        if getattr(eng, "pair_iters", False): key = ("cont", eng.n_iters // 2); eng.n_iters += 1
        if key not in eng.iterconts: eng.iterconts[key] = eng.new(st, z3.Const("in_cont_%s" % name, sort_of(ck)), "cont")
        p = IntVal(0) if getattr(eng, "separate_iters", False) else z3.Const("in_pos_" + name, I); st.assume(p >= 0)
        return eng.new(st, Iter(eng.iterconts[key], p), name, ctype)
    if k[0] == "struct":
        t = strip_t(ctype)
        if eng.ix.is_functor(t): return eng.new(st, Functor(t), name, ctype)
        return symobj(eng, st, t, name)
    raise Unsupported("symbolic %s" % (k,))
def symobj(eng, st, t, name):
    rec = eng.ix.record(t)
    if rec is None: raise Unsupported("unknown record %s" % t)
    fl = {}
    for f in eng.ix.fields(rec):
        ft = f.dtype or f.type
        v = sym(eng, st, ft, name + "." + f.name)
        fl[f.name] = Ref(v) if (f.type or "").rstrip().endswith("&") else v
    return Obj(strip_t(t), fl, name)

def locs(lv, out, path):
    if isinstance(lv, Ref): lv = lv.lv
    if isinstance(lv, Loc): out.append((path, lv))
    elif isinstance(lv, Obj):
        for f, x in lv.fields.items(): locs(x, out, path + "." + f)

def verify(ix, decl, bound, alias=None, timeout=4000, budget=120, verbose=False, split=None):
    """quick attempt first; the invariants that z3 misses depend on its search order, so a failed attempt is repeated with several searches per candidate"""
    sx.Checker.thorough = False; th.SHUF = 0
    r = verify1(ix, decl, bound, alias, timeout, budget, verbose, split, 1)
    if r.unsupported is None and not good(r):
        for a in (1, 2):
            sx.Checker.thorough = True; th.SHUF = a - 1
            r2 = verify1(ix, decl, bound, alias, timeout, budget, verbose, split, 3); r2.time += r.time; r2.attempts = a + 1; r = r2
            if good(r) or r.time > budget: break
    sx.Checker.thorough = False; th.SHUF = 0
    return r
def good(r): return r.unsupported is None and all((o.status == "proved") != (o.kind == "vacuity") for o in r.obls)
def verify1(ix, decl, bound, alias, timeout, budget, verbose, split, slow):
    r = Result(ca.qualname(decl)); t0 = time.time()
    eng = sx.Engine(ix, co.Contracts(), timeout=timeout, verbose=verbose)
    eng.deadline = t0 + budget; eng.iterconts = {}
    r.eng = eng
    try:
        st = State()
        ps = ca.params(decl); args = []
        this = None
        if decl.kind in ("CXXMethodDecl", "CXXConstructorDecl") and decl.x.get("storageClass") != "static":
            this = symobj(eng, st, owner(ix, decl), "this")
        eng.separate_iters = getattr(bound.spec, "separate", False)
        eng.pair_iters = getattr(bound.spec, "pairs", False); eng.n_iters = 0
        if decl.kind == "CXXConstructorDecl": this = eng.make_obj(st, owner(ix, decl), "this")
        groups = {}
        for i, p in enumerate(ps):
            g = alias[i] if alias else None
            if g is not None and g in groups: args.append(groups[g]); continue
            a = sym(eng, st, p.dtype, p.name or "p%d" % i)
            if g == "this": a = this
            if g is not None: groups[g] = a
            args.append(a)
        entry = st.clone()
        eff = bound.eff(eng, entry, decl, args, this)
        ent = entry.clone()
        for label, f in eff.requires: ent.assume(f)
        for f in eff.hyps: ent.assume(f)
        splits = getattr(eff, "split", [BoolVal(True)])
        eng.cur_eff = eff
        for sc in splits:
            run_case(eng, r, decl, bound, eff, ent, args, this, sc, groups)
    except Unsupported as e:
        r.unsupported = str(e)
    r.obls = eng.obls if r.unsupported is None else eng.obls
    # discharge
    for o in r.obls:
        if o.status is None:
            t1 = time.time()
            if getattr(o, "by", None) is not None and o.by.status == "proved": o.status = "proved"; continue
            if time.time() > eng.deadline + 60: o.status = "unknown"; r.unsupported = r.unsupported or "time budget exceeded"; continue
            if o.kind == "vacuity": o.status = th.check(o.hyps, o.goal, timeout, (7,)); continue
            # the results already proved at this exit may be used
            hy = list(o.hyps) + [c.fact for c in getattr(o, "cuts", ()) if c.status == "proved"]
            o.status = th.check(hy, o.goal, timeout)
            if o.status != "proved" and slow > 1: o.status = th.check(hy, o.goal, timeout * slow)
            o.time = time.time() - t1
    r.calls = eng.calls; r.inlined = eng.inlined; r.invs = getattr(eng, "n_invs", 0)
    r.time = time.time() - t0
    return r

def owner(ix, decl):
    p = decl.parent
    while p is not None and p.kind not in ("CXXRecordDecl", "ClassTemplateSpecializationDecl"): p = p.parent
    for k, v in ix.records.items():
        if v is p: return k
    raise Unsupported("owner record")

def run_case(eng, r, decl, bound, eff, ent, args, this, sc, groups):
    st = ent.clone(); st.assume(sc)
    st.written = set()
    eng.throws = []; eng.survivors = {}
    base = dict(ent.store)
    retref = (decl.type or "").split("(")[0].rstrip().endswith("&")
    st.env = {}
    passed = list(args)
    outs = eng.call_inline(st, decl, passed, this, decl, ctor_obj=this if decl.kind == "CXXConstructorDecl" else None)
    roots = {}
    for k, lv, val in eff.writes:
        pass
    written_ids = set()
    for k, lv, val in eff.writes:
        for p, l in flat(lv): written_ids.add(l)
    def obl(x, label, goal, kind, by=None):
        o = Obl(label, decl, x.pc, goal, bound.q, kind); o.by = by; eng.obls.append(o); return o
    def rowok(x, lv, new, val, by):
        """what the representation invariant needs of a row: decided separately when the contents are not as specified"""
        T = rowt_of(new); n = fresh("n", I)
        obl(x, "%s is sorted" % nm(lv), Implies(T.sorted(val), T.sorted(new)), "canon", by)
        obl(x, "%s has indices in range" % nm(lv), Implies(T.inrange(val, n), T.inrange(new, n)), "canon", by)
    for x, v in outs:
        cuts = []
        eng.obls.append(Obl("VACUITY", decl, x.pc, BoolVal(False), bound.q, "vacuity"))
        for exc, cond in eff.throws:
            obl(x, "normal return only if no %s is due" % exc, Not(cond), "throw")
        for k, lv, val in eff.writes:
            new = eng.rv(x, lv)
            if k == "eq":
                if new is UNINIT:
                    obl(x, "%s is assigned" % nm(lv), BoolVal(False), "post"); continue
                if isinstance(val, z3.ExprRef):
                    o_ = obl(x, "%s holds the specified result" % nm(lv), new == val, "post"); o_.fact = new == val; cuts.append(o_)
                    if is_row(val): rowok(x, lv, new, val, o_)
                else: raise Unsupported("eq write of %r" % (val,))
            elif k == "rel":
                mk, facts = val
                if new is UNINIT: obl(x, "%s is assigned" % nm(lv), BoolVal(False), "post"); continue
                for label, f in facts(new): obl(x, label, f, "post")
            elif k == "rows":
                n, f = val; V = vect_of(new); rr = fresh("r", I)
                obl(x, "%s has the right number of rows" % nm(lv), V.len(new) == n, "post")
                o_ = obl(x, "row r of %s is as specified, for every r" % nm(lv), Implies(And(0 <= rr, rr < n), V.at(new, rr) == f(rr)), "post"); rq = Int("r?")
                o_.fact = th.forall([rq], Implies(And(0 <= rq, rq < n), V.at(new, rq) == f(rq)), V.at(new, rq)); cuts.append(o_)
                if is_row(V.at(new, rr)):
                    x2 = x.clone(); x2.assume(And(0 <= rr, rr < n)); rowok(x2, lv, V.at(new, rr), f(rr), o_)
        for i, mkf in enumerate(getattr(eff, "post", [])): obl(x, getattr(mkf, "label", "postcondition %d" % i), mkf(x), getattr(mkf, "kind", "post")).cuts = cuts
        ret = eff.ret
        if hasattr(eff, "retfn"): ret = eff.retfn(x)
        if ret is not None:
            vv = eng.rv(x, v)
            if isinstance(ret, z3.ExprRef):
                if not isinstance(vv, z3.ExprRef): raise Unsupported("return value %r" % (vv,))
                obl(x, "returned value is as specified", vv == ret, "post")
        if eff.retrel is not None:
            mk, facts = eff.retrel; vv = eng.rv(x, v)
            for label, f in facts(vv): obl(x, label, f, "post")
        frame(eng, x, base, written_ids, obl)
    for x, exc, node in eng.throws:
        ok = [c for e2, c in eff.throws if e2 == exc]
        obl(x, "%s is thrown only when due" % exc, Or(*ok) if ok else BoolVal(False), "throw")
        frame(eng, x, base, written_ids if eff.partial or decl.kind == "CXXConstructorDecl" else set(), obl, "unchanged when an exception is thrown")
    eng.throws = []

def flat(lv):
    out = []
    if isinstance(lv, Obj):
        for f, v in lv.fields.items():
            if isinstance(v, (Loc, Obj)): out += flat(v)
    else:
        r = root(lv); out.append((None, r.id))
    return out
def nm(lv):
    r = lv if isinstance(lv, Obj) else root(lv)
    return getattr(r, "name", "") or "?"
def frame(eng, x, base, written, obl, what="unchanged"):
    for l, v in base.items():
        if l in written: continue
        w = x.store.get(l)
        if w is v: continue
        if isinstance(v, z3.ExprRef) and isinstance(w, z3.ExprRef):
            if z3.eq(v, w): continue
            obl(x, "input #%d %s" % (l, what), v == w, "frame")
        elif isinstance(v, Iter) and isinstance(w, Iter):
            obl(x, "iterator argument %s" % what, v.pos == w.pos, "frame")
        elif type(v) == type(w): continue
        else: obl(x, "input %s" % what, BoolVal(False), "frame")

if __name__ == "__main__":
    import index
    plat = "sequential"; pat = sys.argv[1]; verbose = "-v" in sys.argv
    nmax = int(sys.argv[2]) if len(sys.argv) > 2 and sys.argv[2].isdigit() else 1
    tu = "/verif/gbtlv/tu_all.cpp"
    for a in sys.argv:
        if a.startswith("--tu="): tu = a[5:]
        if a.startswith("--plat="): plat = a[7:]
    ix = index.Index(ca.load(tu, plat, "grb"))
    sp.MERGE, sp.REPLACE = IntVal(0), IntVal(1)
    n = 0; seen = set()
    for q, l in sorted(ix.byname.items()):
        if q.split("::")[-1] != pat and q != pat: continue
        if "backend" not in q: continue
        for d in l:
            if ca.body(d) is None: continue
            b = None
            for f, props, match in co.CONTRACTS.get(d.name, []):
                class Tn: fields = {"m_data": 1} if "Lil" in q or "Matrix" in q else {"m_bitmap": 1}
                th_ = sx.Obj("x", {"m_data": 1} if "Lil" in q or "Matrix" in q else {"m_bitmap": 1})
                if match is None or match(q, d, None, th_, None, None): b = co.Bound(f, d.name, props, q)
            if b is None: continue
            n += 1
            if n > nmax: break
            r = verify(ix, d, b, verbose=verbose)
            bad = [o for o in r.obls if (o.status != "proved") != (o.kind == "vacuity")]
            print("%s %s: %d obligations, %d not proved, %.1fs, %s" % (q, (d.type or "")[:200], len(r.obls), len(bad), r.time, r.unsupported))
            for o in bad[:12]: print("    NOT PROVED", o.kind, o.label, "line", o.line, o.fn)
