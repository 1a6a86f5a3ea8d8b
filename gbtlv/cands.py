"""Candidate loop invariants.  Nothing here is trusted: every candidate is kept
only when the verifier proves that it holds on entry and is preserved."""
import z3, itertools, types
from z3 import And, Or, Not, Implies, If, IntVal, BoolVal, Int
import theory as th, specs as sp
from theory import rowt, vect, sort, I, B, fresh, is_row, is_vec, rowt_of, vect_of, nv
from symex import Loc, Obj, Ref, Tup, Iter, Functor, Ptr, LV, ElemLV, CompLV, UNINIT, CandError, same_lv, root

def subterms(t, out, seen):
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x) or not z3.is_app(x): continue
        out.append(x); st.extend(x.children())

class Cursor:
    """iterator variable over a row or index vector, or an integer counter"""
    def __init__(s, name, kind, get, cont=None, entry=None, mod=True):
        s.name = name; s.kind = kind; s.get = get; s.cont = cont; s.entry = entry; s.mod = mod
def contval(eng, lv):
    return lambda st: eng.rv(st, lv)

def cursors(eng, entry, head, mod):
    out = []; seen = set()
    def add(l, v, name):
        if l.id in seen: return
        seen.add(l.id)
        m = l.id in mod
        if isinstance(v, Iter):
            lv = v.cont
            out.append(Cursor(name, "it", (lambda st, l=l: st.store[l.id].pos), cont=(lambda st, lv=lv: eng.rv(st, lv)), mod=m, entry=v.pos if not m else None))
            out[-1].lv = lv; out[-1].loc = l
        elif isinstance(v, z3.ExprRef) and v.sort() == I:
            out.append(Cursor(name, "int", (lambda st, l=l: st.store[l.id]), mod=m)); out[-1].loc = l
    flat = []
    def walk(nm, lv, d=0):
        """scalar fields of local objects, under a name that does not depend on numbering"""
        if isinstance(lv, Loc): flat.append((nm, Loc(lv.id, nm, lv.ctype) if d else lv))
        elif isinstance(lv, Obj) and d < 3:
            for f, x in lv.fields.items(): walk("%s.%s" % (nm, f), x, d + 1)
    for vid, lv in scope(eng, entry):
        walk(getattr(lv, "name", "") or "obj%s" % vid, lv)
    for vid, lv in flat + [(None, Loc(i, "#%d" % i, None)) for i in sorted(mod)]:
        if isinstance(lv, Loc):
            v = head.store.get(lv.id)
            if v is None or v is UNINIT or entry.store.get(lv.id, UNINIT) is UNINIT: continue
            add(lv, v, lv.name or "#%d" % lv.id)
    return out

def ints_in_scope(eng, entry, mod):
    """terms for unmodified ints"""
    out = []; seen = set()
    def add(nm, t):
        if isinstance(t, z3.ExprRef) and t.sort() == I:
            if t.get_id() not in seen: seen.add(t.get_id()); out.append((nm, t))
    def visit(nm, lv, depth=0):
        if depth > 3: return
        if isinstance(lv, Ref): lv = lv.lv
        if isinstance(lv, Loc):
            if lv.id in mod or "Enum" in (lv.ctype or ""): return
            v = entry.store.get(lv.id)
            if isinstance(v, z3.ExprRef): add(nm, v)
            elif isinstance(v, Ptr) : visit(nm, v.lv, depth + 1)
        elif isinstance(lv, Obj):
            for f, x in lv.fields.items(): visit(nm + "." + f, x, depth + 1)
    for vid, lv in scope(eng, entry): visit(getattr(lv, "name", "") or "v", lv)
    for th_ in thiss(eng, entry): visit("this", th_)
    return out

def rows_in_scope(eng, entry, mod):
    """unmodified row-valued things: name -> term ; modified: name -> accessor"""
    out = []; seen = set()
    def visit(nm, lv, depth=0):
        if depth > 4: return
        if isinstance(lv, Ref): lv = lv.lv
        if isinstance(lv, Loc):
            if lv.id in seen: return
            seen.add(lv.id)
            v = entry.store.get(lv.id)
            if is_row(v) or is_vec(v): out.append((nm, lv, lv.id in mod))
        elif isinstance(lv, Obj):
            for f, x in lv.fields.items(): visit(nm + "." + f, x, depth + 1)
        elif isinstance(lv, ElemLV):
            try: v = eng.rv(entry, lv)
            except Exception: return
            if is_row(v): out.append((nm, lv, root(lv).id in mod))
            visit(nm + "[]base", lv.base, depth + 1)
    for vid, lv in scope(eng, entry): visit(getattr(lv, "name", "") or "v", lv)
    for l in sorted(mod):
        visit("#%d" % l, Loc(l, "#%d" % l, None))
    for th_ in thiss(eng, entry): visit("this", th_)
    return out

def contof(eng, o):
    def g(st):
        b, v, n = [eng.read(st, o.fields[f]) for f in ("m_bitmap", "m_vals", "m_size")]
        return sp.CONT(vect_of(v).T)(b, v, n)
    return g
def vecobjs(eng, entry):
    out = []
    def visit(lv, d=0):
        if d > 4: return
        if isinstance(lv, Ref): lv = lv.lv
        if isinstance(lv, Obj):
            if "m_bitmap" in lv.fields:
                if all(lv is not x for x in out): out.append(lv)
            else:
                for x in lv.fields.values(): visit(x, d + 1)
    for vid, lv in scope(eng, entry): visit(lv)
    for t in thiss(eng, entry): visit(t)
    return out
def scope(eng, entry):
    out = list(entry.env.items())
    for e, t in reversed(eng.envstack): out += list(e.items())
    return out
def thiss(eng, entry):
    out = []
    for t in [entry.this] + [t for e, t in reversed(eng.envstack)]:
        if t is not None and all(t is not x for x in out): out.append(t)
    return out

def candidates(eng, entry, head, mod, node):
    C = []; names = set()
    def add(nm, f):
        k = nm
        while k in names: k = k + "'"
        names.add(k); C.append((k, f))
    cur = cursors(eng, entry, head, mod)
    mcur = [c for c in cur if c.mod]
    its = [c for c in cur if c.kind == "it"]
    mits = [c for c in its if c.mod]
    mints = [c for c in mcur if c.kind == "int"]
    uints = ints_in_scope(eng, entry, mod)
    rows = rows_in_scope(eng, entry, mod)
    eng.tick()
    def length(st, c):
        v = c.cont(st); return rowt_of(v).len(v) if is_row(v) else vect_of(v).len(v)
    # ---- bounds
    for c in mits:
        add("%s in range" % c.name, lambda st, c=c: And(0 <= c.get(st), c.get(st) <= length(st, c)))
        e0 = entry.store[c.loc.id]
        if isinstance(e0, Iter): add("%s moved forward" % c.name, lambda st, c=c, p=e0.pos: p <= c.get(st))
    for c in mints:
        e0 = entry.store.get(c.loc.id)
        if isinstance(e0, z3.ExprRef):
            add("%s >= entry" % c.name, lambda st, c=c, e0=e0: c.get(st) >= e0)
            add("%s <= entry" % c.name, lambda st, c=c, e0=e0: c.get(st) <= e0)
        for nm, t in uints: add("%s <= %s" % (c.name, nm), lambda st, c=c, t=t: c.get(st) <= t)
        if isinstance(e0, z3.ExprRef):
            for nm, t in uints: add("%s has not passed %s" % (c.name, nm), lambda st, c=c, t=t, e0=e0: Or(t < e0, c.get(st) <= t))
        for nm, lv, m in rows:
            def f(st, c=c, lv=lv):
                v = eng.rv(st, lv); return c.get(st) <= (rowt_of(v).len(v) if is_row(v) else vect_of(v).len(v))
            add("%s <= size of %s" % (c.name, nm), f)
    for a, b in itertools.combinations(mcur, 2):
        if a.kind == b.kind == "int" or (a.kind != b.kind):
            add("%s == %s" % (a.name, b.name), lambda st, a=a, b=b: a.get(st) == b.get(st))
            add("%s <= %s" % (a.name, b.name), lambda st, a=a, b=b: a.get(st) <= b.get(st))
            add("%s <= %s" % (b.name, a.name), lambda st, a=a, b=b: b.get(st) <= a.get(st))
        elif a.kind == b.kind == "it":
            add("%s == %s" % (a.name, b.name), lambda st, a=a, b=b: a.get(st) == b.get(st))
    # iterator ends kept in locals (range-for): it <= end
    for a in mits:
        for b in its:
            if b is not a and not b.mod: add("%s <= %s" % (a.name, b.name), lambda st, a=a, b=b: a.get(st) <= b.get(st) if same_lv(a.lv, b.lv) else None)
    # ---- frontier facts
    def idx(st, c, d):
        v = c.cont(st)
        if not is_row(v): raise CandError()
        return rowt_of(v).idx(v, c.get(st) + d)
    rits = [c for c in its if is_row(c.cont(head)) and not c.name.startswith("__end")]
    for a in rits:
        for b in rits:
            if a is b or not (a.mod or b.mod): continue
            n = "%s,%s" % (a.name, b.name)
            pa, pb = (lambda st, a=a: a.get(st)), (lambda st, b=b: b.get(st))
            add("frontier< %s" % n, lambda st, a=a, b=b: Or(a.get(st) == 0, b.get(st) == length(st, b), idx(st, a, -1) < idx(st, b, 0)))
            add("frontier1 %s" % n, lambda st, a=a, b=b: Or(a.get(st) == 0, b.get(st) == 0, idx(st, a, -1) <= idx(st, b, -1)))
            add("frontier1s %s" % n, lambda st, a=a, b=b: Or(a.get(st) == 0, b.get(st) == 0, idx(st, a, -1) < idx(st, b, -1)))
            add("frontier2 %s" % n, lambda st, a=a, b=b: Or(a.get(st) == length(st, a), b.get(st) == 0, idx(st, a, 0) > idx(st, b, -1)))
            add("frontier2e %s" % n, lambda st, a=a, b=b: Or(a.get(st) == length(st, a), b.get(st) == 0, idx(st, a, 0) >= idx(st, b, -1)))
            add("started %s" % n, lambda st, a=a, b=b: Implies(a.get(st) > 0, b.get(st) > 0))
    allints = [(c.name, c.get, True) for c in mints] + [(n, (lambda st, t=t: t), False) for n, t in uints]
    for a in mits:
        if a not in rits: continue
        for c in mints:
            add("%s is the index before %s" % (c.name, a.name), lambda st, a=a, c=c: Or(a.get(st) == 0, c.get(st) == idx(st, a, -1)))
    for a in rits:
        for n, g, m in allints:
            if not (a.mod or m): continue
            add("front< %s,%s" % (a.name, n), lambda st, a=a, g=g: Or(a.get(st) == 0, idx(st, a, -1) < g(st)))
            add("front<= %s,%s" % (a.name, n), lambda st, a=a, g=g: Or(a.get(st) == 0, idx(st, a, -1) <= g(st)))
            if m or a.mod:
                add("front>= %s,%s" % (a.name, n), lambda st, a=a, g=g: Or(a.get(st) == length(st, a), idx(st, a, 0) >= g(st)))
    # ---- sortedness / range / emptiness of modified rows
    for nm, lv, m in rows:
        if not m: continue
        v = eng.rv(head, lv)
        if not is_row(v): continue
        T = rowt_of(v)
        add("sorted %s" % nm, lambda st, lv=lv, T=T: T.sorted(eng.rv(st, lv)))
        for n, t in uints: add("inrange %s %s" % (nm, n), lambda st, lv=lv, T=T, t=t: T.inrange(eng.rv(st, lv), t))
        for c in mits: add("len %s == %s" % (nm, c.name), lambda st, lv=lv, T=T, c=c: T.len(eng.rv(st, lv)) == c.get(st))
    # ---- index vectors walked by a cursor
    x = Int("x?")
    for c in mits:
        v = c.cont(head)
        if is_vec(v) and v.sort().name() == "Vec_Int":
            V = vect_of(v)
            for n, t in uints:
                add("elements before %s below %s" % (c.name, n), lambda st, c=c, V=V, t=t: th.forall([x], Implies(And(0 <= x, x < c.get(st)), V.at(c.cont(st), x) < t), V.at(c.cont(st), x)))
                add("elements before %s differ from %s" % (c.name, n), lambda st, c=c, V=V, t=t: th.forall([x], Implies(And(0 <= x, x < c.get(st)), V.at(c.cont(st), x) != t), V.at(c.cont(st), x)))
    # ---- bitmap vectors
    bc = sp.BCNT()
    for o in vecobjs(eng, entry):
        if not any(isinstance(o.fields[f], Loc) and o.fields[f].id in mod for f in ("m_bitmap", "m_nvals", "m_vals")): continue
        g = lambda st, f, o=o: eng.read(st, o.fields[f])
        add("len bitmap of %s" % o.name, lambda st, g=g: vect(B).len(g(st, "m_bitmap")) == g(st, "m_size"))
        add("len values of %s" % o.name, lambda st, g=g: vect_of(g(st, "m_vals")).len(g(st, "m_vals")) == g(st, "m_size"))
        add("count of %s" % o.name, lambda st, g=g: g(st, "m_nvals") == bc(g(st, "m_bitmap"), g(st, "m_size")))
    # ---- unchanged from entry
    for l in sorted(mod):
        v = entry.store.get(l)
        if isinstance(v, z3.ExprRef): add("unchanged #%d" % l, lambda st, l=l, v=v: st.store[l] == v if isinstance(st.store[l], z3.ExprRef) else None)
    # ---- facts of the contract about a written location, as facts about its current value
    cc = getattr(eng, "cur_eff", None)
    if cc is not None:
        for k, lv, val in cc.writes:
            if k == "rel":
                r = root(lv) if not isinstance(lv, Obj) else None
                if r is None or r.id not in mod: continue
                mk, facts = val
                nf = len(facts(mk()))
                for i in range(nf):
                    def f(st, lv=lv, facts=facts, i=i):
                        v = eng.rv(st, lv)
                        if v is UNINIT: return None
                        return facts(v)[i][1]
                    add("contract fact %d" % i, f)
        if not getattr(cc, "own_invs", False): matrix_candidates(eng, cc, entry, head, mod, add, cur, mits, mints, rows, uints)
        if not getattr(cc, "own_invs", False): spec_candidates(eng, cc, entry, head, mod, add, cur, mits, mints, rows, uints)
        if cc.invs:
            h = types.SimpleNamespace(eng=eng, entry=entry, head=head, mod=mod, cur=cur, mits=mits, mints=mints, rows=rows, uints=uints, counters=counter_locals(eng, entry, mod),
                                      modints=[l for l in sorted(mod) if isinstance(head.store.get(l), z3.ExprRef) and head.store[l].sort() == I])
            for f in cc.invs: f(add, h)
    return C

# --------------------------------------------------------------------------- spec-shaped candidates
def pool_of(cc, counters=()):
    """ground spec terms by sort name"""
    pool = {}; out = []; seen = set()
    for k, lv, val in cc.writes:
        if k == "eq" and isinstance(val, z3.ExprRef): subterms(val, out, seen)
    if isinstance(cc.ret, z3.ExprRef): subterms(cc.ret, out, seen)
    for t in cc.pool: subterms(t, out, seen)
    for k, lv, val in cc.writes:
        if k == "rows":
            for c in counters: subterms(val[1](c), out, seen)
    for h in cc.hints:
        for c in counters: subterms(h(c), out, seen)
    for t in out:
        if t.num_args() == 0 and not is_row(t): continue
        nm = t.decl().name()
        pool.setdefault(t.sort().name(), []).append(t)
    return pool

def spec_candidates(eng, cc, entry, head, mod, add, cur, mits, mints, rows, uints):
    ctr = counter_terms(eng, entry)
    pool = pool_of(cc, ctr)
    # consumption substitutions: (name, apply(term, st))
    subs = []
    for c in [c for c in cur if c.kind == "it" and not c.name.startswith("__end")]:
        try: e0 = c.cont(entry)
        except Exception: continue
        if is_row(e0): subs.append((c.name, [e0], lambda st, c=c, e0=e0: rowt_of(e0).prefix(e0, c.get(st))))
    for c in mints:
        for nm, lv, m in rows:
            if m: continue
            e0 = eng.rv(entry, lv)
            if is_row(e0):
                subs.append(("%s below %s" % (nm, c.name), [e0], lambda st, c=c, e0=e0: rowt_of(e0).below(e0, c.get(st))))
                subs.append(("%s prefix %s" % (nm, c.name), [e0], lambda st, c=c, e0=e0: rowt_of(e0).prefix(e0, c.get(st))))
        for o in vecobjs(eng, entry):
            if any(isinstance(o.fields[f], Loc) and o.fields[f].id in mod for f in ("m_bitmap", "m_nvals", "m_vals", "m_size")): continue
            e0 = contof(eng, o)(entry)
            subs.append(("content of %s below %s" % (o.name, c.name), [e0], lambda st, c=c, e0=e0: rowt_of(e0).below(e0, c.get(st))))
        for nm, t in uints:
            if z3.is_int_value(t): continue
            subs.append(("%s := %s" % (nm, c.name), [t], lambda st, c=c: c.get(st)))
    def targets(st_sort):
        return pool.get(st_sort.name(), [])
    # which locations
    tl = []
    for nm, lv, m in rows:
        if m: 
            v = eng.rv(head, lv)
            if is_row(v) or is_vec(v): tl.append((nm, lv, v.sort()))
    for l in sorted(mod):
        v = head.store.get(l)
        if isinstance(v, z3.ExprRef) and v.sort() not in (I,) and not is_row(v) and not is_vec(v): tl.append(("#%d" % l, Loc(l, "#%d" % l, None), v.sort()))
    ctrs = counter_locals(eng, entry, mod)
    for nm, lv, m in rows:
        if not m or isinstance(lv, ElemLV): continue
        v = eng.rv(head, lv)
        if is_vec(v) and v.sort().name().startswith("Vec_Row_"):
            for kn, K in ctrs:
                tl.append(("%s[%s]" % (nm, kn), (lambda st, lv=lv, K=K: vect_of(eng.rv(st, lv)).at(eng.rv(st, lv), K)), sort(v.sort().name()[4:])))
    for o in vecobjs(eng, entry):
        if any(isinstance(o.fields[f], Loc) and o.fields[f].id in mod for f in ("m_bitmap", "m_nvals", "m_vals")):
            g = contof(eng, o); tl.append(("content of " + o.name, g, g(head).sort()))
    n = 0
    for nm, lv, S in tl:
        done = set()
        for t in targets(S):
            rel = [x for x in subs if any(occurs(t, y) for y in x[1])]
            for k in range(0, min(3, len(rel)) + 1):
                for comb in itertools.combinations(rel, k):
                    keys = [y.get_id() for x in comb for y in x[1]]
                    if len(set(keys)) != len(keys): continue
                    name = "%s == %s[%s]" % (nm, t.decl().name() + ("@%d" % (t.hash() % 1000)), ", ".join(x[0] for x in comb))
                    def f(st, lv=lv, t=t, comb=comb):
                        v = lv(st) if callable(lv) else eng.rv(st, lv)
                        if not isinstance(v, z3.ExprRef): return None
                        return v == z3.substitute(t, *[(x[1][0], x[2](st)) for x in comb]) if comb else v == t
                    add(name, f); n += 1
                    if S.name() not in ("Bool",) and not S.name().startswith("Row_"):
                        pass
    return n

def occurs(t, x):
    seen = set(); st = [t]; i = x.get_id()
    while st:
        y = st.pop()
        if y.get_id() == i: return True
        if y.get_id() in seen: continue
        seen.add(y.get_id())
        if z3.is_app(y): st.extend(y.children())
    return False

def counter_terms(eng, entry):
    """integer terms of enclosing loops (possible row numbers): unmodified integer locals"""
    out = []
    for vid, lv in scope(eng, entry):
        if isinstance(lv, Loc) and "Enum" not in (lv.ctype or ""):
            v = entry.store.get(lv.id)
            if isinstance(v, z3.ExprRef) and v.sort() == I and not z3.is_int_value(v) and all(v.get_id() != x.get_id() for x in out): out.append(v)
    return out[:4]

def counter_locals(eng, entry, mod):
    """unmodified integer locals of enclosing scopes that are not plain inputs: loop counters and indices"""
    out = []
    for vid, lv in scope(eng, entry):
        if isinstance(lv, Loc) and lv.id not in mod and "Enum" not in (lv.ctype or ""):
            v = entry.store.get(lv.id)
            if isinstance(v, z3.ExprRef) and v.sort() == I and not z3.is_int_value(v) and not str(v).startswith("in_") and all(v.get_id() != x.get_id() for _, x in out): out.append((lv.name, v))
    return out[:3]
def families(cc):
    """row-valued functions of a row number r occurring in the contract: [(name, sort name, lambda r)]"""
    out = []; r0 = z3.Const("fam_r", I); names = set()
    ts = [val[1](r0) for k, lv, val in cc.writes if k == "rows"] + [h(r0) for h in cc.hints]
    for t in ts:
        subs = []; subterms(t, subs, set())
        for x in subs:
            if not is_row(x): continue
            nm = x.decl().name() + "@%d" % (x.hash() % 1000)
            if nm in names: continue
            names.add(nm)
            out.append((nm, x.sort().name(), (lambda r, x=x: z3.substitute(x, (r0, r)))))
    return out

def matrix_candidates(eng, cc, entry, head, mod, add, cur, mits, mints, rows, uints):
    fam = families(cc)
    r = Int("r?")
    ints = [l for l in sorted(mod) if isinstance(head.store.get(l), z3.ExprRef) and head.store[l].sort() == I]
    for nm, lv, m in rows:
        v = eng.rv(head, lv)
        if not is_vec(v) or not v.sort().name().startswith("Vec_Row_"): 
            continue
        V = vect_of(v); RS = V.T.name()
        nvf = nv(sort(RS[4:]))
        rd = lambda st, lv=lv: eng.rv(st, lv)
        # element counts
        for l in ints:
            add("#%d == nv(%s)" % (l, nm), lambda st, l=l, rd=rd, V=V, nvf=nvf: st.store[l] == nvf(rd(st), V.len(rd(st))))
            for c in cur:
                if c.kind == "int" and c.loc.id == l: continue
                if c.kind == "it" and not (c.mod and same_lv(c.lv, lv)): continue
                if c.kind == "int" and not c.mod: continue
                add("#%d == nv(%s,%s)" % (l, nm, c.name), lambda st, l=l, rd=rd, V=V, nvf=nvf, c=c: st.store[l] == nvf(rd(st), c.get(st)))
        if not m: continue
        e0 = eng.rv(entry, lv)
        add("len %s unchanged" % nm, lambda st, rd=rd, V=V, e0=e0: V.len(rd(st)) == V.len(e0))
        add("rows of %s sorted" % nm, lambda st, rd=rd, V=V, RS=RS: th.forall([r], Implies(And(0 <= r, r < V.len(rd(st))), rowt(sort(RS[4:])).sorted(V.at(rd(st), r))), V.at(rd(st), r)))
        for n, t in uints:
            if n.endswith("cols") or True:
                add("rows of %s inrange %s" % (nm, n), lambda st, rd=rd, V=V, t=t, RS=RS: th.forall([r], Implies(And(0 <= r, r < V.len(rd(st))), rowt(sort(RS[4:])).inrange(V.at(rd(st), r), t)), V.at(rd(st), r)))
        ctrs = counter_locals(eng, entry, mod)
        for kn, K in ctrs:
            add("rows of %s other than %s unchanged" % (nm, kn), lambda st, K=K, rd=rd, V=V, e0=e0: th.forall([r], Implies(And(0 <= r, r < V.len(e0), r != K), V.at(rd(st), r) == V.at(e0, r)), V.at(rd(st), r)))
        # column by column: all rows are the family with a bound replaced by a counter
        for c in [c for c in cur if c.mod and c.kind == "int"]:
            for un, u in uints:
                if z3.is_int_value(u): continue
                for fn_, S, f in fam:
                    if S != RS or not occurs(f(IntVal(0)), u): continue
                    add("rows of %s are %s[%s := %s]" % (nm, fn_, un, c.name), lambda st, c=c, rd=rd, V=V, f=f, u=u, e0=e0: th.forall([r], Implies(And(0 <= r, r < V.len(e0)), V.at(rd(st), r) == z3.substitute(f(r), (u, c.get(st)))), V.at(rd(st), r)))
        # ... and inside, rows named by a walked row have advanced
        for c in [c for c in mits if is_row(c.cont(head))]:
            for kn, K in ctrs:
                for un, u in uints:
                    if z3.is_int_value(u) or u.get_id() == K.get_id(): continue
                    for fn_, S, f in fam:
                        if S != RS or not occurs(f(IntVal(0)), u): continue
                        def g(st, c=c, rd=rd, V=V, f=f, u=u, K=K, e0=e0):
                            R0 = c.cont(entry); T = rowt_of(R0)
                            return th.forall([r], Implies(And(0 <= r, r < V.len(e0)), V.at(rd(st), r) == If(T.has(T.prefix(R0, c.get(st)), r), z3.substitute(f(r), (u, K + 1)), z3.substitute(f(r), (u, K)))), V.at(rd(st), r))
                        add("rows of %s are %s[%s := %s(+1)] by %s" % (nm, fn_, un, kn, c.name), g)
        for c in [c for c in cur if c.mod and (c.kind == "int" or same_lv(c.lv, lv))]:
            add("rows of %s from %s on unchanged" % (nm, c.name), lambda st, c=c, rd=rd, V=V, e0=e0: th.forall([r], Implies(And(c.get(st) <= r, r < V.len(e0)), V.at(rd(st), r) == V.at(e0, r)), V.at(rd(st), r)))
            for fn_, S, f in fam:
                if S != RS: continue
                add("rows of %s below %s are %s" % (nm, c.name, fn_), lambda st, c=c, rd=rd, V=V, f=f: th.forall([r], Implies(And(0 <= r, r < c.get(st)), V.at(rd(st), r) == f(r)), V.at(rd(st), r)))
