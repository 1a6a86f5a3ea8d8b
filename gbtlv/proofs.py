"""Property -> functions under contract.  Every run re-extracts the instantiated
functions from /repo's headers with clang, verifies the named functions and,
transitively, every function whose contract they use, and reports each
obligation that is not discharged."""
import os, re, time, hashlib, multiprocessing as mp, traceback, concurrent.futures as cf
import z3
from z3 import IntVal
import theory as th, specs as sp, cast as ca, symex as sx, contracts as co, verify as vf, index

HERE = os.path.dirname(os.path.abspath(__file__))
TU = os.path.join(HERE, "tu_all.cpp")
G = dict(MXM=1, EWADD=2, EWMULT=4, KRON=8, APPLY=16, TRANSPOSE=32, EXTRACT=64, ASSIGN=128, MXV=256, REDUCE=512, MISC=1024, CONT=2048)
SEQ, OPT = "sequential", "optimized_sequential"
ANY = ("post", "pre", "safety", "throw", "frame", "canon", "vacuity")

class Plan:
    """groups of operations to instantiate; top-level functions (regex on backend names); obligation kinds that decide the property"""
    def __init__(s, groups, tops, plats=(SEQ, OPT), kinds=ANY, inst=None, note=""): s.groups = groups; s.tops = tops; s.plats = plats; s.kinds = kinds; s.inst = inst; s.note = note
P = {}

# ------------------------------------------------------------------------ loading
def sel(groups):
    v = 0
    for g in groups: v |= G[g]
    return v
def load(plat, groups, tu=TU):
    ix = index.Index(ca.load(tu, plat, "grb", ["-DGV_SEL=%d" % sel(groups)]))
    return ix
def bound_of(ix, q, d):
    own = None
    if d.kind in ("CXXMethodDecl", "CXXConstructorDecl"):
        try: own = vf.owner(ix, d)
        except Exception: return None
    n = (own or "").split("<")[0].split("::")[-1]
    t = sx.Obj(own or "x", {"LilSparseMatrix": {"m_data": 1}, "BitmapSparseVector": {"m_bitmap": 1}}.get(n, {}))
    return co.lookup(q, d, None, t, None, None)
def find(ix, names):
    """instances with a body and a contract; a name with :: is matched against the end of the qualified name"""
    out = []
    for q, l in sorted(ix.byname.items()):
        if not q.startswith("grb::"): continue
        p = q.split("::")
        if not any(re.fullmatch(n, "::".join(p[-1 - n.count("::"):])) for n in names) if names else False: continue
        for d in l:
            if ca.body(d) is None: continue
            b = bound_of(ix, q, d)
            if b is not None: out.append((q, d, b))
    return out
def brief(t):
    t = re.sub(r"grb::|backend::|gv::|, SparseTag, DirectedMatrixTag|, SparseTag|, grb::SparseTag, grb::DirectedMatrixTag|const |void ", "", t or "")
    return re.sub(r"LilSparseMatrix|BitmapSparseVector", lambda m: m.group(0)[:3], t).replace(" &", "")

# ------------------------------------------------------------------------ same code on both platforms
def source_key(d):
    """the file a function comes from and that file's content"""
    f = d.file or ""
    return os.path.basename(f), hashlib.sha1(open(f, "rb").read()).hexdigest() if os.path.exists(f) else ""

# ------------------------------------------------------------------------ workers
IXS = {}; JOBS = {}; TO = 4000; BUDGET = 120
def work(key):
    plat, did = key
    ix = IXS[plat]; d = ix.ids[did]; q = ca.qualname(d)
    b = bound_of(ix, q, d)
    q0, t0 = th.STATS["queries"], th.STATS["time"]
    try: r = vf.verify(ix, d, b, timeout=TO, budget=BUDGET)
    except Exception as e:
        return dict(key=key, error="%s: %s" % (type(e).__name__, str(e)[:200]), trace=traceback.format_exc()[-1500:], obls=[], calls=[], time=0, queries=0, solver=0, inlined=[], invs=0, files=[])
    obls = []
    for o in r.obls:
        ok = (o.status == "proved") != (o.kind == "vacuity")
        obls.append((o.kind, o.label, o.line, os.path.basename(o.file or "") , o.fn, ok, None if ok else detail(o)))
    calls = [d2.id for d2, c in r.calls.values()]
    return dict(key=key, error=r.unsupported, obls=obls, calls=calls, time=r.time, queries=th.STATS["queries"] - q0, solver=th.STATS["time"] - t0, inlined=sorted(r.inlined), invs=r.invs, attempts=getattr(r, "attempts", 1))
def detail(o):
    h = [str(x).replace("\n", " ") for x in o.hyps[-12:]]
    return "goal: %s\nlast path conditions:\n  %s" % (str(o.goal)[:1500], "\n  ".join(x[:400] for x in h))

def signature(d): return brief(d.type)

def run(pid, tier, workdir, log, limit=None):
    plans = P.get(pid)
    if not plans: return None
    t0 = time.time(); sp.MERGE, sp.REPLACE = IntVal(0), IntVal(1)
    groups = sorted({g for p in plans for g in p.groups}); plats = [x for x in (SEQ, OPT) if any(x in p.plats for p in plans)]
    undecided = []; IXS.clear()
    texts = {}
    with cf.ThreadPoolExecutor(2) as ex:
        fs = {x: ex.submit(ca.load, TU, x, "grb", ["-DGV_SEL=%d" % sel(groups)]) for x in plats}
        for x, f in fs.items():
            try: texts[x] = f.result()
            except Exception as e: undecided.append("%s: the instantiations could not be extracted: %s" % (x, str(e)[:300]))
    for x in list(texts): IXS[x] = index.Index(texts.pop(x))
    check_enum(undecided)
    log("proof: extracted %s in %.1fs" % (", ".join(IXS), time.time() - t0))
    todo = []; seen = {}; done = []; shared = 0
    samefiles = {}
    def same(f):
        """file f of the second platform is byte-identical to the first platform's"""
        if f not in samefiles:
            g = f.replace("/platforms/%s/" % OPT, "/platforms/%s/" % SEQ)
            try: samefiles[f] = g == f or open(f, "rb").read() == open(g, "rb").read()
            except OSError: samefiles[f] = False
        return samefiles[f]
    layout_same = all(same(os.path.join(ca.REPO, "src/graphblas/platforms", OPT, n)) for n in ("LilSparseMatrix.hpp", "BitmapSparseVector.hpp", "sparse_helpers.hpp"))
    def add(plat, d):
        nonlocal shared
        d = IXS[plat].define(d)
        if (plat, d.id) in seen: return
        seen[(plat, d.id)] = 1
        if plat == OPT and SEQ in IXS and layout_same and d.file and same(d.file) and (d.name, d.type) in seqsigs: shared += 1; return
        todo.append((plat, d.id))
    seqsigs = set()
    if SEQ in IXS:
        for l in IXS[SEQ].byname.values():
            for d in l:
                if ca.body(d) is not None: seqsigs.add((d.name, d.type))
    tops = 0
    for p in plans:
        for x in p.plats:
            if x not in IXS: continue
            l = find(IXS[x], p.tops)
            l = [j for j in l if p.inst is None or tier == "thorough" or re.search(p.inst, brief(j[1].type))]
            if not l: undecided.append("%s: no instance of %s found" % (x, "/".join(p.tops)))
            for q, d, b in l: add(x, d); tops += 1
    global TO, BUDGET
    TO = 4000 if tier == "quick" else 10000; BUDGET = 150 if tier == "quick" else 500
    results = {}
    deadline = t0 + (limit or (420 if tier == "quick" else 780))
    with mp.get_context("fork").Pool(8, maxtasksperchild=8) as pool:
        pend = []
        def launch():
            while todo: k = todo.pop(0); pend.append((k, pool.apply_async(work, (k,))))
        launch()
        while pend:
            nxt = []
            for k, a in pend:
                if a.ready():
                    try: r = a.get()
                    except Exception as e: r = dict(key=k, error=repr(e), obls=[], calls=[], time=0, queries=0, solver=0, inlined=[], invs=0)
                    results[k] = r
                    for c in r["calls"]:
                        d = IXS[k[0]].ids.get(c)
                        if d is not None: add(k[0], d)
                else: nxt.append((k, a))
            pend = nxt; launch()
            if time.time() > deadline: undecided.append("time limit: %d functions not finished" % len(pend)); pool.terminate(); break
            if pend: time.sleep(0.05)
    kinds = set(k for p in plans for k in p.kinds)
    failed = []; nobl = ndis = 0; fns = {}; other = 0
    for k, r in results.items():
        d = IXS[k[0]].ids[k[1]]; nm = ca.qualname(d)
        fns[nm] = fns.get(nm, 0) + 1
        if r["error"]: undecided.append("%s %s %s: %s" % (k[0], nm, signature(d)[:160], r["error"]))
        for kind, label, line, file, fn, ok, det in r["obls"]:
            if kind not in kinds:
                other += not ok; continue
            if kind == "vacuity":
                if not ok: undecided.append("contract of %s is contradictory" % nm)
                continue
            nobl += 1; ndis += ok
            if not ok and not r["error"]: failed.append(dict(name="%s: %s [%s]" % (fn, label, kind), where="%s:%s in %s %s (%s)" % (file, line, nm, signature(d)[:200], k[0]), detail=det))
    if other: undecided.append("%d obligations of other kinds (results, frames, exceptions: decided by other checks) are not discharged, and callers rely on them" % other)
    if not nobl: undecided.append("no obligation was generated")
    import lemmas
    lem = lemmas.status(tier, log) if hasattr(lemmas, "status") else None
    for u in undecided[:12]: log("UNDECIDED %s" % u)
    inl = sorted({x for r in results.values() for x in r["inlined"] if x.startswith("grb")})
    cov = dict(obligations=nobl, discharged=ndis, checker_cmd="python3-vt check.py %s --tier %s (gbtlv: clang-18 AST of the instantiated functions -> obligations; back end z3 %s)" % (pid, tier, z3.get_version_string()),
               trusted_base=TRUSTED, functions_under_contract={k: "%d instantiations" % v for k, v in sorted(fns.items())}, instances_verified=len(results),
               instances_shared="%d instantiations of the second platform come from byte-identical files and were verified once" % shared, inlined_functions=inl,
               loop_invariants_discharged=sum(r["invs"] for r in results.values()), solver_queries=sum(r["queries"] for r in results.values()), solver_time_s=round(sum(r["solver"] for r in results.values()), 1),
               wall_time_proof_s=round(time.time() - t0, 1), undecided=undecided, repeated_searches=sum(1 for r in results.values() if r.get("attempts", 1) > 1))
    if lem: cov["lemmas"] = lem
    log("proof: %d/%d obligations of %d function instances (%d functions), %.0fs solver, %.1fs" % (ndis, nobl, len(results), len(fns), cov["solver_time_s"], time.time() - t0))
    level = "proof" if nobl and ndis == nobl and not undecided else "other"
    if level == "other": cov["explanation"] = "not every obligation was discharged on this run: %d of %d; %s" % (ndis, nobl, "; ".join(undecided[:4]))
    return dict(failed=failed, coverage=cov, assumptions=ASSUME, level=level, undecided=undecided)

def check_enum(undecided):
    for x, ix in IXS.items():
        e = ix.enumnames.get("MERGE"), ix.enumnames.get("REPLACE")
        if None in e: undecided.append("%s: OutputControlEnum not found" % x)
        else: sp.MERGE, sp.REPLACE = IntVal(e[0]), IntVal(e[1])

TRUSTED = ["clang 18 front end (AST of the instantiated templates)", "gbtlv's semantics of the C++ subset (symex.py) and of std::vector/tuple/iterator (theory.py)", "z3", "definitions of the specification functions (specs.py)"]
ASSUME = ["scalar types and operators are uninterpreted: what is proved holds for every choice of them, provided operators are pure functions and no code branches on the scalar type (if constexpr on scalar traits)",
          "machine integers are treated as mathematical integers; index arithmetic is not checked for wrap-around except where an obligation says so",
          "memory allocation does not fail; std::vector, std::tuple and iterator operations behave as the C++ standard says (modelled, not verified)",
          "matrices and vectors passed as distinct arguments are distinct objects unless the check enumerates the alias patterns (C20)"]
VEC = r"^\((?!Matrix)"
for pid, tops, groups in [("C06", ["transpose", "apply", "write_with_opt_mask", "ewise_or_opt_accum", "apply_with_mask", "sparse_copy", "get_.*_row"], ["APPLY", "TRANSPOSE"]),
                          ("C07", ["apply", "eWiseAdd", "write_with_opt_mask_1D", "ewise_or_opt_accum_1D", "get_.*_contents"], ["EWADD", "APPLY"]),
                          ("C10", ["mxv", "vxm"], ["MXV"]), ("C11", ["eWiseAdd"], ["EWADD"]), ("C12", ["eWiseMult"], ["EWMULT"]), ("C13", ["apply", "apply_binop_1st", "apply_binop_2nd"], ["APPLY"]),
                          ("C14", ["reduce", "reduce_vector_to_scalar", "reduce_matrix_to_scalar"], ["REDUCE"]), ("C15", ["transpose"], ["TRANSPOSE"]), ("C17", ["extract", "vectorExtract", "extractColumn", "matrixExtract", "check_index_array_content"], ["EXTRACT"]), ("C18", ["assign", "assign_constant", "assignConstant", "vectorExpand", "matrixExpand", "compute_outin_mapping", "sorted_unique_indices"], ["ASSIGN"])]:
    P[pid] = [Plan(groups, tops, inst=VEC if pid == "C07" else None)]
P["C08"] = [Plan(["MXM"], ["mxm"], (SEQ,))]

# ---- containers and the guarantees that cut across the operations
CM, CV = ["LilSparseMatrix::.*", "Matrix::.*"], ["BitmapSparseVector::.*", "Vector::.*"]
ACCESS = "(hasElement|extractElement|setElement|removeElement|operator=|swap|LilSparseMatrix|BitmapSparseVector|Matrix|Vector)"
def meth(n): return [c + "::" + n for c in ("LilSparseMatrix", "Matrix", "BitmapSparseVector", "Vector")]
P["C03"] = [Plan(["CONT"], meth("(hasElement|extractElement|setElement|removeElement|operator=|swap)") + ["LilSparseMatrix::LilSparseMatrix", "Matrix::Matrix", "BitmapSparseVector::BitmapSparseVector", "Vector::Vector"])]
P["C04"] = [Plan(["CONT"], meth("(build|extractTuples)"))]
P["C05"] = [Plan(["CONT"], meth("(clear|resize)") + ["LilSparseMatrix::LilSparseMatrix", "Matrix::Matrix", "BitmapSparseVector::BitmapSparseVector", "Vector::Vector"])]
SOME = r"NoMask, NoAccumulate|(Matrix<SM>|Vector<SM(, SparseTag)?>), AC|StructuralComplementView<\w+<SM(, SparseTag)?>>, NoAccumulate"
CANON = ("canon", "vacuity")
MATOPS = [(["EWADD"], ["eWiseAdd"]), (["EWMULT"], ["eWiseMult"]), (["APPLY"], ["apply", "apply_binop_1st", "apply_binop_2nd"]), (["TRANSPOSE"], ["transpose"])]
MATI, VECI = r"^\((?!Vector).*(%s)" % SOME, r"^\(Vector.*(%s)" % SOME
P["C01"] = [Plan(["CONT"], CM, kinds=CANON), Plan(["MXM"], ["mxm"], (SEQ,), kinds=CANON, inst=MATI)] + [Plan(g, t, kinds=CANON, inst=MATI) for g, t in MATOPS]
P["C02"] = [Plan(["CONT"], CV, kinds=CANON), Plan(["MXV"], ["mxv", "vxm"], kinds=CANON, inst=VECI), Plan(["REDUCE"], ["reduce"], kinds=CANON, inst=VECI)] + [Plan(g, t, kinds=CANON, inst=VECI) for g, t in MATOPS[:3]]
SHAPE = ("throw", "pre", "frame", "vacuity")
FR = [(["MXM"], "mxm", (SEQ,)), (["MXV"], "(mxv|vxm)", (SEQ, OPT)), (["EWADD"], "eWiseAdd", (SEQ, OPT)), (["EWMULT"], "eWiseMult", (SEQ, OPT)), (["APPLY"], "apply", (SEQ, OPT)), (["TRANSPOSE"], "transpose", (SEQ, OPT)), (["REDUCE"], "reduce", (SEQ, OPT)), (["EXTRACT"], "extract", (SEQ, OPT)), (["ASSIGN"], "assign", (SEQ, OPT))]
P["C19"] = [Plan(g, ["grb::" + n], pl, kinds=SHAPE, inst=SOME + "|^\\(\\w+ &, [^,]*, Op") for g, n, pl in FR]
