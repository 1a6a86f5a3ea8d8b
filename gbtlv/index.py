"""Index of the instantiated declarations of one translation unit."""
import re
import cast as ca
from cast import Node

def norm(t):
    t = re.sub(r"\s+", " ", t.strip())
    t = re.sub(r"\b(class|struct|const|enum|volatile|typename) ", "", t)
    t = re.sub(r"\s*([<>,&*])\s*", r"\1", t)
    while t.endswith("&") or t.endswith(" const") or t.endswith("const") and t[:-5].endswith((">", "*")):
        t = re.sub(r"( ?const|&)$", "", t).strip()
    return t

def short(t): return re.sub(r"\b\w+::", "", t)

class Index:
    def __init__(s, text):
        s.ast = ca.AST().parse(text)
        s.ids = s.ast.byid
        s.records = {}; s.byname = {}; s.enums = {}; s.enumnames = {}; s.defs = {}
        s.templates = {}
        for r in s.ast.roots: s.walk(r, [])
        s._fields = {}
    def targ(s, c):
        if c.type: return [norm(c.dtype or c.type)]
        if "value" in c.x: return [str(c.x["value"])]
        out = []
        for i in c.inner:
            if i is None: continue
            if i.kind == "TemplateArgument": out += s.targ(i)
            elif i.kind.endswith("Type"): out.append(norm(i.type)); break
        return out
    def walk(s, n, ns, dependent=False):
        k = n.kind
        if k in ("NamespaceDecl",):
            for c in n.inner:
                if c is not None: s.walk(c, ns + [n.name or "(anonymous)"], dependent)
            return
        if k in ("ClassTemplateDecl",):
            for c in n.inner:
                if c is None: continue
                if c.kind == "CXXRecordDecl": continue      # the uninstantiated pattern
                s.walk(c, ns, dependent)
            return
        if k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl"):
            if k == "ClassTemplateSpecializationDecl":
                a = []
                for c in n.inner:
                    if c is not None and c.kind == "TemplateArgument": a += s.targ(c)
                q = "::".join(ns + [n.name]) + "<" + ",".join(a) + ">"
            else: q = "::".join(ns + [n.name or "(anon)"])
            if n.x.get("completeDefinition") or norm(q) not in s.records:
                s.records[norm(q)] = n
            for c in n.inner:
                if c is not None: s.walk(c, ns + [n.name or "(anon)"], dependent)
            return
        if k == "FunctionTemplateDecl":
            first = True
            for c in n.inner:
                if c is None: continue
                if c.kind in ca.FUNCK:
                    if first: first = False; continue        # pattern
                    s.addfn(c, ns)
            return
        if k in ca.FUNCK: s.addfn(n, ns); return
        if k == "EnumDecl":
            v = 0
            for c in n.inner:
                if c is not None and c.kind == "EnumConstantDecl":
                    ini = [x for x in c.inner if x is not None]
                    e = ini[0] if ini else None
                    while e is not None and "value" not in e.x: e = e.inner[0] if e.inner else None
                    if e is not None: v = int(e.x["value"])
                    s.enums[c.id] = v; s.enumnames[c.name] = v; v += 1
            return
        if k in ("LinkageSpecDecl",):
            for c in n.inner:
                if c is not None: s.walk(c, ns, dependent)
    def addfn(s, n, ns):
        q = "::".join(ns + [n.name or ""])
        s.byname.setdefault(q, []).append(n)
        if ca.body(n) is not None:
            m = n.x.get("mangledName")
            if m: s.defs[m] = n
    # ---- interface used by the executor
    def by_id(s, i): return s.ids.get(i) if i else None
    def func(s, rd): return s.ids.get(rd.get("id"))
    def define(s, d):
        if ca.body(d) is not None: return d
        return s.defs.get(d.x.get("mangledName"), d)
    def is_grb(s, d):
        p = d
        while p is not None:
            if p.kind == "NamespaceDecl" and p.name in ("grb", "gv", "algorithms"): return True
            p = p.parent
        return False
    def record(s, t):
        t = norm(t)
        r = s.records.get(t)
        if r is None:
            for pre in ("grb::", "grb::backend::", "gv::"):
                if pre + t in s.records: return s.records[pre + t]
            if not hasattr(s, "_short") or s._nrec != len(s.records):
                s._short = {}; s._nrec = len(s.records)
                for k in s.records: s._short.setdefault(short(k), []).append(k)
            c = s._short.get(short(t), [])
            if not c and t.endswith(">"):      # defaulted template arguments are not printed
                h = short(t)[:-1] + ","; c = [k for sk, v in s._short.items() if sk.startswith(h) for k in v]
            if len(c) > 1:
                o = t.split("<")[0]; c = [k for k in c if k.split("<")[0].endswith(o)] or c
            if len(c) > 1 and "backend::" not in t: c = [k for k in c if "backend::" not in k] or c
            if len(c) == 1: return s.records[c[0]]
        return r
    def bases(s, rec):
        return [norm(b["type"].get("desugaredQualType") or b["type"]["qualType"]) for b in rec.x.get("bases", ())]
    def fields(s, rec):
        if rec.id in s._fields: return s._fields[rec.id]
        out = []
        for b in s.bases(rec):
            r = s.record(b)
            if r is not None: out += s.fields(r)
        out += [c for c in rec.inner if c is not None and c.kind == "FieldDecl"]
        s._fields[rec.id] = out
        return out
    def ctor(s, rec, sig):
        sig = norm(sig)
        cs = []
        for c in rec.inner:
            if c is None: continue
            if c.kind == "CXXConstructorDecl": cs.append(c)
            if c.kind == "FunctionTemplateDecl": cs += [x for x in c.inner if x is not None and x.kind == "CXXConstructorDecl"]
        for c in cs:
            if norm(c.type or "") == sig or norm(c.dtype or "") == sig: return c
        return None
    def is_functor(s, t):
        t = norm(t)
        if t in ("grb::NoAccumulate", "grb::NoMask", "grb::AllIndices", "grb::backend::NoMask"): return True
        if t.startswith("gv::") and not re.match(r"gv::S[ABCMTV]$", t): return True
        r = s.record(t)
        if r is None: return False
        if s.fields(r): return False
        return any(c is not None and c.kind in ("CXXMethodDecl", "FunctionTemplateDecl") and c.name in ("operator()", "add") for c in r.inner)
    def enumval(s, i):
        return s.enums[i]
