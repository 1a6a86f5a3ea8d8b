"""Loads clang's JSON AST of a translation unit that instantiates the real
/repo headers, and indexes the instantiated (non-dependent) functions."""
import json, subprocess, os, sys, hashlib

REPO = os.environ.get("GBTL_REPO", "/repo")

def clang_cmd(tu, platform):
    return ["clang++", "-w", "-std=c++17", "-I%s/src" % REPO,
            "-I%s/src/graphblas/platforms/%s" % (REPO, platform),
            "-I" + os.path.dirname(os.path.abspath(tu)),
            "-fsyntax-only", "-Xclang", "-ast-dump=json", tu]

class Node:
    __slots__ = ("kind", "id", "name", "type", "dtype", "inner", "x", "line", "parent", "file", "end")
    def __init__(s): pass
    def __repr__(s): return "<%s %s %s L%s>" % (s.kind, s.name, s.type, s.line)

KEEP = ("opcode", "value", "castKind", "valueCategory", "isPostfix", "hasElse", "hasInit", "hasVar", "isArrow",
        "mangledName", "init", "isConstexpr", "storageClass", "cleanupsHaveSideEffects", "virtual",
        "tagUsed", "completeDefinition", "operator", "isImplicit", "bases", "nominatedNamespace", "list", "computeLHSType",
        "previousDecl", "anyInit", "baseInit", "constexpr", "explicitlyDefaulted", "definitionData", "isUsed", "isReferenced", "ctorType", "elidable", "hadMultipleCandidates")

def load(tu, platform, filt=None, extra=()):
    cmd = clang_cmd(tu, platform)
    if filt: cmd[-1:-1] = ["-Xclang", "-ast-dump-filter=" + filt]
    cmd[1:1] = list(extra)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise RuntimeError("clang failed:\n" + p.stderr.decode(errors="replace")[-3000:])
    return p.stdout.decode(errors="replace")

class AST:
    def __init__(s):
        s.byid = {}
        s.roots = []
    def parse(s, text):
        d = json.JSONDecoder(); i = 0; n = len(text)
        s._line = 0; s._file = ""
        while i < n:
            while i < n and text[i].isspace(): i += 1
            if i >= n: break
            o, i = d.raw_decode(text, i)
            s.roots.append(s.conv(o, None))
        return s
    def conv(s, o, parent):
        n = Node()
        n.kind = o.get("kind"); n.id = o.get("id"); n.name = o.get("name")
        t = o.get("type")
        n.type = t.get("qualType") if t else None
        n.dtype = (t.get("desugaredQualType") or t.get("qualType")) if t else None
        n.parent = parent
        loc = o.get("loc")
        if loc:
            l = loc.get("expansionLoc", loc)
            if "file" in l: s._file = l["file"]
            if "line" in l: s._line = l["line"]
        r = o.get("range")
        n.end = None
        if r:
            b = r.get("begin", {}); b = b.get("expansionLoc", b)
            if "file" in b: s._file = b["file"]
            if "line" in b: s._line = b["line"]
            n.line = s._line; n.file = s._file
            e = r.get("end", {}); e = e.get("expansionLoc", e)
            if "file" in e: s._file = e["file"]
            if "line" in e: s._line = e["line"]
            n.end = s._line
        else:
            n.line = s._line; n.file = s._file
        x = {}
        for k in KEEP:
            if k in o: x[k] = o[k]
        for k in ("referencedDecl", "foundReferencedDecl", "decl", "ctor", "ownedTagDecl", "field"):
            if k in o:
                x[k] = o[k]
        if "referencedMemberDecl" in o: x["member"] = o["referencedMemberDecl"]
        n.x = x
        n.inner = [s.conv(c, n) if c else None for c in o.get("inner", ())]
        if n.id and n.id not in s.byid or (n.id and o.get("inner")):
            s.byid[n.id] = n
        return n

FUNCK = {"FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXConversionDecl", "CXXDestructorDecl"}

def qualname(n):
    p = []
    while n is not None:
        if n.kind in ("NamespaceDecl", "CXXRecordDecl", "ClassTemplateSpecializationDecl", "FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "EnumDecl", "FunctionTemplateDecl") and n.kind != "FunctionTemplateDecl":
            p.append(n.name or "")
        n = n.parent
    return "::".join(reversed(p))

def body(n):
    for c in n.inner:
        if c is not None and c.kind in ("CompoundStmt", "CXXTryStmt"): return c
    return None
def params(n): return [c for c in n.inner if c is not None and c.kind == "ParmVarDecl"]
