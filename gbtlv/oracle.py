"""Builds and runs the native oracle (bounded, randomised complement of the
proofs; also the generator of failing inputs for failed obligations)."""
import os, re, subprocess, sys, json, time, hashlib, shutil, glob
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NATIVE = os.path.join(HERE, "native")
REPO = os.environ.get("GBTL_REPO", "/repo")
PLAT = {"seq": "sequential", "opt": "optimized_sequential"}
# operation -> translation unit
TU = {"mxm": "mxm", "mxv": "mxv", "vxm": "mxv", "ewadd": "ewise", "ewaddv": "ewise", "ewmult": "ewise2", "ewmultv": "ewise2", "kron": "kron",
      "apply": "apply", "applyv": "apply", "transpose": "transred", "reduce": "transred", "reduces": "transred", "extract": "extract", "extractv": "extract",
      "extractcol": "extract", "assign": "assign", "assignv": "assign", "assignc": "assign2", "assigncv": "assign2", "assignrc": "assign2",
      "maccess": "methods", "mbuild": "methods", "mshape": "methods", "mhist": "methods", "vaccess": "methods", "vbuild": "methods", "vshape": "methods", "vhist": "methods", "utils": "utils"}

def specials():
    """sizes around integer literals of the library sources"""
    out = set()
    fs = glob.glob(REPO + "/src/graphblas/*.hpp") + glob.glob(REPO + "/src/graphblas/platforms/*/*.hpp") + glob.glob(REPO + "/src/graphblas/detail/*.hpp")
    for f in fs:
        try: t = open(f, errors="replace").read()
        except OSError: continue
        t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S); t = re.sub(r"//[^\n]*", " ", t); t = re.sub(r'"[^"\n]*"', " ", t)
        for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)[uUlL]*(?![\w.])", t):
            v = int(m.group(1), 0) if not re.fullmatch(r"0\d+", m.group(1)) else int(m.group(1))
            if 4 <= v <= 130: out |= {v - 1, v, v + 1, v + 2}
    return sorted(out)[:60]

class Binary:
    def __init__(s, plat, ty, tus, flags=(), tag=""):
        s.plat = plat; s.ty = ty; s.tus = sorted(tus); s.flags = list(flags); s.tag = tag
        s.exe = None; s.error = None
    def name(s): return "%s-%s%s" % (s.plat, s.ty, s.tag)

def cxx(b):
    return ["clang++", "-w", "-O1", "-std=c++17", "-DTY=" + b.ty, "-D_GLIBCXX_ASSERTIONS"] + b.flags + ["-I%s/src" % REPO, "-I%s/src/graphblas/platforms/%s" % (REPO, PLAT[b.plat])]

def build(bins, work, jobs=8, deadline=600):
    os.makedirs(work, exist_ok=True)
    tasks = []
    for b in bins:
        b.dir = os.path.join(work, b.name()); os.makedirs(b.dir, exist_ok=True)
        for t in ["main"] + ["op_" + x for x in b.tus]: tasks.append((b, t))
    def comp(bt):
        b, t = bt
        o = os.path.join(b.dir, t + ".o")
        try: p = subprocess.run(cxx(b) + ["-c", os.path.join(NATIVE, t + ".cpp"), "-o", o], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=deadline)
        except subprocess.TimeoutExpired: b.error = "compile time-out"; return
        if p.returncode: b.error = p.stderr.decode(errors="replace")[:3000]
    tasks.sort(key=lambda x: x[1] == "main")
    with ThreadPoolExecutor(jobs) as ex: list(ex.map(comp, tasks))
    def link(b):
        if b.error: return
        exe = os.path.join(b.dir, "oracle")
        p = subprocess.run(["clang++"] + b.flags + ["-Wl,--allow-multiple-definition"] + [os.path.join(b.dir, t + ".o") for t in ["main"] + ["op_" + x for x in b.tus]] + ["-o", exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode: b.error = "link: " + p.stderr.decode(errors="replace")[:1500]
        else: b.exe = exe
    with ThreadPoolExecutor(jobs) as ex: list(ex.map(link, bins))

class Run:
    def __init__(s, b, args): s.b = b; s.args = args; s.out = ""; s.rc = None
def runs(rs, jobs=8, limit=300):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=3", UBSAN_OPTIONS="halt_on_error=1:exitcode=3")
    def one(r):
        try:
            p = subprocess.run([r.b.exe] + r.args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit, env=env)
            r.rc = p.returncode; r.out = p.stdout.decode(errors="replace"); r.err = p.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired as e:
            r.rc = "timeout"; r.out = (e.stdout or b"").decode(errors="replace"); r.err = ""
    with ThreadPoolExecutor(jobs) as ex: list(ex.map(one, rs))
