"""Runs one check: proof obligations of /repo's current source, then the native
oracle; writes the evidence file; prints VIOLATION / UNDECIDED / OK lines."""
import os, sys, json, time, argparse, shutil, tempfile, traceback, re
import oracle, props
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def write_json(path, o):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "w") as f: json.dump(o, f, indent=1)
    os.replace(tmp, path)

def oracle_part(pid, seed, tier, work, log):
    """-> dict(evaluations, nontrivial, samples, fails=[...], notes=[...])"""
    res = dict(evaluations=0, distinct=0, samples=[], fails=[], notes=[], binaries=[])
    spec = props.O.get(pid)
    if not spec: return res
    bins = {}; plan = []
    for plats, tys, ops, aspects, extra in spec:
        for p in plats:
            for ty in tys:
                key = (p, ty)
                if key not in bins: bins[key] = oracle.Binary(p, ty, set(), props.FLAGS.get(pid, ()), props.TAG.get(pid, ""))
                for o in ops:
                    if ty == "TyX" and oracle.TU[o] in ("methods", "utils"): continue
                    bins[key].tus = sorted(set(bins[key].tus) | {oracle.TU[o]})
                plan.append((bins[key], ops, aspects, extra))
    t0 = time.time()
    oracle.build(list(bins.values()), work)
    log("oracle: %d binaries built in %.1fs" % (len(bins), time.time() - t0))
    for b in bins.values():
        if b.error: res["notes"].append("oracle %s did not build: %s" % (b.name(), b.error[:400])); log("UNDECIDED oracle %s did not build: %s" % (b.name(), b.error[:300].replace("\n", " | ")))
    sp = ",".join(map(str, oracle.specials()))
    total = props.SECONDS.get(pid, 10) if tier == "quick" else 240
    rs = []
    plan = [x for x in plan if x[0].exe]
    # one process per group of operations, so that a crash in one hides nothing in the others
    chunks = []
    for b, ops, aspects, extra in plan:
        n = max(1, 8 // max(1, len(plan)))
        for i in range(n): chunks.append((b, ops[i % len(ops)::n] or [ops[i % len(ops)]], aspects, extra))
    par = max(1, -(-len(chunks) // 8))
    for i, (b, ops, aspects, extra) in enumerate(chunks):
        rs.append(oracle.Run(b, ["--ops=" + ",".join(ops), "--aspects=" + aspects, "--seed=%d" % (seed * 1000 + i), "--time=%.1f" % (total / par), "--special=" + sp] + extra))
    oracle.runs(rs, limit=max(60, total * 4))
    for r in rs:
        m = re.search(r"OK evaluations=(\d+) nontrivial=(\d+) distinct=(\d+)", r.out)
        if r.rc == 0 and m:
            res["evaluations"] += int(m.group(1)); res["distinct"] += int(m.group(3))
            if len(res["samples"]) < 6: res["samples"] += ["%s: %s" % (r.b.name(), l[7:]) for l in r.out.splitlines() if l.startswith("SAMPLE")][:1]
        elif r.rc == 1 and "FAIL " in r.out: res["fails"].append((r, r.out[r.out.index("FAIL "):][:6000]))
        elif "CRASH" in r.out or (isinstance(r.rc, int) and r.rc < 0): res["fails"].append((r, (r.out[-1500:] + "\n" + (r.err or "")[:3500])))
        else: res["notes"].append("oracle run gave no answer (%s)" % r.rc); log("UNDECIDED oracle run %s rc=%s" % (r.b.name(), r.rc))
    res["binaries"] = sorted(b.name() for b in bins.values())
    return res

def write_replay(pid, kind, run, text, extra=""):
    d = os.path.join(HERE, "replay"); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.sh" % (pid, kind))
    with open(p, "w") as f:
        f.write("#!/bin/bash\n# property %s: failing input for the real code in /repo\n" % pid)
        if run is not None:
            b = run.b; m = re.search(r"trial[= ](\d+)", text)
            args = [a for a in run.args if not a.startswith("--time")] + (["--only=" + m.group(1)] if m else [])
            f.write('set -e\nd=$(mktemp -d)\ncd "$(dirname "$0")/../native"\nfor f in main %s; do %s -c $f.cpp -o $d/$f.o; done\n' % (" ".join("op_" + t for t in b.tus), " ".join(oracle.cxx(b))))
            f.write("clang++ %s -Wl,--allow-multiple-definition $d/*.o -o $d/oracle\n$d/oracle %s\n" % (" ".join(b.flags), " ".join(args)))
            f.write("exit $?\n")
        for l in (text + "\n" + extra).splitlines(): f.write("# " + l + "\n")
    os.chmod(p, 0o755)
    return p

def known_findings():
    f = os.path.join(HERE, "known-findings.txt"); out = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)", l.strip())
            if m: out.append(m.groups())
    return out

def main(argv):
    ap = argparse.ArgumentParser(); ap.add_argument("pid"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--no-oracle", action="store_true"); ap.add_argument("--no-proof", action="store_true")
    a = ap.parse_args(argv); pid = a.pid; t0 = time.time()
    work = tempfile.mkdtemp(prefix="gbtlv-%s-" % pid)
    def log(x): print("[%6.1fs] %s" % (time.time() - t0, x), flush=True)
    viol = []; ev = dict(property=pid, tier=a.tier, seed=a.seed, level="exploration", coverage={}, assumptions=[], violations=0)
    try:
        orc = dict(evaluations=0, distinct=0, samples=[], fails=[], notes=[], binaries=[])
        if not a.no_oracle: orc = oracle_part(pid, a.seed, a.tier, work, log)
        kf0 = [k for k in known_findings() if k[0] == pid]
        found = any(not any(re.search(k[1], t) for k in kf0) for r, t in orc["fails"])
        proof = None
        if not a.no_proof:
            try:
                import proofs
                # a failing input already decides the run: the proof then only names the failing obligations it finds quickly
                proof = proofs.run(pid, a.tier, work, log, 75 if found else None)
            except ImportError: pass
            except Exception as e:
                log("UNDECIDED proof machinery: %r" % (e,)); traceback.print_exc()
        kf = [k for k in known_findings() if k[0] == pid]
        for r, text in orc["fails"]:
            hit = [k for k in kf if re.search(k[1], text)]
            if hit: print("KNOWN-FINDING: property=%s %s" % (pid, hit[0][2])); continue
            viol.append(("input", r, text))
        failed = proof["failed"] if proof else []
        if viol:
            r, text = viol[0][1], viol[0][2]
            p = write_replay(pid, "input", r, text, "\n".join("failed obligation: " + x["name"] for x in failed[:20]))
            print(text[:1500]); print("VIOLATION property=%s replay=%s" % (pid, p))
        elif failed:
            d = os.path.join(HERE, "replay"); os.makedirs(d, exist_ok=True); p = os.path.join(d, "%s-obligation.txt" % pid)
            with open(p, "w") as f:
                for x in failed: f.write("failed obligation: %s\n  at %s\n%s\n\n" % (x["name"], x.get("where"), x.get("detail", "")))
            for x in failed[:8]: log("failed obligation: %s at %s" % (x["name"], x.get("where")))
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, p)); viol.append(("proof", None, failed))
        bounded = dict(evaluations=orc["evaluations"], distinct_nontrivial=orc["distinct"], rule="random trials of the real code against the executable definition (native/ops.hpp), sizes up to 9 plus sizes around integer literals in the sources; non-trivial: the operands are not empty; distinct by operands and configuration", samples=orc["samples"] or ["none"])
        if proof:
            ev["level"] = proof.get("level", "proof"); ev["coverage"] = dict(proof["coverage"]); ev["coverage"]["bounded_complement"] = dict(bounded, label="bounded, not counted as proved"); ev["assumptions"] = proof["assumptions"]
        else:
            ev["coverage"] = bounded; ev["assumptions"] = ["bounded: only the sampled inputs were checked", "operators and scalar types are represented by hash-valued types"]
        ev["assumptions"] += orc["notes"]; ev["violations"] = len(viol)
        if not viol: print("OK property=%s%s bounded=%d cases" % (pid, (" obligations %d/%d discharged" % (proof["coverage"]["discharged"], proof["coverage"]["obligations"])) if proof else "", orc["evaluations"]))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    ev["wall_s"] = round(time.time() - t0, 2)
    write_json(os.path.join(HERE, "evidence", pid + ".json"), ev)
    return 1 if viol else 0
