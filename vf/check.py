#!/usr/bin/env python3
"""Decides one property of gul14 by abstract interpretation of /repo's current sources.

usage: check.py PROPERTY [--tier quick|thorough] [--verbose] [--keep DIR]

exit 0  every obligation of the property was discharged on the current tree
exit 1  an obligation could not be discharged (VIOLATION line, report file named in it)
exit 2  the analysis itself could not be carried out (anchor vanished, does not compile, budget)
"""
import argparse, concurrent.futures as cf, fcntl, glob, json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VF_REPO", "/repo")
sys.path.insert(0, HERE)
import config

class AnalysisError(Exception): pass

def ensure_engine():
    eng = os.path.join(VERIF, "engine"); exe = os.path.join(eng, "bin", "vfa")
    srcs = [os.path.join(eng, f) for f in os.listdir(eng) if f.endswith((".cpp", ".h", ".inc", ".sh"))]
    fresh = lambda: os.path.exists(exe) and all(os.path.getmtime(exe) >= os.path.getmtime(s) for s in srcs)
    if fresh(): return exe
    os.makedirs(os.path.join(eng, "bin"), exist_ok=True)
    with open(os.path.join(eng, "bin", ".lock"), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        if not fresh():
            r = subprocess.run(["bash", os.path.join(eng, "build.sh")], capture_output=True, text=True)
            if r.returncode: raise AnalysisError("engine build failed:\n" + r.stderr[-3000:])
    return exe

BASE = ["-std=c++14", "-O0", "-Xclang", "-disable-O0-optnone", "-DLIBGUL_API_VERSION=2.12",
        "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-Wno-everything", "-emit-llvm", "-c",
        "-isystem", VERIF + "/harness/stl", "-include", VERIF + "/harness/stl/vf_models.h"]

def compile_unit(src, out, flags):
    cmd = ["clang++-18", *BASE, "-I" + REPO + "/include", "-I" + VERIF + "/harness", *flags, src, "-o", out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise AnalysisError("cannot compile %s:\n%s" % (src, r.stderr[-4000:]))
    return out

def entries_of(bc, prefixes):
    r = subprocess.run(["llvm-nm-18", "--defined-only", "--format=just-symbols", bc], capture_output=True, text=True)
    return [l for l in r.stdout.split() if l.startswith(prefixes)]

# Precision ladder: every rung is a sound analysis, later ones keep more states apart and unroll more
# iterations. An entry is discharged as soon as one rung proves it; what is reported is what the
# most precise completed rung could not prove.
LADDER = [["--K", "4", "--peel", "1"], ["--K", "8", "--peel", "1"], ["--K", "8", "--peel", "2"], ["--K", "16", "--peel", "1"], ["--K", "8", "--peel", "5"], ["--K", "16", "--peel", "3"]]

def run_once(exe, bc, entry, opts, work, timeout):
    out = os.path.join(work, os.path.basename(bc) + "." + entry + ".json")
    if os.path.exists(out): os.unlink(out)
    r = subprocess.run([exe, bc, "--entry", entry, "--prefix", REPO + "/", "--out", out, *opts], capture_output=True, text=True, timeout=timeout)
    if r.returncode not in (0, 1): raise AnalysisError("analysis of %s failed (%s): %s" % (entry, r.returncode, r.stderr[-2000:]))
    return json.load(open(out))["entries"][0]

DEADLINE = [0.0]; CONSTANTS = set()
def run_entry(exe, bc, entry, opts, work, timeout, is_known=None, ladder=None, small=False):
    """Proof attempt on all inputs, rung by rung. Where the first rungs leave something open, the entry is also
    analysed in bounded mode (every small combination of sizes and positions, loops unrolled, states kept apart).
    What is reported is what neither settles: a claim that holds for every small input but whose proof for all
    inputs does not go through is recorded as bounded, not as a violation."""
    t0 = time.time(); best = None; err = AnalysisError("time budget exhausted before " + entry); bounded = None
    timeout = max(5, min(timeout, DEADLINE[0] - t0))
    rungs = [(i, r) for i, r in enumerate(ladder or LADDER)]
    if small: rungs.insert(4, ("bounded", ["--small"]))
    fine = lambda j: all(is_known(entry, v) if is_known else False for v in j["violations"])
    for i, rung in rungs:
        left = timeout - (time.time() - t0)
        if left <= 1: break
        if bounded and fine(bounded) and best and time.time() - t0 > timeout / 2: break
        try:
            if i == "bounded": rung = rung + ["--budget", str(int(left / 2))]
            j = run_once(exe, bc, entry, rung + opts, work, left if best is None and i == rungs[-1][0] else left * 0.8 if i == "bounded" else min(left, timeout / 3))
        except subprocess.TimeoutExpired:
            err = AnalysisError("time budget of %d s exhausted in %s" % (timeout, entry)); continue
        except AnalysisError as e:
            err = e; continue
        j["rung"] = i
        if i == "bounded": bounded = j; continue
        if best is None or len(j["violations"]) <= len(best["violations"]): best = j
        if fine(j): break
    # No bounded verdict where behaviour may change beyond small inputs: the library code computes or compares with a
    # constant it did not have before, or squeezes a number into an 8- or 16-bit type that may not hold it.
    if bounded and (best is None or not fine(best)):
        if not fine(bounded): best = bounded
        else:
            for k in ("narrowed", "constants"): bounded[k] = (best or {}).get(k, []) + bounded[k]
            beyond = bounded["narrowed"] + sorted({str(c) for c in bounded["constants"] if abs(c) > 2 and c not in CONSTANTS})
            if best and beyond: best["beyond"] = beyond
            else: best = bounded
    if best is None:
        if "time budget" not in str(err): raise err
        best = {"entry": entry, "violations": [], "obligations": 0, "discharged": 0, "functions": 0, "calls": 0, "blocks": 0, "joins": 0, "widenings": 0, "lp": 0, "reach": [], "repo_functions": [], "unmodelled": [], "tags": {}, "access": [], "narrowed": [], "constants": [], "rung": "undecided"}
    best["wall"] = time.time() - t0
    return best

def sig(v, entry):
    """identity of a violation that survives edits elsewhere: no line numbers"""
    where = re.sub(r":\d+ in ", " in ", v["where"]).replace(REPO + "/", "")
    return {"entry": entry, "kind": v["kind"], "tag": v.get("tag", ""), "where": where}

def load_known():
    p = os.path.join(VERIF, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else []

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("--tier", default="quick"); ap.add_argument("--verbose", action="store_true"); ap.add_argument("--keep"); ap.add_argument("--entry", action="append"); ap.add_argument("--record-constants", action="store_true", help="note the constants of the current tree as the known ones (never used by a registered check)")
    a = ap.parse_args()
    t0 = time.time(); DEADLINE[0] = t0 + 780
    cfg = config.PROPERTIES[a.prop]
    cf_ = os.path.join(HERE, "constants.json"); consts = json.load(open(cf_)) if os.path.exists(cf_) else {}
    CONSTANTS.update(consts.get(a.prop, []))
    work = a.keep or tempfile.mkdtemp(prefix="vf-" + a.prop + "-")
    os.makedirs(work, exist_ok=True)
    try:
        rc = decide(a, cfg, work, t0)
    except AnalysisError as e:
        print("ANALYSIS-ERROR property=%s %s" % (a.prop, e)); rc = 2
    finally:
        if not a.keep: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def decide(a, cfg, work, t0):
    exe = ensure_engine()
    tier = a.tier
    prefixes = ("vfh_",) if tier == "quick" else ("vfh_", "vft_")
    results, violations = [], []
    known = [k for k in load_known() if k.get("status") == "known" and k["property"] == a.prop]
    def match(e, v):
        s = sig(v, e)
        return next((k for k in known if all(k["match"].get(x, s[x]) == s[x] for x in s)), None)
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        # compile
        units = []
        for gi, g in enumerate(cfg["groups"]):
            flags = g.get("cflags", []) + (["-g", "-fstandalone-debug"] if g.get("types") else ["-gline-tables-only"])
            if g.get("tier", "quick") == "thorough" and tier == "quick": continue
            srcs = [os.path.join(VERIF, "harness", s) for s in g["harness"]] + sorted(glob.glob(REPO + "/src/*.cc"))
            futs = [ex.submit(compile_unit, s, os.path.join(work, "%d_%d.bc" % (gi, i)), flags) for i, s in enumerate(srcs)]
            units.append((gi, g, futs))
        jobs = []
        for gi, g, futs in units:
            bcs = [f.result() for f in futs]
            m = os.path.join(work, "m%d.bc" % gi)
            r = subprocess.run(["llvm-link-18", *bcs, "-o", m], capture_output=True, text=True)
            if r.returncode: raise AnalysisError("link failed: " + r.stderr[-2000:])
            es = [e for e in entries_of(m, prefixes) if re.match(g.get("entries", ".*") + "$", e)]
            if a.entry: es = [e for e in es if e in a.entry]
            elif not es: raise AnalysisError("no analysis entry in " + str(g["harness"]))
            opts = list(g.get("opts", []))
            if g.get("kinds"): opts += ["--kinds", ",".join(g["kinds"])]
            for e in es:
                o = opts + g.get("entry_opts", {}).get(e, [])
                jobs.append((gi, g, e, ex.submit(run_entry, exe, m, e, o, work, g.get("timeout", 300), match, g.get("ladder"), g.get("small", False))))
        for gi, g, e, f in jobs:
            j = f.result(); j["group"] = gi; results.append(j)
            dup = set()
            for v in j["violations"]:
                key = (v["kind"], v.get("tag", ""), v["where"])
                if key in dup: continue
                dup.add(key); violations.append((e, v))
    by_entry = {r["entry"]: r for r in results}
    for g in cfg["groups"]:
        if "post" in g and not a.entry:
            for e, v in g["post"](results): violations.append((e, v))
    # vacuity: every entry must reach its end, and every required function must have been analysed
    if not violations:
        for r in results:
            if "end" not in r["reach"] and r["rung"] != "undecided": raise AnalysisError("entry %s never completes: nothing was analysed" % r["entry"])
    allfn = set(); unm = set()
    for r in results: allfn |= set(r["repo_functions"]); unm |= set(r["unmodelled"])
    if not a.entry:
        for pat in cfg.get("anchors", []):
            if not any(re.search(pat, f) for f in allfn): raise AnalysisError("no analysed function matches /%s/" % pat)
    new, seen = [], []
    for e, v in violations:
        s = sig(v, e)
        k = match(e, v)
        if k:
            if k not in seen: seen.append(k)
        else: new.append((e, v, s))
    for k in seen: print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    ob = sum(r["obligations"] for r in results); di = sum(r["discharged"] for r in results)
    if a.verbose or new:
        for e, v, s in new:
            print("  [%s] %s%s: %s\n      %s" % (e, v["kind"], (":" + v["tag"]) if v.get("tag") else "", v["msg"], v["where"]))
            for fr in v.get("stack", [])[:8 if not a.verbose else 40]: print("        " + fr)
    ev = {
        "property": a.prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": cfg.get("level", "proof"),
        "coverage": {
            "obligations": ob, "discharged": di,
            "checker_cmd": "python3 /verif/vf/check.py %s --tier %s" % (a.prop, tier),
            "trusted_base": "clang 18 front end (-O0 IR), /verif/engine abstract interpreter, harness environment models in /verif/harness",
            "explanation": cfg["rule"],
            "functions_analysed": sorted(allfn), "rule_instances": {}, "entries": [
                {k: r[k] for k in ("entry", "obligations", "discharged", "functions", "calls", "blocks", "joins", "widenings", "lp", "wall", "rung")} for r in results],
            "unmodelled_externals": sorted(unm),
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": config.ASSUMPTIONS + cfg.get("assumptions", []),
        "violations": [dict(s, msg=v["msg"], at=v["where"], stack=v.get("stack", [])) for e, v, s in new],
    }
    ri = ev["coverage"]["rule_instances"]
    for r in results:
        for t, (n, bad) in r["tags"].items():
            x = ri.setdefault(t, [0, 0]); x[0] += n; x[1] += bad
    if not a.entry:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    if a.record_constants and not new:
        cf_ = os.path.join(HERE, "constants.json"); consts = json.load(open(cf_)) if os.path.exists(cf_) else {}
        consts[a.prop] = sorted({c for r in results for c in r["constants"] if abs(c) > 2})
        with open(cf_, "w") as f: f.write("{\n" + ",\n".join(' "%s": %s' % (k, json.dumps(consts[k])) for k in sorted(consts)) + "\n}\n")
    und = [r["entry"] for r in results if r["rung"] == "undecided"]
    if und and len(und) == len(results): raise AnalysisError("time budget exhausted, nothing decided")
    if und: print("  UNDECIDED within the time budget: " + ", ".join(und)[:400])
    nb = sum(r["rung"] == "bounded" for r in results)
    if nb: print("  %d of %d entries settled in bounded mode only: %s" % (nb, len(results), ", ".join(r["entry"] for r in results if r["rung"] == "bounded")[:400]))
    print("property %s (%s): %d entries, %d library functions, %d/%d obligations discharged, %d new violation(s), %d known; %.1f s"
          % (a.prop, tier, len(results), len(allfn), di, ob, len(new), len(seen), time.time() - t0))
    if a.verbose:
        for r in sorted(results, key=lambda r: -r["wall"]): print("   %-40s %6.1f s  rung %s obl %d/%d  reach %s unm %s" % (r["entry"], r["wall"], r["rung"], r["discharged"], r["obligations"], ",".join(r["reach"]), ",".join(r["unmodelled"])[:200]))
    if new:
        rp = os.path.join(VERIF, "evidence", a.prop + ".violation.json")
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        with open(rp, "w") as f: json.dump(ev["violations"], f, indent=1)
        print("VIOLATION property=%s replay=%s" % (a.prop, rp))
        return 1
    return 0

if __name__ == "__main__": main()
