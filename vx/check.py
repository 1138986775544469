#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough]   decides one property; see DESIGN.md for the verdict rules."""
import sys, os, json, re, subprocess, time, hashlib, shutil, concurrent.futures
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from assemble import Unit, ExtractError
from properties import PROPS

REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
PROOFS = os.path.join(ROOT, "proofs")
KNOWN = os.path.join(ROOT, "known_findings.txt")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
           CARGO_TARGET_DIR=os.path.join(BUILD, "target"), RUST_BACKTRACE="0", RUSTC_WRAPPER="", VP_KNOWN=KNOWN)
ENV.pop("RUSTFLAGS", None)

def sh(cmd, timeout, cwd=ROOT, env=ENV, mem_gb=None):
    pre = []
    if mem_gb: cmd = ["bash", "-c", f"ulimit -v {mem_gb * 1024 * 1024}; exec \"$@\"", "x"] + cmd
    t = time.time()
    try:
        p = subprocess.run(pre + cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout, errors="replace")
        return p.returncode, p.stdout, p.stderr, time.time() - t
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout", time.time() - t

# ---------------------------------------------------------------- Verus
OBLIGATION = re.compile(r"postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|"
                        r"arithmetic underflow/overflow|decreases not satisfied|could not prove termination|"
                        r"division by zero|unable to prove|recommendation not met|bit shift|out of bounds|failed this")
# what a total function owes: no out-of-range access, no overflow, no failed precondition of a library call, termination
SAFETY = re.compile(r"precondition not satisfied|arithmetic underflow/overflow|decreases not satisfied|could not prove termination|"
                    r"division by zero|bit shift|out of bounds")
def is_safety(o):
    if not SAFETY.search(o["message"]): return False
    # a lemma or adapter of the proof itself is not part of the code
    return not re.search(r"precondition", o["message"]) or not re.search(r"^\s*\d+\s*\|.*\b(lemma_|fact_|axiom_|theorem_)", o["text"], re.M)
def run_unit(name, tier, log):
    """-> dict(status= proved|failed|undecided, ...)"""
    res = {"unit": name, "status": "undecided", "verified": 0, "errors": 0, "failures": [], "why": "", "solver_s": 0.0}
    try:
        u = Unit(REPO, PROOFS, name)
    except ExtractError as e:
        res["why"] = f"extraction: {e}"; return res
    except Exception as e:
        res["why"] = f"extraction: {e!r}"; return res
    d = os.path.join(BUILD, "verus"); os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{name}_{log}.rs")
    open(path, "w").write(u.text())
    res.update(functions=u.under_contract, helpers=u.auto, lowered=u.log, mismatch=u.mismatch, file=path)
    txt = u.text()
    res["trusted"] = sorted(set(re.findall(r"#\[verifier::external_body\]\s*(?:#\[[^\n]*?\]\s*)*(?:pub )?(?:broadcast )?(?:proof )?(?:fn|struct) (\w+)", txt)))
    res["assumed_specs"] = re.findall(r"assume_specification[^\[]*\[\s*([^\]]+)\]", txt)
    code = re.sub(r"//.*", "", txt)
    if re.search(r"\b(assume|admit)\s*\(", code):
        res["why"] = "assume/admit in the proof text"; return res
    cmd = ["verus", path, "--output-json", "--error-format=json", "--triggers-mode", "silent", "--time", "--num-threads", "8",
           "--rlimit", "60" if tier == "quick" else "200", "--multiple-errors", "3"] + u.flags
    rc, out, err, wall = sh(cmd, 420 if tier == "quick" else 1800, cwd=d)
    res["wall_s"] = round(wall, 2); res["cmd"] = " ".join(cmd)
    m = re.search(r'"verification-results"\s*:\s*(\{[^}]*\})', out)
    vr = json.loads(m.group(1)) if m else {}
    res["verified"], res["errors"] = vr.get("verified", 0), vr.get("errors", 0)
    m = re.search(r'"smt-run"\s*:\s*(\d+)', out) or re.search(r'"total"\s*:\s*(\d+)', out)
    if m: res["solver_s"] = int(m.group(1)) / 1000
    tool, obl = [], []
    for l in err.splitlines():
        try: dgn = json.loads(l)
        except ValueError: continue
        if dgn.get("level") != "error" or dgn["message"].startswith("aborting due"): continue
        sp = dgn.get("spans") or []
        fns = []
        # the function whose body failed comes first: prefer secondary spans ("at this exit"), then the primary one
        for s in sorted(sp, key=lambda s: s["is_primary"]):
            f = u.locate(s["line_start"])
            if f and f not in fns: fns.append(f)
        if OBLIGATION.search(dgn["message"]) and not re.search(r"rlimit|Resource limit", dgn["message"]):
            obl.append({"message": dgn["message"], "function": fns[0] if fns else "(lemma)", "all": fns, "text": dgn.get("rendered", "")[:1500]})
        else: tool.append(dgn["message"][:300])
    res["failures"] = obl
    if rc == 0 and not obl and not tool and res["verified"] > 0 and res["errors"] == 0:
        res["status"] = "proved"
    elif tool:
        res["why"] = "tool limit: " + tool[0]
    elif obl:
        if u.mismatch or u.auto:
            res["why"] = f"proof needs contracts for changed structure: {u.mismatch or u.auto}"
        else: res["status"] = "failed"
    else: res["why"] = f"verifier ended with {rc}: {err[-300:]}"
    return res

# ---------------------------------------------------------------- executable contracts
def build_replay():
    rc, out, err, wall = sh(["cargo", "build", "--offline", "-q", "--manifest-path", os.path.join(ROOT, "replay", "Cargo.toml")], 600)
    return rc == 0, err[-2000:], wall

def run_search(prop, seed, secs, out):
    b = os.path.join(BUILD, "target", "debug", "replay")
    args = [b, "search", prop, str(seed), str(secs), out]
    rc, so, se, wall = sh(args, secs + 400, mem_gb=12)
    if rc not in (0, 1):
        # the library killed the process (abort, memory): find the case by tracing
        tr = out + ".trace"
        rc2, so2, se2, _ = sh(args + [tr], secs * 4 + 400, mem_gb=12)
        if rc2 not in (0, 1) and os.path.exists(tr):
            shutil.move(tr, out)
            return 1, so2 + f"\nFAIL the process died (exit {rc2}): {se2[-300:]}", wall
        if os.path.exists(tr): os.unlink(tr)
        return rc2, so2, wall
    return rc, so, wall

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = PROPS[prop]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True); os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    rdir = os.path.join(ROOT, "replays"); os.makedirs(rdir, exist_ok=True)
    rfile = os.path.join(rdir, f"{prop}.txt")
    if os.path.exists(rfile): os.unlink(rfile)
    ok, err, bwall = build_replay()
    if not ok:
        print("ERROR the executable contracts do not build against /repo:\n" + err); sys.exit(2)
    secs = P["secs"][0 if tier == "quick" else 1]
    # the bounded search and the provers run side by side
    pool = concurrent.futures.ThreadPoolExecutor(8)
    first = pool.submit(run_search, prop, seed, secs, rfile)
    jobs = [(only, pool.submit(run_unit, name, tier, prop)) for name, only in P["units"]]
    units = []
    for only, j in jobs:
        r = j.result()
        if only is not None and r["status"] == "failed":
            keep = [f for f in r["failures"] if f["function"] == "(lemma)" or f["function"].split("::")[-1] in only]
            r["other_failures"] = len(r["failures"]) - len(keep)
            r["failures"] = keep
            if not keep: r["status"] = "proved"
        if P.get("kind") == "safety" and r["status"] == "failed":
            keep = [f for f in r["failures"] if is_safety(f)]
            if not keep:
                r["status"] = "undecided"
                r["why"] = "functional obligations fail, on which termination and absence of panics may rest: " + "; ".join(f"{f['function']}: {f['message']}" for f in r["failures"])[:300]
            r["failures"] = keep
        units.append(r)
        print(f"verus {r['unit']}: {r['status']} ({r['verified']} verified, {r['errors']} errors) {r['why']}")
    undecided = [u for u in units if u["status"] == "undecided"]
    failed = [u for u in units if u["status"] == "failed"]
    rc, so, swall = first.result()
    if rc == 0 and (failed or undecided):
        more = run_search(prop, seed + 7919, max(secs * 4, 40), rfile)
        if more[0] in (0, 1): rc, so, swall = more
    if rc not in (0, 1):
        print(f"ERROR search ended with {rc}: {so[-500:]}"); sys.exit(2)
    for l in so.splitlines():
        if l.startswith("KNOWN "): print(f"KNOWN-FINDING: property={prop} {l[6:]}")
    m = re.search(r"CASES (\d+) NONTRIVIAL (\d+) DISTINCT (\d+) EXHAUSTIVE (.*)", so)
    cases, nontriv, distinct, exh = (int(m.group(1)), int(m.group(2)), int(m.group(3)), m.group(4)) if m else (0, 0, 0, "")
    if rc == 0 and (cases == 0 or nontriv == 0):
        print("ERROR vacuous search"); sys.exit(2)
    nv = sum(u["verified"] for u in units)
    no = sum(u["verified"] + u["errors"] for u in units)
    viol, line = 0, None
    if rc == 1:
        viol = 1
        why = [l for l in so.splitlines() if l.startswith("FAIL")]
        with open(rfile, "a") as f:
            f.write("# " + "\n# ".join(why) + "\n")
            for u in failed:
                for o in u["failures"]: f.write(f"# failed obligation: {o['function']}: {o['message']}\n")
            f.write(f"# replay: {BUILD}/target/debug/replay replay {rfile}\n")
        for w in why: print(w[:600])
        line = f"VIOLATION property={prop} replay={rfile}"
    elif failed:
        viol = 1
        with open(rfile, "w") as f:
            f.write(f"# failed obligations for {prop}; no failing input among {cases} searched\n")
            for u in failed:
                for o in u["failures"]:
                    f.write(f"obligation {o['function']}: {o['message']}\n{o['text']}\n")
        for u in failed:
            for o in u["failures"]: print(f"obligation failed: {o['function']}: {o['message']}")
        line = f"VIOLATION property={prop} replay={rfile} no-failing-input-found"
    level = P["level"]
    if undecided and not viol: print(f"note: {len(undecided)} proof unit(s) undecided on this tree; bounded search only for them")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "obligations": no, "discharged": nv if not failed else nv,
            "checker_cmd": "; ".join([u.get("cmd", "verus (not reached)") for u in units]) or "none",
            "trusted_base": sorted(set(["Verus 0.2026.09 with Z3", "vstd contracts for the standard library"] * bool(units)
                + [f"external_body {x}" for u in units for x in u.get("trusted", [])]
                + [f"assumed std contract {x}" for u in units for x in u.get("assumed_specs", [])])) ,
            "functions_under_contract": sorted({f for u in units for f in u.get("functions", [])}),
            "extraction_lowering": {u["unit"]: u.get("lowered", {}) for u in units},
            "units": [{k: u.get(k) for k in ("unit", "status", "verified", "errors", "why", "wall_s", "solver_s", "helpers", "mismatch")} for u in units],
            "evaluations": cases, "distinct_nontrivial": distinct,
            "rule": P["rule"], "bounded_scope": exh, "bounded_for": P["bounded_for"],
            "samples": [l[7:] for l in so.splitlines() if l.startswith("SAMPLE")][:6],
            "search_wall_s": round(swall, 2),
            "fallback": [u["why"] for u in undecided],
        },
        "assumptions": P["assumptions"],
        "wall_s": round(time.time() - t0, 2), "violations": viol,
    }
    if level == "exploration": ev["coverage"]["explanation"] = P["bounded_for"]
    json.dump(ev, open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w"), indent=1)
    print(f"{prop}: {nv}/{no} obligations discharged, {cases} bounded cases ({nontriv} non-trivial), {time.time() - t0:.1f} s")
    if line: print(line); sys.exit(1)
    sys.exit(0)

if __name__ == "__main__": main()
