#!/usr/bin/env python3
"""check.py ID -- decide property ID on /repo's current tree.

1. For every unit of the property: vx extracts the real functions and splices the contracts, Verus decides
   every obligation, a second run with canaries shows no precondition or invariant is vacuous.
2. The bounded search over the real code (stand-in for functions outside the verifier's reach, and the
   failing-input search for a failed obligation) runs in parallel.
3. exit 1 + VIOLATION line, or exit 0; exit 2 only when nothing at all could be decided.
"""
import concurrent.futures, json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VX_REPO", "/repo")
OUT = f"{V}/target/run"
VX = f"{V}/target/vx/debug/vx"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="nightly-2025-05-17", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUSTFLAGS="--cfg vp_hooks", HOME="/root", CARGO_TARGET_DIR=f"{V}/target/h")
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "")
VENV = {k: v for k, v in os.environ.items() if k != "RUSTUP_TOOLCHAIN"}
VENV["PATH"] = "/root/.cargo/bin:" + VENV.get("PATH", "")

TRUST_RE = re.compile(r"assume_specification|external_body|external_type_specification|\badmit\s*\(|\bassume\s*\(|\baxiom fn|uninterp spec fn|#\[verifier::external\b|exec_allows_no_decreases|nonterminating")


def sh(cmd, timeout, env, cwd=V):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return -9, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout"


def build_vx():
    if not os.path.exists(VX):
        sh(["cargo", "build", "--offline"], 600, dict(ENV, CARGO_TARGET_DIR=f"{V}/target/vx"), f"{V}/vx")
    return os.path.exists(VX)


DEFINITE = ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed", "possible arithmetic", "possible division by zero", "decreases not satisfied",
            "unreachable", "possible bit shift", "loop invariant", "recommendation not met", "could not prove termination", "loop ensures", "assert_by", "unable to prove", "body_end", "possible overflow")
UNDECIDED = ("rlimit", "Resource limit", "timed out", "timeout")


def verus(rs, extra, timeout):
    t0 = time.time()
    rc, so, se = sh(["verus", rs, "--crate-type=lib", "--output-json", "--time-expanded", "--multiple-errors", "40", "--no-report-long-running"] + extra + ["--", "--error-format=json"], timeout, VENV, OUT)
    diags = []
    for line in se.splitlines():
        if line.startswith("{"):
            try:
                d = json.loads(line)
                if d.get("$message_type") == "diagnostic":
                    diags.append(d)
            except ValueError:
                pass
    i = so.find("{")
    try:
        js = json.loads(so[i:]) if i >= 0 else {}
    except ValueError:
        js = {}
    return rc, js, diags, se, time.time() - t0


def unit_run(unit, tier, canary=False):
    """-> dict(status=proved|failed|undecided, ...)"""
    tag = unit + ("_canary" if canary else "")
    rs, mp = f"{OUT}/{tag}.rs", f"{OUT}/{tag}.json"
    env = dict(ENV)
    if canary:
        env["VX_CANARY"] = "1"
    rc, so, se = sh([VX, REPO, f"{V}/units/{unit}.vu", rs, mp], 60, env)
    r = {"unit": unit}
    if rc != 0:
        try:
            j = json.loads(so.strip().splitlines()[-1])
        except Exception:
            j = {"status": "vx-crash", "reason": (so + se)[-500:]}
        return dict(r, status="undecided", reason=f"{j['status']}: {j['reason']}")
    m = json.load(open(mp))
    text = open(rs).read()
    lines = text.splitlines()
    extra = []
    mo = re.search(r"//@verus (.*)", open(f"{V}/units/{unit}.vu").read())
    if mo:
        extra = mo.group(1).split()
    rc, js, diags, se, wall = verus(rs, extra, 400 if tier == "quick" else 1200)
    res = js.get("verification-results", {})

    def owner(line):
        for f in m["functions"]:
            if "fn" in f and f["out_lo"] < line <= f["out_hi"]:
                return f
        return None

    fails, undec = [], []
    for d in diags:
        if d.get("level") != "error" or d["message"].startswith("aborting due to"):
            continue
        prim = [s for s in d.get("spans", []) if s.get("is_primary")] or d.get("spans", [])
        allsp = d.get("spans", [])
        fn = None
        for s in prim + allsp:
            fn = owner(s["line_start"])
            if fn:
                break
        msg = d["message"]
        rec = {"message": msg, "function": fn and f"{fn['file']}::{fn['path']}", "rendered": d.get("rendered", "")[:1500], "line": prim[0]["line_start"] if prim else None,
               "text": lines[prim[0]["line_start"] - 1].strip() if prim and prim[0]["line_start"] <= len(lines) else ""}
        if any(x in msg for x in UNDECIDED):
            undec.append(rec)
        elif any(x in msg for x in DEFINITE):
            fails.append(rec)
        else:
            undec.append(rec)
    funcs = [f for mod in js.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []) for f in mod.get("function-breakdown", [])]
    smt_ms = js.get("times-ms", {}).get("smt", {}).get("smt-run", 0)
    trusted = []
    for k, l in enumerate(lines):
        if TRUST_RE.search(l) and not l.strip().startswith("//"):
            nxt = l.strip()
            if l.strip().startswith("#["):
                nxt = (l.strip() + " " + (lines[k + 1].strip() if k + 1 < len(lines) else ""))
            trusted.append(f"{unit}: {nxt[:160]}")
    r.update(fails=fails, undecided=undec, verified=res.get("verified", 0), errors=res.get("errors", 0), wall=wall, smt_ms=smt_ms,
             functions=[f"{f['file']}::{f['path']}" for f in m["functions"] if "fn" in f], items=[f"{f['item']}" for f in m["functions"] if "item" in f],
             edits=m["edits"], rewrites=m["rewrites"], trusted=trusted, smt_functions=len(funcs), canaries=m.get("canaries", []))
    if canary:
        r["messages"] = [d["message"] for d in diags]
        r["canary_hit"] = sorted({int(x) for d in diags if d.get("level") == "error" for s in d.get("spans", []) for t in s.get("text", []) for x in re.findall(r"vx_canary\((\d+)\)", t["text"])})
        # a function whose canary run exhausts the solver has not had its canary proved: not vacuous, counted apart
        lim = {u["function"] for u in undec if u["function"]}
        r["canary_limit"] = [w["id"] for w in r["canaries"] if any(f.endswith("::" + w["fn"]) for f in lim)]
        return r
    if not res or (res.get("encountered-vir-error") and not fails):
        r["status"] = "undecided"
        r["reason"] = "verifier did not reach the obligations: " + (undec[0]["message"] if undec else (fails[0]["message"] if fails else se[-300:]))
    elif res.get("success") and res.get("verified", 0) > 0 and not fails and not undec:
        r["status"] = "proved"
    elif fails and res.get("verified", 0) + res.get("errors", 0) > 0:
        r["status"] = "failed"
    else:
        r["status"] = "undecided"
        r["reason"] = undec[0]["message"] if undec else "no obligations"
    return r


def run_unit(unit, tier):
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        a = ex.submit(unit_run, unit, tier)
        b = ex.submit(unit_run, unit, tier, True)
        r, c = a.result(), b.result()
    if r["status"] == "proved":
        want, hit = c.get("canaries", []), c.get("canary_hit", [])
        r["canaries"] = len([w for w in want if w["id"] in hit])
        miss = [w for w in want if w["id"] not in hit and w["id"] not in c.get("canary_limit", [])]
        if miss or not want:
            r["status"] = "undecided"
            r["reason"] = "vacuous: canary not refuted in " + ", ".join(w["fn"] for w in miss)[:300]
    return r


def run_search(binname, tier, seed, known, t_end, secs=None):
    rc, so, se = sh(["cargo", "build", "--offline", "--bin", binname], 600, ENV, f"{V}/harness/search")
    if rc != 0:
        return {"status": "unavailable", "reason": "the real code does not compile against the stand-in crates: " + "\n".join([l for l in se.splitlines() if l.startswith("error")][:5]), "stderr": se[-3000:]}
    secs = secs or {"quick": 25, "thorough": 400}[tier]
    cmd = [f"{V}/target/h/debug/{binname}", "--seed", str(seed), "--secs", str(secs)]
    if known:
        cmd += ["--known", "\x1f".join(known)]
    cf = f"{OUT}/{binname}.case"
    # the memory limit turns runaway allocation into an abort that is attributed to its case
    rc, so, se = sh(["prlimit", "--as=12000000000"] + cmd + ["--casefile", cf], secs * 4 + 120, ENV)
    for line in reversed(so.splitlines()):
        if line.startswith("{"):
            j = json.loads(line)
            j["cmd"] = " ".join(cmd[:1] + ["--case", j["case"]]) if j.get("case") else " ".join(cmd)
            return j
    if rc in (-6, -11, 134, 139) and os.path.exists(cf):  # abort, stack overflow, allocation failure: in the recorded case
        case = open(cf).read().strip()
        return {"status": "fail", "case": case, "what": "the process was ended by the code under test: " + se.strip()[-600:], "input": "", "evaluations": 0, "cmd": " ".join(cmd[:1] + ["--case", case])}
    return {"status": "unavailable" if rc == -9 else "crash", "reason": f"search ended with {rc}: {(so + se)[-800:]}"}


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = json.load(open(f"{V}/props.json"))[pid]
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(f"{V}/evidence", exist_ok=True)
    t0 = time.time()
    known, fixed = [], []
    kf = f"{V}/known_findings.jsonl"
    if os.path.exists(kf):
        for l in open(kf):
            l = l.strip()
            if l.startswith("{"):
                j = json.loads(l)
                if j["property"] == pid:
                    known.append(j)
    vxok = build_vx()
    with concurrent.futures.ThreadPoolExecutor(5) as ex:
        fs = ex.submit(run_search, cfg["search"], tier, seed, [k["match"] for k in known], t0) if cfg.get("search") else None
        if not vxok:
            units = [{"unit": u, "status": "undecided", "reason": "vx could not be built"} for u in cfg["units"]]
        else:
            units = list(ex.map(lambda u: run_unit(u, tier), cfg["units"]))
        s = fs.result() if fs else None
    obligations = sum(u.get("verified", 0) + u.get("errors", 0) for u in units)
    discharged = sum(u.get("verified", 0) for u in units)
    failed = [u for u in units if u["status"] == "failed"]
    undecided = [u for u in units if u["status"] == "undecided"]
    if (failed or undecided) and s and s["status"] == "ok":
        # an obligation fails (or cannot be posed) and no failing input was found yet: search longer, elsewhere
        s2 = run_search(cfg["search"], tier, seed + 7919, [k["match"] for k in known], t0, 150 if tier == "quick" else 600)
        if s2["status"] in ("ok", "fail"):
            s2["evaluations"] = s2.get("evaluations", 0) + s.get("evaluations", 0)
            s2["distinct"] = s2.get("distinct", 0) + s.get("distinct", 0)
            s2["known"] = sorted(set(s.get("known", []) + s2.get("known", [])))
            s = s2
    viol = None
    if s and s["status"] == "fail":
        viol = "input"
    elif failed:
        viol = "proof"
    level = cfg.get("level", "proof")
    proved = not failed and not undecided
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0,
          "coverage": {
              "obligations": obligations, "discharged": discharged,
              "checker_cmd": f"python3 check.py {pid}  (vx extraction + verus 0.2026.09.13 / z3 on target/run/<unit>.rs)",
              "trusted_base": sorted({t for u in units for t in u.get("trusted", [])}) + cfg.get("trusted", []),
              "proof_status": {u["unit"]: u["status"] + (": " + u.get("reason", "") if u["status"] == "undecided" else "") for u in units},
              "functions_under_contract": [f for u in units for f in u.get("functions", [])],
              "backend": "z3 (bundled with Verus)", "solver_ms": sum(u.get("smt_ms", 0) for u in units),
              "canaries_refuted": sum(u.get("canaries", 0) if isinstance(u.get("canaries", 0), int) else 0 for u in units),
              "extraction_edits": {u["unit"]: u.get("edits", {}) for u in units}, "extraction_rewrites": [x for u in units for x in u.get("rewrites", [])],
              "bounded_standin": {"what": cfg.get("bounded", ""), "label": "bounded, never counted as proved", "result": {k: v for k, v in (s or {}).items() if k != "samples"}} if s else "none",
              "explanation": cfg.get("explain", ""),
          },
          "assumptions": cfg.get("assumptions", [])}
    if s and "evaluations" in s:
        ev["coverage"]["evaluations"] = s.get("evaluations", 0)
        ev["coverage"]["distinct_nontrivial"] = s.get("distinct", 0)
        ev["coverage"]["rule"] = cfg.get("bounded", "")
        ev["coverage"]["samples"] = s.get("samples", [])
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    for u in units:
        print(f"[{pid}] unit {u['unit']}: {u['status']} ({u.get('verified', 0)} verified, {u.get('errors', 0)} errors) {u.get('reason', '')}")
    if s:
        print(f"[{pid}] search {cfg['search']}: {s['status']} {s.get('evaluations', '')} {s.get('reason', '')[:600]}")
    for k in known:
        if s and k["match"] in s.get("known", []):
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    rp = f"{V}/evidence/{pid}.replay.json"
    if viol:
        json.dump({"property": pid, "search": s if s and s["status"] == "fail" else None,
                   "replay_cmd": s.get("cmd") if s and s["status"] == "fail" else None,
                   "failed_obligations": [{"unit": u["unit"], **f} for u in failed for f in u["fails"]],
                   "verifier": "verus 0.2026.09.13.671956e"}, open(rp, "w"), indent=1)
        if viol == "input":
            print(f"input that fails: {s['what']}")
            print(f"VIOLATION property={pid} replay={rp}")
        else:
            f = failed[0]["fails"][0]
            print(f"failed obligation: {f['function']}: {f['message']}: {f['text']}")
            print(f"VIOLATION property={pid} replay={rp} no-failing-input-found")
        sys.exit(1)
    if proved or (s and s["status"] == "ok"):
        if not proved:
            print(f"[{pid}] proof undecided on this tree; the bounded search held (recorded in the evidence)")
        sys.exit(0)
    print(f"[{pid}] undecided: neither the verifier nor the bounded search could run on this tree")
    sys.exit(2)


main()
