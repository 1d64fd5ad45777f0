#!/usr/bin/env python3
"""Runs the check of one property: ./check.py PROP [--thorough]

1. extracts the units of the property from /repo/hydra/src and lets Verus discharge every obligation,
2. runs the bounded stand-in (replay) against the real crate,
3. writes evidence/PROP.json and prints VIOLATION / KNOWN-FINDING lines (exit 1 / 0).
"""
import fnmatch, json, os, re, subprocess, sys, time, threading, shutil, tempfile, glob

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HYDRA_REPO", "/repo")
SRC = os.path.join(REPO, "hydra", "src")
sys.path.insert(0, HERE)
from checks import CHECKS

def sh(cmd, timeout=None, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace", **kw)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout"

def lock(name):
    import fcntl
    f = open(os.path.join(tempfile.gettempdir(), "vx-" + name + ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f

def build_extractor():
    with lock("extract"):
        return sh(["cargo", "build", "--release", "--offline", "--quiet"], timeout=600, cwd=os.path.join(HERE, "extract"))

def build_replay():
    """with the hook when the tree still has it, without it otherwise"""
    env = dict(os.environ)
    with lock("replay"):
        for flags in ("--cfg hydra_verif", ""):
            env["RUSTFLAGS"] = flags + " -A warnings"
            tgt = os.path.join(HERE, "replay", "target", "hook" if flags else "plain")
            env["CARGO_TARGET_DIR"] = tgt
            rc, o, e = sh(["cargo", "build", "--offline", "--quiet"], timeout=700, cwd=os.path.join(HERE, "replay"), env=env)
            if rc == 0:
                return os.path.join(tgt, "debug", "replay"), e
        return None, e

def verus(path, extra=()):
    t = time.time()
    cmd = ["verus", path, "--multiple-errors", "6", "--error-format=json", "--output-json", "--time-expanded", "--num-threads", "8", *extra]
    rc, o, e = sh(cmd, timeout=400, cwd=os.path.dirname(path))
    res = {"rc": rc, "wall": time.time() - t, "errors": [], "functions": [], "smt_ms": 0, "cmd": " ".join(cmd), "verified": 0, "nerr": 0, "raw": ""}
    try:
        d = json.loads(o[o.find("{"):])
        vr = d.get("verification-results", {})
        res["verified"], res["nerr"] = vr.get("verified", 0), vr.get("errors", 0)
        smt = d.get("times-ms", {}).get("smt", {})
        res["smt_ms"] = smt.get("total", 0)
        for m in smt.get("smt-run-module-times", []):
            for f in m.get("function-breakdown", []):
                res["functions"].append((f["function"], f.get("success", True), f.get("time-micros", 0)))
    except Exception as x:
        res["raw"] += f"[no json result: {x}]\n" + o[-2000:]
    for line in e.splitlines():
        if not line.startswith("{"):
            res["raw"] += line + "\n"
            continue
        try:
            m = json.loads(line)
        except Exception:
            continue
        if m.get("level") != "error":
            continue
        if m["message"].startswith("aborting due to"):
            continue
        res["errors"].append({"message": m["message"], "lines": [(s["line_start"], s.get("label") or "", s["is_primary"]) for s in m["spans"] if s["file_name"].endswith(os.path.basename(path))], "rendered": m.get("rendered") or m["message"],
                              "code": m.get("code")})
    return res

VERIF_MSG = ("not satisfied", "assertion failed", "not proved", "possible arithmetic", "invariant", "decreases", "unreachable", "recommendation", "possible division", "cannot show", "not hold", "might not", "possible bit shift", "panic", "unable to prove", "could not prove", "fails to satisfy", "may fail to", "split assertion", "split postcondition", "not provable")
RLIMIT_MSG = ("resource limit", "rlimit", "timed out", "solver")

def classify(err, proved_something_wrong=False):
    """proved_something_wrong: the verifier reached its solver and counted failed functions"""
    m = err["message"].lower()
    if any(x in m for x in RLIMIT_MSG):
        return "resource"
    if any(x in m for x in VERIF_MSG) and err["code"] is None:
        return "obligation"
    if proved_something_wrong and err["code"] is None and not any(x in m for x in ("not supported", "not yet supported", "does not yet")):
        return "obligation"
    return "frontend"

def owner(err, funcs):
    """the contract function in whose text the error lies"""
    best = None
    for ln, lab, prim in sorted(err["lines"], key=lambda x: not x[2]):
        for f in funcs:
            if f["begin"] <= ln <= f["end"]:
                return f["key"]
    return best

def obligation_text(err, path):
    lines = open(path).read().split("\n")
    out = []
    for ln, lab, prim in err["lines"]:
        out.append(f"{lab or 'at'}: {lines[ln-1].strip()[:200]}")
    return err["message"] + " | " + " | ".join(out)

def run_unit(unit, workdir, probe=False, base_stubs=()):
    """-> dict(functions={key: status}, failures=[...], ...); never raises"""
    ex = os.path.join(HERE, "extract", "target", "release", "vx-extract")
    stubs, why = list(base_stubs), {}
    out = {"unit": unit, "status": {}, "failures": [], "smt_ms": 0, "wall": 0.0, "assumed": [], "inlined": {}, "breakdown": [], "cmd": "", "runs": 0, "notes": []}
    big = []
    for attempt in range(14):
        path = os.path.join(workdir, unit + ".rs")
        meta = os.path.join(workdir, unit + ".json")
        cmd = [ex, "--src", SRC, "--contracts", os.path.join(HERE, "contracts"), "--unit", os.path.join(HERE, "units", unit + ".unit"), "--out", path, "--meta", meta]
        for s in stubs:
            cmd += ["--stub", s]
        if probe:
            cmd += ["--probe"]
        rc, o, e = sh(cmd, timeout=120)
        if rc != 0:
            out["notes"].append("extraction failed: " + e[-1500:])
            out["dead"] = True
            return out
        m = json.load(open(meta))
        funcs = m["functions"]
        r = verus(path, ["--rlimit", "40"] if big else [])
        out["runs"] += 1
        out["wall"] += r["wall"]
        out["cmd"] = r["cmd"]
        out["missing"] = m["missing"]
        fe, ob, rs = {}, [], {}
        lost = None
        for x in r["errors"]:
            k, o_ = classify(x, bool(r.get("nerr"))), owner(x, funcs)
            if k == "obligation":
                ob.append((o_, obligation_text(x, path), x["rendered"]))
            elif k == "resource":
                rs[o_] = x["rendered"]
            else:
                if o_ is None:
                    lost = x["rendered"]
                else:
                    fe[o_] = x["rendered"]
        if rs and not big and not fe:
            big = list(rs)
            continue
        bad = {k: v for k, v in list(fe.items()) + [(k, v) for k, v in rs.items() if k] if k not in stubs}
        if bad:
            stubs += list(bad)
            for k, v in bad.items():
                why[k] = v
            continue
        if fe or lost or (r["rc"] != 0 and not r["errors"]):
            out["dead"] = True
            out["notes"].append("verus: " + (lost or "\n".join(fe.values()) or r["raw"][-3000:]))
            return out
        break
    else:
        out["dead"] = True
        out["notes"].append("the verifier's front end did not accept the extraction")
        return out
    out["smt_ms"] = r["smt_ms"]
    out["verified"], out["nerr"] = r["verified"], r["nerr"]
    out["breakdown"] = r["functions"]
    failed = {}
    for k, t, rend in ob:
        failed.setdefault(k, []).append((t, rend))
    for f in funcs:
        if not f["verify"] and f["key"] not in failed:
            if f["mode"] == "trusted":
                out["assumed"].append(f["key"] + " (trusted contract)")
            continue
        st = f["mode"]
        if st == "stub" or st == "unsupported":
            out["status"][f["key"]] = ("unproved", why.get(f["key"]) or "; ".join(f["errors"]) or "contract not applicable to the current text")
        elif st == "trusted":
            out["assumed"].append(f["key"] + " (trusted contract)")
        elif f["key"] in failed:
            out["status"][f["key"]] = ("failed", failed[f["key"]])
        else:
            out["status"][f["key"]] = ("proved", "")
        out["inlined"][f["key"]] = f["inlined"]
    if None in failed:
        out["notes"].append("failed outside every contract: " + "; ".join(t for t, _ in failed[None]))
    return out

def trusted_base(units):
    t = []
    for u in units:
        try:
            txt = open(os.path.join(HERE, "units", u + ".unit")).read()
        except OSError:
            continue
        m = re.search(r"^prelude:(.*)$", txt, re.M)
        for p in (m.group(1).split() if m else []):
            for line in open(os.path.join(HERE, "contracts", "prelude", p)):
                if line.startswith("//@assume "):
                    s = line[len("//@assume "):].strip()
                    if s not in t:
                        t.append(s)
    return t

GENERAL_ASSUMPTIONS = [
    "extractor (/verif/extract): the syntactic rewrites listed in DESIGN.md preserve meaning; clones of contract types are structural copies",
    "one call of a contract function is one atomic step on the node's state: DashMap shard locks and the single-threaded interleavings between calls are not modelled by Verus (bounded stand-in only)",
    "Verus, its vstd library, Z3 and rustc are sound",
]

def main():
    prop = sys.argv[1]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    tier = "thorough" if thorough else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = CHECKS[prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix=f"vx-{prop}-")
    try:
        code = check(prop, c, tier, seed, t0, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)

def check(prop, c, tier, seed, t0, work):
    thorough = tier == "thorough"
    rep = {}
    def do_build():
        rep["bin"], rep["err"] = build_replay()
    th = threading.Thread(target=do_build)
    th.start()
    rc, o, e = build_extractor()
    results = {}
    if rc == 0:
        def one(u):
            try:
                results[u] = run_unit(u, work)
            except Exception as x:
                results[u] = {"unit": u, "dead": True, "notes": [f"{type(x).__name__}: {x}"], "status": {}, "smt_ms": 0, "assumed": [], "inlined": {}, "cmd": "", "breakdown": [], "runs": 0}
        ts = [threading.Thread(target=one, args=(u,)) for u in c.get("units", {})]
        for t in ts: t.start()
        for t in ts: t.join()
    else:
        results = {u: {"unit": u, "dead": True, "notes": ["extractor build failed: " + e[-500:]], "status": {}, "smt_ms": 0, "assumed": [], "inlined": {}, "cmd": "", "breakdown": [], "runs": 0} for u in c.get("units", {})}
    th.join()
    # ---- proof part
    proved, unproved, failures, nob, ndis, smt = [], [], [], 0, 0, 0
    notes, assumed, cmds, inl = [], [], [], {}
    for u, pats in c.get("units", {}).items():
        r = results[u]
        notes += [f"{u}: {n}" for n in r["notes"]]
        smt += r["smt_ms"]
        cmds.append(r["cmd"])
        assumed += [f"{u}: {a}" for a in r["assumed"]]
        if r.get("dead"):
            unproved.append((f"{u}::*", "; ".join(r["notes"])[:600]))
            continue
        for miss in r.get("missing", []):
            if any(fnmatch.fnmatch(miss, p) for p in pats):
                unproved.append((miss, "the function is not in the current tree under this name"))
        for k, (st, info) in sorted(r["status"].items()):
            if not any(fnmatch.fnmatch(k, p) for p in pats):
                continue
            nob += 1
            if st == "proved":
                ndis += 1
                proved.append(k)
                if r["inlined"].get(k):
                    inl[k] = r["inlined"][k]
            elif st == "failed":
                for t, rend in info:
                    failures.append((u, k, t, rend))
            else:
                unproved.append((k, str(info)[:600]))
    # ---- bounded stand-in
    secs = c.get("replay_thorough" if thorough else "replay", 300 if thorough else 20)
    if failures and not thorough:
        secs = max(secs * 2, 60)
    stand = {"cases": [], "failure": None}
    if c.get("replay", 1) and rep.get("bin"):
        outp = os.path.join(work, "replay.json")
        rc, o, e = sh([rep["bin"], prop, str(seed), str(secs), outp], timeout=secs + 330)
        try:
            stand = json.load(open(outp))
        except Exception:
            notes.append(f"the stand-in gave no result (rc {rc}): {e[-300:]}")
            if rc in (-6, -11):
                # the operation brought the whole process down (stack overflow, abort): confirm it with the same input
                try:
                    cname, cseed = open(outp + ".cur").read().split()
                    rc2, o2, e2 = sh([rep["bin"], prop, str(seed), "1", outp, cname], timeout=330, env=dict(os.environ, REPLAY_SEED=cseed))
                    if rc2 == rc:
                        stand["failure"] = {"case": cname, "seed": int(cseed), "what": f"the process crashed (signal {-rc}): {e2.strip()[-300:]}", "trace": []}
                except Exception as x:
                    notes.append(f"the crash was not reproduced: {x}")
    elif c.get("replay", 1):
        notes.append("the stand-in did not build: " + (rep.get("err") or "")[-600:])
    # ---- known findings
    known = []
    kf = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(kf):
        for line in open(kf):
            m = re.match(r"open: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                known.append((m.group(2), m.group(3)))
    # ---- vacuity probe
    vac = []
    if thorough:
        for u in c.get("units", {}):
            if results[u].get("dead"):
                continue
            pr = run_unit(u, work, probe=True)
            for k, (st, info) in pr["status"].items():
                if st == "proved" and k in proved:
                    vac.append(k)
    # ---- verdict
    code = 0
    viol = 0
    rdir = os.path.join(HERE, "build", "replays")
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, f"{prop}.json")
    fail = stand.get("failure")
    for key, what in known:
        print(f"KNOWN-FINDING: property={prop} {what}")
    if fail or failures:
        viol = len(failures) + (1 if fail else 0)
        json.dump({"property": prop, "seed": seed, "failing_input": fail,
                   "rerun": f"{rep.get('bin')} {prop} {seed} 1 /dev/null {fail['case']}  (REPLAY_SEED={fail['seed']})" if fail else None,
                   "failed_obligations": [{"unit": u, "function": k, "obligation": t, "verifier_output": rend} for u, k, t, rend in failures]}, open(rpath, "w"), indent=1)
        for u, k, t, rend in failures:
            print(f"failed obligation in {k}: {t[:400]}")
        if fail:
            print(f"failing input: case {fail['case']} seed {fail['seed']}: {fail['what']}")
            for l in fail["trace"][-30:]:
                print("   ", l)
            print(f"VIOLATION property={prop} replay={rpath}")
        else:
            print(f"VIOLATION property={prop} replay={rpath} no-failing-input-found")
        code = 1
    runs = sum(x["runs"] for x in stand["cases"])
    cov = {
        "obligations": nob, "discharged": ndis,
        "checker_cmd": "; ".join(cmds),
        "trusted_base": trusted_base(c.get("units", {})) + assumed,
        "obligation_unit": "one function contract (all its postconditions, loop invariants, callee preconditions and panics), decided by Verus/Z3",
        "functions_under_contract": proved,
        "functions_not_proved_on_this_tree": [{"function": k, "why": w} for k, w in unproved],
        "failed_obligations": [f"{k}: {t}" for _, k, t, _ in failures],
        "inlined_into": inl,
        "back_end": "Verus 0.2026.09.13 with Z3 (SMT)", "solver_ms": smt,
        "bounded_stand_in": {"label": "bounded, not counted as proved", "evaluations": runs, "cases": stand["cases"], "seconds": secs, "rule": c.get("rule", "random operation sequences from the seed, compared with the executable contract after every step"), "parts_decided_only_here": c.get("bounded_only", [])},
        "notes": notes,
    }
    if c["level"] != "proof":
        cov["evaluations"] = runs
        cov["distinct_nontrivial"] = runs
        cov["rule"] = cov["bounded_stand_in"]["rule"]
        cov["samples"] = [f"{x['name']}: {x['runs']} runs" for x in stand["cases"]] or ["-"]
    if thorough:
        cov["vacuous_contracts"] = vac
    ev = {"property": prop, "tier": tier, "seed": seed, "level": c["level"], "coverage": cov,
          "assumptions": GENERAL_ASSUMPTIONS + c.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": viol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1)
    print(f"{prop}: {ndis}/{nob} function contracts discharged, {len(unproved)} not proved on this tree, {runs} bounded runs, {ev['wall_s']} s")
    for k, w in unproved:
        print(f"  not proved: {k}: {w[:300]}")
    for n in notes:
        print("  note:", n[:300])
    return code

if __name__ == "__main__":
    main()
