#!/usr/bin/env python3
"""check.py <property id> [--thorough]

Decides one property of /repo:
 1. extracts the functions under contract from /repo/src (mechanically, every run) into the Verus
    units listed in checks.json and lets Verus discharge every obligation (the deciding step);
 2. re-runs the units with one `assert(false)` behind every precondition and loop invariant: each
    of them must fail (vacuity guard);
 3. runs the executable form of the same contracts against the real library (built from /repo's
    working tree): a bounded check of the code that surrounds the verified functions, and the
    search for a failing input when an obligation fails.

exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: the check could not run.
"""
import json, os, re, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
SRC = os.path.join(REPO, "src")


def sh(cmd, env=None, timeout=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=timeout, cwd=cwd)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode("utf8", "replace"), (x.stderr or b"").decode("utf8", "replace") + "\nTIMEOUT"


def build_extractor():
    env = {"CARGO_NET_OFFLINE": "true", "CARGO_TARGET_DIR": os.path.join(V, "target", "extract")}
    return sh(["cargo", "build", "--offline", "-q"], env=env, cwd=os.path.join(V, "extract"), timeout=600)


EXTRACT = os.path.join(V, "target", "extract", "debug", "extract")


def harness_env():
    return {"RUSTUP_TOOLCHAIN": "1.85.0", "CARGO_NET_OFFLINE": "true",
            "CARGO_TARGET_DIR": os.path.join(V, "target", "harness"), "RUSTFLAGS": "-Awarnings"}


def build_harness(b):
    return sh(["cargo", "build", "--offline", "-q", "--bin", b], env=harness_env(),
              cwd=os.path.join(V, "harness"), timeout=700)


def shape_of(summary):
    """What the refactoring-insensitive comparison looks at: per function, which calls, how many loops/closures."""
    return {f["file"] + "::" + f["fn"]: {"calls": sorted(set(f["calls"])), "loops": f["loops"], "closures": f["closures"]}
            for f in summary["fns"]}


def run_verus(path, outjson, extra=()):
    cmd = ["verus", "--triggers-mode", "silent", "--output-json", "--time-expanded", "-V", "spinoff-all", path] + list(extra)
    t = time.time()
    rc, so, se = sh(cmd, timeout=420)
    wall = time.time() - t
    try:
        j = json.loads(so[so.index("{"):])
    except Exception:
        j = None
    if outjson:
        open(outjson, "w").write(so)
    return {"rc": rc, "json": j, "stderr": se, "wall": wall, "cmd": " ".join(cmd)}


def fn_breakdown(j):
    r = {}
    for m in (j or {}).get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            d = r.setdefault(f["function"], {"success": True, "ms": 0, "rlimit": 0})
            d["success"] = d["success"] and f.get("success", True)
            d["ms"] += f.get("time", 0)
            d["rlimit"] += f.get("rlimit", 0)
    return r


TRUST = re.compile(r"external_body|assume_specification|\baxiom\b|\badmit\(\)|\bassume\(|external_type_specification|external_trait_specification|external_fn_specification")


def trusted_scan(text):
    out = []
    lines = text.split("\n")
    for i, l in enumerate(lines):
        s = l.split("//")[0]
        m = TRUST.search(s)
        if not m:
            continue
        # name the item: the next line (or this one) with fn/struct/trait
        name = None
        for k in range(i, min(i + 6, len(lines))):
            mm = re.search(r"\b(?:fn|struct|trait|type)\s+([A-Za-z_0-9]+)", lines[k]) or re.search(r"assume_specification(?:<[^\[]*>)?\s*\[\s*([^\]]+)\]", lines[k])
            if mm:
                name = mm.group(1).strip()
                break
        out.append("%s: %s" % (m.group(0), name or s.strip()[:80]))
    seen, res = set(), []
    for o in out:
        if o not in seen:
            seen.add(o)
            res.append(o)
    return res


def error_blocks(se):
    """[(message, line number in the unit)]"""
    res = []
    cur = None
    for l in se.split("\n"):
        m = re.match(r"error(?:\[\w+\])?: (.*)", l)
        if m:
            cur = [m.group(1), None, [l]]
            res.append(cur)
            continue
        if cur is not None:
            cur[2].append(l)
            m = re.match(r"\s*--> (\S+?):(\d+):\d+", l)
            if m and cur[1] is None:
                cur[1] = int(m.group(2))
    return res


def fn_at(text_lines, n):
    for k in range(min(n, len(text_lines)) - 1, -1, -1):
        m = re.match(r"//@@ ?FN (\S+)", text_lines[k])
        if m:
            return m.group(1)
        if text_lines[k].startswith("//@@ END"):
            break
    return "lemma"


def verify_unit(pid, unit, b, vac, thorough, seed):
    """returns dict(status: ok|fail|undecided, ...)"""
    tpl = os.path.join(V, "units", unit + ".rs")
    out = os.path.join(b, unit + ".rs")
    summ = os.path.join(b, unit + ".json")
    r = {"unit": unit}
    rc, so, se = sh([EXTRACT, SRC, tpl, out, summ], timeout=120)
    if rc != 0:
        r.update(status="undecided", reason="extraction: " + (so + se).strip()[-600:], failed=[])
        return r
    text = open(out).read()
    lines = text.split("\n")
    summary = json.load(open(summ))
    r["summary"] = summary
    r["trusted"] = trusted_scan(text)
    m = re.match(r"// verus: (.*)", open(tpl).readline())
    opts = m.group(1).split() if m else []
    v = run_verus(out, os.path.join(b, unit + ".verus.json"), opts)
    # a proof under another solver seed is as good: retry before saying that an obligation cannot be discharged
    first = (v["json"] or {}).get("verification-results", {})
    if first and not first.get("success") and not first.get("encountered-vir-error") and first.get("verified", 0):
        for s in (11, 23):
            w = run_verus(out, None, opts + ["--smt-option", "smt.random_seed=%d" % s])
            if (w["json"] or {}).get("verification-results", {}).get("success"):
                v = w
                open(os.path.join(b, unit + ".verus.json"), "w").write(json.dumps(w["json"]))
                break
            if v["wall"] + w["wall"] > 120:
                break
    r["cmd"] = v["cmd"]
    r["wall"] = v["wall"]
    j = v["json"]
    vr = (j or {}).get("verification-results", {})
    r["fns"] = fn_breakdown(j)
    r["verified"] = vr.get("verified", 0)
    r["errors"] = vr.get("errors", 0)
    r["smt_ms"] = (j or {}).get("times-ms", {}).get("smt", {}).get("total", 0)
    open(os.path.join(b, unit + ".verus.log"), "w").write(v["stderr"])
    if j is None or not vr or vr.get("encountered-vir-error") or (vr.get("verified", 0) == 0 and not vr.get("success")):
        errs = error_blocks(v["stderr"])
        r.update(status="undecided", failed=[], reason="outside the verifier's reach: " + (errs[0][0] + " in " + fn_at(lines, errs[0][1] or 1) if errs else v["stderr"][-400:]))
        return r
    if not vr.get("success"):
        blocks = error_blocks(v["stderr"])
        failed = []
        limits = []
        for msg, ln, blk in blocks:
            if msg.startswith("aborting due"):
                continue
            e = {"obligation": msg, "fn": fn_at(lines, ln or 1), "output": "\n".join(blk)[:3000]}
            if "Resource limit" in msg or "rlimit" in msg:
                limits.append(e)
            else:
                failed.append(e)
        if failed:
            r.update(status="fail", failed=failed)
        else:
            r.update(status="undecided", failed=[], reason="resource limit: " + ", ".join(x["fn"] for x in limits))
        return r
    if vr.get("verified", 0) == 0:
        r.update(status="undecided", failed=[], reason="no obligations generated")
        return r
    r["status"] = "ok"
    r["failed"] = []
    if thorough:
        # stability: the same obligations under other solver seeds
        r["seeds"] = {}
        for s in (1, 2, 3):
            w = run_verus(out, None, opts + ["--smt-option", "smt.random_seed=%d" % (seed * 10 + s)])
            r["seeds"][seed * 10 + s] = (w["json"] or {}).get("verification-results", {}).get("verified", 0)
    if vac:
        vout = os.path.join(b, unit + "_vac.rs")
        rc, so, se = sh([EXTRACT, SRC, tpl, vout, os.path.join(b, unit + "_vac.json"), "--vacuity"], timeout=120)
        vt = open(vout).read().split("\n") if rc == 0 else []
        want = [i + 1 for i, l in enumerate(vt) if "/*VAC*/" in l]
        w = run_verus(vout, None, opts + ["--multiple-errors", "200"])
        got = set()
        for l in w["stderr"].split("\n"):
            m = re.match(r"\s*--> \S+?:(\d+):\d+", l)
            if m:
                got.add(int(m.group(1)))
        missing = [n for n in want if n not in got]
        r["vacuity"] = {"probes": len(want), "reachable": len(want) - len(missing)}
        if missing:
            r["vacuity"]["unreached"] = [fn_at(vt, n) + ": " + vt[n - 1].strip()[:100] for n in missing][:10]
    return r


def frame_scan(fields, names):
    """functions of /repo/src that use one of the fields and are not under contract: the frame clauses of assumed functions rest on there being none"""
    out = []
    for root, _, files in os.walk(SRC):
        for fn in sorted(files):
            if not fn.endswith(".rs") or fn == "test.rs":
                continue
            cur = "?"
            for l in open(os.path.join(root, fn), errors="replace"):
                l = l.split("//")[0]
                if re.search(r"#\[cfg\(test\)\]", l):
                    break
                m = re.search(r"\bfn\s+(\w+)", l)
                if m:
                    cur = m.group(1)
                for f in fields:
                    # "self.f=" stands for assignments only
                    pat = r"self\s*\.\s*%s\s*([-+*|&^]?=)(?!=)" % f[5:-1] if f.endswith("=") else r"\.\s*%s\b(?!\s*\()" % f
                    if re.search(pat, l) and cur not in names:
                        out.append("%s in %s::%s" % (f, fn, cur))
    return sorted(set(out))


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    pid = args[0]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = json.load(open(os.path.join(V, "checks.json")))[pid]
    t0 = time.time()
    b = os.path.join(V, "build", pid)
    os.makedirs(b, exist_ok=True)
    ev_dir = os.path.join(V, "evidence")
    os.makedirs(os.path.join(ev_dir, "replay"), exist_ok=True)
    known = []
    for l in open(os.path.join(V, "known_findings.txt")):
        m = re.match(r"finding: property=(\S+) key=(.*?) :: (.*)", l)
        if m and m.group(1) == pid:
            known.append((m.group(2).strip(), m.group(3).strip()))
    kf = os.path.join(b, "known.txt")
    open(kf, "w").write("".join(k + "\n" for k, _ in known))

    hb = {}
    bins = cfg["bins"]

    def hbuild():
        for x in bins:
            hb[x] = build_harness(x)
    th = threading.Thread(target=hbuild)
    th.start()
    rc, so, se = build_extractor()
    if rc != 0:
        th.join()
        print("check: the extractor does not build:\n" + se[-2000:])
        sys.exit(2)
    units = []
    lock = threading.Lock()

    def vwork(u):
        r = verify_unit(pid, u, b, True, thorough, seed)
        with lock:
            units.append(r)
    vths = [threading.Thread(target=vwork, args=(u,)) for u in cfg["units"]]
    for t in vths:
        t.start()
    th.join()

    # ---- executable contracts on the real library
    hres = []
    hbudget = cfg.get("budget", [12, 150])[1 if thorough else 0]

    def hrun(x, budget, sd, tag):
        out = os.path.join(b, x + tag + ".out.json")
        if os.path.exists(out):
            os.remove(out)
        exe = os.path.join(V, "target", "harness", "debug", x)
        rc, so, se = sh([exe, out, str(sd), str(budget), "thorough" if thorough or tag else "quick", kf], timeout=budget * 3 + 120)
        d = None
        if os.path.exists(out):
            try:
                d = json.load(open(out))
            except Exception:
                d = None
        return {"bin": x, "rc": rc, "out": d, "log": (so + se)[-3000:]}

    hfail = None
    hbroken = None
    for x in bins:
        rc, so, se = hb[x]
        if rc != 0:
            hbroken = "harness %s does not build against the current tree: %s" % (x, se[-1500:])
            continue
        h = hrun(x, hbudget, seed, "")
        hres.append(h)
        if h["rc"] == 1 and h["out"] and not h["out"].get("ok"):
            hfail = h
            break
        if h["rc"] != 0 or not h["out"]:
            # the library took the process down (abort, stack overflow, endless loop): that is a failing run too
            if h["rc"] in (124,) or h["rc"] < 0:
                hfail = h
                h["out"] = {"contract": "terminates without taking the process down", "input": "see log", "message": "exit status %d: %s" % (h["rc"], h["log"][-500:])}
                break
            hbroken = "harness %s ended with %d: %s" % (x, h["rc"], h["log"][-500:])
    for t in vths:
        t.join()
    units.sort(key=lambda r: r["unit"])

    vfail = [r for r in units if r["status"] == "fail"]
    undec = [r for r in units if r["status"] == "undecided"]
    vacbad = [r for r in units if r.get("vacuity", {}).get("unreached")]

    # ---- an obligation failed: look harder for a failing input
    base = {}
    for r in units:
        p = os.path.join(V, "units", r["unit"] + ".shape.json")
        base[r["unit"]] = json.load(open(p)) if os.path.exists(p) else {}
    nfif = []
    changed = []
    if (vfail or undec) and not hfail and not hbroken:
        left = 600 - (time.time() - t0)
        ext = max(20, min(cfg.get("extended", 150), left / max(1, len(bins))))
        for x in bins:
            h = hrun(x, ext, seed + 1000003, ".ext")
            hres.append(h)
            if h["rc"] == 1 and h["out"] and not h["out"].get("ok"):
                hfail = h
                break
    for r in vfail:
        cur = shape_of(r["summary"])
        for f in r["failed"]:
            if f["fn"] in base[r["unit"]] and cur.get(f["fn"]) == base[r["unit"]][f["fn"]]:
                nfif.append((r["unit"], f))
            elif f["fn"] not in cur:
                nfif.append((r["unit"], f))   # a lemma over the contracts
            else:
                changed.append((r["unit"], f))

    violation = None
    replay = os.path.join(ev_dir, "replay", pid + ".json")
    if os.path.exists(replay):
        os.remove(replay)
    if hfail:
        o = hfail["out"]
        json.dump({"property": pid, "contract": o.get("contract"), "failing_input": o.get("input"), "observed": o.get("message"),
                   "reproduce": "cd /verif/harness && cargo build --bin %s; the binary with seed %s stops at this input" % (hfail["bin"], o.get("seed")),
                   "failed_obligations": [{"unit": r["unit"], "function": f["fn"], "obligation": f["obligation"], "verifier_output": f["output"]} for r in vfail for f in r["failed"]]},
                  open(replay, "w"), indent=1)
        violation = "VIOLATION property=%s replay=%s" % (pid, replay)
        print("broken contract: %s\n  input: %s\n  %s" % (o.get("contract"), str(o.get("input"))[:600], str(o.get("message"))[:800]))
    elif nfif:
        json.dump({"property": pid, "failed_obligations": [{"unit": u, "function": f["fn"], "obligation": f["obligation"], "verifier_output": f["output"]} for u, f in nfif],
                   "failing_input": None}, open(replay, "w"), indent=1)
        violation = "VIOLATION property=%s replay=%s no-failing-input-found" % (pid, replay)
        for u, f in nfif:
            print("failed obligation in %s (unit %s): %s" % (f["fn"], u, f["obligation"]))

    # ---- evidence
    names = []
    for r in units:
        for f in r.get("summary", {}).get("fns", []):
            names.append(f["file"] + "::" + f["fn"])
    stray = frame_scan(cfg.get("frame", []), {n.split("::")[-1] for n in names})
    obligations = sum(r.get("verified", 0) + r.get("errors", 0) for r in units)
    discharged = sum(r.get("verified", 0) for r in units)
    level = cfg.get("level", "proof")
    cov = {
        "obligations": obligations,
        "discharged": discharged,
        "checker_cmd": "; ".join(r.get("cmd", "") for r in units),
        "trusted_base": sorted({x for r in units for x in r.get("trusted", [])}),
        "functions_under_contract": names,
        "backend": "Verus 0.2026.09.13 / bundled Z3",
        "solver_ms": {r["unit"]: r.get("smt_ms") for r in units},
        "per_function_ms": {r["unit"]: {k: v["ms"] for k, v in r.get("fns", {}).items() if v["ms"] >= 50} for r in units},
        "extraction_rewrites": {r["unit"]: r.get("summary", {}).get("rewrites") for r in units},
        "vacuity": {r["unit"]: r.get("vacuity") for r in units},
        "frame_fields": cfg.get("frame", []), "frame_uses_outside_contracts": stray,
        "undecided_units": {r["unit"]: r.get("reason") for r in undec},
        "obligations_undecided_after_restructuring": ["%s in %s" % (f["obligation"], f["fn"]) for _, f in changed],
        "bounded_checks": [{"bin": h["bin"], **{k: (h["out"] or {}).get(k) for k in ("evaluations", "distinct_nontrivial", "rule", "phases", "seed")}} for h in hres],
        "bounded_covers": cfg.get("bounded_covers", ""),
        "evaluations": sum((h["out"] or {}).get("evaluations") or 0 for h in hres),
        "distinct_nontrivial": sum((h["out"] or {}).get("distinct_nontrivial") or 0 for h in hres),
        "rule": "; ".join(str((h["out"] or {}).get("rule")) for h in hres),
        "samples": [s for h in hres for s in ((h["out"] or {}).get("samples") or [])][:12],
    }
    if thorough:
        cov["seed_stability"] = {r["unit"]: r.get("seeds") for r in units}
    if hbroken:
        cov["harness_problem"] = hbroken
    ev = {"property": pid, "tier": "thorough" if thorough else "quick", "seed": seed, "level": level if not undec and not changed and not stray else "other" if level == "proof" else level,
          "coverage": cov, "assumptions": cfg.get("assumptions", []) + COMMON_ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    if ev["level"] == "other":
        cov["explanation"] = "the proof did not go through on this tree (restructured code or out of the verifier's reach); only the bounded executable contracts speak for it on this run"
    json.dump(ev, open(os.path.join(ev_dir, pid + ".json"), "w"), indent=1)

    seen = {k for h in hres for k in ((h["out"] or {}).get("known") or [])}
    for k, d in known:
        if k in seen:
            print("KNOWN-FINDING: property=%s %s" % (pid, d))
    for r in units:
        print("unit %-10s %-9s verified=%s errors=%s vacuity=%s %.1fs %s" % (r["unit"], r["status"], r.get("verified"), r.get("errors"), r.get("vacuity"), r.get("wall", 0), r.get("reason", "")))
    for h in hres:
        print("harness %s: rc=%s evaluations=%s distinct=%s" % (h["bin"], h["rc"], (h["out"] or {}).get("evaluations"), (h["out"] or {}).get("distinct_nontrivial")))
    print("wall %.1fs" % (time.time() - t0))
    if violation:
        print(violation)
        sys.exit(1)
    for r in vacbad:
        print("undecided deductively: vacuous contract in unit %s: %s" % (r["unit"], r["vacuity"]))
    if hbroken:
        print("check: " + hbroken)
        # the proof alone decides if it went through completely
        sys.exit(0 if units and all(r["status"] == "ok" for r in units) else 2)
    for r in undec:
        print("undecided deductively: unit %s: %s (bounded contracts held)" % (r["unit"], r["reason"]))
    for u, f in changed:
        print("undecided deductively: %s was restructured and its obligation '%s' is not discharged (bounded contracts held)" % (f["fn"], f["obligation"]))
    for x in stray:
        print("undecided deductively: field %s, which is not under contract (bounded contracts held)" % x)
    sys.exit(0)


COMMON_ASSUMPTIONS = [
    "functions named in trusted_base are assumed to meet the contracts written for them in the unit (nom combinators, std, vstd and functions of /repo outside the unit)",
    "the extractor's rewrites (listed in extraction_rewrites and in DESIGN.md) preserve meaning; logging macros are dropped",
    "machine integers are modelled exactly (overflow is an obligation); 64-bit usize is assumed (global size_of usize == 8)",
    "what lies outside functions_under_contract is covered only by the bounded executable contracts",
]

if __name__ == "__main__":
    main()
