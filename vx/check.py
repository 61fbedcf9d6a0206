#!/usr/bin/env python3
"""Decide one property:  check.py C07 [quick|thorough]

1. Every verification unit of the property (a list of fragments from specs/) is assembled from
   /repo's current source by vx.py and handed to Verus; every obligation must be discharged.
2. Contracts are guarded against vacuity: a copy of every contracted function whose contract
   also claims `false` must be rejected (thorough tier, and quick where it is cheap).
3. The contracts are also evaluated against the compiled crate (replay/), which is what turns a
   failed obligation into a concrete failing input.

exit 0: nothing broken; exit 1: VIOLATION line printed.  Obligations that cannot even be posed
(the current source no longer has the form the annotations attach to) are not alarms: the
bounded contract evaluation stands in for them and the evidence says so.
"""
import json, os, re, subprocess, sys, tempfile, threading, time, shutil, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import vx

BUILD = os.path.join(ROOT, ".build")
PROPS = json.load(open(os.path.join(ROOT, "specs", "props.json")))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

FAIL_MSGS = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "assertion not satisfied",
             "invariant not satisfied", "loop invariant", "possible arithmetic", "possible division", "possible bit shift",
             "decreases not satisfied", "could not prove termination", "failed this", "cannot show", "loop ensures",
             "unable to prove", "bitvector", "constructed value may fail", "possible ", "requires not satisfied", "index out of", "proof block", "failed")

def run_verus(path, cwd, extra, timeout, profile=None):
    cmd = ["timeout", "-k", "5", str(timeout), "verus", path, "--output-json", "--time-expanded", "--error-format=json",
           "--multiple-errors", "3", "--no-report-long-running"] + extra
    t0 = time.time()
    p = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True)
    wall = time.time() - t0
    try:
        js = json.loads(p.stdout[p.stdout.index("{"):])
    except ValueError:
        js = None
    diags = []
    for l in p.stderr.split("\n"):
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error" and not d["message"].startswith("aborting due to"):
                diags.append(d)
    return {"rc": p.returncode, "json": js, "diags": diags, "wall": wall, "stderr": p.stderr[-4000:] if js is None else "", "cmd": " ".join(cmd)}

def key_of(linemap, line):
    best = None
    for lo, hi, k in linemap:
        if lo <= line <= hi and (best is None or hi - lo < best[0]):
            best = (hi - lo, k)
    return best[1] if best else f"line {line}"

def attribute(diag, linemap, path):
    """the function (or fragment) whose obligation failed, and a one-line description"""
    own = os.path.basename(path)
    spans = [s for s in diag.get("spans", []) if os.path.basename(s.get("file_name", "")) == own]
    # inside a macro expansion the span lies elsewhere: use the call site
    for s in diag.get("spans", []):
        e = s.get("expansion")
        while e and os.path.basename(e["span"].get("file_name", "")) != own:
            e = e["span"].get("expansion")
        if e and s not in spans:
            spans.append(dict(e["span"], label=s.get("label"), is_primary=s.get("is_primary")))
    prim = [s for s in spans if s.get("is_primary")] or spans
    where = None
    keys = [key_of(linemap, s["line_start"]) for s in spans]
    fkeys = [k for k in keys if not k.startswith("spec:")]
    # a failed precondition points at the callee's requires clause; the obligation belongs to the caller
    if "precondition" in diag["message"]:
        for s in spans:
            k = key_of(linemap, s["line_start"])
            if not s.get("label", "") or "failed precondition" not in (s.get("label") or ""):
                where = k; break
    if where is None:
        labelled = [key_of(linemap, s["line_start"]) for s in spans if "end of the function" in (s.get("label") or "") or "exit" in (s.get("label") or "")]
        where = (labelled or fkeys or keys or ["?"])[0]
    txt = ""
    for s in prim[:1]:
        txt = " ".join(t["text"].strip() for t in s.get("text", []))[:160]
    return where, f"{diag['message']}: {txt}"

class Unit:
    def __init__(self, name, frags, probe):
        self.name, self.frags, self.probe = name, frags, probe
        self.ctx = None

def verify_unit(name, frags, tier, tmp, res):
    ctx = vx.Ctx()
    vx.load_base(ctx)
    r = {"name": name, "fragments": frags, "status": "ok", "failed": [], "obligations": 0, "discharged": 0, "wall": 0.0, "smt_ms": 0, "reason": "", "log": "", "functions": [], "assumed": [], "lost": [], "dropped": [], "probes": 0, "probe_bad": []}
    res[name] = r
    try:
        text, lm = vx.assemble(ctx, frags)
    except SystemExit as e:
        r.update(status="unsupported", reason=str(e)); return
    except Exception as e:           # extraction machinery does not recognise the source
        r.update(status="unsupported", reason=f"extraction: {type(e).__name__}: {e}"); return
    text += "\nfn main() {}\n"
    path = os.path.join(tmp, f"{name}.rs")
    open(path, "w").write(text)
    r["functions"] = ctx.functions; r["assumed"] = ctx.assumed; r["lost"] = [list(l) for l in ctx.lost]; r["dropped"] = sorted(set(ctx.dropped))
    r["text_sha"] = hashlib.sha256(text.encode()).hexdigest()[:16]
    changed = any(f["changed"] for f in ctx.functions)
    r["changed"] = [f["key"] for f in ctx.functions if f["changed"]]
    to = 150 if tier == "quick" else 400
    attempts = [[]]
    failed_fns = None
    for n in range(3):
        extra = [[], ["--rlimit", "30", "--smt-option", f"smt.random_seed={SEED}"], ["--rlimit", "60", "--smt-option", "smt.random_seed=7"]][n]
        v = run_verus(path, tmp, extra, to)
        r["wall"] += v["wall"]
        r["cmd"] = "verus <unit assembled from /repo> " + " ".join(v["cmd"].split()[5:])
        js = v["json"]
        if js is None or "verification-results" not in js:
            if v["rc"] in (124, 137):
                r.update(status="timeout", reason=f"verus exceeded {to} s")
            elif v["diags"]:
                r.update(status="unsupported", reason="; ".join(d["message"] for d in v["diags"][:3])[:600], log="\n".join(d.get("rendered") or "" for d in v["diags"][:4])[:4000])
            else:
                r.update(status="unsupported", reason=v["stderr"][-500:])
            return
        vr = js["verification-results"]
        if vr.get("encountered-vir-error") or "verified" not in vr or (vr["verified"] == 0 and vr["errors"] == 0):
            r.update(status="unsupported", reason="; ".join(d["message"] for d in v["diags"][:3])[:600], log="\n".join(d.get("rendered") or "" for d in v["diags"][:4])[:4000])
            return
        r["obligations"] = vr["verified"] + vr["errors"]; r["discharged"] = vr["verified"]
        r["smt_ms"] += js.get("times-ms", {}).get("smt", {}).get("total", 0)
        if vr["success"]:
            r.update(status="ok", failed=[], log="")
            break
        failed, rl = [], []
        for d in v["diags"]:
            w, t = attribute(d, lm, path)
            if "rlimit" in d["message"] or "Resource limit" in d["message"]:
                rl.append((w, t))
            else:
                failed.append((w, t))
        r["log"] = "\n".join(d.get("rendered") or "" for d in v["diags"])[:8000]
        r["failed"] = failed + rl
        r["status"] = "failed" if failed else "rlimit"
        r["reason"] = "; ".join(sorted({f"{w}: {t}" for w, t in failed + rl}))[:1000]
        if r["wall"] > to:
            break
    if r["status"] == "ok" and (tier == "thorough" or PROPS.get("_probe_quick", True)):
        vacuity(name, frags, tier, tmp, r)

def vacuity(name, frags, tier, tmp, r):
    ctx = vx.Ctx(); vx.load_base(ctx)
    text, lm = vx.assemble(ctx, frags, probe=True)
    n = sum(1 for _, _, k in lm if k.endswith("__probe"))
    if not n:
        return
    path = os.path.join(tmp, f"{name}_probe.rs")
    open(path, "w").write(text + "\nfn main() {}\n")
    v = run_verus(path, tmp, ["--multiple-errors", "0"] if False else [], 600)
    js = v["json"]
    if js is None or js.get("verification-results", {}).get("encountered-vir-error", True):
        r["probe_note"] = "probe run gave no answer: " + "; ".join(d["message"] for d in v["diags"][:2])
        return
    hit = {attribute(d, lm, path)[0] for d in v["diags"]}
    r["probes"] = n
    r["probe_bad"] = sorted(k for _, _, k in lm if k.endswith("__probe") and k not in hit)

def scan_trust(frags):
    out = []
    for fr in frags:
        if fr.startswith("~"):
            continue
        for ln, l in enumerate(open(os.path.join(ROOT, "specs", fr + ".vrs")), 1):
            c = l.split("//")[0] if not l.strip().startswith("//@") else l
            if re.search(r"\bassume_specification\b|\badmit\s*\(|\bassume\s*\(|external_body|\baxiom\b|external_type_specification|external_trait_specification", c):
                out.append(f"specs/{fr}.vrs:{ln}: {' '.join(l.split())[:150]}")
    return out

def build_replay():
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "replay"), CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    src = os.path.join(ROOT, "replay")
    p = subprocess.run(["cargo", "+1.83.0", "build", "--release", "--offline", "--locked", "-q"], cwd=src, env=env, capture_output=True, text=True)
    return p.returncode, p.stderr[-3000:]

def run_replay(pid, tier, tmp, secs):
    exe = os.path.join(BUILD, "replay", "release", "replay")
    out = os.path.join(tmp, "replay.json")
    args = [exe, pid, "--seed", str(SEED), "--tier", tier, "--secs", str(secs), "--out", out]
    def go(extra, to):
        return subprocess.run(["bash", "-c", 'ulimit -v 12000000; exec "$@"', "x"] + args + extra, capture_output=True, text=True, timeout=to)
    try:
        p = go([], secs * 3 + 120)
        rc, err = p.returncode, p.stderr[-1500:]
    except subprocess.TimeoutExpired:
        rc, err = -99, "no answer in time"
    if rc in (0, 1) and os.path.exists(out):
        return json.load(open(out))
    # abnormal end (hang, abort, out of memory): run again, logging every case before it runs
    tr = os.path.join(tmp, "trace.txt")
    try:
        go(["--trace", tr], secs * 4 + 200)
    except subprocess.TimeoutExpired:
        pass
    last = open(tr).read() if os.path.exists(tr) else ""
    why = {3: "the call does not return (over 10 s)", 134: "the process aborted", -6: "the process aborted", -11: "stack overflow or invalid memory access", 139: "stack overflow or invalid memory access"}.get(rc, f"process ended with {rc}")
    if last:
        name, _, inp = last.partition("\n")
        return {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "rule": "", "failures": [{"key": name, "input": inp[:4000], "msg": why}]}
    return {"error": f"replay ended with {rc}: {err}"}

def known_findings(pid):
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    P = PROPS[pid]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    rdir = os.path.join(ROOT, ".replays"); os.makedirs(rdir, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=f"chk_{pid}_", dir=BUILD)
    try:
        return decide(pid, tier, P, t0, rdir, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def decide(pid, tier, P, t0, rdir, tmp):
    res, rep = {}, {}
    threads = [threading.Thread(target=verify_unit, args=(n, fr, tier, tmp, res)) for n, fr in P.get("units", {}).items()]
    def rp():
        rc, err = build_replay()
        if rc != 0:
            rep["error"] = "replay crate does not build against /repo: " + err
            return
        rep.update(run_replay(pid, tier, tmp, P.get("secs", 20) if tier == "quick" else P.get("secs_thorough", 240)))
    threads.append(threading.Thread(target=rp))
    for t in threads: t.start()
    for t in threads: t.join()

    known = known_findings(pid)
    failures = rep.get("failures", [])
    new = [f for f in failures if f["key"] not in {k for k, _ in known}]
    units = [res[n] for n in P.get("units", {})]
    broken = [u for u in units if u["status"] == "failed"]
    undecided = [u for u in units if u["status"] in ("unsupported", "timeout", "rlimit")]
    # a failed obligation in a unit whose annotations could not all be attached says nothing
    for u in list(broken):
        if u["lost"]:
            broken.remove(u); undecided.append(u)
            u["status"] = "unattached"
    vac = [k for u in units for k in u["probe_bad"]]
    if vac:
        print(f"vacuous contract(s): {vac}", file=sys.stderr)
    lines, code = [], 0
    if new or broken:
        code = 1
        h = hashlib.sha256(json.dumps([new, [u["failed"] for u in broken]], sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(rdir, f"{pid}_{h}.json")
        json.dump({"property": pid, "seed": SEED, "tier": tier,
                   "failed_obligations": [{"unit": u["name"], "obligations": [f"{w}: {t}" for w, t in u["failed"]], "verifier_output": u["log"]} for u in broken],
                   "concrete": new, "reproduce": f"cd {ROOT} && python3 vx/check.py {pid} {tier}" + (f"   (contract evaluation alone: .build/replay/release/replay {pid} --seed {SEED} --tier {tier})" if new else "")}, open(path, "w"), indent=1)
        for u in broken:
            for w, t in u["failed"][:6]:
                lines.append(f"  obligation not discharged: {w}: {t}")
        for f in new[:4]:
            lines.append(f"  failing input [{f['key']}] {f['msg'][:300]} :: {f['input'][:300]}")
        lines.append(f"VIOLATION property={pid} replay={path}" + ("" if new else " no-failing-input-found"))
    if rep.get("error"):
        lines.append("contract evaluation unavailable: " + rep["error"][:1500])
        if code == 0:
            code = 2
    seen = {f["key"] for f in failures}
    for k, what in known:
        lines.append(f"KNOWN-FINDING: property={pid} {what}" + ("" if k in seen else " (not exercised by this run's cases)"))
    for u in undecided:
        lines.append(f"note: unit {u['name']} not decided by proof ({u['status']}: {(u['reason'] or str(u['lost']))[:300]}); bounded contract evaluation stands in")

    fn_proved = sorted({f["key"] for u in units if u["status"] == "ok" for f in u["functions"]})
    fn_assumed = sorted({k for u in units for k in u["assumed"]} - set(fn_proved))
    frs = sorted({f for fr in P.get("units", {}).values() for f in fr})
    cov = {
        "obligations": sum(u["obligations"] for u in units),
        "discharged": sum(u["discharged"] for u in units),
        "checker_cmd": f"python3 vx/check.py {pid} {tier}  (per unit: verus <assembled>.rs --output-json)",
        "trusted_base": ["Verus 0.2026.09.13 (VC generator, bundled Z3), vstd specifications of core/alloc", "vx.py extraction: comments, attributes and visibility dropped; the rewrites listed under extraction_rewrites"] + scan_trust(frs),
        "backend": "Verus / Z3", "solver_ms": sum(u["smt_ms"] for u in units), "verifier_wall_s": round(sum(u["wall"] for u in units), 2),
        "functions_under_contract": len(fn_proved), "functions": fn_proved,
        "contracts_used_as_context": fn_assumed,
        "units": [{k: u.get(k) for k in ("name", "fragments", "status", "obligations", "discharged", "reason", "lost", "changed", "probes", "probe_bad", "probe_note", "text_sha")} for u in units],
        "extraction_rewrites": sorted({d for u in units for d in u["dropped"]}),
        "bounded_functions": P.get("bounded", []),
        "bounded_standin_used": [u["name"] for u in undecided],
        "evaluations": rep.get("evaluations", 0), "distinct_nontrivial": rep.get("distinct_nontrivial", 0),
        "rule": rep.get("rule", ""), "samples": rep.get("samples", [])[:6],
    }
    lvl = P.get("level", "proof")
    ev = {"property": pid, "tier": tier, "seed": SEED, "level": lvl, "coverage": cov,
          "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new) + sum(len(u["failed"]) for u in broken)}
    if lvl == "other":
        cov["explanation"] = P.get("explanation", "")
    json.dump(ev, open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w"), indent=1)
    for l in lines: print(l)
    print(f"{pid}: {cov['discharged']}/{cov['obligations']} obligations discharged over {len(fn_proved)} functions, {cov['evaluations']} contract evaluations, {ev['wall_s']} s")
    return code

if __name__ == "__main__":
    sys.exit(main())
