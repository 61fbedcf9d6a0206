#!/usr/bin/env python3
"""mkseed.py FILE.py ...   confirm a planted bug in the scratch copy /tmp/wt and keep it under seeded/
FILE.py defines: ID, PROPERTY, EDITS=[(file, old, new)], NEEDS, BREAKS, MAIN (rust source)"""
import sys, os, subprocess, json, shutil, re
WT = os.environ.get("WT", "/tmp/wt")
def sh(c, cwd=WT, to=400, env=None):
    p = subprocess.run(["bash", "-c", c], cwd=cwd, capture_output=True, text=True, timeout=to, env=env)
    return p.returncode, p.stdout + p.stderr
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def tests():
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", PROPTEST_RNG_SEED="20250129", PROPTEST_MAX_SHRINK_TIME="10000", RUSTUP_TOOLCHAIN="1.83.0-x86_64-unknown-linux-gnu")
    rc, o = sh("cargo build --workspace --all-targets --offline 2>&1 | tail -30; timeout 300 cargo test --workspace --lib --bins --no-fail-fast --offline 2>&1; timeout 120 cargo test --workspace --test '*' --no-fail-fast --offline 2>&1; timeout 120 cargo test --workspace --doc --no-fail-fast --offline 2>&1; git checkout -q -- proptest-regressions; git clean -fdq proptest-regressions", env=env, to=900)
    bad = [l for l in o.split("\n") if re.match(r"test .*FAILED|error", l)]
    bad = [l for l in bad if not l.startswith("error: ") or "test failed" not in l]
    n = sum(1 for l in o.split("\n") if re.match(r"test .* ok$", l))
    return n, bad, o
for f in sys.argv[1:]:
    m = {}
    exec(open(f).read(), m)
    ID = m["ID"]
    sh("git checkout -q -- .")
    ok = True
    for file, old, new in m["EDITS"]:
        p = os.path.join(WT, file); s = open(p).read()
        if s.count(old) != 1:
            print(ID, "EDIT does not match once:", s.count(old), repr(old[:80])); ok = False; break
        open(p, "w").write(s.replace(old, new))
    if not ok: sh("git checkout -q -- ."); continue
    d = f"/verif/seeded/{ID}"; os.makedirs(d, exist_ok=True)
    rc, diff = sh("git diff")
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/main.rs", "w").write(m["MAIN"])
    shutil.copy("/verif/tools/demo.sh", d + "/demo.sh")
    json.dump({"property": m["PROPERTY"], "needs": m["NEEDS"], "what_it_breaks": m["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    n, bad, o = tests()
    rc1, o1 = sh(f"bash {d}/demo.sh")
    sh("git checkout -q -- .")
    rc0, o0 = sh(f"bash {d}/demo.sh")
    good = not bad and rc0 == 0 and rc1 != 0
    print(ID, "KEPT" if good else "REJECTED", f"tests ok={n} bad={bad[:5]} demo unchanged={rc0} patched={rc1}")
    if not good:
        print("   ", o1[-300:] if rc1 else "", o0[-600:] if rc0 else "")
        if not m.get("KEEP"): shutil.move(d, f"/tmp/rejected_{ID}") if not os.path.exists(f"/tmp/rejected_{ID}") else shutil.rmtree(d)
