#!/usr/bin/env python3
"""tools_seed.py ID [check]: validates seeded/ID in a scratch copy of /repo: applies, builds, passes the stable tests,
demo passes without and fails with the change; `check` also runs the property's quick check against it in /repo."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.abspath(__file__))

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def one(i, check):
    d = f"{ROOT}/seeded/{i}"
    meta = json.load(open(f"{d}/meta.json"))
    assert sh("git -C /repo status --porcelain").stdout == "", "repo dirty"
    out = [i]
    demo = shutil.copytree(d, f"/tmp/demo-{i}", dirs_exist_ok=True)
    r = sh(f"timeout 300 bash {demo}/demo.sh", cwd="/repo")
    out.append("demo-clean:ok" if r.returncode == 0 else f"demo-clean:FAILS {r.stdout[-300:]}{r.stderr[-500:]}")
    r = sh(f"git -C /repo apply {d}/patch.diff")
    if r.returncode:
        print(i, "DOES NOT APPLY", r.stderr); return
    try:
        r = sh(f"timeout 300 bash {demo}/demo.sh", cwd="/repo")
        out.append("demo-patched:fails(ok)" if r.returncode else "demo-patched:PASSES (bad)")
        if check:
            r = sh(f"{ROOT}/bin/check {meta['property']} quick", cwd=ROOT)
            out.append("CAUGHT" if r.returncode == 1 and f"VIOLATION property={meta['property']}" in r.stdout else f"MISSED rc={r.returncode}")
            out.append(r.stdout.strip().splitlines()[1][:160] if r.returncode else "")
        r = sh("bash /opt/vp/build.sh >/dev/null && bash /opt/vp/test.sh /tmp/seed-out.json >/dev/null 2>&1")
        got = json.load(open("/tmp/seed-out.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        want = base["stable"]
        names = got.get("passed", got)
        missing = [n for n in want if n not in names] if not isinstance(want, int) else []
        out.append("tests:ok" if not missing else f"tests:BROKEN {missing[:3]}")
    finally:
        sh("git -C /repo checkout -q -- .")
        shutil.rmtree(f"/tmp/demo-{i}")
    print(" | ".join(out), flush=True)

args = [a for a in sys.argv[1:] if a != "check"]
for i in args or sorted(os.listdir(f"{ROOT}/seeded")):
    one(i, "check" in sys.argv)
