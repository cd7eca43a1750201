#!/usr/bin/env python3
"""Builds and confirms one planted bug.  usage: mkseed.py DEF.py
DEF.py defines: id, prop, edits=[(file, old, new)], needs, breaks, pkg, demo (Go test source with func TestZZDemo), optional tags."""
import sys, os, json, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = {}
exec(open(sys.argv[1]).read(), d)
ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod -buildvcs=false", GOWORK="off")
W = "/tmp/seedwt-" + d["id"]
shutil.rmtree(W, ignore_errors=True)
subprocess.run(["cp", "-a", "/repo", W], check=True)
subprocess.run(["git", "-C", W, "checkout", "-q", "--", "."], check=True)
for f, old, new in d["edits"]:
    p = os.path.join(W, f); s = open(p).read()
    assert s.count(old) >= 1, (f, old)
    n = d.get("count", {}).get(f, 1)
    assert s.count(old) == n or n < 0, (f, "matches", s.count(old))
    open(p, "w").write(s.replace(old, new, 1 if n < 0 else n))
patch = subprocess.run(["git", "-C", W, "diff"], capture_output=True, text=True).stdout
assert patch
out = os.path.join(V, "seeded", d["id"]); os.makedirs(out, exist_ok=True)
open(out + "/patch.diff", "w").write(patch)
open(out + "/demo_test.go", "w").write(d["demo"].lstrip())
tags = d.get("tags", ""); envs = d.get("env", "")
open(out + "/demo.sh", "w").write(f'''#!/bin/bash
# exit 0 on a tree where the property holds, nonzero otherwise; cwd: the repository
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off {envs}
overlay=$(mktemp)
trap 'rm -f "$overlay"' EXIT
echo "{{\\"Replace\\":{{\\"$PWD/{d["pkg"]}/zz_demo_test.go\\":\\"$here/demo_test.go\\"}}}}" > "$overlay"
go test -vet=off -count=1 -timeout 250s {"-tags="+tags if tags else ""} -overlay "$overlay" -run '^TestZZDemo$' ./{d["pkg"]}
''')
os.chmod(out + "/demo.sh", 0o755)
json.dump({"property": d["prop"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(out + "/meta.json", "w"), indent=1)
def run(cmd, cwd, env=ENV): return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, shell=True)
r0 = run(f"bash {out}/demo.sh", "/repo")
r1 = run(f"bash {out}/demo.sh", W)
print(d["id"], "demo clean:", r0.returncode, "patched:", r1.returncode)
if r0.returncode != 0: print((r0.stdout + r0.stderr)[-1500:])
if r1.returncode == 0 or "build failed" in r1.stdout: print((r1.stdout + r1.stderr)[-1500:])
ok = r0.returncode == 0 and r1.returncode != 0
if ok and "-notest" not in sys.argv:
    b = run("go build ./... && go build -tags=purego ./...", W)
    fails = []
    if b.returncode: print("BUILD FAILED", b.stderr[-800:]); ok = False
    base = json.load(open("/opt/vp/BASELINE.json"))
    for nm, fl, e in [("", "", {}), ("purego:", "-tags=purego", {}), ("cpuoff:", "", {"GODEBUG": "cpu.all=off"})]:
        t = run(f"go test -json -vet=off -count=1 -timeout 4m {fl} $(go list ./... | grep -v '/math/csprng$')", W, dict(ENV, **e))
        for l in t.stdout.splitlines():
            try: x = json.loads(l)
            except Exception: continue
            if x.get("Action") == "fail": fails.append(nm + x["Package"].split("/", 3)[-1] + " " + x.get("Test", ""))
    print("tests failing:", fails[:6])
    ok = ok and not fails
shutil.rmtree(W)
print(d["id"], "CONFIRMED" if ok else "REJECTED")
if not ok: shutil.move(out, "/tmp/rejected-" + d["id"] + "-" + str(os.getpid()))
