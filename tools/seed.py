#!/usr/bin/env python3
"""Authoring aid for /verif/seeded (never used by a check).

usage: seed.py FILE.py [ID...] [--check] [--nostore]
FILE.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], needs, breaks,
demo=GO SOURCE or sh=SHELL SOURCE, checks=[ids])]. Each change is applied to a
scratch copy of /repo, built, tested, demonstrated; kept in /verif/seeded when
everything is as it must be. With --check the listed checks are run against it."""
import json, os, subprocess, sys, shutil, runpy, time
WT = os.environ.get("SEED_WT", "/tmp/wt")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SEED_REPO", "/repo")
ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off",
           GO111MODULE="on", GOWORK="off", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
DEMO = r'''#!/bin/bash
# Builds main.go inside the client's module (build overlay) and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export HOME="${HOME:-/root}" PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off GOFLAGS= NO_COLOR=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
b="$(mktemp -d)" || exit 2
trap 'rm -rf "$b"' EXIT
cp client/go.mod client/go.sum "$b/" || exit 2
printf 'package generated\n\nconst ClientVersion = "%s"\n' "$(cat VERSION)" > "$b/version.go"
printf '{"Replace":{"%s/client/generated/version.go":"%s/version.go","%s/client/zzdemo/main.go":"%s/main.go"}}' "$repo" "$b" "$repo" "$here" > "$b/overlay.json"
cd client || exit 2
go build -mod=mod -modfile="$b/go.mod" -overlay="$b/overlay.json" -o "$b/demo" ./zzdemo || exit 2
ALDA
cd "$b" && mkdir scratch && cd scratch && timeout 120 "$b/demo"
'''
def sh(cmd, cwd=WT, env=ENV, timeout=900):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr
def reset():
    if not os.path.isdir(WT):
        subprocess.run(["cp", "-a", REPO, WT], check=True)
    head = subprocess.run(["git", "-C", REPO, "rev-parse", "HEAD"], capture_output=True, text=True).stdout.strip()
    subprocess.run(f"git checkout -q -f . && git fetch -q {REPO} && git checkout -q -f --detach {head}", shell=True, cwd=WT, check=True)
stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
def build_and_test():
    m = "-mod=mod -modfile=" + WT + ".mod/client.mod"
    os.makedirs(WT + ".mod", exist_ok=True)
    shutil.copy(WT + "/client/go.mod", WT + ".mod/client.mod"); shutil.copy(WT + "/client/go.sum", WT + ".mod/client.sum")
    e = dict(ENV, GOFLAGS=m)
    rc, o = sh("rm -f generated/version.go; go generate && go build ./... && GOOS=windows GOARCH=amd64 CGO_ENABLED=0 go build ./... && GOOS=js GOARCH=wasm CGO_ENABLED=0 go build -o /dev/null wasm/main.go", WT + "/client", e)
    if rc: return "build: " + o[-1500:]
    rc, o = sh("go test -json -vet=off -count=1 ./...", WT + "/client", e)
    passed = set()
    for l in o.splitlines():
        try: d = json.loads(l)
        except Exception: continue
        if d.get("Action") == "pass" and d.get("Test"): passed.add(d["Package"] + "/" + d["Test"])
    miss = [t for t in stable if t not in passed]
    return "tests fail: %s" % miss[:5] if miss else None
HELP = open(os.path.join(VERIF, "tools", "demo_help.go.txt")).read()
def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    flags = {a for a in sys.argv[1:] if a.startswith("--")}
    seeds = runpy.run_path(args[0])["SEEDS"]
    for s in seeds:
        if len(args) > 1 and s["id"] not in args[1:]: continue
        reset()
        d = "/tmp/seedtmp/" + s["id"]; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        if "demo" in s:
            src = s["demo"]
            if not src.lstrip().startswith("package"):
                src = HELP.replace("//BODY", src)
            open(d + "/main.go", "w").write(src)
            open(d + "/demo.sh", "w").write(DEMO.replace("ALDA", s.get("alda") and 'go build -mod=mod -modfile="$b/go.mod" -overlay="$b/overlay.json" -o "$b/alda" . || exit 2\nexport ALDA="$b/alda" ALDA_DISABLE_SPAWNING=yes ALDA_DISABLE_TELEMETRY=yes' or ""))
        else:
            open(d + "/demo.sh", "w").write(s["sh"])
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        rc, o = sh(d + "/demo.sh")
        if rc != 0: print(s["id"], "DEMO FAILS ON CLEAN:", rc, o[-2500:]); continue
        bad = False
        for f, old, new in s["edits"]:
            t = open(WT + "/" + f).read()
            if t.count(old) != 1: print(s["id"], "EDIT does not match once:", f, t.count(old), old[:60]); bad = True; break
            open(WT + "/" + f, "w").write(t.replace(old, new))
        if bad: continue
        _, diff = sh("git diff"); open(d + "/patch.diff", "w").write(diff)
        e = build_and_test()
        if e: print(s["id"], e); continue
        rc, o = sh(d + "/demo.sh")
        if rc == 0 or rc == 2 and "panic" not in o and "demo:" not in o: print(s["id"], "DEMO does not show it:", rc, o[-500:]); continue
        if "--nostore" not in flags:
            dst = VERIF + "/seeded/" + s["id"]; shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst)
        print(s["id"], s["property"], "ok; demo:", o.strip().splitlines()[-1][:150] if o.strip() else rc)
        if "--check" in flags:
            for c in s.get("checks", [s["property"]]):
                t0 = time.time()
                rc, o = sh(f"{VERIF}/bin/check {c}", VERIF, dict(os.environ, VERIF_REPO=WT))
                print("   check", c, "rc", rc, "CAUGHT" if rc == 1 and "VIOLATION property=" + c in o else "MISSED", "%.0fs" % (time.time() - t0))
                if rc == 1:
                    i = o.find("--- failing case"); print("      " + o[i:i+300].replace("\n", "\n      "))
                elif rc: print(o[-800:])
        reset()
if __name__ == "__main__":
    main()
