#!/usr/bin/env python3
"""Writes overlay.json + version.go for building the harness inside /repo's module."""
import json, os, sys, glob
repo, verif, out = sys.argv[1:4]
version = open(os.path.join(repo, "VERSION")).read().strip()
vg = os.path.join(out, "version.go")
with open(vg, "w") as f:
    f.write("package generated\n\nconst ClientVersion = %s\n" % json.dumps(version))
rep = {os.path.join(repo, "client/generated/version.go"): vg}
for p in sorted(glob.glob(os.path.join(verif, "harness", "*.go"))):
    rep[os.path.join(repo, "client/zzverif", os.path.basename(p))] = p
json.dump({"Replace": rep}, open(os.path.join(out, "overlay.json"), "w"))
