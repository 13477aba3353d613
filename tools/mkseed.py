#!/usr/bin/env python3
"""tools/mkseed.py ID PROPERTY PKGDIR NEEDS WHAT < (python edit spec on fd): helper used while planting bugs.
   Called from a small script: mkseed.make(id, prop, pkg, needs, what, edits=[(file, old, new)], test=go_source)."""
import json, os, subprocess, sys
W="/tmp/seed"
DEMO='''#!/bin/bash
# The demonstration is an in-package test, laid over the tree without touching it.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
R=$PWD; P=%s
for v in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do [ -d $v ] && PATH=$v:$PATH && break; done
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
printf '{"Replace":{"%%s/zz_demo_test.go":"%%s/demo_test.go"}}' "$R/$P" "$D" > "$T/o.json"
cd "$R/$P" && go test -vet=off -count=1 -timeout 120s -overlay "$T/o.json" -run 'TestZZDemo' . %s
'''
def make(id, prop, pkg, needs, what, edits, test, opts=""):
    S=f"/verif/seeded/{id}"; os.makedirs(S, exist_ok=True)
    head=subprocess.check_output(["git","-C","/repo","rev-parse","HEAD"],text=True).strip()
    subprocess.check_call(["git","-C",W,"checkout","-q","--detach",head]); subprocess.check_call(["git","-C",W,"checkout","-q","--","."])
    for f,old,new in edits:
        p=f"{W}/{f}"; t=open(p).read()
        assert t.count(old)==1,(f,t.count(old),old)
        open(p,"w").write(t.replace(old,new))
    d=subprocess.check_output(["git","-C",W,"diff"],text=True); open(f"{S}/patch.diff","w").write(d)
    subprocess.check_call(["git","-C",W,"checkout","-q","--","."])
    open(f"{S}/demo_test.go","w").write(test); open(f"{S}/demo.sh","w").write(DEMO%(pkg,opts)); os.chmod(f"{S}/demo.sh",0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":what},open(f"{S}/meta.json","w"),indent=1)
