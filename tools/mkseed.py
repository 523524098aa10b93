#!/usr/bin/env python3
"""mkseed(id, prop, needs, breaks, edits, pkg, demo): writes /verif/seeded/<id>."""
import json, os, subprocess, tempfile, shutil
def mkseed(id, prop, needs, breaks, edits, pkg, demo, run="TestDemo", extra=None, external=False):
    d=f"/verif/seeded/{id}"; os.makedirs(d,exist_ok=True)
    w=tempfile.mkdtemp(prefix="mkseed")
    subprocess.check_call(["git","clone","-q","/repo",w+"/r"])
    for f,a,b in edits:
        p=f"{w}/r/{f}"; s=open(p).read()
        assert s.count(a)==1,(id,f,s.count(a))
        open(p,"w").write(s.replace(a,b))
    subprocess.check_call("gofmt -l pkg cmd | grep -v testdata || true",shell=True,cwd=w+"/r")
    out=subprocess.check_output(["git","diff"],cwd=w+"/r",text=True)
    open(d+"/patch.diff","w").write(out)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
    open(d+"/demo_test.go","w").write(demo)
    for n,t in (extra or {}).items(): open(f"{d}/{n}","w").write(t)
    open(d+"/demo.sh","w").write(f'''#!/bin/bash
# Runs demo_test.go inside {pkg} through an overlay. Exit 0: the property holds.
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d); trap 'chmod -R u+w "$t"; rm -rf "$t"' EXIT
export DEMO_DIR="$d" TMPDIR="$t"
printf '{{"Replace":{{"%s":"%s"}}}}' "$PWD/{pkg}/zz_demo_test.go" "$d/demo_test.go" > "$t/overlay.json"
go test -overlay "$t/overlay.json" -vet=off -count=1 -run '^{run}$' ./{pkg}
''')
    os.chmod(d+"/demo.sh",0o755)
    shutil.rmtree(w)
