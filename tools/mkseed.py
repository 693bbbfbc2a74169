"""mkseed: plant a bug in a scratch copy of /repo, confirm it, keep it under seeded/.
Used as a library: seed(id, prop, pkg, [(file, old, new)], needs, breaks, demo_test_source, race=False)."""
import json, os, shutil, subprocess, sys

V = "/verif"
W = "/tmp/seedwork"


def sh(c, cwd):
    return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + c], cwd=cwd, capture_output=True, text=True)


def seed(id, prop, pkg, edits, needs, breaks, demo, race=False):
    subprocess.run(["rm", "-rf", "/tmp/seedwork"])
    subprocess.run(["cp", "-a", "/repo", W])
    for f, old, new in edits:
        p = os.path.join(W, f)
        s = open(p).read()
        if s.count(old) != 1:
            print("!!", id, f, "matches", s.count(old), repr(old)); return False
        open(p, "w").write(s.replace(old, new))
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    diff = sh("git diff", W).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo_test.go"), "w").write(demo)
    open(os.path.join(d, "meta.json"), "w").write(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
    open(os.path.join(d, "demo.sh"), "w").write('''#!/bin/bash
# Runs demo_test.go inside %s; fails where the planted change is in.
. /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd)
r=$(pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
echo "{\\"Replace\\":{\\"$r/%s/zz_demo_test.go\\":\\"$d/demo_test.go\\"}}" > "$w/o.json"
go test -overlay "$w/o.json" -vet=off -count=1 %s-timeout 120s -run '^TestDemo$' ./%s
''' % (pkg, pkg, "-race " if race else "", pkg))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    ok = True
    r = sh("go build ./... && go vet ./%s >/dev/null; go test -count=1 ./... 2>&1" % pkg, W)
    if r.returncode != 0:
        print("!!", id, "tests fail\n", r.stdout[-3000:], r.stderr[-2000:]); ok = False
    r1 = sh(os.path.join(d, "demo.sh"), W)
    r0 = sh(os.path.join(d, "demo.sh"), "/repo")
    if r1.returncode == 0:
        print("!!", id, "demo does not fail with the change"); ok = False
    if r0.returncode != 0:
        print("!!", id, "demo fails without\n", r0.stdout[-2000:], r0.stderr[-1000:]); ok = False
    # original lines changed?
    subprocess.run(["rm", "-rf", "/tmp/seedwork"])
    print(id, "ok" if ok else "NOT KEPT")
    if not ok:
        shutil.rmtree(d)
    return ok
