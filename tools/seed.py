#!/usr/bin/env python3
"""seed.py FILE.py...: each file defines id, prop, needs, breaks, edits=[(file, old, new)], test (Go test body), pkg (default event), tags.
Builds the planted change in a scratch copy, checks that it compiles, passes the stable tests, and that the demonstration
passes without it and fails with it; then writes seeded/<id>/."""
import sys, os, subprocess, shutil, json, tempfile, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "260afe4"
HEAD = '''package %s

import (
%s
)

var _ = strings.Contains
var _ = fmt.Sprint

func do(args ...string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "*%%d\\r\\n", len(args))
	for _, a := range args {
		fmt.Fprintf(&b, "$%%d\\r\\n%%s\\r\\n", len(a), a)
	}
	rec, err := protocol.DecodeFromReader(bytes.NewBufferString(b.String()))
	if err != nil {
		panic(err)
	}
	return string(event.HandleRequest(rec))
}

func want(t *testing.T, got, w string) {
	t.Helper()
	if got != w {
		t.Fatalf("got %%q, want %%q", got, w)
	}
}
'''
DEMO = '''#!/bin/bash
# exit 0: the property holds; nonzero: it is broken
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
w=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 2
trap '/bin/rm -rf "$w"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/zz_demo_test.go\\":\\"$d/demo_test.go\\"}}" > "$w/o.json"
TMPDIR=$w timeout 200 go test -count=1 -timeout 180s %(tags)s -overlay "$w/o.json" -run '^TestDemo' ./%(pkg)s
'''
def sh(cmd, cwd, t=400):
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t, executable="/bin/bash")
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"
def one(f):
    g = runpy.run_path(f)
    id = g["id"]; pkg = g.get("pkg", "event")
    w = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    try:
        r = w + "/repo"
        subprocess.check_call(["cp", "-a", "/repo", r])
        out = f"{V}/seeded/{id}"
        tmp = w + "/out"; os.makedirs(tmp)
        if "test" in g:
            imports = ["bytes", "fmt", "strings", "testing"] + list(g.get("imports", []))
            imports += ["github.com/yusank/godis/event", "github.com/yusank/godis/protocol"]
            imports = list(dict.fromkeys(imports))
            body = HEAD % (os.path.basename(pkg).replace("main","main") + ("_test" if not g.get("internal") else ""), "\n".join('\t"%s"' % i for i in imports)) + g["test"]
        else:
            body = g["raw"]
        open(tmp + "/demo_test.go", "w").write(body)
        open(tmp + "/demo.sh", "w").write(DEMO % dict(pkg=pkg, tags="-tags " + g["tags"] if g.get("tags") else ""))
        os.chmod(tmp + "/demo.sh", 0o755)
        rc, o = sh(f"bash {tmp}/demo.sh", r)
        if rc != 0: return f"{id}: demo fails on unchanged tree\n{o[-1500:]}"
        for file, old, new in g["edits"]:
            s = open(f"{r}/{file}").read()
            if s.count(old) != 1: return f"{id}: {s.count(old)} matches in {file} of {old!r}"
            open(f"{r}/{file}", "w").write(s.replace(old, new))
        rc, o = sh("gofmt -l $(git diff --name-only) 2>&1; . /opt/vp/env.sh; go vet -tags v1 ./... 2>&1 | tail -5", r)
        vet = o
        rc, diff = sh("git diff", r)
        # removed or adjacent lines must be original
        rc, orig = sh(f"git diff -U0 | grep -c '^-[^-]'", r)
        ok = False
        for file, old, new in g["edits"]:
            rc, bl = sh(f"git blame -s HEAD -- {file}", r)
            lines = bl.split("\n")
            rc, hd = sh(f"git diff -U0 -- {file} | grep '^@@'", r)
            for h in hd.strip().split("\n"):
                a = h.split()[1][1:].split(",")
                st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                rng = range(st, st + n) if n else (st, st + 1)
                for i in rng:
                    if 0 < i <= len(lines) and lines[i-1].startswith("^" + BASE[:7]): ok = True
        if not ok: return f"{id}: touches no original line"
        rc, o = sh("bash /opt/vp/build.sh", r)
        # build.sh builds /repo; build here explicitly
        rc, o = sh(". /opt/vp/env.sh; go build ./... && go build -tags v1 ./...", r)
        if rc: return f"{id}: does not build\n{o[-1500:]}"
        rc, o = sh(". /opt/vp/env.sh; go test -count=1 ./... 2>&1 | grep -v 'no test files' | tail -30", r, 300)
        if "FAIL" in o: return f"{id}: existing tests fail\n{o[-1500:]}"
        rc, o = sh(f"bash {tmp}/demo.sh", r)
        if rc == 0: return f"{id}: demo passes with the change"
        if "build failed" in o or "setup failed" in o: return f"{id}: demo does not build\n{o[-1500:]}"
        if os.path.isdir(out): shutil.rmtree(out)
        shutil.copytree(tmp, out)
        open(out + "/patch.diff", "w").write(diff)
        json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        return f"{id}: OK " + (o.strip().split("\n")[0:6][-1][:150]) + (" VET: " + vet[:200] if vet.strip() else "")
    finally:
        subprocess.run(["/bin/rm", "-rf", w])
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(4) as ex:
    for m in ex.map(one, sys.argv[1:]): print(m, flush=True)
