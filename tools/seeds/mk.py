#!/usr/bin/env python3
"""Build /verif/seeded/<id>/ from the definitions in bugs.py.

Each planted change is made in a scratch copy of /repo, compiled, run against
the existing tests and against its demonstration with and without the change;
it is kept only when all of that comes out as wanted.
usage: mk.py [id ...]"""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
out = os.path.join(os.path.dirname(os.path.dirname(here)), "seeded")
sys.path.insert(0, here)
from bugs import BUGS

DEMO = '''#!/bin/bash
# Runs the test beside this file inside %(pkg)s, through an overlay.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
%(env)soverlay=$(mktemp) || exit 2
printf '{"Replace": {"%%s": "%%s"}}' "$PWD/%(dir)szz_demo_test.go" "$here/demo_test.go" > "$overlay"
timeout %(timeout)d go test -vet=off -count=1 %(flags)s-overlay "$overlay" -run '^TestDemo$' ./%(dir)s
rc=$?
unlink "$overlay"
exit $rc
'''

def sh(cmd, cwd):
    r = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout

def main():
    want = sys.argv[1:]
    tmp = tempfile.mkdtemp(prefix="seeds.", dir="/tmp")
    repo = os.path.join(tmp, "repo")
    bad = 0
    try:
        shutil.copytree("/repo", repo, symlinks=True)
        for b in BUGS:
            if want and b["id"] not in want:
                continue
            sh("git checkout -q -- . && git clean -qfd", repo)
            err = None
            for f, old, new in b["edits"]:
                p = os.path.join(repo, f)
                s = open(p).read()
                if s.count(old) != b.get("count", 1):
                    err = "%s: %d matches of %r" % (f, s.count(old), old)
                    break
                open(p, "w").write(s.replace(old, new))
            d = os.path.join(out, b["id"])
            if err is None:
                rc, o = sh("gofmt -l .; go vet ./... >/dev/null 2>&1; go build ./... && go test -vet=off -count=1 ./...", repo)
                if rc != 0:
                    err = "build or tests: " + o[-1500:]
            if err is None:
                os.makedirs(d, exist_ok=True)
                patch = subprocess.run(["git", "diff"], cwd=repo, stdout=subprocess.PIPE, text=True).stdout
                open(os.path.join(d, "patch.diff"), "w").write(patch)
                dir = b["dir"] + "/" if b["dir"] else ""
                env = "export GOARCH=386\n" if b.get("arch") == "386" else ""
                flags = ""
                if b.get("race"):
                    flags = "-race "
                    env += "export CGO_ENABLED=1\n"
                open(os.path.join(d, "demo.sh"), "w").write(DEMO % dict(pkg=b["dir"] or "the root package", dir=dir, env=env, flags=flags, timeout=b.get("timeout", 250)))
                os.chmod(os.path.join(d, "demo.sh"), 0o755)
                pkg = b["dir"].split("/")[-1] or "float"
                body = b["demo"].strip("\n")
                open(os.path.join(d, "demo_test.go"), "w").write("package %s\n\nimport (\n%s\n)\n\n%s\n" % (pkg, "\n".join('\t%s "%s"' % tuple(i.split(":")) if ":" in i else '\t"%s"' % i for i in ["testing"] + b.get("imports", [])), body))
                sh("gofmt -w " + os.path.join(d, "demo_test.go"), "/")
                json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
                rc, o = sh("bash " + os.path.join(d, "demo.sh"), repo)
                if rc == 0:
                    err = "demo passes with the change"
                elif "build failed" in o or "setup failed" in o:
                    err = "demo does not build: " + o[-1500:]
                else:
                    sh("git checkout -q -- .", repo)
                    rc, o2 = sh("bash " + os.path.join(d, "demo.sh"), repo)
                    if rc != 0:
                        err = "demo fails without the change: " + o2[-1500:]
            if err:
                bad += 1
                shutil.rmtree(d, ignore_errors=True)
                print("REJECT", b["id"], err)
            else:
                print("ok    ", b["id"], b["property"])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return bad

sys.exit(1 if main() else 0)
