#!/usr/bin/env python3
"""usage: run.py WORKDIR LOG FILE[:props] ...   Mutation campaign (development tool).

Copies /repo and /verif to WORKDIR, applies each edit mutate lists for the files,
skips those that do not build or that the module's own tests catch, and runs the
checks (quick) until one reports a violation. Prints the survivors."""
import json, os, random, shutil, subprocess, sys
work, log = sys.argv[1:3]
repo, verif = work + "/repo", work + "/verif"
env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
def sh(c, cwd, t=900):
    try:
        r = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; export GOSUMDB=off; " + c], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"
if not os.path.isdir(repo):
    os.makedirs(work, exist_ok=True)
    shutil.copytree("/repo", repo)
    shutil.copytree("/verif", verif, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"))
    os.makedirs(verif + "/evidence", exist_ok=True)
    sh("sed -i 's#/repo#%s#' check.sh harness/go.mod" % repo, verif)
    # A tenth of the cases first.
    shutil.copytree(verif, verif + "1")
    sh("sed -i 's/n = int(10 \\* float64/n = int(1 * float64/' harness/engine/engine.go && grep -q 'int(1 \\* float64' harness/engine/engine.go || exit 9", verif + "1")
done = set()
if os.path.exists(log):
    for l in open(log):
        d = json.loads(l); done.add((d["file"], d["From"], d["To"], d["new"]))
out = open(log, "a")
step, offset = int(os.environ.get("STEP", "1")), int(os.environ.get("OFFSET", "0"))
for spec in sys.argv[3:]:
    f, props = spec.split(":")
    rc, o = sh("go run . %s/%s" % (repo, f), os.path.dirname(os.path.abspath(__file__)))
    muts = [json.loads(l) for l in o.splitlines()]
    src = open(repo + "/" + f, "rb").read()
    random.Random(7).shuffle(muts)
    for m in muts[offset::step]:
        m["file"] = f
        if (f, m["From"], m["To"], m["new"]) in done:
            continue
        open(repo + "/" + f, "wb").write(src[:m["From"]] + m["new"].encode() + src[m["To"]:])
        try:
            rc, o = sh("go build ./... && timeout 60 go test -vet=off -count=1 . ./bfloat ./binary16 ./binary128 ./float80x86 ./float128ppc", repo)
            m["by"] = "build" if "vet:" in o or "# github" in o else "tests" if rc else None
            if m["by"] is None:
                for p, v in [(p, v) for v in ((verif + "1",) if os.environ.get("FAST") else (verif + "1", verif)) for p in props.split(",")]:
                    rc, o = sh("./check.sh " + p, v)
                    if rc == 1 and "VIOLATION" in o:
                        m["by"] = p + ("" if v == verif else "/10")
                        break
                    if rc != 0:
                        m["by"] = p + " rc=%d" % rc
                        m["out"] = o[-400:]
                        break
        finally:
            open(repo + "/" + f, "wb").write(src)
        out.write(json.dumps(m) + "\n"); out.flush()
        if m["by"] is None or "rc=" in m["by"]:
            print(f, m["line"], m["what"], m["by"], flush=True)
