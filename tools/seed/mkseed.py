#!/usr/bin/env python3
"""Makes and confirms a planted bug: mkseed.py SPEC.py

SPEC.py sets id, prop, needs, breaks, edits=[(file, old, new)], pkg (import dir
of the demo test), demo (Go test source) [or demo_sh + files]; the result is
/verif/seeded/<id>/. Confirms in a scratch copy: builds, stable tests pass,
demo 0 without and nonzero with the patch."""
import json, os, shutil, subprocess, sys, tempfile

SH = """#!/bin/bash
# exit 0: the property holds in this scenario; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOPATH=/root/go GOCACHE=/root/.cache/go-build
export PATH=/opt/veriftools/go1.26.10/bin:$PATH
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
cat > "$tmp/overlay.json" <<J
{"Replace": {"$PWD/%(pkg)s/zz_planted_demo_test.go": "$here/demo_test.go"}}
J
timeout 250 go test -vet=off -count=1 %(flags)s -overlay "$tmp/overlay.json" -run '^TestPlantedDemo$' ./%(pkg)s
"""
BASE = {x for x in json.load(open("/opt/vp/BASELINE.json"))} if False else None


def sh(cmd, cwd=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True)


def main(spec):
    ns = {}
    exec(open(spec).read(), ns)
    out = "/verif/seeded/" + ns["id"]
    os.makedirs(out, exist_ok=True)
    work = tempfile.mkdtemp(prefix="seed-")
    r = work + "/repo"
    try:
        sh("git -C /repo worktree prune; cp -a /repo %s" % r)
        sh("git checkout -q -- . ", cwd=r)
        for f, old, new in ns["edits"]:
            s = open(r + "/" + f).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(r + "/" + f, "w").write(s.replace(old, new))
        d = sh("git diff", cwd=r).stdout
        open(out + "/patch.diff", "w").write(d)
        json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        if "demo_sh" in ns:
            open(out + "/demo.sh", "w").write(ns["demo_sh"])
            for n, c in ns.get("files", {}).items():
                os.makedirs(os.path.dirname(out + "/" + n), exist_ok=True)
                open(out + "/" + n, "w").write(c)
        else:
            open(out + "/demo.sh", "w").write(SH % dict(pkg=ns["pkg"], flags=ns.get("flags", "")))
            open(out + "/demo_test.go", "w").write(ns["demo"])
        os.chmod(out + "/demo.sh", 0o755)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if sh("git -C /repo status --porcelain").stdout.strip():
        sys.exit("repo not clean")
    # clean
    a = sh("bash %s/demo.sh" % out, cwd="/repo")
    print("clean demo:", a.returncode, (a.stdout + a.stderr)[-400:] if a.returncode else "")
    p = sh("git -C /repo apply %s/patch.diff" % out)
    if p.returncode:
        sys.exit("apply: " + p.stderr)
    try:
        b = sh("bash /opt/vp/build.sh")
        t = sh("bash /opt/vp/test.sh /tmp/seed-t.json")
        tj = json.load(open("/tmp/seed-t.json"))
        dm = [sh("bash %s/demo.sh" % out, cwd="/repo").returncode for _ in range(3)]
        print("patched: build", b.returncode, "passed", len(tj["passed"]), "failed", tj["failed"], "demo", dm)
        c = sh("/verif/check %s" % ns["prop"])
        print("check %s -> %d %s" % (ns["prop"], c.returncode, " | ".join(l[:220] for l in c.stdout.splitlines() if "VIOL" in l or " / " in l)))
        if "-a" in sys.argv:
            for q in sorted(__import__("importlib").import_module("checks").CHECKS):
                pass
    finally:
        sh("git -C /repo checkout -- .")


if __name__ == "__main__":
    main(sys.argv[1])
