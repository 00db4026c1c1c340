#!/usr/bin/env python3
"""run.py OUT WORKERS SPEC...: measures which small faults the tests and the
checks see. SPEC is FILE=C01,C02[@K[+I]] (a file of /repo, the checks to run, and
to take every K-th fault only, starting with the I-th).
Works on copies under /tmp/mut; needs /tmp/mutate (go build of main.go)."""
import subprocess, sys, os, shutil, json, threading, queue
OUT, W = sys.argv[1], int(sys.argv[2])
env = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOPATH="/root/go", GOCACHE="/root/.cache/go-build")
env["PATH"] = "/opt/veriftools/go1.26.10/bin:" + env["PATH"]
done = set()
if os.path.exists(OUT):
    done = {(r["file"], r["n"]) for r in map(json.loads, open(OUT))}
q = queue.Queue()
for spec in sys.argv[3:]:
    f, cs = spec.split("=")
    cs, _, every = cs.partition("@")
    k, _, at = every.partition("+")
    k, at = int(k or 1), int(at or 0)
    for l in subprocess.run(["/tmp/mutate", "/repo/" + f], capture_output=True, text=True, errors="replace").stdout.splitlines():
        n, line, what = l.split("\t", 2)
        if (f, int(n)) not in done and int(n) % k == at:
            q.put((f, int(n), int(line), what, cs.split(",")))
lock = threading.Lock()
def work(i):
    base = f"/tmp/mut/{i}"
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
    subprocess.run(["cp", "-a", "/repo", base + "/repo"], check=True)
    os.makedirs(base + "/verif")
    subprocess.run(f"cd /verif && git archive HEAD | tar x -C {base}/verif --exclude=seeded", shell=True, check=True)
    os.makedirs(base + "/verif/evidence", exist_ok=True)
    while True:
        try: f, n, line, what, cs = q.get_nowait()
        except queue.Empty: return
        path = f"{base}/repo/{f}"
        src = subprocess.run(["/tmp/mutate", "/repo/" + f, str(n)], capture_output=True).stdout
        open(path, "wb").write(src)
        r = dict(file=f, n=n, line=line, what=what, by=None)
        pkg = "./" + os.path.dirname(f)
        t = subprocess.run(f"nice -n 19 timeout 100 go test -count=1 -vet=off -timeout 60s {pkg}", shell=True, cwd=base + "/repo", env=env, capture_output=True, text=True)
        if "sectools" in t.stdout + t.stderr:
            t = subprocess.run(f"nice -n 19 timeout 200 sh /tmp/modat.sh {base}/repo -count=1 -vet=off -timeout 100s {pkg} ./tests/... .", shell=True, env=env, capture_output=True, text=True)
        if t.returncode != 0:
            r["by"] = "build" if "build failed" in t.stdout + t.stderr or "setup failed" in t.stdout+t.stderr else "tests"
        else:
            for c in cs:
                k = subprocess.run(["nice", "-n", "19", base + "/verif/check", c], env=dict(env, VERIF_REPO=base + "/repo"), capture_output=True, text=True)
                if k.returncode == 1 and "VIOLATION" in k.stdout:
                    r["by"] = c
                    r["msg"] = k.stdout.splitlines()[1][:150] if len(k.stdout.splitlines()) > 1 else ""
                    break
                if k.returncode not in (0, 1):
                    r["by"] = f"broken {c}"
                    r["msg"] = (k.stdout + k.stderr)[-300:]
                    break
                if "INCONCLUSIVE" in k.stdout:
                    r["inconclusive"] = k.stdout[-200:]
        with lock:
            open(OUT, "a").write(json.dumps(r) + "\n")
        shutil.copy("/repo/" + f, path)
ts = [threading.Thread(target=work, args=(i,)) for i in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
