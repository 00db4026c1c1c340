#!/usr/bin/env python3
"""Runs one check: builds it from /repo's working tree, explores, reports.

usage: vrun.py PROPERTY [--tier quick|thorough] [--replay FILE] [-v]
                        [--only SCENARIO] [--budget S]
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
sys.dont_write_bytecode = True

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
MOD = "github.com/hyp3rd/hypercache"
ZZ = MOD + "/internal/zzverif"
GODIR = "/opt/veriftools/go1.26.10/bin"
NPROC = min(8, os.cpu_count() or 4)

sys.path.insert(0, os.path.join(HERE, "bin"))
from checks import CHECKS  # noqa: E402


def env():
    e = dict(os.environ)
    e["HOME"] = e.get("HOME") or "/root"
    e["PATH"] = GODIR + ":" + e.get("PATH", "/usr/bin:/bin")
    e.update(GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOPATH="/root/go",
             GOCACHE=e.get("GOCACHE") or "/root/.cache/go-build", CGO_ENABLED="1", GOWORK="off")
    return e


def die(msg):
    print("ERROR:", msg, file=sys.stderr)
    sys.exit(2)


def run(cmd, **kw):
    return subprocess.run(cmd, env=env(), capture_output=True, text=True, errors="replace", **kw)


class Build:
    def __init__(self, work):
        self.work = work
        gm = open(REPO + "/go.mod").read()
        gm += "\nreplace github.com/hyp3rd/sectools => %s/shim/sectools\n" % HERE
        self.modfile = work + "/go.mod"
        open(self.modfile, "w").write(gm)
        shutil.copy(REPO + "/go.sum", work + "/go.sum")
        self.base = {}
        for root, _, files in os.walk(HERE + "/harness"):
            for f in files:
                if f.endswith(".go") or f.endswith(".json"):
                    src = os.path.join(root, f)
                    rel = os.path.relpath(src, HERE + "/harness")
                    self.base[os.path.join(REPO, "internal", rel)] = src

    def overlay(self, name, repl):
        p = "%s/overlay-%s.json" % (self.work, name)
        json.dump({"Replace": repl}, open(p, "w"))
        return p

    def rewriter(self):
        out = self.work + "/rewrite"
        r = run(["go", "build", "-o", out, "."], cwd=HERE + "/tools/rewrite")
        if r.returncode:
            die("rewriter does not build: " + r.stderr)
        return out

    def server(self):
        """The server binary, as the working tree builds it."""
        out = self.work + "/hypercache-server"
        r = run(["go", "build", "-modfile", self.modfile, "-o", out, "./cmd/hypercache-server"], cwd=REPO)
        if r.returncode:
            die("build: " + r.stderr[-4000:])
        os.environ["VERIF_SERVER"] = out

    def build(self, chk, race=False):
        if chk.get("server") and "VERIF_SERVER" not in os.environ:
            self.server()
        repl = dict(self.base)
        pk = [MOD + ("/" + p if p else "") for p in chk.get("rewrite", [])]
        if pk:
            r = run(["go", "list", "-modfile", self.modfile, "-export", "-deps", "-json=ImportPath,Name,Dir,Export,GoFiles,CgoFiles,ImportMap"]
                    + chk.get("tags", []) + pk, cwd=REPO)
            if r.returncode:
                die("go list: " + r.stderr[-3000:])
            lst = self.work + "/list.json"
            open(lst, "w").write(r.stdout)
            out = self.work + "/rw"
            os.makedirs(out, exist_ok=True)
            r = run([self.rewriter(), "-out", out, "-prefix", ZZ, "-list", lst] + pk)
            if r.returncode:
                die("rewrite: " + r.stderr[-3000:])
            repl.update(json.loads(r.stdout)["Replace"])
        for dst, src in chk.get("overlay", {}).items():
            repl[os.path.join(REPO, dst)] = os.path.join(HERE, src)
        ov = self.overlay("race" if race else "main", repl)
        binp = self.work + ("/check-race" if race else "/check")
        cmd = ["go", "build", "-modfile", self.modfile, "-overlay", ov, "-o", binp] + chk.get("tags", [])
        if race:
            # the scheduler and the lock shims declare their happens-before
            # edges explicitly; their own memory is not the program's
            cmd += ["-race"] + ["-gcflags=%s/%s=-race=false -l" % (ZZ, p) for p in ("vsched", "vsync", "vtime")]
        r = run(cmd + [ZZ + "/checks/" + chk["main"]], cwd=REPO)
        if r.returncode:
            die("build: " + r.stderr[-4000:])
        return binp


def known_findings(prop):
    out = []
    p = HERE + "/known_findings.jsonl"
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "finding":
                    out.append(d)
    return out


def blame(log):
    """The function of the code under test in which a goroutine panicked that
    nothing recovers, or "" when the panic is not there."""
    m = re.search(r"^panic: [\s\S]*?^goroutine \d+.*:\n([\s\S]*?)(\n\n|\Z)", log, re.M)
    if not m:
        return ""
    for fn, where in re.findall(r"^(\S.*)\n\t(\S+:\d+)", m.group(1), re.M):
        if "/internal/zzverif/" in where or fn.startswith("main."):
            return ""
        if fn.startswith("github.com/hyp3rd/hypercache"):
            return fn.split("(0x")[0].split("({0x")[0][:120]
    return ""


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = only = budget = None
    verbose = False
    i = 1
    while i < len(args):
        a = args[i]
        if a == "--tier":
            i += 1; tier = args[i]
        elif a == "--replay":
            i += 1; replay = args[i]
        elif a == "--only":
            i += 1; only = args[i]
        elif a == "--budget":
            i += 1; budget = float(args[i])
        elif a == "-v":
            verbose = True
        i += 1
    if tier not in ("quick", "thorough"):
        tier = "quick"
    chk = CHECKS[prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        rc = check(prop, chk, tier, replay, only, budget, verbose, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def check(prop, chk, tier, replay, only, budget, verbose, work, t0):
    b = Build(work)
    if replay:
        v = json.load(open(replay))
        binp = b.build(chk, race=bool(v.get("race")))
        e = env(); e["GORACE"] = "halt_on_error=0 exitcode=0 atexit_sleep_ms=0"
        r = subprocess.run([binp, "-tier", tier, "-replay", os.path.abspath(replay)], env=e)
        return r.returncode
    known = known_findings(prop)
    kf = work + "/known.json"
    json.dump(["%s|%s" % (k["scenario"], k["key"]) for k in known], open(kf, "w"))
    results, viols = [], []
    errors = []
    tbuild = 0.0
    modes = [False] + ([True] if chk.get("race") else [])
    for race in modes:
        tb = time.time()
        binp = b.build(chk, race)
        tbuild += time.time() - tb
        bud = budget or chk.get("budget", {}).get(tier, 20 if tier == "quick" else 400)
        if race:
            bud = min(bud, 10 if tier == "quick" else 90)
        n = chk.get("procs", NPROC)
        procs = []
        e = env()
        e["GORACE"] = "halt_on_error=0 exitcode=0 atexit_sleep_ms=0"
        e["GOMAXPROCS"] = chk.get("gomaxprocs", "2")
        e["GOMEMLIMIT"] = "2500MiB"
        e["TMPDIR"] = work
        for i in range(n):
            of = "%s/out-%s-%d.json" % (work, race, i)
            cmd = [binp, "-tier", tier, "-shard", str(i), "-shards", str(n), "-out", of,
                   "-budget", str(bud), "-known", kf]
            if only:
                cmd += ["-only", only]
            if verbose and i == 0:
                cmd += ["-v"]
            log = open("%s/log-%s-%d" % (work, race, i), "w")
            procs.append((of, log, subprocess.Popen(cmd, env=e, stdout=log, stderr=None if verbose else log, cwd=work)))
        hard = time.time() + bud * 1.5 + 60
        for of, log, p in procs:
            try:
                p.wait(max(1, hard - time.time()))
            except subprocess.TimeoutExpired:
                p.kill(); p.wait()
                errors.append("worker exceeded its time and was stopped (its share is not covered)")
                continue
            log.close()
            if p.returncode != 0 or not os.path.exists(of):
                whole = open(log.name, errors="replace").read()
                tail = whole[-3000:]
                errors.append("worker ended with %s: %s" % (p.returncode, tail))
                # A fatal error of the Go runtime (concurrent map access, stack
                # overflow, all goroutines asleep) is raised by the code under test.
                m = re.search(r"fatal error: (.*)", tail)
                if m:
                    viols.append({"scenario": "(runtime)", "key": "fatal:" + m.group(1), "kind": "fatal",
                                  "msg": tail, "race": race, "known": False, "fatal": True})
                elif blame(whole):
                    viols.append({"scenario": "(runtime)", "key": "panic:" + blame(whole), "kind": "fatal",
                                  "msg": whole[whole.index("panic: "):][:3000], "race": race, "known": False, "fatal": True})
                continue
            d = json.load(open(of))
            results += d["results"] or []
            viols += d["violations"] or []
    # confirm every violation in fresh processes
    rdir = HERE + "/evidence/replay"
    os.makedirs(rdir, exist_ok=True)
    confirmed, unstable, seen, tries = [], [], set(), {}
    for v in viols:
        k = (v["scenario"], v["key"], v["known"])
        tries[k] = tries.get(k, 0) + 1
        if k in seen or tries[k] > 3:
            continue
        name = re.sub(r"[^A-Za-z0-9_.-]+", "_", "%s-%s-%s" % (prop, v["scenario"], v["key"]))[:120]
        path = "%s/%s.json" % (rdir, name)
        json.dump(v, open(path, "w"), indent=1)
        if v.get("fatal"):
            seen.add(k); confirmed.append((v, path)); continue
        ok = 0
        binp = work + ("/check-race" if v.get("race") else "/check")
        e = env(); e["GORACE"] = "halt_on_error=0 exitcode=0 atexit_sleep_ms=0"; e["TMPDIR"] = work
        txt = ""
        for _ in range(5):
            try:
                r = subprocess.run([binp, "-tier", tier, "-replay", path], env=e, capture_output=True, text=True, errors="replace", timeout=120, cwd=work)
            except subprocess.TimeoutExpired:
                continue
            if r.returncode == 1:
                ok += 1
                txt = r.stdout + (r.stderr if v.get("race") else "")
        if ok == 5:
            seen.add(k)
            v["replay_output"] = txt[-6000:]
            json.dump(v, open(path, "w"), indent=1)
            confirmed.append((v, path))
        else:
            unstable.append("%s/%s reproduced %d/5: %s" % (v["scenario"], v["key"], ok, str(v.get("message", v.get("msg", "")))[:300]))
    # merge the workers
    merged = {}
    for r in results:
        m = merged.setdefault((r["scenario"], r["race"]), {
            "scenario": r["scenario"], "bound": r["bound"], "race_build": r["race"], "executions": 0, "states": 0,
            "transitions": 0, "distinct_states": 0, "outcomes": {}, "exhaustive": True, "truncated": 0, "diverged": 0,
            "samples": []})
        m["executions"] += r["execs"]
        m["states"] += r["states"]
        m["transitions"] += r["steps"]
        m["distinct_states"] += r["distinct"]
        m["exhaustive"] = m["exhaustive"] and r["exhaustive"]
        m["truncated"] += r["truncated"]
        m["diverged"] += r["diverged"]
        for o, c in (r["outcomes"] or {}).items():
            m["outcomes"][o] = m["outcomes"].get(o, 0) + c
        m["samples"] = (m["samples"] + (r["samples"] or []))[:4]
    scs, samples = [], []
    for m in merged.values():
        outs = m.pop("outcomes")
        m["distinct_outcomes"] = len(outs)
        ex = sorted(outs.items(), key=lambda x: -x[1])[:4]
        m["outcome_examples"] = ["%s x%d" % x for x in ex]
        m["vacuous"] = m["executions"] > 20 and m["distinct_outcomes"] <= 1
        samples += ["%s: %s" % (m["scenario"], s) for s in (m.pop("samples") or m["outcome_examples"])[:2]]
        scs.append(m)
    new = [(v, p) for v, p in confirmed if not v["known"]]
    old = [(v, p) for v, p in confirmed if v["known"]]
    states = sum(m["states"] for m in scs)
    trans = sum(m["transitions"] for m in scs)
    execs = sum(m["executions"] for m in scs)
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": chk.get("level", "model_checking"),
        "coverage": {
            "states": states, "transitions": trans,
            "traces_validated_against_impl": execs,
            "samples": samples[:20] or ["none"],
            "exhaustive": bool(scs) and all(m["exhaustive"] for m in scs) and not errors,
            "explanation": "Every execution runs the implementation itself (current /repo tree); each complete execution is one "
                           "trace compared with the reference. states = distinct decision nodes of the exploration tree plus "
                           "complete executions; transitions = scheduler steps / enumerated cases executed.",
            "scenarios": scs,
            "unstable": unstable, "errors": [x[-500:] for x in errors],
            "known_findings_seen": ["%s|%s" % (v["scenario"], v["key"]) for v, _ in old],
        },
        "assumptions": chk.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    os.makedirs(HERE + "/evidence", exist_ok=True)
    json.dump(ev, open("%s/evidence/%s.json" % (HERE, prop), "w"), indent=1)
    print("%s %s: %d scenarios, %d executions, %d states, %d transitions, exhaustive=%s, build %.1fs, wall %.1fs" % (
        prop, tier, len(scs), execs, states, trans, ev["coverage"]["exhaustive"], tbuild, ev["wall_s"]))
    for k in known:
        hit = any(k["scenario"] in ("*", v["scenario"]) and v["key"] == k["key"] for v, _ in old)
        print("KNOWN-FINDING: property=%s %s [%s|%s]%s" % (prop, k["what"], k["scenario"], k["key"], "" if hit else " (not reached in this run)"))
    for u in unstable:
        print("INCONCLUSIVE:", u)
    for x in errors:
        print("NOTE:", x[-1500:])
    for v, p in new:
        print("  %s / %s: %s" % (v["scenario"], v["key"], v["msg"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, p))
    if new:
        return 1
    if not scs:
        return 2
    return 0


if __name__ == "__main__":
    main()
