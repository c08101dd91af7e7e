#!/usr/bin/env python3
"""Runs one check: builds harness and server from /repo's working tree, runs the monitor, judges, writes evidence.

usage: run.py ID [--tier quick|thorough]      exit 0 held, 1 violation, 2 no answer
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
# per check: hrace = harness with race detector, server = needs the server binary ("plain"/"race"), level, timeout seconds
CHECKS = json.load(open(os.path.join(HERE, "checks.json")))


def go_env():
    env = dict(os.environ)
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GO111MODULE="on", GOWORK="off", CGO_ENABLED="1", GOFLAGS="-mod=readonly", GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS_EXTRA="")
    env.setdefault("HOME", "/root")
    env["GOPATH"] = "/root/go"
    env["GOMODCACHE"] = "/root/go/pkg/mod"
    env.setdefault("GOCACHE", "/root/.cache/go-build")
    p = "/opt/veriftools/go1.27.3/bin"
    if os.path.isdir(p):
        env["PATH"] = p + ":" + env.get("PATH", "/usr/bin:/bin")
    return env


def build(cfg, bdir, env):
    """Returns (harness, server) paths or raises CalledProcessError."""
    h = os.path.join(bdir, "mon.test")
    cmd = ["go", "test", "-c", "-vet=off", "-o", h]
    if cfg.get("hrace"):
        cmd.append("-race")
    jobs = [(cmd + ["./checks"], os.path.join(HERE, "harness"))]
    s = None
    if cfg.get("server"):
        s = os.path.join(bdir, "magurohttp")
        c2 = ["go", "build", "-o", s]
        if cfg["server"] == "race":
            c2.append("-race")
        jobs.append((c2 + ["."], REPO))
    procs = [(c, subprocess.Popen(c, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for c, d in jobs]
    for c, p in procs:
        out, _ = p.communicate()
        if p.returncode != 0:
            for _, o in procs:
                if o.poll() is None:
                    o.kill()
            print("BUILD FAILED:", " ".join(c), "\n", out[-4000:])
            return None, None, False
    return h, s, True


def race_reports(prefix):
    """Race reports in which both accesses have code of the repository on their stack."""
    out = []
    for f in sorted(glob.glob(prefix + "*")):
        txt = open(f, errors="replace").read()
        for blk in re.split(r"={18}\n", txt):
            if "WARNING: DATA RACE" not in blk:
                continue
            parts = re.split(r"\n\s*\n", blk)
            acc = [p for p in parts if re.search(r"(Read|Write|read|write) at 0x|(by goroutine|by main goroutine)", p)]
            acc = [p for p in acc if re.search(r"^\s*(Previous )?(atomic )?(read|write) (at|of)|^WARNING|^(Read|Write)", p.strip(), re.I)][:2]
            if len(acc) < 2 or not all(REPO + "/" in a or "redmaner/MaguroHTTP" in a for a in acc):
                continue
            key = "|".join(sorted(first_repo_frame(a) for a in acc))
            out.append((key, blk.strip()[:6000]))
    return out


def first_repo_frame(stack):
    for line in stack.splitlines():
        m = re.search(r"(github\.com/redmaner/MaguroHTTP[^\s(]*(?:\([^)]*\))?[^\s(]*)\(", line)
        if m:
            return m.group(1).replace("github.com/redmaner/MaguroHTTP/", "")
    return "?"


def known_findings(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)).get("findings", []) if f.get("property") == pid and f.get("status") == "known"]


def main():
    sys.stdout.reconfigure(errors="replace")
    if sys.argv[1] == "--setup":
        env = go_env()
        sys.exit(subprocess.run(["go", "version"], env=env).returncode)
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    cfg = CHECKS[pid]
    t0 = time.time()
    env = go_env()
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir=os.environ.get("TMPDIR") or "/tmp")
    try:
        sys.exit(run(pid, tier, seed, cfg, env, work, t0))
    finally:
        subprocess.run(["pkill", "-9", "-f", work], check=False)
        for _ in range(5):
            shutil.rmtree(work, ignore_errors=True)
            if not os.path.exists(work):
                break
            time.sleep(0.3)


def run(pid, tier, seed, cfg, env, work, t0):
    h, s, ok = build(cfg, work, env)
    tb = time.time() - t0
    if not ok:
        return 2
    out = os.path.join(work, "result.json")
    scratch = os.path.join(work, "scratch")
    os.mkdir(scratch)
    os.chmod(work, 0o755)
    os.chmod(scratch, 0o777)
    racelog = os.path.join(work, "race")
    e = dict(env, VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_OUT=out, VERIF_SCRATCH=scratch, VERIF_SERVER_BIN=s or "",
             VERIF_HARNESS_BIN=h, VERIF_RACELOG=racelog, GORACE="halt_on_error=0 exitcode=0 log_path=" + racelog)
    limit = cfg.get("timeout", 600) if tier == "quick" else cfg.get("timeout_thorough", 3000)
    log = open(os.path.join(work, "out.txt"), "w+", errors="replace")
    p = subprocess.Popen([h, "-test.run", "^Test%s$" % pid, "-test.timeout", "%ds" % (limit + 30)], cwd=scratch, env=e,
                         stdout=log, stderr=subprocess.STDOUT)
    timed_out = False
    try:
        p.wait(timeout=limit)
    except subprocess.TimeoutExpired:
        timed_out = True
        p.kill()
        p.wait()
    log.flush()
    log.seek(0)
    text = log.read()
    res = {}
    if os.path.exists(out):
        res = json.load(open(out))
    viol = list(res.get("violations") or [])
    incon = list(res.get("inconclusive") or [])
    races = race_reports(racelog)
    nraces = len(races)
    if cfg.get("race_is_violation"):
        seen = set()
        for key, blk in races:
            if cfg.get("race_match") and not re.search(cfg["race_match"], key):
                continue
            if key in seen:
                continue
            seen.add(key)
            viol.append({"key": "race:" + key, "what": "data race between " + key, "witness": blk})
    if not res.get("complete") and not timed_out:
        # the monitor process itself died: a crash with code under test on the stack is a violation
        m = re.search(r"(panic: |fatal error: )[^\n]*", text)
        st = text[m.start():m.start() + 8000] if m else ""
        if m and (REPO + "/") in st:
            viol.append({"key": "crash", "what": "process crashed: " + m.group(0)[:300], "witness": st[:6000]})
        elif not viol and not incon and p.returncode == 1 and "FAIL" not in text:
            # the harness never ends the process like that: the code under test did (log.Fatal, os.Exit) while it was
            # only used as documented
            viol.append({"key": "process-ended", "what": "the code under test ended the process: " + (text.strip().splitlines() or [""])[-1][:300], "witness": text[-3000:]})
        elif not viol and not incon:
            incon.append("monitor ended early (rc=%s): %s" % (p.returncode, text[-1500:]))
    if timed_out and not viol:
        incon.append("time limit of %ds reached" % limit)
    known = known_findings(pid)
    fresh, old = [], {}
    for v in viol:
        k = next((f for f in known if f["key"] == v["key"]), None)
        if k:
            old[k["key"]] = k
        else:
            fresh.append(v)
    cov = {
        "evaluations": res.get("evaluations", 0), "distinct_nontrivial": res.get("distinct", 0), "rule": res.get("rule", ""),
        "samples": res.get("samples") or [], "observed": res.get("counters") or {},
        "race_reports_with_repository_code": nraces, "race_detector": "harness" if cfg.get("hrace") else ("server binary" if cfg.get("server") == "race" else "off"),
        "build_s": round(tb, 1),
    }
    if res.get("notes"):
        cov["notes"] = res["notes"]
    minimum = cfg.get("min_evaluations", 1)
    if not viol and not incon and cov["evaluations"] < minimum:
        incon.append("too little observed: %d evaluations, expected at least %d" % (cov["evaluations"], minimum))
    if incon:
        cov["inconclusive"] = incon[:5]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"), "coverage": cov,
          "assumptions": (res.get("assumptions") or []) + cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print(text[-6000:])
    for k in old.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if fresh:
        rdir = os.path.join(HERE, "replays", pid)
        os.makedirs(rdir, exist_ok=True)
        shown = set()
        for v in fresh:
            if v["key"] in shown:
                continue
            shown.add(v["key"])
            name = re.sub(r"[^A-Za-z0-9_.-]+", "_", v["key"])[:60] + "-" + hashlib.sha1(json.dumps(v, sort_keys=True).encode()).hexdigest()[:8] + ".json"
            path = os.path.join(rdir, name)
            with open(path, "w") as f:
                json.dump({"property": pid, "seed": seed, "tier": tier, "replay": "VERIF_SEED=%d VERIF_TIER=%s python3 %s/run.py %s" % (seed, tier, HERE, pid), "violation": v}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("   ", v["key"], "-", str(v["what"])[:400])
        return 1
    if incon:
        print("INCONCLUSIVE:", "; ".join(incon)[:3000])
        return 2
    print("OK %s: %d evaluations, %d distinct, %.1fs (build %.1fs)" % (pid, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0, tb))
    return 0


if __name__ == "__main__":
    main()
