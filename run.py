#!/usr/bin/env python3
"""run.py PROPERTY: decides one property by running the monitored workloads of harness/worker.

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: it is broken.
VERIF_SEED and VERIF_TIER (quick, thorough) are taken from the environment.
run.py --build builds all variants only. run.py --replay FILE runs what a replay file says."""
import fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
sys.path.insert(0, HERE)
from plan import PLAN, INSTR, DEFAULT_RULE

ENV = dict(os.environ)
ENV.setdefault("HOME", "/root")
ENV["PATH"] = "/usr/local/bin:/usr/bin:/bin:" + ENV.get("PATH", "")
ENV.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
ENV.setdefault("GOCACHE", "/root/.cache/go-build")


def sh(cmd, **kw):
    return subprocess.run(cmd, env=ENV, capture_output=True, text=True, **kw)


def tree_key():
    """Identifies sources of the repository and of the harness."""
    h = hashlib.sha256()
    for top in (REPO, os.path.join(HERE, "harness")):
        for d, ds, fs in os.walk(top):
            ds[:] = sorted(x for x in ds if not x.startswith("."))
            for f in sorted(fs):
                if f.endswith((".go", ".txt", "go.mod")):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def build(variants):
    """Builds workers; returns variant -> path, or raises."""
    key = tree_key()
    out = os.path.join(BUILD, key)
    os.makedirs(out, exist_ok=True)
    os.utime(out)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        old = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD) if os.path.isdir(os.path.join(BUILD, d)) and len(d) == 20), key=os.path.getmtime)
        for d in old[:-3]:
            if time.time() - os.path.getmtime(d) > 3600:
                shutil.rmtree(d, ignore_errors=True)
        paths = {}
        for v in variants:
            exe = os.path.join(out, "worker-" + v)
            if not os.path.exists(exe):
                build_one(v, exe, out)
            paths[v] = exe
        return paths


def build_one(v, exe, out):
    h = os.path.join(HERE, "harness")
    args = ["go", "build", "-o", exe + ".tmp"]
    if v.endswith("race"):
        args.append("-race")
    if v.startswith("instr"):
        tool = os.path.join(out, "vinstr")
        if not os.path.exists(tool):
            r = sh(["go", "build", "-o", tool, "./cmd/vinstr"], cwd=h)
            if r.returncode:
                raise RuntimeError("vinstr: " + r.stderr)
        dirs = INSTR["all" if v.startswith("instrall") else "conc"]
        ov = os.path.join(out, "ov-" + ("all" if v.startswith("instrall") else "conc"))
        r = sh([tool, REPO, ov, os.path.join(h, "vhook")] + dirs)
        if r.returncode == 0:
            r = sh(args + ["-overlay", os.path.join(ov, "overlay.json"), "-tags", "vhook", "./worker"], cwd=h)
        if r.returncode == 0:
            os.rename(exe + ".tmp", exe)
            return
        print("instrumented build failed, falling back to plain one:", r.stderr[-2000:], file=sys.stderr)
    if v == "step" and step_overlay(out):
        r = sh(args + ["-overlay", os.path.join(out, "ov-step", "overlay.json"), "-tags", "vstep", "./worker"], cwd=h)
        if r.returncode == 0:
            os.rename(exe + ".tmp", exe)
            return
        print("build with steps of the clock failed, falling back to plain one:", r.stderr[-2000:], file=sys.stderr)
    if v == "wrap" and wrap_overlay(out):
        r = sh(args + ["-overlay", os.path.join(out, "ov-wrap", "overlay.json"), "./worker"], cwd=h)
        if r.returncode == 0:
            os.rename(exe + ".tmp", exe)
            return
        print("build with big ids failed, falling back to plain one:", r.stderr[-2000:], file=sys.stderr)
    r = sh(args + ["./worker"], cwd=h)
    if r.returncode:
        raise RuntimeError(r.stderr[-6000:])
    os.rename(exe + ".tmp", exe)


def step_overlay(out):
    """Writes an overlay of package time whose wall clock (not the monotonic one) can be set."""
    r = sh(["go", "env", "GOROOT"], cwd=os.path.join(HERE, "harness"))
    path = os.path.join(r.stdout.strip(), "src", "time", "time.go")
    try:
        text = open(path).read()
    except OSError:
        return False
    m = re.search(r"^func Now\(\) Time \{\n\tsec, nsec, mono := .*\n", text, re.M)
    if not m:
        return False
    d = os.path.join(out, "ov-step")
    os.makedirs(d, exist_ok=True)
    text = (text[:m.end()] + "\tsec += verifStep\n" + text[m.end():] +
            "\nvar verifStep int64\n\n// VerifStep sets the wall clock s seconds ahead.\nfunc VerifStep(s int64) { verifStep = s }\n")
    with open(os.path.join(d, "time.go"), "w") as f:
        f.write(text)
    with open(os.path.join(d, "overlay.json"), "w") as f:
        json.dump({"Replace": {path: os.path.join(d, "time.go")}}, f)
    return True


WRAP = """package connection

import "sync/atomic"

var verifConns uint32

// verifStart makes the connection one which has served nearly 2^32 requests already
func (h *RequestHolder) verifStart() {
	n := atomic.AddUint32(&verifConns, 1)
	h.curId = -(n%5 + 1)*rowN - 1
	h.big = h.curId >> rowLogN
	h.lastBig = h.big
	h.reqs = reqMap{h.big: h.cur}
}
"""


def wrap_overlay(out):
    """Writes an overlay in which ids of every client connection are about to wrap."""
    pkg = os.path.join(REPO, "net", "client", "connection")
    d = os.path.join(out, "ov-wrap")
    os.makedirs(d, exist_ok=True)
    repl = {}
    for f in sorted(os.listdir(pkg)):
        if not f.endswith(".go") or f.endswith("_test.go"):
            continue
        text = open(os.path.join(pkg, f)).read()
        new = re.sub(r"^(\t+)(\w+)\.inFly\.init\(\)$", r"\g<0>\n\1\2.inFly.verifStart()", text, flags=re.M)
        if new != text:
            with open(os.path.join(d, f), "w") as fh:
                fh.write(new)
            repl[os.path.join(pkg, f)] = os.path.join(d, f)
    if not repl:
        return False
    with open(os.path.join(d, "verif_wrap.go"), "w") as fh:
        fh.write(WRAP)
    repl[os.path.join(pkg, "verif_wrap.go")] = os.path.join(d, "verif_wrap.go")
    with open(os.path.join(d, "overlay.json"), "w") as fh:
        json.dump({"Replace": repl}, fh)
    return True


def race_reports(text):
    """Reports of the race detector where an access was made by the library itself."""
    res = []
    for block in re.findall(r"WARNING: DATA RACE\n(.*?)\n==================", text, re.S):
        tops = []
        for part in re.split(r"\n\n", block):
            head = part.strip().split("\n")
            if not re.match(r"(Previous )?(atomic )?(read|write) at", head[0], re.I):
                continue
            frames = re.findall(r"^  (\S+)\(.*?\)\n\s+(\S+?):(\d+)", part, re.M)
            for fn, path, line in frames:
                if "/src/runtime/" in path or "/src/sync/" in path or "/src/reflect/" in path or "/src/internal/" in path or "/usr/local/go" in path or "/go/src/" in path:
                    continue
                tops.append((fn, path))
                break
        if any("go-iproto" in fn or path.startswith(REPO + "/") for fn, path in tops):
            res.append(("race:" + "|".join(sorted(fn for fn, _ in tops)), block))
    return res


def crash_key(err):
    m = re.search(r"^(panic: .*|fatal error: .*|unexpected fault.*|SIG\w+.*)$", err, re.M)
    line = m.group(1) if m else (err.strip().split("\n") or ["?"])[0]
    return "crash:" + re.sub(r"0x[0-9a-f]+|\d+", "#", line)[:120]


STOP = dict(at=0)


def run_job(job):
    exe, args, env, limit, work, n, deadline = job
    if STOP["at"]:
        return dict(skipped=True)
    out = os.path.join(work, "out-%d.json" % n)
    err = os.path.join(work, "err-%d.txt" % n)
    e = dict(ENV, **env)
    e["GORACE"] = "halt_on_error=0 exitcode=0 atexit_sleep_ms=0"
    e["GOTRACEBACK"] = "all"
    cmd = [exe] + args + ["-out", out]
    with open(err, "w") as ef:
        p = subprocess.Popen(cmd, env=e, stdout=subprocess.DEVNULL, stderr=ef, cwd=work, start_new_session=True)
        late, start = False, time.time()
        while p.poll() is None:
            # when another worker found something, the others are given only a little time more
            if STOP["at"] and time.time() > STOP["at"] + 15:
                p.kill()
                p.wait()
                return dict(skipped=True)
            if time.time() > min(start + limit, deadline):
                late = True
                p.send_signal(signal.SIGQUIT)
                try:
                    p.wait(20)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
            time.sleep(0.02)
    with open(err, errors="replace") as ef:
        text = ef.read()
    rep = None
    if os.path.exists(out):
        with open(out) as f:
            rep = json.load(f)
    if late or p.returncode != 0 or not rep or rep["violations"]:
        STOP["at"] = STOP["at"] or time.time()
    return dict(cmd=cmd, env=env, rc=p.returncode, late=late, err=text, rep=rep)


def main():
    if sys.argv[1] == "--build":
        build(sorted({j["variant"] for p in PLAN.values() for j in p["jobs"]}))
        return 0
    if sys.argv[1] == "--replay":
        with open(sys.argv[2]) as f:
            rp = json.load(f)
        exe = build([rp["variant"]])[rp["variant"]]
        e = dict(ENV, **rp["env"])
        return subprocess.run([exe] + rp["args"] + ["-out", "/dev/stdout", "-v"], env=e).returncode
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    plan = PLAN[prop]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    try:
        exes = build(sorted({j["variant"] for j in plan["jobs"]}))
    except RuntimeError as e:
        # the tree under test does not compile against its own public interface
        print("cannot build the worker:", e, file=sys.stderr)
        return 2
    work = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=BUILD)
    try:
        return check(prop, plan, exes, work, seed, tier, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(prop, plan, exes, work, seed, tier, t0):
    # of a worker, and of all of them
    limit, total = (300, 600) if tier == "quick" else (3 * 3600, 11 * 3600)
    jobs = []
    for j in plan["jobs"]:
        if tier == "quick" and j.get("thorough"):
            continue
        shards = j["shards"]
        for s, (procs, level) in enumerate(shards):
            args = ["-prop", j.get("prop", prop), "-seed", str(seed), "-tier", tier, "-shard", str(s),
                    "-shards", str(len(shards)), "-level", str(level)]
            jobs.append((exes[j["variant"]], args, dict(GOMAXPROCS=str(procs)), limit, work, len(jobs), t0 + total, j["variant"]))
    par = plan.get("par", 4)
    with ThreadPoolExecutor(par) as ex:
        results = list(ex.map(lambda a: run_job(a[:-1]), jobs))

    known = {}
    with open(os.path.join(HERE, "known-findings.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3)

    found, cov = [], dict(evaluations=0, counts={}, samples=[], sites=0, pairs=0)
    distinct, errors = set(), []
    for r, j in zip(results, jobs):
        if r.get("skipped"):
            continue
        where = dict(variant=j[7], args=j[1], env=j[2])
        if r["rep"]:
            rep = r["rep"]
            cov["evaluations"] += rep["evaluations"]
            for k, v in (rep["counts"] or {}).items():
                cov["counts"][k] = max(cov["counts"].get(k, 0), v) if k.startswith("max ") else cov["counts"].get(k, 0) + v
            cov["samples"] += rep["samples"] or []
            cov["sites"] = max(cov["sites"], rep["sites"])
            cov["pairs"] = max(cov["pairs"], rep["pairs"])
            distinct.update(rep["distinct"] or [])
            for v in rep["violations"] or []:
                found.append((v["key"], v["detail"], v["case"], where))
        for key, block in race_reports(r["err"]):
            found.append((key, block, "", where))
        if r["late"]:
            found.append(("stuck", "worker did not finish in %d s; goroutines:\n%s" % (limit, r["err"][-20000:]), "", where))
        elif r["rc"] != 0:
            if r["rc"] == 3 or "HARNESS:" in r["err"]:
                errors.append(r["err"][-3000:])
            else:
                found.append((crash_key(r["err"]), "worker died, rc=%s\n%s" % (r["rc"], r["err"][:12000]), "", where))
        elif not r["rep"]:
            errors.append("no report from " + " ".join(r["cmd"]))
    if any(k.startswith("race:") for k, *_ in found):
        cov["race_reports"] = sum(k.startswith("race:") for k, *_ in found)

    new, status = [], 0
    seen = set()
    for key, detail, case, where in found:
        if key in seen:
            continue
        seen.add(key)
        if key in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[key]))
        else:
            new.append((key, detail, case, where))
    if new:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        for n, (key, detail, case, where) in enumerate(new):
            path = os.path.join(HERE, "replays", "%s-%d.json" % (prop, n))
            args = list(where["args"])
            m = re.match(r"case (\d+)", case or "")
            if m:
                args += ["-only", m.group(1)]
            with open(path, "w") as f:
                json.dump(dict(property=prop, key=key, case=case, detail=detail, variant=where["variant"], args=args, env=where["env"],
                               how="python3 run.py --replay " + path), f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  %s %s: %s" % (key, case, detail[:1500]))
        status = 1
    rule = plan["rule"] + " " + DEFAULT_RULE
    observed = dict(evaluations=cov["evaluations"], distinct_nontrivial=len(distinct), rule=rule,
                    samples=cov["samples"][:8], observed=cov["counts"], worker_runs=len(jobs))
    if cov["sites"]:
        observed["instrumented_sites_run"] = cov["sites"]
    if cov["pairs"]:
        observed["distinct_ordered_site_pairs"] = cov["pairs"]
    if "race_reports" in cov:
        observed["race_reports"] = cov["race_reports"]
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=observed,
              wall_s=round(time.time() - t0, 2), violations=len(new), assumptions=plan.get("assume", []))
    path = os.path.join(HERE, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    os.rename(path + ".tmp", path)
    if errors and not status:
        print("ERROR of the check itself:\n" + "\n".join(errors), file=sys.stderr)
        return 2
    if not status:
        need = plan.get("need", {})
        for k, v in dict(need, evaluations=need.get("evaluations", 1)).items():
            got = cov["evaluations"] if k == "evaluations" else cov["counts"].get(k, 0)
            if got < v:
                print("ERROR: observed too little: %s = %d < %d" % (k, got, v), file=sys.stderr)
                return 2
        print("held: property=%s %d evaluations, %d distinct, %.1f s" % (prop, cov["evaluations"], len(distinct), time.time() - t0))
    return status


if __name__ == "__main__":
    sys.exit(main())
