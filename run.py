#!/usr/bin/env python3
"""Driver: decides one property.  usage: run.py <property id> [--tier quick|thorough]

1. builds the conformance harness against /repo's working tree;
2. runs TLC on the property's specification (exhaustive small configs and seeded
   simulation of large ones), which checks the specification's own properties and
   emits behaviours;
3. replays every emitted behaviour into the real code and compares the projected state;
4. for some properties, records executions of the real code and has TLC validate them
   against the specification (Trace specs).
Exit 0: held on everything explored.  1: VIOLATION line.  2: the check itself failed.
"""
import concurrent.futures as cf
import fcntl, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS, MORE  # noqa: E402

JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TARGET = os.path.join(VERIF, "target")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def cargo_env():
    e = dict(os.environ)
    e.update(PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", ""),
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_INCREMENTAL="1", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUST_BACKTRACE="0",
             CARGO_TARGET_DIR=TARGET)
    return e


def build():
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".vp-lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        dst = os.path.join(TARGET, "debug")
        src = os.path.join(REPO, "target", "debug")
        if not os.path.exists(os.path.join(dst, "deps")) and os.path.isdir(os.path.join(src, "deps")):
            # reuse the dependencies the repository's own build already compiled
            os.makedirs(dst, exist_ok=True)
            for d in (".fingerprint", "build", "deps"):
                if os.path.isdir(os.path.join(src, d)):
                    shutil.copytree(os.path.join(src, d), os.path.join(dst, d), symlinks=True, dirs_exist_ok=True)
        r = subprocess.run(["cargo", "build", "--offline", "--locked", "--manifest-path",
                            os.path.join(VERIF, "harness", "Cargo.toml")],
                           env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
        if r.returncode != 0:
            raise ToolError("harness build failed:\n" + r.stdout[-6000:])
    return os.path.join(TARGET, "debug", "vp-harness")


def write_cfg(job, path):
    L = ["SPECIFICATION " + job.get("spec", "Spec"), "CONSTANTS"]
    for k, v in job.get("consts", {}).items():
        if isinstance(v, bool):
            v = "TRUE" if v else "FALSE"
        elif isinstance(v, str) and not v.startswith("{"):
            v = '"%s"' % v
        L.append(" %s = %s" % (k, v))
    if not job.get("consts"):
        L.pop()
    for kw, key in (("INVARIANTS", "inv"), ("PROPERTIES", "props")):
        if job.get(key):
            L.append(kw + " " + " ".join(job[key]))
    if job.get("view"):
        L.append("VIEW " + job["view"])
    if job.get("ac"):
        L.append("ACTION_CONSTRAINT " + job["ac"])
    if job.get("con"):
        L.append("CONSTRAINT " + job["con"])
    if job.get("post"):
        L.append("POSTCONDITION " + job["post"])
    L.append("CHECK_DEADLOCK FALSE")
    open(path, "w").write("\n".join(L) + "\n")


def run_tlc(job, idx, work, budget, env=None):
    """Returns dict(states, transitions, cases file, exhaustive, text)."""
    d = os.path.join(work, "tlc%d" % idx)
    os.makedirs(d)
    for f in os.listdir(os.path.join(VERIF, "spec")):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(VERIF, "spec", f), d)
    cfg = os.path.join(d, "MC.cfg")
    write_cfg(job, cfg)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx%s" % job.get("mem", "3g"), "-Xss16m",
           "-cp", JAVA_CP, "tlc2.TLC", "-config", cfg, "-metadir", os.path.join(d, "meta"), "-noTE"]
    sim = job.get("sim")
    if sim:
        cmd += ["-workers", "1", "-simulate", "num=%d" % sim["num"], "-depth", str(sim["depth"]),
                "-seed", str(SEED * 1000 + idx)]
    else:
        cmd += ["-workers", str(job.get("workers", 1)), "-seed", str(SEED), "-fp", "1"]
    cmd.append(job["module"] + ".tla")
    out = os.path.join(d, "out.txt")
    t0 = time.time()
    timed_out = False
    e = dict(os.environ)
    e.update(env or {})
    with open(out, "w") as fo:
        p = subprocess.Popen(cmd, cwd=d, stdout=fo, stderr=subprocess.STDOUT, env=e, start_new_session=True)
        try:
            rc = p.wait(timeout=budget)
        except subprocess.TimeoutExpired:
            timed_out = True
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = None
    cases = os.path.join(d, "cases.txt")
    other = []
    n = 0
    cap = job.get("cap", 400000)
    with open(out, errors="replace") as fi, open(cases, "w") as fc:
        for line in fi:
            if line.startswith('"@') and line.endswith('"\n'):
                if n < cap:
                    fc.write(line)
                n += 1
            elif not line.startswith(("Linting", "Parsing file", "Semantic processing", '"@')):
                other.append(line)
    os.unlink(out)
    text = "".join(other)
    m = re.search(r"(\d+) states generated, (\d+) distinct", text)
    if m:
        gen, dist = int(m.group(1)), int(m.group(2))
    else:
        g = re.findall(r"Progress: (\d+) states checked", text)
        m = re.search(r"The number of states generated: (\d+)", text)
        gen = int(m.group(1)) if m else (int(g[-1]) if g else n)
        dist = gen
    if not timed_out and rc != 0 and not job.get("trace"):
        raise ToolError("TLC rejected the specification %s (rc %s):\n%s" % (job["module"], rc, text[-3500:]))
    if timed_out and n == 0:
        raise ToolError("TLC produced nothing within %ds for %s" % (budget, job["module"]))
    return dict(module=job["module"], states=dist, transitions=gen, cases=cases, n=min(n, cap), rc=rc, text=text,
                exhaustive=not sim and not timed_out, wall=round(time.time() - t0, 1), domain=job.get("domain"),
                mode="simulate" if sim else "exhaustive", consts=job.get("consts", {}), timed_out=timed_out)


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def replay(binary, domain, cases, work, budget=500):
    env = dict(os.environ, VERIF_SEED=str(SEED), VP_SCRATCH=work, RUST_BACKTRACE="0", VP_VERIF=VERIF)
    try:
        r = subprocess.run([binary, domain, cases], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=budget, preexec_fn=limits, cwd=work)
    except subprocess.TimeoutExpired:
        raise ToolError("replay of %s took over %d s" % (domain, budget))
    if r.returncode == 0:
        return json.loads(r.stdout.decode().strip().splitlines()[-1])
    if r.returncode == 2:
        raise ToolError("harness: " + r.stderr.decode()[-2000:])
    # the code under test took the process down: find the case that does it
    prog = os.path.join(work, "progress")
    r2 = subprocess.run([binary, domain, cases, "--isolate", prog], env=env, stdout=subprocess.PIPE,
                        stderr=subprocess.PIPE, timeout=budget, preexec_fn=limits, cwd=work)
    if r2.returncode == 0:
        raise ToolError("harness died once (rc %s) but not when repeated: %s" % (r.returncode, r.stderr.decode()[-800:]))
    at = int(open(prog).read())
    line = open(cases).read().splitlines()[at]
    return dict(cases=at + 1, checks=at + 1, nontrivial=at + 1, bad=[dict(
        index=at, at="process died (rc %s)" % r2.returncode, expected="an answer",
        observed=r2.stderr.decode()[-500:], input=None, case=json.loads(json.loads(line)[1:]))])


def known_findings():
    K = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m:
                K.append(dict(property=m.group(1), key=m.group(2), what=m.group(3)))
    return K


def workdir(name):
    """scratch space of this run, in memory where there is room: the replays write and read many small files"""
    for base in ("/dev/shm", None):
        try:
            if base and shutil.disk_usage(base).free < 6 << 30:
                continue
            w = os.path.join(base, "vp-" + name) if base else os.path.join(VERIF, "work", name)
            shutil.rmtree(w, ignore_errors=True)
            os.makedirs(w)
            with open(os.path.join(w, "x"), "w") as f:
                f.write("x")
            os.remove(os.path.join(w, "x"))
            return w
        except OSError:
            pass
    raise ToolError("no scratch space")


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    chk = CHECKS[pid]
    work = workdir("%s-%d" % (pid, os.getpid()))
    rc = 2
    try:
        rc = decide(pid, tier, chk, work, t0)
    except ToolError as e:
        log("CHECK ERROR:", e)
    except Exception as e:  # noqa: BLE001
        import traceback
        traceback.print_exc()
        log("CHECK ERROR:", e)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def decide(pid, tier, chk, work, t0):
    binary = build()
    t_build = time.time() - t0
    jobs = [j for j in chk["jobs"](tier)]
    if tier == "quick":
        for j in jobs:
            if "sim" in j:
                j["sim"] = dict(j["sim"], num=j["sim"]["num"] * MORE.get(pid, 1))
    budget = 420 if tier == "quick" else 3000
    results, bad = [], []
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, observations_compared=0,
               actions={}, jobs=[], samples=[])
    lock = __import__("threading").Lock()

    def one(ij):
        i, j = ij
        if j.get("trace"):
            return trace_job(binary, j, i, work, budget)
        r = run_tlc(j, i, work, budget)
        res = replay(binary, r["domain"], r["cases"], os.path.join(work, "tlc%d" % i), budget)
        return r, res

    with cf.ThreadPoolExecutor(max_workers=chk.get("par", 4)) as ex:
        for r, res in ex.map(one, enumerate(jobs)):
            cov["states"] += r["states"]
            cov["transitions"] += r["transitions"]
            cov["traces_validated_against_impl"] += res["cases"]
            cov["observations_compared"] += res["checks"]
            cov["jobs"].append({k: r[k] for k in ("module", "mode", "consts", "states", "transitions", "n", "wall", "exhaustive", "timed_out")})
            if r.get("cases") and os.path.exists(r["cases"]):
                with open(r["cases"]) as f:
                    for k, line in enumerate(f):
                        for op in re.findall(r'\\"op\\":\\"(\w+)\\"', line):
                            cov["actions"][op] = cov["actions"].get(op, 0) + 1
                        if k in (r["n"] // 2,) and len(cov["samples"]) < 3:
                            cov["samples"].append(dict(module=r["module"], case=json.loads(json.loads(line)[1:])))
            for op, k in res.get("ops", {}).items():
                cov["actions"][op] = cov["actions"].get(op, 0) + k
            for b in res["bad"]:
                if "tool_error" in b:
                    raise ToolError(b["tool_error"])
                b["module"] = r["module"]
                b["domain"] = r["domain"]
                bad.append(b)
            if not r["timed_out"] and res["cases"] == 0:
                raise ToolError("no behaviour was replayed for %s" % r["module"])
    K = [k for k in known_findings() if k["property"] == pid]
    new = []
    for b in bad:
        if b.get("key") and any(k["key"] == b["key"] for k in K):
            continue
        new.append(b)
    hit = {b.get("key") for b in bad}
    for k in K:
        if k["key"] in hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    cov["exhaustive"] = all(r["exhaustive"] for r in cov["jobs"] if r["mode"] == "exhaustive") and any(
        r["mode"] == "exhaustive" for r in cov["jobs"])
    # vacuity: every action of the specification that the check relies on was taken
    for op in chk.get("must", []):
        if not cov["actions"].get(op) and not any(r["timed_out"] for r in cov["jobs"]):
            raise ToolError("vacuous: action %s never occurred" % op)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=SEED, level=chk["level"], coverage=cov,
              assumptions=chk.get("assumptions", []), wall_s=round(time.time() - t0, 1),
              build_s=round(t_build, 1), violations=len(new))
    for s in cov["samples"]:
        t = json.dumps(s)
        if len(t) > 6000:
            s["case"] = t[:6000] + "..."
    if not cov["samples"]:
        cov["samples"].append("none")
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    if new:
        rp = os.path.join(VERIF, "evidence", "replay-%s.json" % pid)
        new.sort(key=lambda b: len(json.dumps(b.get("case"))))
        with open(rp, "w") as f:
            json.dump(dict(property=pid, seed=SEED, tier=tier, domain=new[0].get("domain"), violations=new[:10]), f, indent=1, ensure_ascii=False)
        b = new[0]
        log("at: %s\nexpected: %s\nobserved: %s\n(%d disagreements)" % (
            b["at"], str(b["expected"])[:1500], str(b["observed"])[:1500], len(new)))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("OK property=%s tier=%s states=%d behaviours=%d observations=%d wall=%.1fs" % (
        pid, tier, cov["states"], cov["traces_validated_against_impl"], cov["observations_compared"], time.time() - t0))
    return 0


def trace_job(binary, j, i, work, budget):
    """executions of the real code, recorded; TLC says whether the specification allows them"""
    d = os.path.join(work, "rec%d" % i)
    os.makedirs(d)
    tr = os.path.join(d, "trace.ndjson")
    t0 = time.time()
    env = dict(os.environ, VERIF_SEED=str(SEED), VP_SCRATCH=d, RUST_BACKTRACE="0")
    died = None
    try:
        r = subprocess.run([binary, "--record", j["trace"], tr, str(j["num"])], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=120, preexec_fn=limits, cwd=d)
        if r.returncode != 0:
            died = "process died (rc %s): %s" % (r.returncode, r.stderr.decode()[-500:])
    except subprocess.TimeoutExpired:
        died = "no end within 120 s"
    recs = [json.loads(l) for l in open(tr)] if os.path.exists(tr) else []
    bad = []
    res = dict(module=j["module"], domain="record " + j["trace"], states=0, transitions=0, cases=None, n=len(recs), mode="recorded",
               consts=j.get("consts", {}), exhaustive=False, timed_out=False, wall=0)
    if died:
        bad.append(dict(index=0, at="recording", expected="an end", observed=died, case=recs[-1:]))
    elif not recs:
        raise ToolError("nothing was recorded for " + j["module"])
    else:
        jj = dict(j, spec="TSpec", post="Accepted", ac=None)
        r = run_tlc(jj, i, work, budget, env=dict(VP_TRACE=tr))
        m = re.search(r'"REJECTED", (\d+)', r["text"])
        if m:
            k = int(m.group(1))           # the record that is no step of the specification (from 1)
            first = max(n for n in range(k) if recs[n]["op"] == "new")
            bad.append(dict(index=k, at="recorded step %d" % (k - first), expected="a step of " + j["module"],
                            observed=recs[k - 1], case=dict(h=recs[first:k])))
        elif r["rc"] != 0 or r["timed_out"]:
            raise ToolError("TLC could not judge the recording (%s, rc %s):\n%s" % (j["module"], r["rc"], r["text"][-3000:]))
        res.update(states=r["states"], transitions=r["transitions"])
    res["wall"] = round(time.time() - t0, 1)
    ops = {}
    for r in recs:
        ops["recorded_" + r["op"]] = ops.get("recorded_" + r["op"], 0) + 1
    return res, dict(cases=sum(r["op"] == "new" for r in recs), checks=len(recs), bad=bad, ops=ops)


if __name__ == "__main__":
    if sys.argv[1] == "--build":
        try:
            build()
        except ToolError as e:
            log(e)
            sys.exit(2)
        sys.exit(0)
    main()
