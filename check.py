#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]      decide one property on /repo's current tree
check.py --setup                                 build only
check.py --replay FILE                           replay one reported violation

Exit 0: the property held on everything explored.  Exit 1 and a VIOLATION line: it is broken.
Exit 2: the check itself could not be carried out."""
import fcntl, glob, json, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(HERE, "target")
BIN = os.path.join(TARGET, "release", "mc-run")
OUT = os.path.join(HERE, "out")
EVID = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known_findings.txt")
MEM = 20 << 30
WALL = {"quick": 600, "thorough": 6 * 3600}
HANG = {"quick": 90, "thorough": 600}
SHARDS = {"C27": 4, "C28": 8}


def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TARGET_DIR"] = TARGET
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_INCREMENTAL"):
        e.pop(k, None)
    return e


def error(msg):
    print("ERROR " + msg, flush=True)
    sys.exit(2)


def build():
    """Builds the explorer with all four configurations of the code in /repo, never from a stale artefact."""
    os.makedirs(TARGET, exist_ok=True)
    t = time.time()
    with open(os.path.join(TARGET, ".check-lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        # cargo decides by modification times; the sources under test may carry any, so their fingerprints go
        for pat in ("mqtt-bytes-v5-*", "sut-*"):
            for d in glob.glob(os.path.join(TARGET, "release", ".fingerprint", pat)):
                shutil.rmtree(d, ignore_errors=True)
        r = subprocess.run(
            ["cargo", "build", "--release", "--offline", "--quiet"],
            cwd=os.path.join(HERE, "mc", "run"), env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
        )
        if r.returncode != 0:
            print(r.stdout[-6000:])
            error("the code under test or the explorer does not build")
    return time.time() - t


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def explorers(runs, wall):
    """Runs the explorer once for each list of arguments, all at the same time; list of (return code or None on
    timeout, stderr tail)."""
    ps, out = [], []
    end = time.time() + wall
    try:
        for args in runs:
            e = tempfile.TemporaryFile()
            ps.append((subprocess.Popen([BIN] + args, preexec_fn=limits, stdout=subprocess.DEVNULL, stderr=e), e))
        for p, e in ps:
            try:
                p.wait(timeout=max(1, end - time.time()))
                e.seek(0)
                out.append((p.returncode, e.read().decode(errors="replace")[-3000:]))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                out.append((None, ""))
    except OSError as e:
        error(f"cannot run the explorer: {e}")
    finally:
        for p, _ in ps:
            if p.poll() is None:
                p.kill()
                p.wait()
    return out


def merged(rs):
    """One result of several explorers that shared the jobs."""
    r = rs[0]
    for x in rs[1:]:
        for k in ("cases", "calls", "states", "transitions"):
            r[k] += x[k]
        r["truncated"] |= x["truncated"]
        for k in ("outcomes", "configurations"):
            for n, v in x[k].items():
                r[k][n] = r[k].get(n, 0) + v
        by = {s["space"]: s for s in r["spaces"]}
        for s in x["spaces"]:
            if s["space"] in by:
                by[s["space"]]["jobs"] += s["jobs"]
                by[s["space"]]["cases"] += s["cases"]
            else:
                r["spaces"].append(s)
        r["violations"] += x["violations"]
    sigs = {}
    for v in r["violations"]:
        k = (v["sig"], v["config"])
        if k in sigs:
            sigs[k]["count"] += v["count"]
        else:
            sigs[k] = v
    r["violations"] = list(sigs.values())
    return r


def describe(prop, tier, job, case):
    try:
        r = subprocess.run([BIN, prop, "--tier", tier, "--dump", str(job), str(case)], stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, text=True, errors="replace", timeout=300)
        return r.stdout.strip()[:4000]
    except subprocess.TimeoutExpired:
        return f"job {job} case {case}"


def known():
    """Signatures of recorded defects: lines 'known: property=<id> sig=<signature> config=<name or *> <text>'."""
    k = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) sig=(\S+) config=(\S+) case=(\S+) (.*)", line.strip())
            if m:
                k.append(m.groups())
    return k


def replay(path):
    v = json.load(open(path))
    build()
    print(json.dumps({k: v[k] for k in v if k != "replay"}, indent=1))
    r = subprocess.run([BIN, v["property"], "--tier", v["tier"], "--only", str(v["job"]), str(v["case"])],
                       preexec_fn=limits, timeout=600)
    print("exit", r.returncode)
    sys.exit(0 if r.returncode == 0 else 1)


def main():
    a = sys.argv[1:]
    if a == ["--setup"]:
        print(f"built in {build():.1f} s")
        return 0
    if len(a) == 2 and a[0] == "--replay":
        return replay(a[1])
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if tier not in WALL:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)  # nothing here is random
    t0 = time.time()
    for d in (OUT, EVID):
        os.makedirs(d, exist_ok=True)
    ev = os.path.join(EVID, prop + ".json")
    if os.path.exists(ev):
        os.remove(ev)
    built = build()
    cpus = min(8, os.cpu_count() or 8)
    # single-stepping: the threads of one process would share a lock for the signals
    shards = SHARDS.get(prop, 1)
    res = [os.path.join(OUT, f"{prop}.{i}.result.json") for i in range(shards)]
    for f in glob.glob(os.path.join(OUT, f"{prop}.*result.json")):
        os.remove(f)
    base = [[prop, "--tier", tier, "--out", res[i], "--hang", str(HANG[tier]), "--shard", f"{i}/{shards}"] for i in range(shards)]
    threads = "1" if shards > 1 else str(cpus)
    ran = explorers([b + ["--threads", threads] for b in base], WALL[tier])
    viol, rs = [], []
    for i, (rc, err) in enumerate(ran):
        if rc in (0, 1) and os.path.exists(res[i]):
            x = json.load(open(res[i]))
            rs.append(x)
            if (rc == 1) != bool(x["violations"]):
                error("the explorer contradicts itself")
        elif rc == 3 and os.path.exists(res[i]):
            h = json.load(open(res[i]))["hang"]
            viol.append(dict(sig="hang", config="", count=1, job=h["job"], job_name=h["name"], case=h["case"],
                             what=f"a call did not return within {HANG[tier]} s", case_text=describe(prop, tier, h["job"], h["case"])))
        elif rc is not None and rc < 0 and rc not in (-signal.SIGKILL, -signal.SIGTERM, -signal.SIGINT):
            # the code under test took the process down (stack overflow, allocation failure, abort): find the case
            trace = os.path.join(OUT, f"{prop}.trace")
            rc2, err2 = explorers([base[i] + ["--threads", "1", "--trace", trace]], WALL[tier])[0]
            if rc2 is None or rc2 >= 0 or not os.path.exists(trace) or os.path.getsize(trace) < 16:
                error(f"the explorer died of signal {-rc}, but not when run again ({rc2}): {err}")
            job, case = struct.unpack("<QQ", open(trace, "rb").read(16))
            text = describe(prop, tier, job, case)
            viol.append(dict(sig=f"signal-{-rc2}", config="", count=1, job=job, job_name="", case=case,
                             what=f"the process was ended by signal {-rc2}: {err2.strip()[-600:]}", case_text=text))
        else:
            error(f"the explorer gave no answer (exit {rc}): {err}")
    r = None
    if len(rs) == shards:
        r = merged(rs)
        viol = r["violations"]
    else:
        for x in rs:
            viol += x["violations"]
    # violations that are recorded defects
    ks = known()
    new, old = [], []
    for v in viol:
        hit = [k for k in ks if k[0] == prop and k[1] == v["sig"] and k[2] in ("*", v["config"]) and k[3] in ("*", f"{v['job_name']}#{v['case']}".replace(" ", "_"))]
        (old if hit else new).append(v)
    cov = dict(exhaustive=False, samples=[])
    if r:
        samples = []
        spaces = []
        for s in r["spaces"]:
            spaces.append(dict(space=s["space"], jobs=s["jobs"], cases=s["cases"]))
            for x in s["samples"][:1]:
                samples.append(dict(space=s["space"][:120], case=x[:500]))
        cov = dict(
            states=r["states"], transitions=r["transitions"], traces_validated_against_impl=r["cases"],
            samples=samples[:40], exhaustive=not r["truncated"],
            calls_into_the_code_under_test=r["calls"], jobs=r["jobs"],
            cases_per_configuration=r["configurations"], observed_outcomes=r["outcomes"], spaces=spaces,
            explanation="Every case of every listed space was enumerated and executed against the implementation in "
            "/repo, built in each listed configuration; states and transitions are the distinct abstract states "
            "(reference parser / encoder / history states) and steps reached on the way"
            + (f", distinct within each of the {shards} processes that shared the jobs." if shards > 1 else "."),
        )
    else:
        cov.update(states=0, transitions=0, traces_validated_against_impl=0, samples=[v["case_text"][:500] for v in viol],
                   explanation="The exploration ended early: the code under test hung or took the process down.")
    cov["build_seconds"] = round(built, 1)
    json.dump(dict(
        property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
        assumptions=["bounded: exactly the spaces listed under coverage.spaces",
                     "the reference model of MQTT 5 in mc/core/src/model.rs is right (checked against itself and the fixed tables in its unit tests)",
                     "64-bit target, release profile with overflow checks and debug assertions; the crate is sequential and has no state of its own"],
        wall_s=round(time.time() - t0, 2), violations=len(new)), open(ev, "w"), indent=1)
    for v in old:
        print(f"KNOWN-FINDING: property={prop} [{v['sig']}] {v['what'][:200]}")
    for i, v in enumerate(new[:40]):
        path = os.path.join(OUT, f"{prop}-{i}.json")
        v = dict(v, property=prop, tier=tier, replay=f"{HERE}/check.py --replay {path}")
        json.dump(v, open(path, "w"), indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  [{v['sig']}] {v['config']} ({v['count']} cases), first: {v['what'][:400]}")
        print(f"  case: {v['case_text'][:400]}")
    if not new:
        print(f"{prop} holds: {cov.get('traces_validated_against_impl', 0)} cases, {cov.get('states', 0)} states, "
              f"{cov.get('transitions', 0)} transitions, {time.time() - t0:.1f} s")
    return 1 if new else 0


if __name__ == "__main__":
    sys.exit(main())
