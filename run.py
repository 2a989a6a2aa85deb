#!/usr/bin/env python3
"""Driver of the checks.

  run.py Cxx            decide property Cxx (quick or thorough by $VERIF_TIER) for /repo's working tree
  run.py Cxx --replay F re-run a saved failing case (a rapid .fail file) on the current tree
  run.py --setup        warm the build cache

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken.
Anything else: the check could not decide (build error, time out, out of memory).
"""
import concurrent.futures, glob, hashlib, json, os, random, re, resource, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
KNOWN = os.path.join(HERE, "known_findings.txt")

# level, race detector, thorough shards, assumptions
DEFAULT = dict(level="exploration", race=False, shards=8, assumptions=[
    "the Go toolchain, encoding/json and pgregory.net/rapid are correct",
    "the oracles in harness/props (vocabulary table, GLB parser, byte-level reference codec) express the specification",
])
PROPS = {f"C{i:02d}": dict(DEFAULT) for i in range(1, 32)}
PROPS["C12"] = dict(DEFAULT, level="fault_enumeration")
PROPS["C22"] = dict(DEFAULT, race=True, shards=4, assumptions=DEFAULT["assumptions"] + [
    "schedules are those the Go scheduler produces under the race detector; a data race is reported when both accesses execute, whatever their order"])

# more cases in the quick tier for the checks whose cases are cheap
for _p, _k in dict(C01=2, C02=2, C03=3, C04=2, C05=2, C10=2, C12=2, C13=2, C15=3, C16=4, C17=2, C18=2, C20=2, C21=3, C23=3, C24=6, C26=3, C27=3, C28=4, C29=2, C30=3, C31=2).items():
    PROPS[_p]["scale"] = _k


def env():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", GOENV="off", GO111MODULE="on")
    e.setdefault("HOME", "/root")
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e["PATH"] = e.get("PATH", "") + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/usr/local/go/bin"
    for k in list(e):
        if k.startswith("RAPID_"):
            del e[k]
    return e


def build(out, race):
    cmd = ["go", "test", "-c", "-vet=off", "-o", out]
    if race:
        cmd.insert(3, "-race")
    cmd.append("./props")
    r = subprocess.run(cmd, cwd=HARNESS, env=env(), capture_output=True, text=True)
    if r.returncode != 0:
        print("BUILD FAILED\n" + r.stdout + r.stderr)
        return False
    return True


MEMORY = 12 << 30


def limits(race):
    # keep a runaway allocation from taking the machine down; the race runtime needs address space
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if not race:
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))


def seed_for(prop, shard):
    try:
        base = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        base = int.from_bytes(os.environ["VERIF_SEED"].encode(), "big")
    h = hashlib.sha256(f"{base}/{prop}/{shard}".encode()).digest()
    return base, int.from_bytes(h[:8], "big") >> 2 or 1


def run_shard(binary, prop, shard, work, tier, timeout, extra=()):
    d = os.path.join(work, f"shard{shard}")
    os.makedirs(d, exist_ok=True)
    for old in glob.glob(os.path.join(d, "testdata")):
        shutil.rmtree(old)
    stats = os.path.join(d, "stats.json")
    _, seed = seed_for(prop, shard)
    e = env()
    e.update(VERIF_TIER=tier, VERIF_STATS=stats, VERIF_KNOWN=KNOWN, VERIF_HASHES="1",
             TMPDIR=d, GORACE="halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0", GOTRACEBACK="all", VERIF_CORPUS=os.path.join(HARNESS, "corpus"))
    if tier == "quick":
        e.setdefault("VERIF_SCALE", str(PROPS[prop].get("scale", 1)))
    cmd = [binary, "-test.run", f"^Test{prop}", "-test.v", f"-test.timeout={timeout}s", f"-rapid.seed={seed}", "-rapid.shrinktime=15s", *extra]
    t0 = time.time()
    with open(os.path.join(d, "out.txt"), "wb") as f:
        try:
            rc = subprocess.run(cmd, cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT, preexec_fn=lambda: limits(os.path.basename(binary) == "race.test"), timeout=timeout + 30).returncode
        except subprocess.TimeoutExpired:
            rc = -99
    with open(os.path.join(d, "out.txt"), errors="replace") as f:
        out = f.read()
    st = None
    if os.path.exists(stats):
        with open(stats) as f:
            st = json.load(f)
    return dict(shard=shard, rc=rc, out=out, stats=st, dir=d, wall=time.time() - t0, cmd=cmd, seed=seed)


FUZZ_S = 240  # coverage-guided search per property in the thorough tier


def fuzz_env(prop, test, d):
    e = env()
    e.update(VERIF_TIER="quick", VERIF_KNOWN=KNOWN, VERIF_CORPUS=os.path.join(HARNESS, "corpus"), VERIF_FUZZ=test,
             TMPDIR=os.path.join(d, "tmp"), GOTRACEBACK="all")
    os.makedirs(e["TMPDIR"], exist_ok=True)
    return e


def fuzz_one(binary, prop, test, d, data):
    """Output of the property stated by test on one fuzz input, and whether it failed."""
    c = os.path.join(d, "testdata", "fuzz", "FuzzProp")
    shutil.rmtree(os.path.join(d, "testdata"), ignore_errors=True)
    os.makedirs(c)
    write_corpus(os.path.join(c, "one"), data)
    try:
        r = subprocess.run([binary, "-test.run", "^FuzzProp$/^one$", "-test.v", "-test.timeout=300s"], cwd=d, env=fuzz_env(prop, test, d),
                           capture_output=True, text=True, errors="replace", preexec_fn=lambda: limits(False), timeout=330)
    except subprocess.TimeoutExpired:
        return "", False
    out = r.stdout + r.stderr
    bad = r.returncode != 0 and "panic: test timed out" not in out and "HARNESS-ERROR" not in out and (
        re.search(r"^\s*--- FAIL: FuzzProp/one", out, re.M) or r.returncode == 97 or re.search(r"^fatal error: |^panic: |unexpected fault address", out, re.M))
    return out, bool(bad)


def fuzz_shrink(binary, prop, test, d, data, budget=60):
    """Shorter and simpler choices that still fail."""
    end = time.time() + budget
    size = max(1, len(data) // 2)
    while time.time() < end:
        progress = False
        for i in range(0, len(data), size):
            for new in (b"", bytes(size)):
                cand = data[:i] + new + data[i + size:]
                if cand != data and len(cand) <= len(data) and time.time() < end and fuzz_one(binary, prop, test, d, cand)[1]:
                    data, progress = cand, True
                    break
        if not progress:
            if size == 1:
                break
            size = max(1, size // 2)
    return data


def write_corpus(path, data):
    with open(path, "w") as f:
        f.write("go test fuzz v1\n[]byte(\"" + "".join(f"\\x{b:02x}" for b in data) + "\")\n")


def parse_corpus(path):
    with open(path, encoding="utf-8") as f:
        lit = re.search(r'\[\]byte\("(.*)"\)', f.read()).group(1)
    simple = dict(a=7, b=8, f=12, n=10, r=13, t=9, v=11)

    def one(m):
        e = m.group(1)
        if e is None:
            return m.group(0).encode()
        if e[0] == "x":
            return bytes([int(e[1:], 16)])
        if e[0] in "uU":
            return chr(int(e[1:], 16)).encode()
        return bytes([simple[e]]) if e in simple else e.encode()

    return b"".join(one(m) for m in re.finditer(r"\\(x[0-9a-f]{2}|u[0-9a-f]{4}|U[0-9a-f]{8}|.)|[^\\]", lit))


def fuzz(prop, work, total=FUZZ_S):
    """Coverage-guided search: (per-test counts, failure or None). Failures are re-run before they are believed."""
    binary = os.path.join(work, "fuzz.test")
    r = subprocess.run(["go", "test", "-c", "-vet=off", "-fuzz=FuzzProp", "-o", binary, "./props"], cwd=HARNESS, env=env(), capture_output=True, text=True)
    if r.returncode != 0:
        print("BUILD FAILED\n" + r.stdout + r.stderr)
        return {}, None
    names = re.findall(rf"^Test{prop}\w*$", subprocess.run([binary, "-test.list", f"^Test{prop}"], env=env(), capture_output=True, text=True).stdout, re.M)
    counts = {}
    for test in names:
        d = os.path.join(work, "fuzz-" + test)
        os.makedirs(d)
        corpus = os.path.join(d, "testdata", "fuzz", "FuzzProp")
        os.makedirs(corpus)
        rnd = random.Random(seed_for(prop, test)[1])
        for i in range(32):
            b = rnd.randbytes(1 << (4 + i % 11))  # up to 16 kB of choices
            if i % 4 == 3:  # small choices
                b = bytes(x if rnd.random() < 0.25 else 0 for x in b)
            write_corpus(os.path.join(corpus, f"seed{i}"), b)
        cmd = [binary, "-test.run", "^$", "-test.fuzz", "^FuzzProp$", f"-test.fuzztime={max(10, total // len(names))}s", "-test.fuzzminimizetime=10x",
               "-test.fuzzcachedir", os.path.join(d, "cache"), "-test.parallel=8"]
        try:
            r = subprocess.run(cmd, cwd=d, env=fuzz_env(prop, test, d), capture_output=True, text=True, errors="replace", preexec_fn=lambda: limits(False), timeout=total + 300)
        except subprocess.TimeoutExpired:
            counts[test] = "no answer"
            continue
        m = re.findall(r"execs: (\d+) .*new interesting: (\d+)", r.stdout + r.stderr)
        if m:
            counts[test] = dict(executions=int(m[-1][0]), new_coverage=int(m[-1][1]))
        for f in glob.glob(os.path.join(corpus, "*")) if r.returncode else []:
            data = parse_corpus(f)
            one = os.path.join(d, "one")
            os.makedirs(one, exist_ok=True)
            if fuzz_one(binary, prop, test, one, data)[1]:
                data = fuzz_shrink(binary, prop, test, one, data)
                out, bad = fuzz_one(binary, prop, test, one, data)
                if bad:
                    return counts, (test, data, out)
        shutil.rmtree(d)
    return counts, None


def classify(r):
    """ok, violation, crash (needs confirmation), hang (needs confirmation) or error."""
    out = r["out"]
    if r["rc"] == 0:
        return "ok"
    if r["rc"] == 97:
        return "hang"
    if re.search(r"^fatal error: .*(out of memory|cannot allocate memory)", out, re.M):
        return "crash"  # no case needs more than a small part of the limit
    if r["rc"] in (-9, -99):
        return "error"
    if "panic: test timed out" in out:
        return "error"
    if "WARNING: DATA RACE" in out and "race detected" in out:
        return "violation"
    if re.search(r"^\s*--- FAIL: ", out, re.M):
        if "[rapid] only generated" in out:
            return "error"
        if re.search(r"panic: harness:|harness:", out) and "HARNESS-ERROR" in out:
            return "error"
        return "violation"
    if re.search(r"^fatal error: |^panic: |^SIG|unexpected fault address", out, re.M):
        return "crash"
    return "error"


def save_replay(prop, r, why):
    d = os.path.join(HERE, "replays", prop)
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    files = glob.glob(os.path.join(r["dir"], "testdata", "rapid", "*", "*.fail")) + glob.glob(os.path.join(r["dir"], "*.choices"))
    first = None
    for f in sorted(files):
        dst = os.path.join(d, os.path.basename(f))
        shutil.copy(f, dst)
        first = first or dst
    log = os.path.join(d, "log.txt")
    with open(log, "w") as f:
        f.write(f"property {prop}: {why}\nseed: VERIF_SEED={os.environ.get('VERIF_SEED', '1')} shard {r['shard']} (-rapid.seed={r['seed']})\n"
                f"re-run: python3 run.py {prop}" + (f" --replay {first}" if first else "") + "\n\n" + r["out"][-200000:])
    return first or log


def main():
    args = sys.argv[1:]
    if args == ["--setup"]:
        work = tempfile.mkdtemp(prefix="verif-setup-")
        try:
            ok = build(os.path.join(work, "p.test"), False) and build(os.path.join(work, "r.test"), True)
        finally:
            shutil.rmtree(work)
        return 0 if ok else 2
    prop = args[0]
    cfg = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    base, _ = seed_for(prop, 0)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    try:
        binary = os.path.join(work, "props.test")
        if not build(binary, False):
            return 2
        binaries = [binary]
        if cfg["race"]:  # even shards run under the race detector
            binaries.insert(0, os.path.join(work, "race.test"))
            if not build(binaries[0], True):
                return 2
        extra = []
        if "--replay" in args:
            f = os.path.abspath(args[args.index("--replay") + 1])
            name = re.sub(r"-\d{14}-\d+\.fail$", "", os.path.basename(f))
            if f.endswith(".choices"):
                fz = os.path.join(work, "fuzz.test")
                subprocess.run(["go", "test", "-c", "-vet=off", "-o", fz, "./props"], cwd=HARNESS, env=env(), check=True)
                with open(f, "rb") as g:
                    out, failed = fuzz_one(fz, prop, os.path.basename(f)[: -len(".choices")], os.path.join(work, "one"), g.read())
                print(out)
                return 1 if failed else 0
            r = run_shard(binaries[0], prop, 0, work, tier, 600, ["-test.run", f"^{name}$", f"-rapid.failfile={f}"])
            print(r["out"])
            return 1 if classify(r) != "ok" else 0
        shards = cfg["shards"] if tier == "thorough" else 4
        timeout = 3000 if tier == "thorough" else 780
        with concurrent.futures.ThreadPoolExecutor(max_workers=min(8, shards)) as ex:
            rs = list(ex.map(lambda s: run_shard(binaries[s % len(binaries)], prop, s, work, tier, timeout), range(shards)))
        bad = None
        for r in rs:
            k = classify(r)
            if k in ("crash", "hang"):
                # the process died in one case: believe it only if it happens again
                r2 = run_shard(binaries[r["shard"] % len(binaries)], prop, r["shard"], work, tier, timeout)
                k2 = classify(r2)
                if k2 == k or k2 == "violation":
                    k, r = "violation", r2
                else:
                    k = "error"
            if k == "violation":
                bad = (k, r)
                break
            if k == "error":
                bad = bad or (k, r)
        tests, hits = {}, set()
        for r in rs:
            if not r["stats"]:
                continue
            hits.update(r["stats"].get("known_hit") or [])
            for t in r["stats"]["tests"] or []:
                a = tests.setdefault(t["name"], dict(name=t["name"], rule=t["rule"], evaluations=0, nontrivial=0, distinct=0, labels={}, samples=[], hashes=set(), exhaustive=t.get("exhaustive", False)))
                if a["exhaustive"]:  # the same finite space in every shard
                    a["evaluations"], a["nontrivial"], a["distinct"], a["labels"] = t["evaluations"], t["nontrivial"], t["distinct_nontrivial"], t["labels"]
                else:
                    a["evaluations"] += t["evaluations"]
                    a["nontrivial"] += t["nontrivial"]
                    for k, v in t["labels"].items():
                        a["labels"][k] = a["labels"].get(k, 0) + v
                    if t.get("hashes"):
                        a["hashes"].update(t["hashes"])
                        a["distinct"] = len(a["hashes"])
                    else:
                        a["distinct"] += t["distinct_nontrivial"]
                if len(a["samples"]) < 6:
                    a["samples"] += (t["samples"] or [])[: 6 - len(a["samples"])]
        ev = sum(t["evaluations"] for t in tests.values())
        cov = dict(
            evaluations=ev,
            distinct_nontrivial=sum(t["distinct"] for t in tests.values()),
            rule=" || ".join(f"{t['name']}: {t['rule']}" for t in tests.values()) or "no case completed",
            samples=[f"{t['name']}: {s}" for t in tests.values() for s in t["samples"][:3]] or ["(none)"],
            per_test={t["name"]: dict(evaluations=t["evaluations"], nontrivial=t["nontrivial"], distinct_nontrivial=t["distinct"],
                                      labels=dict(sorted(t["labels"].items())), **({"exhaustive": True} if t["exhaustive"] else {})) for t in tests.values()},
            rapid_seeds=[r["seed"] for r in rs],
        )
        if tests and all(t["exhaustive"] for t in tests.values()):
            cov["exhaustive"] = True
        if tier == "thorough" and not bad:
            counts, found = fuzz(prop, work)
            cov["coverage_guided"] = counts
            if found:
                test, data, out = found
                d = os.path.join(work, "found")
                os.makedirs(d)
                with open(os.path.join(d, test + ".choices"), "wb") as f:
                    f.write(data)
                bad = ("violation", dict(shard="coverage-guided", seed=0, dir=d, out=out))
        evidence = dict(property=prop, tier=tier, seed=base, level=cfg["level"], coverage=cov, assumptions=cfg["assumptions"],
                        wall_s=round(time.time() - t0, 2), violations=1 if bad and bad[0] == "violation" else 0)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
            json.dump(evidence, f, indent=1, ensure_ascii=False)
            f.write("\n")
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                m = re.match(rf"known: property={prop} finding=(\S+) (.*)", line)
                if m and m.group(1) in hits:
                    print(f"KNOWN-FINDING: property={prop} {m.group(1)}: {m.group(2)}")
        if bad:
            k, r = bad
            if k == "violation":
                path = save_replay(prop, r, "violated")
                tail = r["out"]
                i = tail.find("--- FAIL")
                j = tail.find("[rapid] failed")
                print(tail[max(0, (i if j < 0 else j) - 200):][:6000])
                print(f"VIOLATION property={prop} replay={path}")
                return 1
            print(r["out"][-6000:])
            print(f"check of {prop} could not decide: exit status {r['rc']}")
            return 3
        if ev == 0:
            print("no case was evaluated")
            return 3
        print(f"{prop} held: {ev} cases, {cov['distinct_nontrivial']} distinct non-trivial, {evidence['wall_s']} s")
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
