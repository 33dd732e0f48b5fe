#!/usr/bin/env python3
"""Driver of the checks: builds the harness against /repo's working tree, runs
the generated cases in several processes, confirms and minimises failures,
writes the evidence file.

  run.py check <property> [quick|thorough]
  run.py replay <file>
  run.py setup
"""
import hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
FINDINGS = os.path.join(HERE, "KNOWN_FINDINGS.txt")

# scale in percent of the weights, seconds a shard may generate, shards
TIERS = {
    "quick": dict(scale=400, seconds=70, shards=6, race_scale=300),
    "thorough": dict(scale=6000, seconds=360, shards=8, race_scale=3000),
}
# properties that have parts for the -race binary
RACE = {"C02", "C19"}
# properties that only have such parts
RACE_ONLY = {"C19"}
ASSUME = {
    "*": ["64-bit platform; Go 1.27 toolchain of the sandbox",
          "absence of a violation is shown for the generated cases only"],
    "bubble": ["goroutine schedules are those of the Go scheduler inside a testing/synctest bubble, not enumerated"],
    "real": ["loopback TCP and unix sockets of the sandbox's kernel; waits are bounded by generous wall-clock limits"],
}


def env_for_go():
    e = dict(os.environ)
    e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS_EXTRA="")
    e.pop("GOFLAGS_EXTRA")
    e.pop("GODEBUG", None)
    return e


def build(scratch, race):
    src = os.path.join(scratch, "harness")
    if not os.path.isdir(src):
        shutil.copytree(HARNESS, src)
        dev = os.environ.get("USTACK_DEV_TREE")  # development only: try the machinery on a scratch copy
        if dev:
            mod = os.path.join(src, "go.mod")
            text = open(mod).read().replace("ustack => /repo", "ustack => " + dev)
            open(mod, "w").write(text)
            print("NOTE: tested tree is", dev)
    out = os.path.join(scratch, "worker-race" if race else "worker")
    cmd = ["go", "test", "-c", "-o", out] + (["-race"] if race else []) + ["."]
    p = subprocess.run(cmd, cwd=src, env=env_for_go(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        print(p.stdout)
        print("ERROR: the harness does not build against /repo")
        sys.exit(2)
    return out


def shard_seed(seed, prop, tier, i):
    h = hashlib.sha256(f"{seed}/{prop}/{i}".encode()).digest()
    return int.from_bytes(h[:6], "big") + 1


def worker_env(prop, out, **kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("VERIF_"):
            e.pop(k)
    e.pop("GODEBUG", None)
    e.update(VERIF_PROP=prop, VERIF_OUT=out, GOTRACEBACK="all", GORACE="halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
    e.update({k: str(v) for k, v in kw.items()})
    return e


def limits(binary):
    # a runaway allocation ends the worker, not the machine; the race
    # detector's shadow memory does not allow the limit
    if "race" in os.path.basename(binary):
        return None
    return lambda: resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))


def start(binary, prop, out, **kw):
    os.makedirs(out, exist_ok=True)
    log = open(os.path.join(out, "log"), "wb")
    return subprocess.Popen([binary, "-test.run=TestWorker", "-test.timeout=0"], cwd=out,
                            env=worker_env(prop, out, **kw), stdout=log, stderr=subprocess.STDOUT,
                            start_new_session=True, preexec_fn=limits(binary))


def read_log(out, limit=200000):
    try:
        with open(os.path.join(out, "log"), "rb") as f:
            return f.read(limit).decode("utf-8", "replace")
    except OSError:
        return ""


def current_case(out):
    try:
        with open(os.path.join(out, "cur"), "rb") as f:
            b = f.read()
        n = int.from_bytes(b[:8], "big")
        return json.loads(b[8:8 + n])
    except Exception:
        return None


def classify(rc, log, out):
    """why a worker ended without a result"""
    if rc == 7:
        return "hang"
    if rc == 66 or "WARNING: DATA RACE" in log:
        return "race"
    if rc in (-9, 137):
        return "oom"
    if "LOG-FATAL" in log:
        return "fatal"
    if "all goroutines are asleep" in log:
        return "deadlock"
    if re.search(r"^(panic:|fatal error:|unexpected fault)", log, re.M):
        return "crash"
    return "other"


def in_ustack(text):
    return re.search(r"\bustack\.", text) is not None


def first_trace(log):
    m = re.search(r"^(WARNING: DATA RACE|panic:|fatal error:|LOG-FATAL).*", log, re.M)
    return log[m.start():m.start() + 6000] if m else log[-3000:]


def replay_once(binary, casefile, out, repeat, case_seconds=40, timeout=120):
    p = start(binary, "", out, VERIF_REPLAY=casefile, VERIF_REPEAT=repeat, VERIF_CASE_SECONDS=case_seconds)
    try:
        rc = p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return None, "timeout"
    log = read_log(out)
    if rc == 0:
        return 0, log
    return rc, log


def load_findings():
    r = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line.startswith("{"):
                r.append(json.loads(line))
    return r


def finding_matches(f, failure):
    return (f.get("status") == "known" and f.get("property") == failure["property"]
            and f.get("part") == failure["part"]
            and re.search(f.get("match", "$^"), failure.get("message", "")) is not None)


def handle_death(prop, binary, scratch, out, rc, log, tier, seedargs, race):
    """a worker ended in the middle of a case: confirm, minimise.
    returns a failure or exits with 2"""
    kind = classify(rc, log, out)
    case = current_case(out)
    if case is None or kind in ("oom",):
        print(log[-3000:])
        print(f"ERROR: worker ended ({kind}, exit {rc})")
        sys.exit(2)
    hang_text = ""
    if kind == "hang":
        try:
            hang_text = open(os.path.join(out, "hang")).read()
        except OSError:
            pass
    cf = os.path.join(scratch, "death.json")
    with open(cf, "w") as f:
        json.dump(case, f)
    # confirm in fresh processes
    confirmed, sig = 0, ""
    tries = 2 if kind == "hang" else 5
    for i in range(tries):
        o = os.path.join(scratch, f"confirm{i}")
        rc2, log2 = replay_once(binary, cf, o, 50 if kind == "hang" else 20, timeout=150)
        if rc2 not in (0, None):
            confirmed += 1
            sig = log2
            break
    if kind == "hang":
        # either it happens again, or a goroutine of the tested code waited for a lock for ever
        if not in_ustack(hang_text) or (not confirmed and not hang_text.startswith("LOCKED")):
            print(hang_text[:3000])
            print("ERROR: a case took too long and this was not confirmed")
            sys.exit(2)
        case["message"] = "the case does not come to an end\n" + hang_text[:6000]
        return case
    text = first_trace(sig or log)
    if not confirmed and not (kind in ("crash", "race") and in_ustack(first_trace(log))):
        print(log[-3000:])
        print(f"ERROR: worker ended ({kind}, exit {rc}), not reproduced")
        sys.exit(2)
    if not in_ustack(text) and kind != "fatal" and "REPRODUCED" not in (sig or ""):
        print(text)
        print(f"ERROR: worker ended ({kind}, exit {rc}), the tested code is not involved")
        sys.exit(2)
    case["message"] = text
    # minimise with every candidate in its own process
    o = os.path.join(scratch, "isolate")
    p = start(binary, prop, o, VERIF_PART=case["part"], VERIF_ISOLATE=1, VERIF_SKIP=case["index"],
              VERIF_SECONDS=40, **seedargs)
    try:
        p.wait(timeout=100)
        r = json.load(open(os.path.join(o, "result.json")))
        if r.get("failure"):
            best = r["failure"]
            if in_ustack(best.get("message", "")) or kind == "fatal":
                return best
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
    except Exception:
        pass
    return case


def check(prop, tier):
    t0 = time.time()
    cfg = TIERS[tier]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    try:
        return run_check(prop, tier, cfg, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run_check(prop, tier, cfg, seed, scratch, t0):
    stages = []
    if prop not in RACE_ONLY:
        stages.append(False)
    if prop in RACE:
        stages.append(True)
    agg = dict(evaluations=0, parts={}, classes={}, samples=[], rule="", truncated=False)
    distinct = set()
    failures = []
    for race in stages:
        binary = build(scratch, race)
        procs = []
        for i in range(cfg["shards"]):
            out = os.path.join(scratch, f"{'r' if race else 's'}{i}")
            args = dict(VERIF_SHARD_SEED=shard_seed(seed, prop, tier, i),
                        VERIF_SCALE_PCT=cfg["race_scale" if race else "scale"])
            if race:
                args["VERIF_RACE"] = 1
            procs.append((i, out, args, start(binary, prop, out, VERIF_SECONDS=cfg["seconds"], **args)))
        limit = time.time() + cfg["seconds"] + 240
        for i, out, args, p in procs:
            try:
                p.wait(timeout=max(1, limit - time.time()))
            except subprocess.TimeoutExpired:
                for _, _, _, q in procs:
                    if q.poll() is None:
                        os.killpg(q.pid, 9)
                print(f"ERROR: worker {i} did not end in time")
                return 2
        for i, out, args, p in procs:
            rf = os.path.join(out, "result.json")
            if os.path.exists(rf):
                r = json.load(open(rf))
                agg["evaluations"] += r["evaluations"]
                agg["rule"] = r["rule"]
                agg["truncated"] = agg["truncated"] or r["truncated"]
                for k, v in (r["parts"] or {}).items():
                    agg["parts"][k] = agg["parts"].get(k, 0) + v
                for k, v in (r["classes"] or {}).items():
                    agg["classes"][k] = agg["classes"].get(k, 0) + v
                distinct.update(r["distinct"] or [])
                for s in r["samples"] or []:
                    if sum(1 for x in agg["samples"] if x["part"] == s["part"]) < 2:
                        agg["samples"].append(s)
                if r.get("failure"):
                    failures.append((r["failure"], binary))
            elif not failures:
                failures.append((handle_death(prop, binary, scratch, out, p.returncode, read_log(out), tier, args, race), binary))
        if failures:
            break

    known, new = [], []
    for f, b in failures:
        for k in load_findings():
            if finding_matches(k, f):
                known.append((k, f))
                break
        else:
            new.append((f, b))

    for k in load_findings():
        if k.get("status") == "known" and k.get("property") == prop:
            print(f"KNOWN-FINDING: property={prop} {k.get('what', '')}")

    rc = 0
    if new:
        f = min((x[0] for x in new), key=lambda x: len(json.dumps(x["case"])))
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        h = hashlib.sha256(json.dumps(f["case"]).encode()).hexdigest()[:10]
        path = os.path.join(HERE, "replays", f"{prop}-{f['part']}-{h}.json")
        with open(path, "w") as fp:
            json.dump(f, fp, indent=1)
        print(f"part: {f['part']}")
        print("case: " + json.dumps(f["case"])[:3000])
        print(f.get("message", "")[:4000])
        print(f"VIOLATION property={prop} replay={path}")
        rc = 1
    elif agg["evaluations"] == 0 or not distinct:
        print("ERROR: nothing was evaluated")
        rc = 2

    real = any(re.search(r"real|lifecycle|endtoend|parallel", p) for p in agg["parts"])
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=agg["evaluations"], distinct_nontrivial=len(distinct), rule=agg["rule"],
                            samples=agg["samples"][:8], parts=agg["parts"], classes=dict(sorted(agg["classes"].items())),
                            stopped_by_time_budget=agg["truncated"]),
              assumptions=ASSUME["*"] + ASSUME["bubble"] + (ASSUME["real"] if real else []),
              wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as fp:
        json.dump(ev, fp, indent=1)
    print(f"{prop} {tier}: {agg['evaluations']} cases, {len(distinct)} distinct non-trivial, "
          f"{len(new)} violations, {ev['wall_s']} s")
    return rc


def replay(path):
    scratch = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        cf = json.load(open(path))
        race = cf["part"].endswith("-race") or cf["property"] in RACE_ONLY
        binary = build(scratch, race)
        rc, log = replay_once(binary, os.path.abspath(path), os.path.join(scratch, "out"), 50, timeout=600)
        print(log[:5000])
        if rc == 0:
            print("not reproduced in 50 runs")
            return 0
        print(f"VIOLATION property={cf['property']} replay={path}")
        return 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def setup():
    """warms the build cache, the checks build again from /repo's tree"""
    scratch = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        build(scratch, False)
        build(scratch, True)
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1:] == ["setup"]:
        sys.exit(setup())
    if len(sys.argv) >= 3 and sys.argv[1] == "check":
        sys.exit(check(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else "quick"))
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    print(__doc__)
    sys.exit(2)
