#!/usr/bin/env python3
"""Supervisor of the RustDHT runtime monitors.

  check.py <property>            run the check (VERIF_TIER, VERIF_SEED from the environment)
  check.py replay <file>         re-run a recorded violation
  check.py setup                 build every variant the quick checks need
"""
import fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, "harness")
REPO = "/repo"
EVID = os.path.join(ROOT, "evidence")
REPLAYS = os.path.join(ROOT, "replays")
KNOWN = os.path.join(ROOT, "known_findings.txt")
TRIPLE = "x86_64-unknown-linux-gnu"
NCPU = max(1, len(os.sched_getaffinity(0)))

RULES = {
 "C01": "one evaluation = one call of the real transform compared elementwise with an independent reference; inputs: complete impulse bases of short transforms and 29 signal shapes over a catalogue, random and long transform trees; non-trivial = length > 1 and a signal that is not all zero; distinct by (tree, element type, entry point, input)",
 "C02": "one evaluation = one call whose rms (and worst single-output) error is compared with a per-tree error model in units of the element type's epsilon, f64 against a double-double reference; non-trivial = length > 2; distinct by (tree, type, entry point, input)",
 "C03": "one evaluation = one pair of entry points compared on the same input; non-trivial = length > 1 and non-zero signal; distinct by (tree, type, batch, input, pair)",
 "C04": "one evaluation = one batched call, each examined block compared bit for bit with the same call on that block alone; non-trivial = more than one block; distinct by (tree, type, batch size, input, entry point, clean/hostile neighbours)",
 "C05": "one evaluation = one call repeated with different prior scratch/output contents and sizes, compared bit for bit; non-trivial = length > 1 and the call has scratch or an output slice; distinct by (tree, input, entry point, fill, surplus)",
 "C06": "one evaluation = one call of a composite over monitored or user-written inner transforms with chosen scratch demands, given exactly the reported scratch; non-trivial = at least one inner call was observed; distinct by (tree with demands, batch, input, entry point)",
 "C07": "one evaluation = one call with given buffer/output/scratch sizes, whose outcome (returned / panicked) is compared with the documented size rule; all are non-trivial; distinct by (tree, entry point, sizes)",
 "C08": "one evaluation = one construction whose outcome (accepted with length / panicked) is compared with the documented rule; non-trivial = non-empty; distinct by (constructor, parameters)",
 "C09": "one evaluation = one call with slices abutting inaccessible pages and canaries (or under AddressSanitizer / debug assertions / Miri); valid-size calls are also compared with the reference; non-trivial = length > 1 or invalid sizes; distinct by (tree, type, sizes, entry point, placement)",
 "C10": "one evaluation = one call made while other threads call the same or sharing instances, compared bit for bit with the sequential result; all are non-trivial; distinct by (case, thread, call)",
 "C11": "one evaluation = one observed (configuration, entry point, input) -> output pair in a history with constructions, drops, misuse, failed constructions and injected panics, required to be a function; non-trivial = repeated or post-fault observation; distinct by (history, observation)",
 "C12": "one evaluation = one algebraic law evaluated on real outputs (energy, involution, linearity, exact scaling, negation, zero); non-trivial = length > 1; distinct by (tree, type, entry point, law, input)",
 "C13": "one evaluation = one call with caller scratch bracketed by allocator event counters; non-trivial = length > 1; distinct by (tree, type, batch, entry point, repetition)",
 "C14": "one evaluation = one call over a counting number type (arithmetic operations) or over counting inner transforms (inner blocks), compared with the bound of its decomposition; non-trivial = length > 2 / at least one inner block; distinct by (tree, entry point, batch)",
 "C16": "one evaluation = one construction, call, panicking call or drop bracketed by live-heap counters; non-trivial = length > 1 or heap was held; distinct by (tree, type, batch, step)",
 "C15": "one evaluation = one call over a user-defined number type compared with the f64 instantiation; non-trivial = length > 1; distinct by (tree, type, batch, entry point, input)",
}

# engines per property: (engine, worker threads, quick CPU budget s, thorough budget s)
def engines(prop, tier):
    q = tier == "quick"
    base = [("release", NCPU if prop != "C10" else max(1, NCPU // 4))]
    if prop in ("C07", "C08", "C11"): base.append(("checked", NCPU))
    if prop == "C09": base += [("checked", NCPU), ("asan", NCPU), ("msan", NCPU), ("miri", NCPU)]
    if prop == "C10": base += [("tsan", max(1, NCPU // 4)), ("miri", NCPU)]
    if not q and prop in ("C01", "C03", "C04", "C05", "C06", "C12"): base.append(("checked", NCPU))
    return base

def log(*a):
    print(*a, flush=True)

def clean_env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("RUSTFLAGS", "CARGO_ENCODED", "CARGO_BUILD", "CARGO_TARGET", "CARGO_PROFILE", "MIRI", "RUSTC_WRAPPER", "ASAN_", "TSAN_", "RUST_BACKTRACE", "RUSTUP_TOOLCHAIN")):
            del e[k]
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e

VARIANT = {
    # name: (target dir, toolchain args, build args, env, clean args, binary)
    "release": ("target", [], ["--release"], {}, ["--release"], "release/dhtmon"),
    "checked": ("target", [], ["--profile", "checked"], {}, ["--profile", "checked"], "checked/dhtmon"),
    "asan": ("target-asan", ["+nightly"], ["--release", "--target", TRIPLE, "--features", "plainalloc"], {"RUSTFLAGS": "-Zsanitizer=address"}, ["--release", "--target", TRIPLE], TRIPLE + "/release/dhtmon"),
    "msan": ("target-msan", ["+nightly"], ["-Zbuild-std", "--release", "--target", TRIPLE, "--features", "plainalloc,look"], {"RUSTFLAGS": "-Zsanitizer=memory"}, ["--release", "--target", TRIPLE], TRIPLE + "/release/dhtmon"),
    "tsan": ("target-tsan", ["+nightly"], ["-Zbuild-std", "--release", "--target", TRIPLE, "--features", "plainalloc"], {"RUSTFLAGS": "-Zsanitizer=thread"}, ["--release", "--target", TRIPLE], TRIPLE + "/release/dhtmon"),
}

def tree_hash():
    h = hashlib.sha256()
    for base in (REPO, HARNESS):
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d not in (".git", "target") and not d.startswith("target-"))
            for f in sorted(fn):
                if f.endswith((".rs", ".toml")):
                    p = os.path.join(dp, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh: h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()

class BuildError(Exception): pass

def build(v):
    tdir, tool, args, env, cl, binary = VARIANT[v]
    tdir = os.path.join(ROOT, tdir)
    os.makedirs(tdir, exist_ok=True)
    e = clean_env(); e.update(env)
    with open(os.path.join(tdir, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(tdir, ".stamp-" + v)
        want = tree_hash()
        have = open(stamp).read() if os.path.exists(stamp) else ""
        exe = os.path.join(tdir, binary)
        if have != want or not os.path.exists(exe):
            # never trust file times: a different tree always means a recompile
            if os.path.exists(stamp): os.unlink(stamp)
            subprocess.run(["cargo"] + tool + ["clean", "--offline", "-p", "rustdht", "-p", "dhtmon", "--target-dir", tdir] + cl, cwd=HARNESS, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            r = subprocess.run(["cargo"] + tool + ["build", "--offline", "--locked", "--target-dir", tdir] + args, cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0: raise BuildError(f"building variant {v} failed:\n{r.stdout[-3000:]}")
            with open(stamp, "w") as f: f.write(want)
        return exe

class Result:
    def __init__(self, engine):
        self.engine, self.viol, self.stats, self.note, self.ok = engine, [], [], "", False

def worker_cmd(exe, prop, tier, seed, engine, out, threads, budget, hang, cases=()):
    c = [exe, prop, "--tier", tier, "--seed", str(seed), "--profile", engine, "--out", out, "--threads", str(threads), "--budget", str(budget), "--hang", str(hang)]
    for k in cases: c += ["--case", k]
    return c

def san_env(engine, out):
    e = clean_env()
    if engine == "asan": e["ASAN_OPTIONS"] = "exitcode=99:detect_leaks=0:abort_on_error=0:halt_on_error=1:allocator_may_return_null=1"
    if engine == "msan": e["MSAN_OPTIONS"] = "exit_code=98:halt_on_error=1:allocator_may_return_null=1"
    if engine == "tsan": e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:report_signal_unsafe=0:history_size=4"
    return e

def spawn(cmd, env, timeout, errfile):
    with open(errfile, "w") as ef:
        p = subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=ef, text=True, start_new_session=True)
        try:
            so, _ = p.communicate(timeout=timeout)
            return p.returncode, so
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            return "timeout", ""

def tail(f, n=2500):
    try:
        with open(f, errors="replace") as fh: return fh.read()[-n:]
    except OSError: return ""

def first_report(txt):
    """the informative part of a sanitizer report"""
    m = re.search(r"((?:ERROR|WARNING): (?:Address|Thread|Memory)Sanitizer.*)", txt, re.S)
    return (m.group(1) if m else txt)[:1200]

def run_native(prop, engine, threads, tier, seed, budget, hang, tmp, cases=None):
    r = Result(engine)
    exe = build(engine)
    out = os.path.join(tmp, f"{engine}.json")
    err = os.path.join(tmp, f"{engine}.err")
    env = san_env(engine, out)
    for f in (out, out + ".viol", out + ".slots"):
        if os.path.exists(f): os.unlink(f)
    full = worker_cmd(exe, prop, tier, seed, engine, out, threads, budget, hang, cases or ())
    rc, so = spawn(full, env, budget + 3 * hang + 240, err)
    if os.path.exists(out):
        r.stats.append(json.load(open(out)))
    if os.path.exists(out + ".viol"):
        for line in open(out + ".viol"):
            c, _, m = line.rstrip("\n").partition("\t")
            r.viol.append((c, m))
    if rc in (0, 10):
        r.ok = True
        return r
    if rc == "timeout":
        r.note = "worker did not finish within its wall-clock allowance (inconclusive)"
        return r
    if rc == 3:
        r.note = "harness error: " + tail(err, 800)
        return r
    if rc == -signal.SIGKILL:
        r.note = "worker was killed (inconclusive)"
        return r
    # the process died in (or hung inside) library code: identify the case and confirm it alone
    what = describe(rc, tail(err, 30000))
    suspects = []
    if rc == 77:
        suspects = [l[5:].strip() for l in so.splitlines() if l.startswith("HANG ")]
    elif cases:
        suspects = list(cases)
    else:
        try:
            idx = [int(x) for x in open(out + ".slots").read().split()]
            lst = subprocess.run(full + ["--list"], env=clean_env(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=120).stdout.splitlines()
            suspects = [lst[i - 1] for i in idx if 0 < i <= len(lst)]
        except Exception as ex:
            r.note = f"could not identify the crashing case: {ex}"
    for c in suspects:
        for _ in range(3 if prop == "C10" else 1):
            o2 = os.path.join(tmp, f"{engine}-confirm.json")
            rc2, so2 = spawn(worker_cmd(exe, prop, tier, seed, engine, o2, 1, budget, hang, [c]), env, 3 * hang + 240, err + "2")
            if rc2 in (0, "timeout", 3, -signal.SIGKILL): continue
            if rc2 == 10:
                for line in open(o2 + ".viol"):
                    a, _, m = line.rstrip("\n").partition("\t")
                    r.viol.append((a, m))
            else:
                r.viol.append((c, describe(rc2, tail(err + "2", 30000))))
            break
        if len(r.viol) >= 3: break
    if r.viol:
        r.ok = True
        return r
    # not attributable to one case: the whole workload again
    rc3, so3 = spawn(full, env, budget + 3 * hang + 240, err + "3")
    if rc3 not in (0, 10, 3, "timeout", -signal.SIGKILL):
        r.viol.append(("*", "whole workload, twice: " + what))
        r.ok = True
    elif rc3 == 10:
        for line in open(out + ".viol"):
            a, _, m = line.rstrip("\n").partition("\t")
            r.viol.append((a, m))
        r.ok = True
    elif rc in (99, 98, 66):
        # a sanitizer report is an observation, not a guess, even when the schedule does not repeat
        r.viol.append(("*", what))
        r.ok = True
    elif rc3 == 0:
        if os.path.exists(out): r.stats = [json.load(open(out))]
        r.note = f"first run ended with {what.splitlines()[0][:200]}, neither the case alone nor the whole workload repeated it"
        r.ok = False
    else:
        r.note = f"inconclusive: {what.splitlines()[0][:200]}, then {rc3}"
    return r

def describe(rc, err):
    if rc == 77: return "the call never returned (CPU-time watchdog)"
    if rc == 99: return "AddressSanitizer: " + first_report(err)
    if rc == 98: return "MemorySanitizer (uninitialised memory): " + first_report(err)
    if rc == 66: return "ThreadSanitizer: " + first_report(err)
    if isinstance(rc, int) and rc < 0:
        try: nm = signal.Signals(-rc).name
        except ValueError: nm = str(-rc)
        return f"process killed by {nm}: " + " ".join(err.strip().splitlines()[-3:])[:600]
    return f"worker exited with status {rc}: " + " ".join(err.strip().splitlines()[-3:])[:600]

def run_miri(prop, tier, seed, budget, tmp, cases=None):
    r = Result("miri")
    tdir = os.path.join(ROOT, "target-miri")
    os.makedirs(tdir, exist_ok=True)
    e = clean_env()
    e["MIRIFLAGS"] = "-Zmiri-tree-borrows -Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-deterministic-floats"
    base = ["cargo", "+nightly", "miri", "run", "--offline", "--locked", "--target-dir", tdir, "--quiet", "--"]
    with open(os.path.join(tdir, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(tdir, ".stamp-miri")
        want = tree_hash()
        have = open(stamp).read() if os.path.exists(stamp) else ""
        if have != want:
            if os.path.exists(stamp): os.unlink(stamp)
            subprocess.run(["cargo", "+nightly", "clean", "--offline", "-p", "rustdht", "-p", "dhtmon", "--target-dir", tdir, "--target", TRIPLE], cwd=HARNESS, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        # sysroot, dependencies and harness
        p = subprocess.run(base + [prop, "--tier", tier, "--seed", str(seed), "--list"], cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode != 0:
            raise BuildError("building for Miri failed:\n" + p.stderr[-2000:])
        with open(stamp, "w") as f: f.write(want)
    todo = list(cases) if cases else [l for l in p.stdout.splitlines() if l]
    # balance: shards of whole cases; each shard is one interpreter with its own scheduler seed
    n = min(len(todo), NCPU * 2)
    shards = [todo[i::n] for i in range(n)]
    running, queue, started = [], list(enumerate(shards)), time.time()
    judged = 0
    while running or queue:
        while queue and len(running) < NCPU:
            i, sh = queue.pop(0)
            e2 = dict(e)
            e2["MIRIFLAGS"] += f" -Zmiri-seed={(seed * 1000 + i) % 2**31}" + (" -Zmiri-preemption-rate=0.1" if prop == "C10" else "")
            cmd = base + [prop, "--tier", tier, "--seed", str(seed)]
            for c in sh: cmd += ["--case", c]
            fo, fe = open(os.path.join(tmp, f"miri{i}.out"), "w"), open(os.path.join(tmp, f"miri{i}.err"), "w")
            running.append((i, sh, subprocess.Popen(cmd, cwd=HARNESS, env=e2, stdout=fo, stderr=fe, start_new_session=True)))
        time.sleep(0.1)
        for it in list(running):
            i, sh, pr = it
            rc = pr.poll()
            if rc is None:
                if time.time() - started > budget:
                    os.killpg(pr.pid, signal.SIGKILL); pr.wait()
                    running.remove(it); queue.clear()
                    r.note = "some Miri shards did not finish within the allowance (inconclusive for those)"
                continue
            running.remove(it)
            so, se = open(os.path.join(tmp, f"miri{i}.out")).read(), open(os.path.join(tmp, f"miri{i}.err")).read()
            for l in so.splitlines():
                if l.startswith("MIRIVIOL "):
                    c, _, m = l[9:].partition("\t"); r.viol.append((c, m))
                if l.startswith("MIRISTATS "): r.stats.append(json.loads(l[10:]))
            if rc not in (0, 10):
                last = [l[5:] for l in se.splitlines() if l.startswith("CASE ")]
                ub = re.search(r"error: (Undefined Behavior: .*|the evaluated program deadlocked.*|abnormal termination.*)", se)
                if ub and last:
                    at = re.search(r"error: Undefined Behavior.*?--> ([^\n]*)", se, re.S)
                    r.viol.append((last[-1], "Miri: " + ub.group(1)[:500] + (" at " + at.group(1) if at else "")))
                else:
                    r.note = "Miri shard ended without a verdict: " + se[-500:]
    r.ok = bool(r.stats) or bool(r.viol)
    return r

def load_known(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop: out.append((re.compile(m.group(2)), m.group(3)))
    return out

def merge(stats_list, into):
    for s in stats_list:
        for k in ("evaluations", "observations", "distinct_nontrivial", "cases", "cases_done", "distinct_interleavings_observed"):
            if k in s: into[k] = into.get(k, 0) + s[k]
        for k, v in s.get("counters", {}).items(): into.setdefault("counters", {}); into["counters"][k] = into["counters"].get(k, 0) + v
        for k, v in s.get("maxima", {}).items(): into.setdefault("maxima", {}); into["maxima"][k] = max(into["maxima"].get(k, v), v)
        into.setdefault("samples", []); into["samples"] += s.get("samples", [])[:4]
    return into

def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1") & 0x7fffffff
    tmp = os.path.join(ROOT, "target", f"run-{prop}-{os.getpid()}")
    os.makedirs(tmp, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    results, notes = [], []
    try:
        for engine, th in engines(prop, tier):
            left = (760 if tier == "quick" else 6000) - (time.time() - t0)
            budget = max(20, min(left - 60, 240 if tier == "quick" else 1200))
            hang = 60 if tier == "quick" else 240
            try:
                if engine == "miri": r = run_miri(prop, tier, seed, budget, tmp)
                else: r = run_native(prop, engine, th, tier, seed, budget, hang, tmp)
            except BuildError as ex:
                if engine == "release":
                    log(f"ERROR {prop}: {ex}")
                    return 2
                r = Result(engine)
                r.note = str(ex)[-600:]
            results.append(r)
            if r.note: notes.append(f"{engine}: {r.note}")
            if r.viol: break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    known = load_known(prop)
    fresh, seen_known = [], []
    for r in results:
        for c, m in r.viol:
            k = next((d for rx, d in known if rx.search(f"{r.engine} {c} {m}")), None)
            (seen_known.append(k) if k else fresh.append((r.engine, c, m)))
    cov = {"rule": RULES[prop]}
    per = {}
    for r in results:
        cov = merge(r.stats, cov)
        per[r.engine] = {k: v for k, v in merge(r.stats, {}).items() if k in ("evaluations", "observations", "distinct_nontrivial", "cases", "cases_done", "distinct_interleavings_observed")}
    cov.setdefault("evaluations", 0); cov.setdefault("distinct_nontrivial", 0); cov.setdefault("samples", [])
    # the same case under two engines is two executions but one distinct case
    cov["distinct_nontrivial"] = max([p.get("distinct_nontrivial", 0) for p in per.values()] + [0])
    cov["samples"] = cov["samples"][:10]
    cov["engines"] = per
    if notes: cov["inconclusive"] = notes
    for k in sorted(set(seen_known)): log(f"KNOWN-FINDING: property={prop} {k}")
    evid = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
            "assumptions": ["held on the executions observed in this run; nothing is claimed about inputs, trees or schedules not driven"],
            "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    tmpf = os.path.join(EVID, f".{prop}.{os.getpid()}")
    with open(tmpf, "w") as f: json.dump(evid, f, indent=1)
    os.replace(tmpf, os.path.join(EVID, f"{prop}.json"))
    if fresh:
        os.makedirs(REPLAYS, exist_ok=True)
        eng, c, m = fresh[0]
        path = os.path.join(REPLAYS, f"{prop}-{hashlib.sha1((eng + c + m).encode()).hexdigest()[:10]}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "engine": eng, "tier": tier, "seed": seed, "case": c, "what": m,
                       "others": [{"engine": e, "case": cc, "what": mm} for e, cc, mm in fresh[1:8]],
                       "how": f"python3 check.py replay {path}"}, f, indent=1)
        for e, cc, mm in fresh[:3]: log(f"  [{e}] {cc}: {mm[:600]}")
        log(f"VIOLATION property={prop} replay={path}")
        return 1
    for n in notes: log(f"NOTE {prop} {n[:400]}")
    prim = results[0]
    if not prim.ok or cov["evaluations"] == 0:
        log(f"INCONCLUSIVE {prop}: the primary engine gave no verdict")
        return 2
    log(f"OK {prop} [{tier}, seed {seed}]: {cov['evaluations']} executions judged, {cov['distinct_nontrivial']} distinct non-trivial, {cov.get('observations', 0)} observations, engines {', '.join(f'{k}:{v.get('evaluations', 0)}' for k, v in per.items())}, {evid['wall_s']} s")
    return 0

def replay(path):
    d = json.load(open(path))
    tmp = os.path.join(ROOT, "target", f"replay-{os.getpid()}")
    os.makedirs(tmp, exist_ok=True)
    try:
        for cases in ([[d["case"]]] if d["case"] != "*" else []) + [None]:
            if d["engine"] == "miri": r = run_miri(d["property"], d["tier"], d["seed"], 600, tmp, cases)
            else: r = run_native(d["property"], d["engine"], NCPU if cases is None else 1, d["tier"], d["seed"], 240, 60, tmp, cases)
            for c, m in r.viol: log(f"reproduced [{'this case alone' if cases else 'whole workload'}] {c}: {m}")
            if r.viol:
                log(f"VIOLATION property={d['property']} replay={path}")
                return 1
        log("not reproduced")
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def setup():
    for v in ("release", "checked", "asan", "msan", "tsan"):
        t = time.time()
        try: build(v); log(f"built {v} in {time.time() - t:.0f} s")
        except BuildError as ex:
            log(str(ex))
            if v == "release": return 1
    return 0

if __name__ == "__main__":
    a = sys.argv[1:]
    if not a: sys.exit(__doc__)
    if a[0] == "setup": sys.exit(setup())
    if a[0] == "replay": sys.exit(replay(a[1]))
    if a[0] not in RULES: sys.exit(f"unknown property {a[0]}")
    sys.exit(check(a[0]))
