#!/usr/bin/env python3
"""Decides one property by running the real code under monitors.

  python3 run.py C01 [--tier quick|thorough] [--seed N]
  python3 run.py C01 --replay evidence/replay/C01-....json

Exit 0: held on everything explored. Exit 1: prints VIOLATION property=<id> replay=<path>.
Exit 2: no verdict (build failure, monitor error, a required feature never exercised).
"""
import json, os, re, resource, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS  # noqa: E402

HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HERE, "target")
EVID = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known-findings.txt")
TRIPLE = "x86_64-unknown-linux-gnu"
HOOK_CFG = "--cfg rust_cp_verif"
MEM = 3_700_000_000  # address space per native monitor process (1 GB of it is the stack)


class Inconclusive(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ building
# profile name -> (toolchain, cargo args, RUSTFLAGS, target sub directory, output sub directory)
PROFILES = {
    "checked": ([], [], "", "native", "debug"),
    "fast": ([], ["--release"], "", "native-fast", "release"),
    "plain": ([], ["--profile", "plain"], "", "native", "plain"),
    "hook-checked": ([], [], HOOK_CFG, "hook", "debug"),
    "hook-fast": ([], ["--release"], HOOK_CFG, "hook-fast", "release"),
    "asan": (["+nightly"], ["--target", TRIPLE], "-Zsanitizer=address", "asan", TRIPLE + "/debug"),
    "tsan": (["+nightly"], ["--target", TRIPLE, "-Zbuild-std"], "-Zsanitizer=thread", "tsan", TRIPLE + "/debug"),
    "tsan-fast": (["+nightly"], ["--release", "--target", TRIPLE, "-Zbuild-std"], "-Zsanitizer=thread", "tsan-fast", TRIPLE + "/release"),
}


def cargo_env(flags, target):
    env = dict(os.environ)
    env.pop("RUSTC_WRAPPER", None)
    for k in list(env):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",):
            env.pop(k)
    env["CARGO_TARGET_DIR"] = os.path.join(TARGET, target)
    env["RUSTFLAGS"] = flags
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    return env


def build(profile, bins):
    tc, args, flags, tdir, _ = PROFILES[profile]
    cmd = ["cargo", *tc, "build", "--offline", "--quiet", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"), *args]
    for b in bins:
        cmd += ["--bin", b]
    p = subprocess.run(cmd, env=cargo_env(flags, tdir), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Inconclusive(f"build of {bins} ({profile}) failed:\n" + "\n".join(l for l in p.stdout.splitlines() if "warning" not in l)[-4000:])


def exe(profile, b):
    _, _, _, tdir, out = PROFILES[profile]
    return os.path.join(TARGET, tdir, out, b)


# ------------------------------------------------------------------ running
CHILDREN = set()
CH_LOCK = threading.Lock()
STOP = threading.Event()


def run_proc(cmd, env=None, limit_mem=True, timeout=None, stdin=None):
    def pre():
        os.setsid()
        if limit_mem:
            resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    if STOP.is_set():
        return None
    p = subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", preexec_fn=pre, cwd=EVID)
    with CH_LOCK:
        CHILDREN.add(p)
    to = False
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
        kill(p)
        out, err = p.communicate()
    with CH_LOCK:
        CHILDREN.discard(p)
    if STOP.is_set() and p.returncode == -9:
        return None
    return dict(rc=p.returncode, out=out, err=err, timeout=to)


def kill(p):
    try:
        os.killpg(p.pid, 9)
    except OSError:
        pass


def stop_all():
    STOP.set()
    with CH_LOCK:
        for p in CHILDREN:
            kill(p)


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.cfg = CHECKS[pid]
        self.work = os.path.join(EVID, "work", pid)
        os.makedirs(self.work, exist_ok=True)
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        self.results = []  # per-process JSON of the monitor binaries
        self.violations = []  # dicts
        self.inconclusive = []
        self.extra = {}
        self.extra_events = 0
        self.extra_cases = 0
        self.known_hit = []
        self.lock = threading.Lock()

    def violation(self, stage, message, replay):
        with self.lock:
            self.violations.append(dict(stage=stage, message=message, **replay))


def monitor_cmd(profile, b, ctx, extra):
    return [exe(profile, b), "--seed", str(ctx.seed), "--tier", ctx.tier, *extra]


def run_monitor(ctx, profile, b, shard, nshards, extra=(), env=None, limit_mem=True, tag=""):
    """One monitor process over one shard of the workloads; classifies how it ended."""
    base = os.path.join(ctx.work, f"{b}-{profile}-{shard}{tag}")
    outf, jf = base + ".json", base + ".journal"
    for f in (outf, jf):
        if os.path.exists(f):
            os.unlink(f)
    args = ["--shard", f"{shard}/{nshards}", "--out", outf, "--journal", jf, *extra]
    e = dict(os.environ)
    e.update(env or {})
    r = run_proc(monitor_cmd(profile, b, ctx, args), env=e, limit_mem=limit_mem)
    if r is None:
        return
    if r["rc"] in (0, 1, 2) and os.path.exists(outf):
        j = json.load(open(outf))
        j["bin"], j["build"] = b, profile
        if tag:
            j["bin"] += tag
        with ctx.lock:
            ctx.results.append(j)
        if r["rc"] == 1:
            v = j["violation"]
            ctx.violation(f"{b}/{profile}", v["message"], dict(kind="case", bin=b, profile=profile, workload=v["workload"], case=v["case"], extra=list(extra), env=env or {}, history=v["history"], reproduced=v["reproduced"]))
            if not tag:
                stop_all()
        elif r["rc"] == 2:
            ctx.inconclusive.append(f"{b}/{profile}: {j.get('harness_error')}")
        return
    # crash, hang, out of memory, sanitizer report: look at the journal and try that case alone
    last = open(jf).read().strip() if os.path.exists(jf) else ""
    why = describe_end(r)
    if not last:
        ctx.inconclusive.append(f"{b}/{profile}: ended before the first case: {why}\n{r['err'][-1500:]}")
        return
    w, _, idx = last.rpartition(":")
    # a crash may need the cases before it only if state leaked between them; try alone first
    r2 = run_proc(monitor_cmd(profile, b, ctx, ["--only", f"{w}:{idx.strip()}", *extra]), env=e, limit_mem=limit_mem)
    if r2 is None:
        return
    if r2["rc"] not in (0, 2):
        ctx.violation(f"{b}/{profile}", f"{why}; again when run alone: {describe_end(r2)}", dict(kind="case", bin=b, profile=profile, workload=w, case=int(idx), extra=list(extra), env=env or {}, history=[r2["err"][-6000:]], reproduced=True))
        stop_all()
    elif is_report(r["err"]) or dies_again(ctx, profile, b, shard, nshards, extra, e, limit_mem, base, last):
        # the sanitizer's own report is the observation, reproduced or not
        ctx.violation(f"{b}/{profile}", f"{why} (did not recur when the case was run alone)", dict(kind="shard", bin=b, profile=profile, shard=f"{shard}/{nshards}", extra=list(extra), env=env or {}, history=[r["err"][-6000:]], reproduced=False))
        stop_all()
    else:
        ctx.inconclusive.append(f"{b}/{profile}: {why} at {last}, not reproduced alone\n{r['err'][-1500:]}")


def dies_again(ctx, profile, b, shard, nshards, extra, e, limit_mem, base, last):
    """the case is fine alone: does the whole shard, run again, end at the same case?"""
    outf, jf = base + "-again.json", base + "-again.journal"
    for f in (outf, jf):
        if os.path.exists(f):
            os.unlink(f)
    r = run_proc(monitor_cmd(profile, b, ctx, ["--shard", f"{shard}/{nshards}", "--out", outf, "--journal", jf, *extra]), env=e, limit_mem=limit_mem)
    return r is not None and not os.path.exists(outf) and os.path.exists(jf) and open(jf).read().strip() == last


def is_report(err):
    return "ERROR: AddressSanitizer" in err or "ERROR: LeakSanitizer" in err or "WARNING: ThreadSanitizer" in err


def describe_end(r):
    err = r["err"]
    m = re.search(r"(ERROR: (?:Address|Leak)Sanitizer[^\n]*|WARNING: ThreadSanitizer[^\n]*|error: Undefined Behavior[^\n]*|memory allocation of [^\n]*|has overflowed its stack|VMON-HANG[^\n]*|VMON-VIOLATION[^\n]{0,600})", err)
    d = m.group(1) if m else ""
    rc = r["rc"]
    if rc is not None and rc < 0:
        return f"killed by signal {-rc} {d}".strip()
    return f"exit {rc} {d}".strip()


def pool(jobs, workers=8):
    """jobs: list of zero-argument callables"""
    errs = []

    def wrap(f):
        try:
            f()
        except Inconclusive as e:
            errs.append(str(e))
        except Exception as e:  # noqa: BLE001
            errs.append(f"{type(e).__name__}: {e}")

    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(wrap, jobs))
    return errs


def stage_native(ctx, profiles=("checked", "fast")):
    bins = ctx.cfg.get("bins", [ctx.pid.lower()])
    shards = ctx.cfg.get("shards", 4)
    errs = pool([lambda p=p: build(p, bins) for p in profiles])
    if errs:
        raise Inconclusive("\n".join(errs))
    jobs = [lambda p=p, b=b, s=s: run_monitor(ctx, p, b, s, shards) for s in range(shards) for b in bins for p in profiles]
    for e in pool(jobs):
        ctx.inconclusive.append(e)


# ------------------------------------------------------------------ Miri
def miri_env(flags):
    env = cargo_env("", "miri")
    env["MIRIFLAGS"] = flags
    env["XDG_CACHE_HOME"] = os.path.join(TARGET, "miri-cache")  # the interpreter's own standard library
    return env


MIRI_BASE = "-Zmiri-disable-isolation -Zmiri-tree-borrows"


def miri_cmd(b, args):
    return ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"), "--bin", b, "--", *args]


def miri_prepare(b):
    """sysroot and dependencies first, so that the parallel runs do not queue on the build lock"""
    env = miri_env(MIRI_BASE)
    p = subprocess.run(["cargo", "+nightly", "miri", "setup"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=HARNESS)
    if p.returncode != 0:
        raise Inconclusive("cargo miri setup failed:\n" + p.stdout[-3000:])
    p = subprocess.run(miri_cmd(b, ["--list"]), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=HARNESS)
    if p.returncode != 0:
        raise Inconclusive(f"Miri cannot run {b}:\n" + p.stderr[-3000:])
    return p.stdout.split()


UB_RE = re.compile(r"error: (Undefined Behavior|memory leaked|Data race|.*data race)[^\n]*")


def miri_scenario(ctx, b, name, args, flags, known):
    t0 = time.time()
    r = run_proc(miri_cmd(b, args), env=miri_env(flags), limit_mem=False, timeout=600)
    if r is None:
        return
    m = re.search(r"error: [^\n]*", r["err"])
    first = m.group(0) if m else ""
    rec = dict(scenario=name, rc=r["rc"], seconds=round(time.time() - t0, 1))
    mm = re.findall(r'events"?[=:](\d+)', r["out"])
    rec["events"] = int(mm[-1]) if mm else 0
    with ctx.lock:
        ctx.extra.setdefault("miri", []).append(rec)
        ctx.extra_events += rec["events"]
        ctx.extra_cases += 1
    if r["rc"] == 0:
        return
    if UB_RE.search(r["err"]):
        rec["report"] = first
        for k in known:
            if k["scenario"] == name and re.search(k["match"], first):
                with ctx.lock:
                    ctx.known_hit.append((k, first))
                return
        ctx.violation(f"miri {b} {name}", first, dict(kind="miri", bin=b, args=args, flags=flags, scenario=name, history=[r["err"][-6000:]], reproduced=True))
    elif "VMON-VIOLATION" in r["err"] or r["rc"] == 1 and "panicked" in r["err"]:
        ctx.violation(f"miri {b} {name}", describe_end(r), dict(kind="miri", bin=b, args=args, flags=flags, scenario=name, history=[r["err"][-6000:]], reproduced=True))
    else:
        ctx.inconclusive.append(f"miri {b} {name}: exit {r['rc']} timeout={r['timeout']}\n{r['err'][-1500:]}")


def load_known(pid):
    """lines: 'known: property=<id> scenario=<name> match=<regex> :: <what fails>'"""
    res = []
    for l in open(KNOWN):
        m = re.match(r"known: property=(\S+) scenario=(\S+) match=/(.*)/ :: (.*)", l)
        if m and m.group(1) == pid:
            res.append(dict(scenario=m.group(2), match=m.group(3), what=m.group(4).strip()))
    return res


# ------------------------------------------------------------------ special stages
def stage_c26(ctx):
    stage_native(ctx, ("hook-checked", "hook-fast"))


def with_miri(ctx, b):
    """native stage, with the interpreter being prepared meanwhile"""
    names = []
    errs = pool([lambda: stage_native(ctx), lambda: names.extend(miri_prepare(b))], 2)
    if errs:
        raise Inconclusive("\n".join(errs))
    return names


def stage_c15(ctx):
    b = "c15"
    with_miri(ctx, b)
    if ctx.violations:
        return
    n = 24 if ctx.tier == "quick" else 200
    jobs = [lambda k=k: miri_scenario(ctx, b, f"seed{k}", ["--tier", "quick", "--seed", str(ctx.seed * 1000 + k), "--scale", "0.0001", "--cpu-limit", "0"], f"{MIRI_BASE} -Zmiri-seed={k}", []) for k in range(n)]
    for e in pool(jobs):
        ctx.inconclusive.append(e)
    if ctx.tier == "thorough" and not ctx.violations:
        build("tsan-fast", [b])
        jobs = [lambda s=s: run_monitor(ctx, "tsan-fast", b, s, 4, ("--scale", "0.05"), env={"TSAN_OPTIONS": "halt_on_error=1:exitcode=66"}, limit_mem=False, tag="-tsan") for s in range(4)]
        for e in pool(jobs, 4):
            ctx.inconclusive.append(e)


ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=1:detect_stack_use_after_return=1:exitcode=66:allocator_may_return_null=0", "LSAN_OPTIONS": "exitcode=66"}


def stage_c23(ctx):
    # 1. drop ledger, natively in both profiles
    names = with_miri(ctx, "c23")
    if ctx.violations:
        return
    errs = []

    def asan():
        bins = ctx.cfg["asan_bins"]
        build("asan", bins)
        own, other = ("0.1", "0.02") if ctx.tier == "quick" else ("1", "0.2")
        sh = 2 if ctx.tier == "quick" else 4
        jobs = [lambda b=b, s=s: run_monitor(ctx, "asan", b, s, sh, ("--scale", own if b == "c23" else other, "--cpu-limit", "120", "--skip", "giant", *(("--skip", "marathon") if ctx.tier == "quick" else ())), env=ASAN_ENV, limit_mem=False, tag="-asan") for b in bins for s in range(sh)]
        errs.extend(pool(jobs, 4))

    def miri():
        known = load_known(ctx.pid)
        seeds, count = (2, 16) if ctx.tier == "quick" else (12, 60)
        jobs = [lambda n=n, k=k: miri_scenario(ctx, "c23", n, ["--workload", n, "--count", str(count), "--seed", str(ctx.seed * 1000 + k), "--tier", ctx.tier], f"{MIRI_BASE} -Zmiri-seed={k}", known) for k in range(seeds) for n in names]
        errs.extend(pool(jobs, 6))

    errs += pool([asan, miri], 2)
    ctx.inconclusive += errs


def program_cmd(profile):
    return [exe(profile, "c22k")]


def stage_c22(ctx):
    errs = pool([lambda: stage_native(ctx), lambda: build("plain", ["c22p", "c22k"])], 2)
    if errs:
        raise Inconclusive("\n".join(errs))
    for p in ("checked", "fast"):
        build(p, ["c22k"])
    if ctx.violations:
        return
    for e in pool([lambda s=s: run_monitor(ctx, "plain", "c22p", s, 4) for s in range(4)]):
        ctx.inconclusive.append(e)
    if ctx.violations:
        return
    known = load_known(ctx.pid)
    for p in ("plain", "checked", "fast"):
        r = run_proc(program_cmd(p))
        rows = re.findall(r"PROGRAM (\S+) (same|DIFFERS) (.*)", r["out"])
        for name, verdict, text in rows:
            ctx.extra.setdefault("fixed_programs", []).append(f"{p} {name}: {verdict}: {text}")
            ctx.extra_events += 1
            ctx.extra_cases += 1
            if verdict == "same":
                continue
            hit = [k for k in known if k["scenario"] == f"reentrant-owned/{name}" and re.search(k["match"], f"{p}: {text}")]
            if hit:
                ctx.known_hit.append((hit[0], f"{p}: {text}"))
            else:
                ctx.violation(f"c22k/{p}", f"{name}: {text}", dict(kind="program", profile=p, bin="c22k", history=[r["out"]], reproduced=True))
        if r["rc"] != 0 or len(rows) != 3:
            # these programs are inside the known finding, so a crash of the optimised ones says nothing new
            if p == "plain":
                ctx.violation(f"c22k/{p}", describe_end(r), dict(kind="program", profile=p, bin="c22k", history=[r["out"], r["err"][-3000:]], reproduced=True))
            else:
                ctx.extra.setdefault("fixed_programs", []).append(f"{p}: {describe_end(r)}")


def stage_c28(ctx):
    """The monitor is itself a program that uses the macro on temporaries, moved and borrowed values.
    When everything else builds and only this program does not, the macro no longer takes them."""
    try:
        stage_native(ctx)
    except Inconclusive as e:
        if "could not compile `vmon` (bin \"c28\")" not in str(e):
            raise
        for p in ("checked", "fast"):
            build(p, ["c29"])
        ctx.violation("c28/build", "a program that passes temporaries, moved and borrowed values to the macro no longer compiles", dict(kind="build", profile="checked", bin="c28", history=[str(e)], reproduced=True))


def stage_c30(ctx):
    """The monitor hands objects from thread to thread; when only this program does not compile any
    more, they can no longer be handed over. Afterwards the same scripts run in both builds."""
    try:
        stage_native(ctx)
    except Inconclusive as e:
        if "could not compile `vmon` (bin \"c30\")" not in str(e):
            raise
        for p in ("checked", "fast"):
            build(p, ["c31"])
        if re.search(r"cannot be (sent|shared) between threads safely", str(e)):
            ctx.violation("c30/build", "objects of plain elements can no longer be handed to, or asked by, another thread", dict(kind="build", profile="checked", bin="c30", history=[str(e)], reproduced=True))
            return
        raise
    if ctx.violations:
        return
    for k in range(4 if ctx.tier == "quick" else 40):
        env = dict(os.environ, C30_DIGESTS=f"{ctx.seed * 1000 + k},{2000}", VMON_NOBT="1")
        r = [run_proc([exe(p, "c30")], env=env, timeout=300) for p in ("checked", "fast")]
        a, b = (x["out"].splitlines() for x in r)
        same = sum(1 for x, y in zip(a, b) if x == y)
        ctx.extra_events += same
        ctx.extra["answers_equal_in_both_builds"] = ctx.extra.get("answers_equal_in_both_builds", 0) + same
        why = None
        if a != b:
            i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            why = f"the builds answer differently, line {i}: {a[i:i + 1]} with, {b[i:i + 1]} without debug assertions"
        elif any(x["err"] for x in r) or any(x["rc"] != 0 for x in r):
            why = f"ended with {[x['rc'] for x in r]}; standard error: {[x['err'][-500:] for x in r]}"
        if why:
            ctx.violation("c30/builds", why, dict(kind="digests", bin="c30", digests=env["C30_DIGESTS"], profile="checked", history=[why], reproduced=True))
            return


def stage_c32(ctx):
    """The monitor uses the library with types that meet the stated bounds and nothing else; when
    only this program no longer compiles, more is asked of them than before. The same holds when the
    types of the common harness library are refused by a bound of the tree."""
    try:
        stage_native(ctx)
    except Inconclusive as e:
        bound = re.search(r"could not compile `vmon` \(lib\)", str(e)) and re.search(r"required by (a|this) bound in", str(e)) and "/src/" in str(e)
        if bound:
            why = "the harness's own monoids and maps, which meet the stated bounds, are refused by a bound of the tree"
        elif "could not compile `vmon` (bin \"c32\")" in str(e):
            for p in ("checked", "fast"):
                build(p, ["c31"])
            why = "a program whose types meet the stated bounds no longer compiles"
        else:
            raise
        ctx.violation("c32/build", why, dict(kind="build", profile="checked", bin="c32", history=[str(e)], reproduced=True))


STAGES = {"C32": stage_c32, "C30": stage_c30, "C28": stage_c28, "C22": stage_c22, "C15": stage_c15, "C23": stage_c23, "C26": stage_c26}


# ------------------------------------------------------------------ verdict
def write_evidence(ctx, wall):
    R = ctx.results
    hashes = set()
    for j in R:
        h = j.get("hashes_hex", "")
        hashes.update(h[i:i + 16] for i in range(0, len(h), 16))
    cases = sum(j["cases"] for j in R) + ctx.extra_cases
    samples = []
    for j in R:
        samples += j.get("samples", [])[:4]
    hits, maxes, per = {}, {}, {}
    for j in R:
        for k, v in j["hits"].items():
            hits[k] = hits.get(k, 0) + v
        for k, v in j["maxes"].items():
            maxes[k] = max(maxes.get(k, 0), v)
        for k, v in j["per"].items():
            per.setdefault(j["bin"] + ":" + k, {}).setdefault(j["build"], 0)
            per[j["bin"] + ":" + k][j["build"]] += v["cases"]
    cov = dict(
        evaluations=cases,
        distinct_nontrivial=len(hashes),
        rule=ctx.cfg["rule"],
        samples=samples[:10] or ["(none: the run stopped before its third case)"],
        operations_issued=sum(j["ops"] for j in R),
        monitor_events=sum(j["events"] for j in R) + ctx.extra_events,
        features_exercised=hits,
        largest_seen=maxes,
        cases_per_workload=per,
        slowest_case_cpu_us=max([j["max_case_cpu_us"] for j in R] or [0]),
        builds=sorted({j["build"] for j in R}),
        **ctx.extra,
    )
    if ctx.cfg.get("exhaustive"):
        cov["exhaustive_parts"] = ctx.cfg["exhaustive"]
    ev = dict(property=ctx.pid, tier=ctx.tier, seed=ctx.seed, level="exploration", coverage=cov, assumptions=ctx.cfg.get("assumptions", []), wall_s=round(wall, 1), violations=len(ctx.violations))
    if ctx.inconclusive:
        ev["coverage"]["inconclusive"] = [s[:500] for s in ctx.inconclusive]
    p = os.path.join(EVID, ctx.pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


def check_required(ctx):
    """a feature is missing only if no shard of that monitor and build exercised it"""
    by = {}
    for j in ctx.results:
        if j["bin"].endswith("-asan") or j["bin"].endswith("-tsan"):
            continue
        key = (j["bin"], j["build"])
        m = set(j["missing"])
        by[key] = m if key not in by else by[key] & m
    for (b, p), m in by.items():
        if m:
            ctx.inconclusive.append(f"{b}/{p}: never exercised: {sorted(m)}")


def main():
    a = sys.argv[1:]
    pid = a.pop(0)
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    replay = None
    while a:
        k = a.pop(0)
        if k == "--tier":
            tier = a.pop(0)
        elif k == "--seed":
            seed = int(a.pop(0))
        elif k == "--replay":
            replay = a.pop(0)
    os.makedirs(EVID, exist_ok=True)
    if replay:
        return do_replay(pid, replay)
    t0 = time.time()
    ctx = Ctx(pid, tier, seed)
    try:
        STAGES.get(pid, stage_native)(ctx)
    except Inconclusive as e:
        ctx.inconclusive.append(str(e))
    if not ctx.violations and not ctx.inconclusive:
        check_required(ctx)
        if not ctx.results:
            ctx.inconclusive.append("nothing ran")
    write_evidence(ctx, time.time() - t0)
    for k, what in {(k["scenario"]): (k, f) for k, f in ctx.known_hit}.values():
        print(f"KNOWN-FINDING: property={pid} {k['scenario']}: {k['what']} [{what}]")
    if ctx.violations:
        # prefer a minimal, reproduced one
        v = sorted(ctx.violations, key=lambda v: (not v.get("reproduced"), len(json.dumps(v))))[0]
        v.update(property=pid, tier=tier, seed=seed)
        p = os.path.join(EVID, "replay", f"{pid}-{tier}-{seed}.json")
        json.dump(v, open(p, "w"), indent=1)
        log(f"{pid}: {v['stage']}: {v['message']}")
        print(f"VIOLATION property={pid} replay={p}")
        return 1
    if ctx.inconclusive:
        log(f"{pid}: no verdict:\n" + "\n".join(ctx.inconclusive))
        return 2
    n = sum(j["events"] for j in ctx.results) + ctx.extra_events
    print(f"{pid}: held; {sum(j['cases'] for j in ctx.results) + ctx.extra_cases} executions, {n} monitor events, {time.time() - t0:.1f} s")
    return 0


def do_replay(pid, path):
    v = json.load(open(path))
    ctx = Ctx(pid, v["tier"], v["seed"])
    if v["kind"] == "miri":
        miri_prepare(v["bin"])
        r = run_proc(miri_cmd(v["bin"], v["args"]), env=miri_env(v["flags"]), limit_mem=False)
    elif v["kind"] == "build":
        try:
            for p in ("checked", "fast"):
                build(p, [v["bin"]])
            r = dict(rc=0, out="", err="")
        except Inconclusive as e:
            r = dict(rc=1, out=str(e), err="")
    elif v["kind"] == "digests":
        out = []
        for p in ("checked", "fast"):
            build(p, [v["bin"]])
            out.append(run_proc([exe(p, v["bin"])], env=dict(os.environ, C30_DIGESTS=v["digests"], VMON_NOBT="1")))
        same = out[0]["out"] == out[1]["out"] and not any(x["err"] or x["rc"] for x in out)
        r = dict(rc=0 if same else 1, out="", err="\n".join(v["history"]))
    elif v["kind"] == "program":
        build(v["profile"], [v["bin"]])
        r = run_proc(program_cmd(v["profile"]))
        if "DIFFERS" in r["out"]:
            r["rc"] = r["rc"] or 1
    else:
        build(v["profile"], [v["bin"]])
        sel = ["--only", f"{v['workload']}:{v['case']}"] if v["kind"] == "case" else ["--shard", v["shard"]]
        e = dict(os.environ)
        e.update(v.get("env", {}))
        r = run_proc(monitor_cmd(v["profile"], v["bin"], ctx, [*sel, *v["extra"]]), env=e, limit_mem=not v.get("env"))
    print(r["out"][-6000:])
    log(r["err"][-6000:])
    if r["rc"] == 0:
        print(f"{pid}: the recorded case no longer fails")
        return 0
    print(f"VIOLATION property={pid} replay={path}")
    return 1


if __name__ == "__main__":
    try:
        rc = main()
    except Inconclusive as e:
        log(str(e))
        rc = 2
    except KeyError as e:
        log(f"unknown property or malformed replay: {e}")
        rc = 2
    finally:
        stop_all()
    sys.exit(rc)
