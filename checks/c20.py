"""C20: the same workloads natively, under AddressSanitizer and under Miri.

Miri is the oracle for undefined behaviour and data races; what a workload's own
monitor reports counts only for the workload written for this property (the
others belong to their own checks)."""
import json, os, re, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from . import common, gen_contracts
from .common import VERIF, Inconclusive, Timeout

CORE = os.path.join(VERIF, "harness", "core")
MIRI = os.path.join(VERIF, "harness", "miri")
FLAGS = "-Zmiri-disable-isolation -Zmiri-ignore-leaks"

# (binary, part, how much of the quick workload, Miri seeds in the quick tier)
JOBS = [
    ("c07", "", 400, 1), ("c01", "", 60, 1), ("c09", "", 400, 1), ("c15", "", 200, 1), ("c13", "", 2000, 1), ("c11", "", 300, 1),
    ("c08", "", 120, 1), ("c10", "", 60, 1), ("c12", "", 6000, 1),
    ("c20", "readers", 1, 4), ("c20", "engine", 1, 3), ("c20", "history", 1, 2), ("c20", "moves", 1, 1),
]
UB = re.compile(r"^error: (Undefined Behavior: .*|the evaluated program deadlocked.*|abnormal termination: .*)", re.M)
NOT_SHARED = re.compile(r"cannot be (sent|shared) between threads safely|is not (Send|Sync)\b|the trait bound .*: (Send|Sync)` is not satisfied")


def miri_env(gen, **kw):
    return common.env(RUSTUP_TOOLCHAIN=None, MIRIFLAGS=kw.pop("flags", FLAGS), VERIF_GEN_CONTRACTS=gen,
                      RUSTFLAGS="--cfg tp_verif -Awarnings", RUST_BACKTRACE="0", **kw)


def miri(binary, e, timeout):
    return common.sh(["cargo", "+nightly", "miri", "run", "--offline", "-q", "--bin", binary], cwd=MIRI, env_=e, timeout=timeout)


def build(cmd, cwd, e, control):
    """Builds c20; `control` is a command that must build if the tree is sound."""
    rc, out, err = common.sh(cmd, cwd=cwd, env_=e, timeout=700)
    if rc == 0:
        return None
    text = out + err
    if NOT_SHARED.search(text):
        common.build(control, cwd, e)
        lines = [l[:300] for l in text.splitlines() if NOT_SHARED.search(l) or "-->" in l or "within" in l][:30]
        return dict(key="baselines or engines can no longer be shared or sent",
                    what="a program whose threads share a baseline for reading, or pass it on, no longer compiles: " + (lines or [""])[0], detail=lines)
    lines = [l[:300] for l in text.splitlines() if l.startswith("error") or "-->" in l][:30]
    raise Inconclusive("build failed: " + " ".join(cmd) + "\n" + "\n".join(lines))


def run(ctx):
    start = time.time()
    gen = os.path.join(CORE, "target", "gen")
    os.makedirs(gen, exist_ok=True)
    gen = os.path.join(gen, "miri.rs")
    with open(gen, "w") as f:
        f.write(gen_contracts.control())
    rule = "programs using only the safe interface must not reach undefined behaviour, in any thread"
    cargo = ["cargo", "build", "--offline", "-q", "--bin"]
    bad = build(cargo + ["c20"], CORE, common.env(), cargo + ["c05"])
    if bad:
        return common.result(1, 1, rule, violations=[bad])
    asan = common.asan_env()
    common.build(cargo + ["c20", "--target", common.HOST], CORE, asan)

    t0 = time.time()
    results = [
        common.run_monitor(ctx, [os.path.join(CORE, "target", "debug", "c20")], budget=600 if ctx.thorough else 40),
        common.run_monitor(ctx, [os.path.join(CORE, "target", common.HOST, "debug", "c20")], env_=asan,
                           budget=600 if ctx.thorough else 40),
    ]
    for r, how in zip(results, ["native", "AddressSanitizer"]):
        r["counters"] = {f"{how}: {k}": v for k, v in r["counters"].items()}
    if any(r["violations"] for r in results):
        return common.merge(results)

    times = {"native": round(time.time() - t0)}
    t0 = time.time()
    # builds once (no cases are run), then everything at once
    rc, out, err = miri("c20", miri_env(gen, VERIF_CASE=10**9, VERIF_OUT="/dev/null"), 700)
    if rc and not UB.search(err):
        raise Inconclusive("Miri cannot run the workload: " + (out + err)[-1500:])
    times["Miri build"] = round(time.time() - t0)
    seeds = 12 if ctx.thorough else 0
    jobs = []
    for b, part, div, n in JOBS:
        for k in range(max(n, seeds if b == "c20" else 3 if ctx.thorough else 0)):
            jobs.append((b, part, div, ctx.seed * 1000 + k))
    if ctx.case is not None:
        jobs = [j for j in jobs if j[0] == "c20"]

    def one(job):
        b, part, div, seed = job
        fd, o = tempfile.mkstemp(suffix=".json", prefix="verif-miri-")
        os.close(fd)
        os.unlink(o)
        e = miri_env(gen, flags=f"{FLAGS} -Zmiri-seed={seed}", VERIF_SEED=seed, VERIF_OUT=o, VERIF_TIER="quick",
                     VERIF_BUDGET_S=500 if ctx.thorough else 70, VERIF_CASE=ctx.case)
        if part:
            e["VERIF_PART"] = part
        if b != "c20":
            e["VERIF_SCALE_DIV"] = str(div if not ctx.thorough else max(1, div // 4))
        t0 = time.time()
        # a quick run has to be over in 900 seconds, whatever else the machine does
        left = 2400 if ctx.thorough else min(400, 780 - (t0 - start))
        try:
            if left < 15:
                raise Timeout("no time left")
            rc, out, err = miri(b, e, left)
            rep = json.load(open(o)) if os.path.exists(o) else None
        except Timeout:
            rc, out, err, rep = None, "", "", None
        finally:
            if os.path.exists(o):
                os.unlink(o)
        return job, rc, err, rep, time.time() - t0

    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one, jobs))
    m = common.result(rule=rule)
    finished = 0
    for (b, part, div, seed), rc, err, rep, took in outs:
        name = f"{b} {part}".strip()
        ub = UB.search(err)
        if ub:
            where = [l.strip()[:300] for l in err[ub.start():].splitlines()[:60]]
            m["violations"].append(dict(key="Miri: " + re.sub(r"alloc\d+|0x[0-9a-f]+|\d+", "N", ub.group(1))[:160],
                                        what=f"Miri, running {name} with seed {seed}: {ub.group(1)[:400]}", detail=where))
        elif rc is None:
            m["notes"].append(f"{name} with seed {seed} did not end in time under Miri")
        elif rep is None:
            m["notes"].append(f"{name} with seed {seed}: Miri exited with {rc}: {err[-300:]}")
        else:
            finished += 1
            m["counters"]["Miri: workloads run to the end"] = m["counters"].get("Miri: workloads run to the end", 0) + 1
            m["counters"][f"Miri: cases of {name}"] = m["counters"].get(f"Miri: cases of {name}", 0) + rep["evaluations"]
            m["evaluations"] += rep["evaluations"]
            m["distinct_nontrivial"] += rep["distinct_nontrivial"]
            if b == "c20":
                for k, v in rep["counters"].items():
                    m["counters"]["Miri: " + k] = m["counters"].get("Miri: " + k, 0) + v
                m["violations"] += rep["violations"]
    late = all(rc is None for _, rc, _, _, _ in outs)
    if not finished and not late and not m["violations"]:
        raise Inconclusive("no workload ran to the end under Miri: " + "; ".join(m["notes"])[:1500])
    m["notes"].append(f"seconds: {times}, slowest " + ", ".join(f"{o[0][0]} {o[0][1]} {o[4]:.0f}" for o in sorted(outs, key=lambda o: -o[4])[:9]))
    m["counters"]["Miri: seconds of all workloads"] = round(sum(o[4] for o in outs))
    return common.merge(results + [m])
