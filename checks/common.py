"""Building, running and judging; shared by all checks."""
import json, os, shutil, signal, subprocess, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
FATAL = {signal.SIGSEGV, signal.SIGABRT, signal.SIGILL, signal.SIGBUS, signal.SIGFPE, signal.SIGTRAP}


HOST = "x86_64-unknown-linux-gnu"
ASAN_EXIT = 77  # exitcode= in ASAN_OPTIONS


class Inconclusive(Exception):
    pass


class Timeout(Inconclusive):
    pass


class Ctx:
    def __init__(self, prop, tier, seed, case=None):
        self.prop, self.tier, self.seed, self.case = prop, tier, seed, case
        self.thorough = tier == "thorough"

    def replay_cmd(self):
        return f"cd /verif && ./run.py {self.prop} --tier {self.tier} --seed {self.seed}"


def env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST", "CC", "CXX", "CFLAGS"))}
    e.update(
        HOME="/root",
        PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        RUSTUP_TOOLCHAIN="1.70.0",
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        CARGO_INCREMENTAL="0",
        RUSTFLAGS="--cfg tp_verif -Awarnings",
        RUST_BACKTRACE="0",
    )
    e.pop("HEADERS_TO_STDOUT", None)
    for k, v in kw.items():
        if v is None:
            e.pop(k, None)
        else:
            e[k] = str(v)
    return e


def asan_env():
    return env(RUSTC_BOOTSTRAP="1", RUSTFLAGS="--cfg tp_verif --cfg verif_asan -Awarnings -Zsanitizer=address",
               ASAN_OPTIONS=f"detect_leaks=0:exitcode={ASAN_EXIT}:halt_on_error=1:detect_stack_use_after_return=1")


def sh(cmd, cwd=None, timeout=600, env_=None, input=None):
    """(return code, stdout, stderr); a timeout says nothing about a property."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env_ or env(), stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        out, err = p.communicate(input, timeout=timeout)
    except BaseException as e:
        # with all it started
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        if isinstance(e, subprocess.TimeoutExpired):
            raise Timeout(f"timed out after {timeout}s: {' '.join(map(str, cmd))[:200]}")
        raise
    return p.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")


def build(cmd, cwd, env_=None, timeout=700):
    rc, out, err = sh(cmd, cwd=cwd, timeout=timeout, env_=env_)
    if rc != 0:
        lines = [l for l in (out + err).splitlines() if l.strip()]
        keep = [l[:300] for l in lines if l.startswith(("error", "  -->")) or " error" in l][:30] or [l[:300] for l in lines[-30:]]
        raise Inconclusive("build failed: " + " ".join(map(str, cmd)) + "\n" + "\n".join(keep))
    return out


def died(rc):
    """The name of the fatal signal a process ended with, if any."""
    if rc == ASAN_EXIT:
        return "a sanitizer report"
    n = -rc if rc < 0 else rc - 128
    try:
        s = signal.Signals(n)
    except ValueError:
        return None
    return s.name if s in FATAL else None


def run_monitor(ctx, cmd, cwd=None, timeout=840, env_=None, extra_env=None, budget=None):
    """Runs a monitor that writes its result to $VERIF_OUT."""
    fatal = []
    for attempt in range(2):
        fd, out = tempfile.mkstemp(suffix=".json", prefix="verif-")
        os.close(fd)
        os.unlink(out)
        e = dict(env_ or env())
        e.update(VERIF_SEED=str(ctx.seed), VERIF_TIER=ctx.tier, VERIF_OUT=out)
        e.pop("VERIF_CASE", None)
        if ctx.case is not None:
            e["VERIF_CASE"] = str(ctx.case)
        if budget:
            e["VERIF_BUDGET_S"] = str(budget)
        e.update(extra_env or {})
        try:
            # a monitor stops by itself once its budget is spent; one that is
            # still running so much later hangs in a single operation
            rc, so, se = sh(cmd, cwd=cwd, timeout=(budget + (230 if budget <= 120 else 900)) if budget else timeout, env_=e)
        except Timeout:
            if not budget:
                raise
            fatal.append(("no end: it hangs", ""))
            continue
        try:
            if rc == 0 and os.path.exists(out):
                return json.load(open(out))
        finally:
            if os.path.exists(out):
                os.unlink(out)
        sig = died(rc)
        if not sig:
            raise Inconclusive(f"monitor exited with {rc}: {(so + se)[-1500:]}")
        fatal.append((sig, (so + se)[-3000:]))
    # memory corruption, a double panic or a panic that may not unwind: it
    # happened twice in a row, in the code under test
    sig, tail = fatal[-1]
    return result(evaluations=1, distinct=1, rule="the monitored process must survive its workload",
                  violations=[dict(key=f"monitored process: {sig}", what=f"the process running the workload ended with {sig} (twice)",
                                   detail=tail.splitlines()[-40:])])


def result(evaluations=0, distinct=0, rule="", samples=(), counters=None, violations=(), notes=()):
    return dict(evaluations=evaluations, distinct_nontrivial=distinct, rule=rule, samples=list(samples),
                counters=dict(counters or {}), violations=list(violations), notes=list(notes))


def merge(rs):
    m = result()
    rules = []
    for r in rs:
        m["evaluations"] += r["evaluations"]
        m["distinct_nontrivial"] += r["distinct_nontrivial"]
        if r["rule"] and r["rule"] not in rules:
            rules.append(r["rule"])
        # a few samples of every job
        m["samples"] += r["samples"][: 12 if len(rs) == 1 else 4]
        for k, v in r["counters"].items():
            m["counters"][k] = m["counters"].get(k, 0) + v if isinstance(v, (int, float)) else v
        m["violations"] += r["violations"]
        m["notes"] += r["notes"]
    m["rule"] = " || ".join(rules)
    return m


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1, ensure_ascii=False)
        f.write("\n")
    os.replace(tmp, path)


def write_replay(ctx, violations):
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{ctx.prop}-{ctx.tier}-{ctx.seed}.txt")
    with open(path, "w") as f:
        f.write(f"property: {ctx.prop}\nreplay:   {ctx.replay_cmd()}\n")
        for v in violations:
            f.write(f"\n== {v['key']}\n{v['what']}\n")
            for l in v.get("detail", []):
                f.write(f"   {l}\n")
    return path


def known_findings(prop):
    """Keys of the listed findings of a property. Lines 'fixed: ...' suppress nothing."""
    keys = set()
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            if line.startswith(f"known: property={prop} key="):
                keys.add(line.split(" key=", 1)[1].split(" :: ", 1)[0])
    return keys


def scratch(prefix):
    return tempfile.mkdtemp(prefix=prefix)


def rmtree(path):
    assert path.startswith("/tmp/") or path.startswith(VERIF + "/")
    shutil.rmtree(path, ignore_errors=True)
