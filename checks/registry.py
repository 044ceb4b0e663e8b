"""What decides each property."""
import os
from . import common, c18, c19, c20
from .common import VERIF

CORE = os.path.join(VERIF, "harness", "core")


def core(binary, budget_quick=90, budget_thorough=600):
    """A monitor of harness/core, built from the working tree."""
    def job(ctx):
        common.build(["cargo", "build", "--offline", "-q", "--bin", binary], CORE)
        return common.run_monitor(ctx, [os.path.join(CORE, "target", "debug", binary)],
                                  budget=budget_thorough if ctx.thorough else budget_quick)
    return job


TRUST = [
    "the reference models and oracles of the monitors in /verif/harness",
    "rustc 1.70, the standard library and the vendored dependencies",
    "nothing is claimed about executions that were not run",
]

CHECKS = {}


def check(prop, technique, note, jobs, **kw):
    CHECKS[prop] = dict(technique=technique, note=note, jobs=jobs, assumptions=TRUST + kw.pop("assume", []), **kw)


MODEL = "runtime monitoring: reference-model audit of random API histories"
for p, what in [
    ("C02", "creation, removal"), ("C03", "registration"), ("C04", "creation with wrong fields"),
    ("C05", "reads and writes by every path"), ("C06", "binding")]:
    check(p, MODEL,
          f"Histories that stress {what}, each operation followed by a full comparison of everything observable in both "
          "baselines with an independent model. Held on the histories run; trusts the model.",
          [core(p.lower())])

check("C01", "runtime monitoring: reference-model audit of random arena histories",
      "Random histories of the arena next to a model of generations, with every traversal checked from both ends after "
      "each step, over several element types including drop-counted ones. Held on the histories run; trusts the model.",
      [core("c01")])
check("C07", "runtime monitoring: differential oracle over random values and targets",
      "Every conversion, tag, cast and dispatch of random and boundary values of all 28 types against a model that shares "
      "no code with them. Held on the values tried; trusts the model.", [core("c07")])
check("C08", "runtime monitoring: differential oracle over pairs of values",
      "Every equality between owned values, views and states on pairs made equal, almost equal, or equal but for the type, "
      "against the model's own equality, with reflexivity, symmetry and transitivity. Held on the pairs tried.", [core("c08")])
check("C09", "runtime monitoring: address and content oracle over borrowed views",
      "Every borrow route of random values: the view must show the same content at the same address, and writes through it "
      "must arrive. Held on the values tried.", [core("c09")])


def c10(ctx):
    """Compiles generated declarations with the real macros, and checks them."""
    from . import gen_contracts
    gen = os.path.join(CORE, "target", "gen")
    os.makedirs(gen, exist_ok=True)

    def build(name, text):
        path = os.path.join(gen, name)
        with open(path, "w") as f:
            f.write(text)
        return ["cargo", "build", "--offline", "-q", "--bin", "c10"], common.env(VERIF_GEN_CONTRACTS=path)
    cmd, e = build("control.rs", gen_contracts.control())
    common.build(cmd, CORE, e)
    res = []
    for k in range(6 if ctx.thorough else 1):
        cmd, e = build(f"contracts{k}.rs", gen_contracts.generate(ctx.seed * 100 + k, 40 if ctx.thorough else 24))
        rc, out, err = common.sh(cmd, cwd=CORE, env_=e, timeout=600)
        if rc:
            lines = [l[:300] for l in (out + err).splitlines() if l.startswith("error") or "-->" in l][:30]
            return common.result(1, 1, "valid declarations must compile", violations=[dict(
                key="valid contract declarations do not compile",
                what="contract declarations of supported types are not accepted by the macros: " + " ".join(lines[:2])[:400], detail=lines)])
        r = common.run_monitor(ctx, [os.path.join(CORE, "target", "debug", "c10")], budget=400 if ctx.thorough else 90)
        res.append(r)
        if r["violations"]:
            break
    return common.merge(res)


check("C10", "runtime monitoring: generated declarations compiled with the real macros, oracle from the generator",
      "Random field declarations (0 to 45 fields, all 28 types, several spellings and visibilities) compiled and compared with "
      "the generator's table; random iterator programs next to plain lists. Held on the declarations and programs tried.", [c10])
check("C11", "runtime monitoring: multiset and order oracle over random keyframes",
      "Channels of 0 to 300 keyframes of all types with hostile times, compared with the multiset given. Held on the inputs tried.",
      [core("c11")])
check("C12", "runtime monitoring: 128-bit arithmetic oracle over boundary and random operands",
      "Every time operator on boundary and random operands against wide arithmetic, and clock histories. Held on the operands tried.",
      [core("c12")])
check("C13", "runtime monitoring: endpoint, range and monotonicity oracle over interpolations",
      "All pairs of 8-bit integers and boundary and random pairs of the others, at ascending blends in both float precisions and "
      "through 20 easing functions. Held on the pairs and blends tried.", [core("c13")],
      assume=["the tween wrappers are reached through a module made public under cfg(tp_verif)"])
check("C14", "runtime monitoring: concurrent stress with an offline exactly-once and order checker",
      "Threads send numbered batches with random pauses through queues of every kind of capacity; the log of what the engine "
      "handled is checked offline. Held on the interleavings that occurred; the scheduler decides which.", [core("c14")],
      assume=["batches are built through a constructor added under cfg(tp_verif)"])
check("C15", "runtime monitoring: sequential reference model of batches, full audit of both baselines",
      "Random batches applied by a real engine between other changes; verdict, returned batch, clock and both baselines are "
      "compared with a model after every one. Held on the histories run; trusts the model.", [core("c15")],
      assume=["batches are built through a constructor added under cfg(tp_verif)"])


CAPI = os.path.join(VERIF, "harness", "capi")


def capi(mode, asan):
    """Histories of a C client of the exported functions."""
    def job(ctx):
        cmd = ["cargo", "build", "--offline", "-q", "--bin", "capi"]
        exe = os.path.join(CAPI, "target", "debug", "capi")
        e = common.env()
        if asan:
            cmd += ["--target", common.HOST]
            e = common.asan_env()
            exe = os.path.join(CAPI, "target", common.HOST, "debug", "capi")
        common.build(cmd, CAPI, e)
        return common.run_monitor(ctx, [exe], env_=e, budget=600 if ctx.thorough else 100, extra_env=dict(VERIF_MODE=mode))
    return job


check("C16", "sanitizer: AddressSanitizer and an allocation monitor over random client histories",
      "Histories of a C client that keeps to the ownership rules, under AddressSanitizer and an allocator that knows every live "
      "block, its size and the step that made it; what is left at the end is a leak. Held on the histories run.",
      [capi("c16", True)], assume=["the ownership rules as read from the signatures and the C# client"])
check("C17", "runtime monitoring: reference-model audit of random client histories, hostile calls in child processes",
      "Histories of C calls mixed with Rust calls on the same baselines, everything readable compared with a model; calls with "
      "dead or foreign handles must not return data. Held on the histories run; trusts the model.", [capi("c17", False)])
check("C18", "runtime monitoring: exports, header, C clients and generated C# compared with each other",
      "Generates the headers and the C# wrappers with the real generators; compares what compilers read in them with the symbols "
      "of the library just built, and runs C clients written against the header. Held on the current build.", [c18.run],
      assume=["the C# is compared by name (letters and digits, ignoring case), since there is no .NET here to compile it"])
check("C19", "runtime monitoring: recorded token streams and behaviour of generated uses of the macros",
      "Random items with placeholders in 40 kinds of places are expanded by the real macros, and a recording macro compares the tokens "
      "that come out with those wanted; renamed items are called and linked under both names; malformed uses must not compile. "
      "Held on the items tried.", [c19.run], assume=["malformed uses are a fixed list, each paired with a mended twin that must compile"])
check("C20", "sanitizer: Miri and AddressSanitizer over histories, parallel readers, and moves between threads",
      "Read phases with 2 to 8 threads between write phases, baselines and engines that change threads, batches from several threads, "
      "and the workloads of other checks at reduced size, under Miri (undefined behaviour, data races; several seeds of its scheduler), "
      "AddressSanitizer and natively under contention. Held on the executions run.", [c20.run],
      assume=["Miri of the installed nightly, with the dependency traitobject replaced by its own source without the trait "
              "implementations that this compiler rejects"])
check("C23", "runtime monitoring: allocation monitor over churn with bounded live contents",
      "An allocator that knows every live block watches workloads whose live contents are bounded: the peak late in the run may not "
      "exceed one and a half times the early peak and one table; owners that are built, filled and dropped again and again must leave nothing, and no "
      "block may be released twice. Held on the workloads run.", [core("c23")])


SER = os.path.join(VERIF, "harness", "ser")


DEMO = os.path.join(VERIF, "harness", "demo")


def ser(binary, crate=SER):
    """A monitor of a crate that is built with stand-ins for the
    dependencies that are not available offline."""
    def job(ctx):
        common.build(["cargo", "build", "--offline", "-q", "--bin", binary], crate)
        return common.run_monitor(ctx, [os.path.join(crate, "target", "debug", binary)], budget=600 if ctx.thorough else 120)
    return job


STANDIN = ["stand-ins in /verif/shims for flatc, flatbuffers, bimap and dynpath, which are not available offline; the crates "
           "themselves are not judged"]
check("C21", "runtime monitoring: round trips compared by shape up to renaming of handles",
      "Random baselines are written in random order, read in random order, written and read again; the objects of each contract, "
      "refined by what they refer to, must be the same, and the source unchanged. Selections that the format cannot hold must not be "
      "read back as something else. Held on the baselines tried.", [ser("c21")], assume=STANDIN)
check("C22", "runtime monitoring: model of described buffers, and mutation of valid ones",
      "Buffers described field by field with things left out, doubled, mistyped or out of range: each step's verdict and the contents "
      "must be what a model says. Valid buffers with damaged bytes must not make the reader panic, and what is accepted must hold "
      "together. Held on the buffers tried.", [ser("c22")], assume=STANDIN)
check("C24", "runtime monitoring: each system of the demo, in random orders, between snapshots of objects and of what is drawn",
      "The demo's own systems run in random orders, between outside changes (hostile coordinates, circles of the other baseline, other "
      "objects, batches); after each one everything it may have changed is compared with what it was, and the steps of the walk are "
      "checked as a sample. Held on the runs tried.", [ser("c24", DEMO)],
      assume=["stand-ins in /verif/shims for bevy, bevy_prototype_lyon and color-eyre, which are not available offline"])
NOT_APPLICABLE = {}
