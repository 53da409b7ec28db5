"""What decides each property."""
import json
import os
import shutil
import subprocess

import classical
from quantum import quantum
from vlib import NATIVE, PYRUNNER, RUNNER, ToolError

REGISTRY = {}
NOT_APPLICABLE = {}
TQ = ("TLA+ specification (Quantum, QSim, LazySim) checked with TLC; its behaviours, with the exact state after every "
      "step, are replayed into the real simulator")


def reg(pid, run, explored, level="model_checking", assumptions=(), technique=TQ):
    REGISTRY[pid] = {"run": run, "explored": explored, "level": level, "assumptions": list(assumptions),
                     "technique": technique}


def lazy(n, ops, cfg=("ConfigsMid", "ConfigsFull"), pends=("Pends2", "Pends3")):
    return dict(N=n, cfg=cfg, ops=ops if isinstance(ops, tuple) else (ops, ops), pends=pends)


MID = ("ConfigsMin", "ConfigsMid")
NOPEND = ("Pends0", "Pends0")
QA = ["angles are multiples of pi/2 plus multiples of 2*atan(4/3) in the specification, where states are exact; the "
      "replay also splits rotations at arbitrary angles",
      "amplitudes are compared within 1e-7, states up to one global phase"]

reg("C01", lambda c: quantum(c, fams=[("FamC01", 2, 20), ("FamC01", 1, 24), ("FamC01", 3, 14)], lifts=("none", "wide", "pad"),
                             lazy=[lazy(2, ("S1q", "S1f"), pends=("Pends0", "Pends3"))]),
    "every pending configuration of two entangled qubits x every single-qubit gate (complete), random gate sequences; "
    "every prefix of each replayed into QuantumSim and the QIR functions", assumptions=QA)
reg("C02", lambda c: quantum(c, fams=[("FamC02", 3, 14), ("FamC02", 4, 12), ("FamC02", 2, 16), ("FamC02", 5, 9)], maxctl=4, lifts=("none", "wide", "pad"),
                             lazy=[lazy(2, ("Cq", "Cf")), lazy(3, ("C2q", "OpsN3Two"), MID, NOPEND)]),
    "every pending configuration of two and three entangled qubits x every controlled gate (complete), random gate "
    "sequences with up to three controls", assumptions=QA)
reg("C03", lambda c: quantum(c, fams=[("FamC03", 3, 12), ("FamC03", 2, 14), ("FamC03", 4, 9), ("FamC03", 5, 7)], scale=0.8, lifts=("none", "wide", "pad"),
                             lazy=[lazy(2, "OpsExpN2", MID, ("Pends0", "Pends3"))]),
    "every pending configuration of two qubits x Pauli exponentials and rotations (complete), random sequences",
    assumptions=QA)
reg("C04", lambda c: quantum(c, fams=[("FamC04", 3, 12), ("FamC04", 4, 10), ("FamC04", 2, 14)], scale=1.2,
                             machines=("direct",), lifts=("none", "wide"),
                             lazy=[lazy(2, "OpsApplyN2", MID, ("Pends0", "Pends3"))]),
    "every pending configuration of two qubits x applied matrices (complete), random histories with allocation, release "
    "and swap; replayed on other identifiers too", assumptions=QA)
reg("C05", lambda c: quantum(c, fams=[("FamC05", 3, 12), ("FamC05", 2, 14), ("FamC05", 4, 10)], scale=0.5, born=1000, mode="rare", lifts=("none", "wide"),
                             lazy=[lazy(2, "OpsMeas", MID, ("Pends0", "Pends2"))]),
    "every pending configuration of two qubits x every measurement and outcome (complete), random sequences; outcome "
    "frequencies against exact probabilities", assumptions=QA)
reg("C06", lambda c: quantum(c, fams=[("FamC06", 3, 14), ("FamC06", 4, 12), ("FamC06", 5, 10)], start=1, scale=0.8,
                             lifts=("none", "wide")),
    "random allocation/release/gate histories on up to five live qubits, also among 2 to 600 others", assumptions=QA)
reg("C07", lambda c: quantum(c, fams=[("FamC07", 3, 12), ("FamC07", 4, 10), ("FamC07", 2, 14)], scale=0.8,
                             lifts=("none", "wide"),
                             lazy=[lazy(2, "OpsSwap"), lazy(3, "OpsSwap", MID, NOPEND)]),
    "every pending configuration x every swap (complete), random sequences with swaps, snapshots, dumps and "
    "probability queries", assumptions=QA)
reg("C10", lambda c: quantum(c, fams=[("FamC10", 3, 12), ("FamC10", 2, 14), ("FamC10", 4, 10), ("FamC10e", 3, 12)],
                             lifts=("none", "wide")),
    "random states x queries, assertions (within and outside the tolerance) and forced outcomes", assumptions=QA)
reg("C11", lambda c: quantum(c, fams=[("FamC11", 4, 12), ("FamC11", 3, 12), ("FamC11", 2, 10)], start=2, mode="bad",
                             scale=1.5, lifts=("none", "wide"),
                             lazy=[lazy(2, "OpsBad", MID, ("Pends0", "Pends2"))]),
    "every pending configuration of two qubits x invalid operations (complete); random histories with one invalid "
    "operation, observed at once or some operations later; each in a process of its own that must fail", assumptions=QA)
reg("C21", lambda c: quantum(c, fams=[("FamC21", 3, 20), ("FamC21", 2, 24), ("FamC21", 4, 16)], mode="undo", scale=0.8, lifts=("none", "wide", "pad")),
    "random programs followed by their inverse, gate by gate", assumptions=QA)
reg("C22", lambda c: quantum(c, fams=[("FamC22", 3, 12), ("FamC22", 4, 10), ("FamC22", 2, 14)], scale=1.2, start=2,
                             lifts=("wide", "pad")),
    "random programs on scattered identifiers among up to 600 qubits, with unrelated interleaved work, and with about "
    "ten thousand cancelling gates inserted", assumptions=QA)

T = ("TLA+ specification checked with TLC; its behaviours, with what must be observed after every step, are replayed into "
     "the real code")
TT = T + "; recordings of the real code are validated against the specification with TLC"


def c08(c):
    t = c.thorough
    quantum(c, fams=[("FamC08", 3, 12), ("FamC08", 4, 10), ("FamC08", 2, 14),
                     ("FamC08f", 3, 3, 10), ("FamC08f", 4, 2, 20)], scale=0.4, procs=5,
            machines=("static",), lifts=("none", "wide"))

    def one(n, q, r, known):
        def job():
            tag = f"slots{n}"
            if known:
                f = classical.generate(c, "SlotsGen.tla", {"QIds": f"<-{q}", "RIds": f"<-{r}", "Known": True}, tag,
                                       (1500, 20000)[t], 30, invariants=("Emit", "Paired"), seed=c.seed * 100 + n)
                classical.replay(c, "slots", f, tag)
            else:
                classical.recorded(c, "slots", "SlotsGen.tla", {"QIds": f"<-{q}", "RIds": f"<-{r}", "Known": False},
                                   "SlotsTrace.tla", {"QIds": f"<-{q}", "RIds": f"<-{r}"}, tag, (400, 4000)[t], 30,
                                   invariants=("Explained", "Described"), seed=c.seed * 100 + n, ginv=("Emit", "Paired"))
        return job
    c.parallel([one(n, q, r, k) for n, (q, r, k) in enumerate(
        [("QA", "RA", True), ("QB", "RB", True), ("QC", "RC", True), ("QA", "RB", True), ("QD", "RD", True),
         ("QA", "RA", False), ("QB", "RB", False), ("QC", "RC", False), ("QB", "RC", False), ("QD", "RD", False)])])


reg("C08", c08, "random programs over scattered qubit and result numbers: reports known in advance are replayed, programs "
    "with random outcomes are recorded and validated; static qubits against the exact state", technique=TT)


def c09(c):
    t = c.thorough
    c.parallel([lambda n=n, k=k: classical.recorded(
        c, k, "SeedsGen.tla", {}, "Seeds.tla", {}, f"seeds{n}", (120, 1000)[t], (12, 8, 20)[n % 3], seed=c.seed * 100 + n)
        for n, k in enumerate(["seeds", "seeds", "seeds", "seeds-direct", "seeds-direct"])])


reg("C09", c09, "random scripts of seeding, junk, initialisation and programs (observed or not, on several threads): all "
    "recordings must be explained by one function from seed and history to outcomes",
    technique="TLA+ specification (Seeds); scripts generated with TLC are run and recorded, and TLC validates the recordings "
              "against the specification")


def c17(c):
    t = c.thorough

    def gen(n):
        def job():
            tag = f"big{n}"
            f = classical.generate(c, "BigGen.tla", {"MaxBits": (400, 6000)[n % 2]}, tag, ((1500, 600)[n % 2], (20000, 8000)[n % 2])[t],
                                   (30, 24)[n % 2],
                                   invariants=("Emit", "Lawful"), seed=c.seed * 100 + n)
            classical.replay(c, "big", f, tag)
        return job

    def rec(n):
        return lambda: classical.recorded(c, "big", "BigShapes.tla", {"Lengths": ("<-Short", "<-Long", "<-Short", "<-Larger", "<-Huge")[n % 5]},
                                          "BigTrace.tla", {}, f"bigr{n}", ((600, 200, 600, 25, 8)[n % 5], (6000, 2500, 6000, 400, 100)[n % 5])[t], 40,
                                          seed=c.seed * 100 + n)
    c.parallel([gen(n) for n in range(4)] + [rec(n) for n in range(5)] + [c.same_ints])


reg("C17", c17, "random programs over growing lists of integers up to some 6000 bits with exact reports, replayed; operations "
    "on byte patterns of up to 128 bytes recorded from the real code and recomputed exactly", technique=TT)


def heap(c, kinds, ops, num, tag, seed, ending="", depth=40):
    f = classical.generate(c, "HeapGen.tla", {"Kinds": f"<-{kinds}", "Ops": f"<-{ops}", "Ending": ending}, tag,
                           (num, num * 15)[c.thorough], depth, invariants=("Emit", "Sane", "Distinct"), seed=seed)
    classical.replay(c, "heap", f, tag)


def c13(c):
    c.parallel([lambda n=n: heap(c, "KindsAll", "OpsCount", 4000, f"heap{n}", c.seed * 100 + n, depth=(40, 25, 60)[n % 3])
                for n in range(4)]
               + [lambda n=n: heap(c, "KindsAll", "OpsCount", 400, f"doom{n}", c.seed * 100 + 50 + n, "alias", 14)
                  for n in range(2)])


reg("C13", c13, "random balanced histories of creations, copies and count updates over all kinds of objects; contents compared "
    "and every block of memory of every object followed by a recording allocator; alias counts driven below zero in a "
    "process of their own", technique=T)


def c14(c):
    def slices():
        f = classical.enumerate_all(c, "Slices.tla", {"MaxLen": (4, 7)[c.thorough]}, "slices",
                                    invariants=("Emit", "Mirror"), workers=1)
        classical.replay(c, "slice", f, "slices")
    c.parallel([slices] + [lambda n=n: heap(c, ("KindsArr", "KindsArrTup")[n % 2], "OpsData", 4000, f"data{n}",
                                            c.seed * 100 + n, depth=(40, 25, 60)[n % 3]) for n in range(4)])


reg("C14", c14, "every slice of every array of up to four elements (complete), huge bounds included; random histories of "
    "stores, copies, concatenations and slices over arrays of all element sizes and tuples", technique=T)


def c15(c):
    def one(n):
        def job():
            f = classical.generate(c, "CallGen.tla", {}, f"calls{n}", (4000, 60000)[c.thorough], (30, 20, 50, 30)[n],
                                   invariants=("Emit", "Parity"), seed=c.seed * 100 + n)
            classical.replay(c, "calls", f, f"calls{n}")
        return job
    c.parallel([one(n) for n in range(4)])


reg("C15", c15, "random histories of callables, functors, copies, forwarding callables and invocations with up to 600 nested "
    "control lists; what ran and with what, the caller's objects and every block of memory compared", technique=T)


def c16(c):
    t = c.thorough

    def gen(n):
        def job():
            f = classical.generate(c, "StrGen.tla", {}, f"str{n}", (1500, 20000)[t], 30, seed=c.seed * 100 + n)
            classical.replay(c, "text", f, f"str{n}")
        return job

    def rec(n):
        return lambda: classical.recorded(c, "dbl", "DblGen.tla", {}, "DblTrace.tla", {}, f"dbl{n}", (150, 2500)[t], 40,
                                          seed=c.seed * 100 + n)
    c.parallel([gen(n) for n in range(4)] + [rec(n) for n in range(4)])


reg("C16", c16, "random histories of strings and conversions with exact texts (doubles by decimal or dyadic expansion), "
    "replayed; texts of doubles of all magnitudes recorded and read back exactly", technique=TT)


def output(c, ops, doomed, num, depth, tag, seed):
    f = classical.generate(c, "Output.tla", {"Ops": f"<-{ops}", "Doomed": doomed}, tag, (num, num * 15)[c.thorough], depth,
                           invariants=("Emit", "Lines"), seed=seed)
    classical.replay(c, "output", f, tag)


reg("C12", lambda c: c.parallel([lambda n=n: output(c, "OpsAll", False, 2000, (30, 20, 60, 40)[n], f"out{n}",
                                                    c.seed * 100 + n) for n in range(4)]),
    "random histories of records of every kind with and without labels, messages, switches between standard output and the "
    "buffer, drains and re-initialisation; every byte compared", technique=T)
reg("C19", lambda c: c.parallel([lambda n=n: output(c, "OpsOut", True, 1500, (8, 12, 5, 20)[n], f"fail{n}",
                                                    c.seed * 100 + n) for n in range(4)]),
    "random programs of recorded lines ending in one of the failing conditions, each in a process of its own; every byte it "
    "wrote and how it ended compared", technique=T)


def c18(c):
    c.parallel([c.same_ints] + [lambda n=n: classical.recorded(c, "math", "MathGen.tla", {}, "MathTrace.tla", {"Tol": 4}, f"math{n}",
                                               (150, 2500)[c.thorough], 50, seed=c.seed * 100 + n) for n in range(8)])


reg("C18", c18, "random calls of every function at ordinary, huge, tiny, subnormal and special arguments, near multiples of "
    "pi/2 and at exact ties; random draws over all kinds of bounds; recorded from the real code and compared with exact "
    "values computed in the specification", technique="TLA+ specification (MathTrace over exact fixed-point arithmetic); calls "
    "generated with TLC are run and recorded, and TLC validates every recorded result against its exact value")


def c20(c):
    t = c.thorough
    c.build(pkg=RUNNER, binary="runconf")

    def runs(n):
        def job():
            out = os.path.join(c.work, f"runs{n}.ndjson")
            c.tlc("Runner.tla", {"Runs": 5, "Out": out}, f"runs{n}", invariants=["Emit", "Framed", "Same"],
                  sim={"num": (350, 6000)[t], "depth": 400, "seed": c.seed * 100 + n})
            classical.replay(c, "runner", out, f"runs{n}")
        return job

    def shots(n):
        return lambda: classical.recorded(c, "shots", "RunnerShotsGen.tla", {}, "RunnerShots.tla", {}, f"shots{n}",
                                          (25, 400)[t], 12, seed=c.seed * 100 + n)
    c.parallel([runs(n) for n in range(4)] + [shots(n) for n in range(2)])


reg("C20", c20, "random programs (classical circuits with branches, helpers, several entry points, own and unreachable "
    "functions, every name of the runtime with every number of parameters, near misses of names, legacy and current output) "
    "in every form the runner takes, broken input and wrong options included; every byte written compared; programs with "
    "random results recorded for many shots, seeded and not, and validated", technique=TT)


def c23(c):
    t = c.thorough

    def consts(k, known, out):
        return {"Kinds": f"<-{('K4', 'K3', 'K2')[k]}", "QIds": "<-MQ", "RIds": "<-MR", "Known": known, "Stdout": out}

    def known(n, k, out):
        def job():
            f = classical.generate(c, "Multi.tla", consts(k, True, out), f"multi{n}", (500, 8000)[t], (60, 90, 40)[n % 3],
                                   invariants=("Emit", "Mute"), properties=("Apart",), seed=c.seed * 100 + n)
            classical.replay(c, f"multi{k}", f, f"multi{n}")
        return job

    def rec(n, k):
        return lambda: classical.recorded(c, f"multi{k}", "Multi.tla", consts(k, False, False), "MultiTrace.tla", {}, f"multir{n}",
                                          (120, 2000)[t], (60, 90, 40)[n % 3], seed=c.seed * 100 + 50 + n)
    c.parallel([known(n, k, o) for n, (k, o) in enumerate([(0, False), (1, False), (1, True), (0, True), (2, False)])]
               + [rec(n, k) for n, k in enumerate([0, 1, 2])])


reg("C23", c23, "random interleavings of two to four simulations on threads and as instances, with threads ending and starting: "
    "exact reports replayed step by step and again with all threads running freely; seeded random programs recorded alone, "
    "interleaved and at once, and compared", technique=TT)


def c24(c):
    t = c.thorough
    native = c.build(pkg=PYRUNNER, binary="libqirrunner_native.so")
    c.build(pkg=RUNNER, binary="runconf")
    package = os.path.join(c.work, "site")
    shutil.rmtree(package, ignore_errors=True)
    shutil.copytree("/repo/pip/qirrunner", os.path.join(package, "qirrunner"), ignore=shutil.ignore_patterns("_native*", "__pycache__"))
    shutil.copy(native, os.path.join(package, "qirrunner", "_native.so"))

    def drive(f, tag, trace=None):
        d = os.path.join(c.work, tag + ".d")
        os.makedirs(d, exist_ok=True)
        with open(f) as g:
            v = json.loads(json.loads(g.readline()))
        c.sample(classical.show([e.get("req", e) for e in (v["hist"] if isinstance(v, dict) else v)], 600))
        programs = os.path.join(d, "programs.ndjson")
        c.run_bin(["creplay", "--kind", "render", "--in", f, "--to", d, "--out", programs, "--seed", c.seed], tag + "p")
        args = [os.path.join(PYRUNNER, "drive.py"), "--in", f, "--programs", programs] + (["--trace", trace] if trace else [])
        r = c.run_bin(args, tag, binary=shutil.which("python3"),
                      env={"PYTHONPATH": package, "PYTHONDONTWRITEBYTECODE": "1", "SESSION": d, "RUST_BACKTRACE": "0"})
        shutil.rmtree(d)
        c.add("python_runs", r["ops"])
        with c.lock:
            c.traces += r["behaviours"]

    def sessions(n):
        def job():
            out = os.path.join(c.work, f"py{n}.ndjson")
            c.tlc("Python.tla", {"Runs": 12, "Ears": 2, "Request": "<-PyRequest", "Label": "<-PyLabel", "Out": out}, f"py{n}",
                  spec="PySpec", invariants=["PyEmit", "Framed", "Kept"], properties=["Once"],
                  sim={"num": (80, 1500)[t], "depth": 900, "seed": c.seed * 100 + n})
            drive(out, f"py{n}")
            os.remove(out)
        return job

    def shots(n):
        def job():
            f = classical.generate(c, "PythonShotsGen.tla", {"Forms": "<-PyForms"}, f"pys{n}", (12, 200)[t], 12, seed=c.seed * 100 + n)
            trace = f + ".trace"
            drive(f, f"pys{n}", trace)
            classical.validate(c, "RunnerShots.tla", {}, trace, f"pys{n}v")
            os.remove(trace)
            os.remove(f)
        return job
    c.parallel([sessions(n) for n in range(5)] + [shots(n) for n in range(2)])


reg("C24", c24, "random sessions of twelve runs each (random programs; run, run_bytes and main called in every way arguments can "
    "be given, and the command in a process of its own; handlers, standard output, raising callbacks, threads, broken input) "
    "carried out by a real Python interpreter with the real package; seeded and unseeded random programs recorded and validated",
    technique=TT)


def c25(c):
    t = c.thorough
    c.build(pkg=NATIVE, binary="libqir_native.a")
    archive, clang = c.bin, shutil.which("clang-18")
    lib, host = os.path.join(c.work, "libqir.so"), os.path.join(c.work, "host")
    for cmd in (["gcc", "-shared", "-o", lib, "-Wl,--whole-archive", archive, "-Wl,--no-whole-archive", "-lpthread", "-ldl", "-lm"],
                ["gcc", "-O1", "-o", host, os.path.join(NATIVE, "host.c"), lib, "-ldl"]):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise ToolError(f"{' '.join(cmd)}:\n{p.stdout[-3000:]}")
    c.build(pkg=RUNNER, binary="runconf")

    def drive(args, tag):
        return c.run_bin([os.path.join(NATIVE, "drive.py"), *args, "--host", host, "--lib", lib, "--clang", clang, "--jobs", 2], tag,
                         binary=shutil.which("python3"), env={"PYTHONDONTWRITEBYTECODE": "1"})

    def names():
        out = os.path.join(c.work, "names.ndjson")
        c.tlc("Native.tla", {"Runs": 1, "Out": out}, "names", spec="NameSpec", invariants=["Listed"])
        c.add("functions_linked", drive(["--names", out], "names")["ops"])

    def programs(n):
        def job():
            tag = f"nat{n}"
            out, d = os.path.join(c.work, f"{tag}.ndjson"), os.path.join(c.work, f"{tag}.d")
            c.tlc("Native.tla", {"Runs": 5, "Request": "<-NatRequest", "Meas": "<-NatMeas", "Out": out}, tag,
                  invariants=["Emit", "Framed", "Same", "Linked"],
                  sim={"num": (130, 2500)[t], "depth": 400, "seed": c.seed * 100 + n})
            listed = os.path.join(c.work, f"{tag}.programs")
            c.run_bin(["creplay", "--kind", "render", "--in", out, "--to", d, "--out", listed, "--seed", c.seed], tag + "p")
            with open(out) as f:
                c.sample(classical.show([e["req"] for e in json.loads(json.loads(f.readline()))], 600))
            r = drive(["--in", out, "--programs", listed], tag)
            shutil.rmtree(d)
            os.remove(out)
            c.add("native_runs", r["ops"])
            with c.lock:
                c.traces += r["behaviours"]
        return job
    c.parallel([names] + [programs(n) for n in range(4)])


reg("C25", c25, "random programs (classical circuits with branches, helpers, several entry points, uses of every function of the "
    "runtime, machine dumps, failures), compiled at several optimization levels, linked with the library and run in processes of "
    "their own for one to three shots, against the output the specification gives", technique="TLA+ specification checked with TLC; "
    "its behaviours are carried out by the real library in natively linked programs, and the output compared",
    assumptions=["programs use the current output functions and are deterministic"])
