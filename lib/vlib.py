"""Machinery shared by all checks: building the conformance driver, running
TLC, replaying behaviours, reporting."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(VERIF, "specs")
HARNESS = os.path.join(VERIF, "harness")
PYRUNNER = os.path.join(VERIF, "pyrunner")
RUNNER = os.path.join(VERIF, "runner")
NATIVE = os.path.join(VERIF, "native")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


JAVA = os.path.join(HARNESS, "target", "java")


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, message, data):
        super().__init__(message)
        self.message = message
        self.data = data


class Check:
    def __init__(self, pid, tier, seed):
        self.id = pid
        self.tier = tier
        self.seed = seed
        self.thorough = tier == "thorough"
        self.work = os.path.join(VERIF, "work", f"{pid}-{tier}")
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.lock = threading.Lock()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.extra = {}
        self.samples = []
        self.notes = []
        self.exhaustive = []
        self.start = time.time()
        self.bin = None

    # ------------------------------------------------------------------
    def add(self, key, n):
        with self.lock:
            self.extra[key] = self.extra.get(key, 0) + n

    def sample(self, s):
        with self.lock:
            if len(self.samples) < 6:
                self.samples.append(s)

    def known(self, key):
        """Is this violation a finding that was recorded rather than repaired?"""
        path = os.path.join(VERIF, "known-findings.txt")
        for line in open(path):
            if line.startswith(f"known: property={self.id} key={key} "):
                print(f"KNOWN-FINDING: property={self.id} {line.split(' ', 3)[3].strip()}", flush=True)
                return True
        return False

    # ------------------------------------------------------------------
    def build(self, pkg=HARNESS, binary="qirconf"):
        env = dict(os.environ, CARGO_TERM_COLOR="never")
        p = subprocess.run(
            ["cargo", "build", "--offline", "--quiet", "--manifest-path", f"{pkg}/Cargo.toml",
             "--target-dir", f"{pkg}/target"],
            env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise ToolError("cannot build the conformance driver:\n" + p.stdout[-6000:])
        self.bin = os.path.join(pkg, "target", "debug", binary)
        return self.bin

    # ------------------------------------------------------------------
    def overrides(self):
        """The class by which TLC computes with big numbers."""
        src = os.path.join(VERIF, "lib", "java", "Ints.java")
        out = os.path.join(JAVA, "Ints.class")
        with self.lock:
            if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
                return
            os.makedirs(JAVA, exist_ok=True)
            p = subprocess.run(["javac", "-cp", TLA_CP, "-d", JAVA, src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True)
            if p.returncode:
                raise ToolError("cannot compile Ints.java:\n" + p.stdout)

    def same_ints(self):
        """That class agrees with the specification it stands for."""
        d = os.path.join(self.work, "same")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(SPECS, "Ints.tla")) as f:
            text = f.read()
        with open(os.path.join(d, "Plain.tla"), "w") as f:
            f.write(text.replace("MODULE Ints ", "MODULE Plain ", 1))
        self.tlc("IntsSame.tla", {}, "same", invariants=["Same"],
                 sim={"num": 1, "depth": (1000, 20000)[self.thorough], "seed": self.seed}, library=d)

    def tlc(self, module, consts, tag, invariants=(), properties=(), spec="Spec", sim=None, workers=1,
            heap="2g", timeout=3600, postcondition=None, constraint=None, view=None, expect_ok=True,
            env=None, symmetry=None, extra=(), library=None):
        """Runs TLC; returns (states generated, distinct states, output)."""
        d = os.path.join(self.work, tag)
        os.makedirs(d, exist_ok=True)
        cfg = os.path.join(d, "m.cfg")
        with open(cfg, "w") as f:
            if consts:
                f.write("CONSTANTS\n")
                for k, v in consts.items():
                    if isinstance(v, str) and v.startswith("<-"):
                        f.write(f"  {k} <- {v[2:].strip()}\n")
                    elif isinstance(v, str):
                        f.write(f'  {k} = "{v}"\n')
                    elif isinstance(v, bool):
                        f.write(f"  {k} = {'TRUE' if v else 'FALSE'}\n")
                    else:
                        f.write(f"  {k} = {v}\n")
            f.write(f"SPECIFICATION {spec}\n")
            if invariants:
                f.write("INVARIANTS " + " ".join(invariants) + "\n")
            if properties:
                f.write("PROPERTIES " + " ".join(properties) + "\n")
            if postcondition:
                f.write(f"POSTCONDITION {postcondition}\n")
            if constraint:
                f.write(f"CONSTRAINT {constraint}\n")
            if view:
                f.write(f"VIEW {view}\n")
            f.write("CHECK_DEADLOCK FALSE\n")
        self.overrides()
        gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
        cmd = ["java", gc, f"-Xmx{heap}", "-Xss16m", *([f"-DTLA-Library={library}"] if library else []),
               f"-Djava.io.tmpdir={d}", "-cp", f"{JAVA}:{TLA_CP}", "tlc2.TLC",
               "-noGenerateSpecTE", "-metadir", os.path.join(d, "states"), "-workers", str(workers),
               "-config", cfg]
        if sim:
            cmd += ["-simulate", f"num={sim['num']}", "-depth", str(sim["depth"]),
                    "-seed", str(sim["seed"])]
        cmd += list(extra) + [module]
        try:
            p = subprocess.run(cmd, cwd=SPECS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout, env=dict(os.environ, **(env or {})))
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC on {module} ({tag}) did not end in {timeout} s")
        out = p.stdout
        with open(os.path.join(d, "tlc.out"), "w") as f:
            f.write(out)
        shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", out)
        if m:
            gen, dist = (int(x.replace(",", "")) for x in m[-1])
        else:
            m = re.findall(r"number of states generated: ([\d,]+)", out)
            gen = dist = int(m[-1].replace(",", "")) if m else 0
        if expect_ok and (p.returncode != 0 or "Error:" in out or gen == 0):
            i = out.find("Error:")
            raise ToolError(f"TLC on {module} ({tag}) failed (exit {p.returncode}):\n"
                            + out[max(0, i - 200):i + 3000])
        with self.lock:
            self.states += dist
            self.transitions += gen
        return gen, dist, out

    # ------------------------------------------------------------------
    def run_bin(self, args, tag, timeout=None, binary=None, env=None):
        """Runs the driver; returns its summary, raises Violation on a
        disagreement or when the code under test takes the process down."""
        prog = os.path.join(self.work, f"progress.{tag}")
        timeout = timeout or (7200 if self.thorough else 500)
        cmd = [binary or self.bin] + [str(a) for a in args] + ["--progress", prog]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                               env=dict(os.environ, **(env or {})), errors="replace", text=True)
        except subprocess.TimeoutExpired:
            case = open(prog, errors="replace").readline().strip() if os.path.exists(prog) else "?"
            raise Violation(f"the code under test does not terminate on {case}",
                            {"cmd": cmd, "case": case})
        lines = [l for l in p.stdout.splitlines() if l.startswith("{")]
        last = json.loads(lines[-1]) if lines else {}
        if p.returncode == 0 and lines and "fail" not in last:
            return last
        if "fail" in last:
            raise Violation(f"{last['fail']}", {"cmd": cmd, **last})
        case = open(prog, errors="replace").readline().strip() if os.path.exists(prog) else "?"
        if p.returncode < 0 or p.returncode in (101, 134, 139):
            if "conformance driver:" in p.stderr:
                raise ToolError(f"{' '.join(cmd)}\n{p.stderr[-3000:]}")
            raise Violation(f"the code under test ended the process ({p.returncode}) on {case}: "
                            + p.stderr.strip()[-400:], {"cmd": cmd, "case": case})
        raise ToolError(f"{' '.join(cmd)} ended with {p.returncode}\n{p.stderr[-3000:]}")

    def parallel(self, jobs, n=8):
        """Runs callables; the first violation by position wins."""
        with cf.ThreadPoolExecutor(max_workers=n) as ex:
            futs = [ex.submit(j) for j in jobs]
            cf.wait(futs)
        tool, viol, res = None, None, []
        for f in futs:
            e = f.exception()
            if isinstance(e, Violation):
                viol = viol or e
            elif e is not None:
                tool = tool or e
            else:
                res.append(f.result())
        if viol:
            raise viol
        if tool:
            raise tool
        return res

    # ------------------------------------------------------------------
    def finish(self, meta, violation=None):
        ev = {
            "property": self.id,
            "tier": self.tier,
            "seed": self.seed,
            "level": meta["level"],
            "coverage": {
                "states": self.states,
                "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "samples": self.samples or ["(none completed)"],
                "explored": meta["explored"],
                **({"exhaustive_parts": self.exhaustive} if self.exhaustive else {}),
                **self.extra,
            },
            "assumptions": meta.get("assumptions", []),
            "wall_s": round(time.time() - self.start, 2),
            "violations": 1 if violation else 0,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.id}.json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")


def main(registry):
    if len(sys.argv) < 2 or sys.argv[1] not in registry:
        print("usage: check <property> [quick|thorough]", file=sys.stderr)
        sys.exit(2)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    meta = registry[pid]
    c = Check(pid, tier, seed)
    try:
        c.build()
        meta["run"](c)
    except Violation as v:
        path = os.path.join(c.work, "violation.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "message": v.message, **v.data}, f, indent=1)
        print(f"{pid}: {v.message[:1500]}")
        print(f"VIOLATION property={pid} replay={path}", flush=True)
        c.finish(meta, v)
        sys.exit(1)
    except ToolError as e:
        print(f"{pid}: the check could not be carried out: {e}", file=sys.stderr)
        sys.exit(2)
    c.finish(meta)
    print(f"{pid}: held on everything explored ({c.states} specification states, "
          f"{c.traces} behaviours replayed, {time.time() - c.start:.0f} s)")
    sys.exit(0)
