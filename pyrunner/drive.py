"""Conformance driver for the Python module: sessions that the specification
generated, carried out by a real interpreter with the real package."""
import json
import os
import subprocess
import sys
import tempfile
import threading

import qirrunner
from qirrunner import _native

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
from dumps import pieces, plain

SCRIPT = "import sys\nfrom qirrunner._native import main\nif __name__ == '__main__':\n    sys.exit(main())\n"


class Stdout:
    """Everything that reaches standard output, whoever writes it."""

    def __init__(self):
        self.file = tempfile.TemporaryFile()
        self.at = 0
        self.kept = os.dup(1)
        sys.stdout.flush()
        os.dup2(self.file.fileno(), 1)

    def new(self):
        sys.stdout.flush()
        end = os.fstat(self.file.fileno()).st_size
        b = os.pread(self.file.fileno(), end - self.at, self.at)
        self.at = end
        return b

    def all(self):
        return os.pread(self.file.fileno(), self.at, 0)

    def close(self):
        sys.stdout.flush()
        os.dup2(self.kept, 1)
        os.close(self.kept)
        self.file.close()


class Deaf(Exception):
    pass


class Listener:
    """Hands what it hears to a handler, and looks at each piece itself."""

    def __init__(self, handler, deaf):
        self.handler, self.deaf, self.calls, self.heard, self.fault = handler, deaf, 0, [], None

    def __call__(self, *a):
        self.calls += 1
        if self.deaf and self.calls == self.deaf:
            raise Deaf("enough")
        if len(a) != 1:
            self.fault = f"the callback was given {a!r}"
            return
        o = a[0]
        if not isinstance(o, qirrunner.Output):
            self.fault = f"the callback was given {type(o)}, no Output"
            return
        t = str(o)
        if repr(o) != t or o._repr_html_() != f"<p>{t}</p>":
            self.fault = f"an output shows as {repr(o)!r}, as text {t!r}, and as HTML {o._repr_html_()!r}"
        self.heard.append(t)
        if not self.deaf:
            self.handler.handle(o)


def options(q):
    a = []
    if not q["default"]:
        a.append(["--shots", str(q["shots"])] if q["style"] % 2 else [f"-s{q['shots']}"])
    if q["filter"]:
        a.append([f"--entrypoint={q['filter'][0]}"])
    if q["seed"]:
        a.append(["-r", str(q["seed"][0])])
    return a


def call(q, prog, listener, fails=False):
    """One run.  Returns what it raised, and what a process of its own wrote."""
    data = open(prog["data"], "rb").read()
    if q["api"] in ("main", "script"):
        a = options(q) + ([["--file", prog["file"]]] if prog["file"] else [])
        if prog["file"] and q["style"] % 3 == 0:
            a[-1] = [f"--file={prog['file']}"]
        k = q["style"] % (len(a) or 1)
        flat = [y for x in a[k:] + a[:k] for y in x]
        if q["api"] == "main":
            _native.main(["qir-runner"] + flat)
            return None
        p = subprocess.run([sys.executable, os.path.join(os.environ["SESSION"], "qir-runner")] + flat,
                           input=b"" if prog["file"] else data, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode == 0:
            return p.stdout
        if b"RuntimeError" not in p.stderr and not fails:
            raise AssertionError(f"ended with {p.returncode}: {p.stderr.decode(errors='replace')}")
        raise Own(p.stdout)
    f = qirrunner.run if q["api"] == "run" else qirrunner.run_bytes
    first = prog["file"] if q["api"] == "run" else data
    entry = q["filter"][0] if q["filter"] else None
    shots = None if q["default"] else q["shots"]
    seed = q["seed"][0] if q["seed"] else None
    rest = {"entry_point": entry, "shots": shots, "rng_seed": seed, "output_fn": listener}
    how = q["call"]
    if how == 0:
        f(first, **{k: v for k, v in rest.items() if v is not None})
    elif how == 1:
        f(first, **rest)
    elif how == 2:
        f(first, *rest.values())
    elif how == 3:
        f(**{("path" if q["api"] == "run" else "bytes"): first}, **{k: rest[k] for k in reversed(rest)})
    else:
        f(first, entry, shots, output_fn=listener, **({"rng_seed": seed} if seed is not None else {}))
    return None


class Own(Exception):
    """A process of its own ended with an error; what it wrote before."""


def step(q, prog, listener, fails=False):
    raised, own = None, None
    box = []

    def work():
        try:
            box.append((None, call(q, prog, listener, fails)))
        except BaseException as e:  # a panic is no Exception
            box.append((e, None))
    if q["thread"]:
        t = threading.Thread(target=work)
        t.start()
        t.join()
    else:
        work()
    raised, own = box[0]
    if isinstance(raised, Own):
        own = raised.args[0]
    return raised, own


def session(b, progs):
    ears = [qirrunner.OutputHandler() for _ in b["heard"]]
    out = Stdout()
    try:
        owned = b""
        printed = b""
        for n, (e, prog) in enumerate(zip(b["hist"], progs)):
            q, want = e["req"], pieces(e["out"])
            at = f"run {n} ({q}, program {prog['data']})"
            listener = Listener(ears[q["to"] - 1] if q["to"] else None, q["deaf"]) if q["to"] or q["deaf"] else None
            raised, own = step(q, prog, listener, e["verdict"] == "failed")
            wrote = out.new()
            if own is not None:
                if wrote:
                    return f"{at}: this process wrote {wrote!r}"
                wrote = own
            if isinstance(raised, AssertionError):
                return f"{at}: {raised}"
            if listener:
                if wrote:
                    return f"{at}: has a callback, but wrote {wrote!r}"
                if listener.fault:
                    return f"{at}: {listener.fault}"
                got = "".join(listener.heard).encode()
            else:
                got = wrote
            heard = got
            got = plain(got)
            if q["deaf"] and listener.calls >= q["deaf"]:
                if raised is None:
                    return f"{at}: the callback raised, and the run ended well"
                if listener.calls > q["deaf"]:
                    return f"{at}: the callback raised, and was called again"
                k = heard.rfind(b"\n") + 1
                part = b"" if heard[k:].startswith((b"Global Results: ", b"STATE: ")) else heard[k:]
                if not want.startswith(plain(heard[:k]) + part) and e["verdict"] == "ran":
                    return f"{at}: the callback heard {got!r}, must be of {want!r}"
                continue
            if raised is not None and not isinstance(raised, (RuntimeError, Own)):
                return f"{at}: raised {type(raised)}: {raised}"
            if e["verdict"] == "ran":
                if raised is not None:
                    return f"{at}: must run, but raised {raised}"
                if got != want:
                    return f"{at}: wrote {got!r}, must be {want!r}"
            else:
                if raised is None:
                    return f"{at}: must be {e['verdict']}, but ran and wrote {got!r}"
                if e["verdict"] == "failed" and got != want:
                    return f"{at}: wrote {got!r} and failed, must write {want!r}"
                if e["verdict"] == "rejected" and got:
                    return f"{at}: was rejected after writing {got!r}"
                if b"END\t" in got:
                    return f"{at}: was refused after a shot: {got!r}"
                if isinstance(raised, RuntimeError) and not str(raised):
                    return f"{at}: raised an error without a message"
            if e["verdict"] != "refused":
                if own is not None:
                    owned += own
                if not listener:
                    printed += got
        if any(e["verdict"] == "refused" for e in b["hist"]):
            return None
        for k, h in enumerate(ears):
            if plain(h.get_output().encode()) != pieces(b["heard"][k]):
                return f"handler {k} collected {h.get_output()!r}, must be {pieces(b['heard'][k])!r}"
        if printed != pieces(b["printed"]) or out.new():
            return f"standard output got {printed!r}, must be {pieces(b['printed'])!r}"
        return None
    finally:
        out.close()


SEEDS = [0, 42, 2**64 - 1, 1 << 32, 42 + (7 << 32), 1 << 63, 2**32 - 1, 43]


def shots(steps, progs):
    log = [{"op": "start", "p": 0, "seed": 0, "own": False, "shots": 0, "out": []}]
    out = Stdout()
    one = qirrunner.OutputHandler()
    had = 0
    try:
        for n, (e, prog) in enumerate(zip(steps, progs)):
            api = {"cli-ll": "script", "cli-bc": "main", "bytes": "run_bytes", "bcbytes": "run_bytes"}.get(e["form"], "run")
            y = e["style"]
            q = {"api": api, "default": False, "shots": e["shots"], "filter": [], "style": y, "call": y % 5, "thread": False,
                 "seed": [SEEDS[e["seed"]]] if e["seed"] >= 0 else []}
            h = one if api.startswith("run") and y % 4 else None
            raised, own = step(q, prog, h and h.handle)
            wrote = out.new()
            if raised is not None:
                raise RuntimeError(f"run {n} ({q}): raised {raised!r}")
            if h and wrote:
                raise RuntimeError(f"run {n} ({q}): has a callback, but wrote {wrote!r}")
            text = h.get_output()[had:] if h else (own if own is not None else wrote).decode()
            had += len(text) if h else 0
            got = []
            for line in text.splitlines():
                if line == "START":
                    got.append("")
                elif line.startswith("OUTPUT\tRESULT\t") and got:
                    got[-1] += line[14:]
            log.append({"op": "run", "p": e["p"], "seed": e["seed"], "own": api == "script", "shots": e["shots"], "out": got})
        return log
    finally:
        out.close()


def main():
    a = dict(zip(sys.argv[1::2], sys.argv[2::2]))
    with open(os.path.join(os.environ["SESSION"], "qir-runner"), "w") as f:
        f.write(SCRIPT)
    n = ops = 0
    trace = open(a["--trace"], "w") if "--trace" in a else None
    with open(a["--in"]) as f, open(a["--programs"]) as g:
        for line, progs in zip(f, g):
            b, progs = json.loads(line), json.loads(progs)
            b = json.loads(b) if isinstance(b, str) else b
            with open(a["--progress"], "w") as p:
                p.write(f"{a['--in']}#{n}\n")
            try:
                if trace:
                    for e in shots(b, progs):
                        trace.write(json.dumps(e) + "\n")
                    bad = None
                else:
                    bad = session(b, progs)
            except RuntimeError as e:
                bad = str(e)
            if bad:
                print(json.dumps({"fail": f"python {a['--in']}#{n}: {bad}", "kind": "python", "case": f"{a['--in']}#{n}", "behaviour": b}))
                sys.exit(1)
            n += 1
            ops += len(progs)
    print(json.dumps({"behaviours": n, "programs": n, "steps": ops, "ops": ops}))


main()
