"""Checks over the specifications of everything that is not quantum."""
import json
import os

from vlib import ToolError, Violation


def generate(c, module, consts, tag, num, depth, invariants=("Emit",), seed=None, properties=()):
    """Random behaviours of a specification, as a file."""
    out = os.path.join(c.work, f"{tag}.ndjson")
    c.tlc(module, {**consts, "Depth": depth, "Out": out}, tag, invariants=list(invariants), properties=list(properties),
          sim={"num": num, "depth": depth + 1, "seed": c.seed * 1000 + 17 if seed is None else seed})
    return out


def enumerate_all(c, module, consts, tag, invariants=("Emit",), workers=4, heap="4g", **kw):
    """Every behaviour of a specification up to its bounds."""
    out = os.path.join(c.work, f"{tag}.ndjson")
    _, dist, _ = c.tlc(module, {**consts, "Out": out}, tag, invariants=list(invariants), workers=workers, heap=heap, **kw)
    c.exhaustive.append(f"{module} {tag}: {dist} states, complete")
    return out


def show(rec, limit=300):
    t = json.dumps(rec, separators=(",", ":"))
    return t if len(t) <= limit else t[:limit] + "..."


def replay(c, kind, path, tag, sample=True, keep=False, **args):
    if sample:
        with open(path) as f:
            for line in f:
                v = json.loads(line)
                v = json.loads(v) if isinstance(v, str) else v
                if isinstance(v, list):
                    c.sample(show([{k: x for k, x in r.items()} for r in v[:12]], 600))
                    break
    extra = [x for k, v in args.items() for x in (f"--{k}", v)]
    r = c.run_bin(["creplay", "--kind", kind, "--in", path, "--seed", c.seed] + extra, tag)
    c.add(f"replayed_{kind}", r["behaviours"])
    c.add("steps_in_the_real_code", r["ops"])
    with c.lock:
        c.traces += r["behaviours"]
    if not keep:
        os.remove(path)
    return r


def validate(c, module, consts, trace, tag, invariants=("Explained",), events=None, heap="4g", describe=None):
    """Checks a recording of the real code against a trace specification."""
    n = sum(1 for _ in open(trace))
    if n == 0:
        raise ToolError(f"nothing recorded for {module}")
    gen, dist, out = c.tlc(module, {**consts, "TraceFile": trace}, tag, invariants=list(invariants), expect_ok=False,
                           heap=heap)
    if "is violated" in out and "Invariant Explained" in out:
        at = max(0, out.count("\nState ") - 2)
        lines = open(trace).read().splitlines()
        # the last state printed has consumed the event that cannot be explained
        m = [l for l in out.splitlines() if l.startswith("/\\ i = ") or l.startswith("i = ")]
        at = int(m[-1].split("=")[1]) - 1 if m else at + 1
        lo = max((k for k in range(at) if '"start"' in lines[k]), default=0)
        raise Violation(f"the recorded run is not a behaviour of {module}: event {at - lo} of this run, {lines[at - 1]}",
                        {"trace": trace, "event": at, "run": lines[lo:at]})
    if "Error:" in out or gen == 0 or "No error has been found" not in out:
        i = out.find("Error:")
        raise ToolError(f"TLC on {module} ({tag}) failed:\n" + out[max(0, i - 200):i + 3000])
    if dist < n + 1 - 1:
        raise ToolError(f"{module} consumed only {dist} of {n} events")
    c.add("recorded_events_validated", n)
    return n


def recorded(c, kind, gen, gconsts, trace_module, tconsts, tag, num, depth, invariants=("Explained",), seed=None,
             ginv=("Emit",)):
    """Programs from a specification, run and recorded, the recording validated."""
    f = generate(c, gen, gconsts, tag, num, depth, invariants=ginv, seed=seed)
    with open(f) as g:
        c.sample(show(json.loads(json.loads(g.readline()))[:12], 600))
    trace = f + ".trace"
    r = c.run_bin(["record", "--kind", kind, "--in", f, "--out", trace, "--seed", c.seed], tag)
    validate(c, trace_module, tconsts, trace, tag + "v", invariants=invariants)
    c.add("programs_recorded_and_validated", r["programs"])
    with c.lock:
        c.traces += r["programs"]
    os.remove(trace)
    os.remove(f)
