"""Checks over the quantum specification (QSim, LazySim)."""
import json
import os

from vlib import Violation


def _replay(c, path, machine, lift, tag, limit=None, full=True, bad=False):
    args = ["qreplay", "--in", path, "--machine", machine, "--lift", lift, "--seed", c.seed]
    if limit:
        args += ["--limit", limit]
    if not full:
        args += ["--full", "no"]
    if bad:
        args += ["--bad", "yes"]
    r = c.run_bin(args, tag)
    c.add(f"replayed_{machine}_{lift}", r["behaviours"])
    c.add("steps_in_the_real_code", r["ops"])
    c.add("states_compared", r["states"])
    with c.lock:
        c.traces += r["behaviours"]
    return r


def _short(o):
    if isinstance(o, dict):
        o = [o["op"], o["c"], o["t"], o["k"], o["j"], "".join(o["p"]), o["u"], o["r"]]
    name, ctl, tgt, k, j, p, u, r = o
    name = name + (f"({k}*pi/2+{j}*alpha)" if name in ("rx", "ry", "rz", "ph", "r", "exp", "rxx", "ryy", "rzz") else "")
    return f"{name}{' ' + ''.join(p) if p else ''}{' ' + u if u else ''} {','.join(map(str, tgt))}" \
        + (f" if {','.join(map(str, ctl))}" if ctl else "") \
        + (f" ={r}" if name in ("m", "mr", "jm", "rst", "rel", "fc", "as") else "")


def _sample(c, path, n=2):
    with open(path) as f:
        f.readline()
        for _ in range(n):
            line = f.readline()
            if not line:
                return
            v = json.loads(json.loads(line))
            ops = v if isinstance(v, list) else v["ops"]
            c.sample("; ".join(_short(r) for r in ops))


# quick / thorough number of behaviours per generator process and size
NUM = {1: (900, 8000), 2: (900, 8000), 3: (700, 6000), 4: (350, 3000), 5: (150, 1500)}
PAD_LIMIT = (25, 300)


def quantum(c, fams=(), lazy=(), maxctl=2, machines=("direct", "qir"), lifts=("none",), start=None, mode="free",
            procs=8, scale=1.0, lazy_machines=None, born=0):
    t = 1 if c.thorough else 0
    jobs = []

    def simulate(n, fam, size, depth, times=1):
        def job():
            tag = f"sim{n}"
            out = os.path.join(c.work, f"{tag}.ndjson")
            st = size if start is None else start
            c.tlc("Families.tla",
                  {"N": size, "Fams": f"<-{fam}", "Depth": depth, "MaxCtl": maxctl, "Start": min(st, size),
                   "Mode": mode, "Out": out},
                  tag, invariants=["NeverNull", "FreeIsZero", "Collapsed", "Repeats", "Undone", "Emit"],
                  sim={"num": max(10, int(NUM[size][t] * scale * times)), "depth": depth + 1, "seed": c.seed * 1000 + n})
            _sample(c, out, 1)
            for m in machines:
                for lift in lifts:
                    _replay(c, out, m, lift, f"{tag}.{m}.{lift}",
                            limit=PAD_LIMIT[t] if lift == "pad" else None, bad=mode == "bad")
            if born:
                for m in machines:
                    r = c.run_bin(["qreplay", "--in", out, "--machine", m, "--seed", c.seed, "--born", (born, 8 * born)[t],
                                   "--limit", (60, 300)[t]], f"{tag}.born.{m}")
                    c.add("outcome_frequencies_compared", r["compared"])
            os.remove(out)
        return job

    for n in range(procs if fams else 0):
        jobs.append(simulate(n, *fams[n % len(fams)]))

    c.parallel(jobs, n=8)

    for i, z in enumerate(lazy):
        out = os.path.join(c.work, f"lazy{i}.ndjson")
        gen, dist, _ = c.tlc(
            "MCLazy.tla",
            {"N": z["N"], "Prep": f"<-PrepN{z['N']}", "Configs": f"<-{z['cfg'][t]}", "Pends": f"<-{z['pends'][t]}",
             "OpSet": f"<-{z['ops'][t]}", "Steps": 1, "Emitting": True, "Out": out},
            f"lazy{i}", invariants=["Refines", "Exclusive", "Emit"], workers=8, heap="6g")
        c.exhaustive.append(f"LazySim N={z['N']} {z['cfg'][t]} x {z['pends'][t]} x {z['ops'][t]}: {dist} states, complete")
        _sample(c, out, 1)
        jobs = []
        for m in lazy_machines or machines:
            def job(m=m):
                return _replay(c, out, m, "none", f"lazy{i}.{m}")
            jobs.append(job)
        c.parallel(jobs)
        os.remove(out)
