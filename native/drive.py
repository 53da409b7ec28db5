"""Conformance driver for programs that are compiled and linked with the
library: each is run in a process of its own."""
import concurrent.futures as cf
import json
import os
import re
import subprocess
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from dumps import pieces, plain

METADATA = re.compile(rb"(?<=START\n)(METADATA\t[^\n]*\n)+")


def run(e, prog, host, lib, clang):
    so = prog["file"] + ".so"
    env = dict(os.environ, LD_LIBRARY_PATH=os.path.dirname(lib), RUST_BACKTRACE="0")
    level = "-O%d" % (e["req"]["style"] % 4)
    p = subprocess.run([clang, level, "-w", "-shared", "-fPIC", "-x", "ir", prog["file"], "-Wl,-Bsymbolic", "-o", so],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise RuntimeError("conformance driver: cannot compile " + prog["file"] + "\n" + p.stdout[-2000:])
    try:
        p = subprocess.run([host, so, e["req"]["filter"][0], str(e["req"]["shots"])], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=120)
    except subprocess.TimeoutExpired:
        return "does not end"
    finally:
        os.remove(so)
    if p.returncode == 3:
        return "is not linked: " + p.stderr.decode(errors="replace")
    want = METADATA.sub(b"", pieces(e["out"]))
    got = plain(p.stdout)
    if got != want:
        return f"wrote {got!r}, must be {want!r} ({p.returncode}, {p.stderr[-300:]!r})"
    if (e["verdict"] == "failed") != (p.returncode != 0):
        return f"must have {e['verdict']}, and ended with {p.returncode}: {p.stderr[-300:]!r}"
    return None


def names(a):
    """A program that mentions every function of the library is linked."""
    names = json.loads(json.loads(open(a["names"]).readline()))
    text = "".join(f"declare void @{n}()\n" for n in names)
    text += f"@table = global [{len(names)} x ptr] [{', '.join('ptr @' + n for n in names)}]\n"
    text += "define void @main() {\n  ret void\n}\n"
    file = a["names"] + ".ll"
    with open(file, "w") as f:
        f.write(text)
    e = {"req": {"style": 0, "filter": ["main"], "shots": 1}, "verdict": "ran", "out": ["START", 10, "END", 9, "0", 10]}
    r = run(e, {"file": file}, a["host"], a["lib"], a["clang"])
    print(json.dumps({"fail": f"native: a program that mentions every function {r}", "kind": "native", "program": text} if r
                     else {"behaviours": 1, "ops": len(names)}))
    sys.exit(1 if r else 0)


def main():
    a = dict(zip([x[2:] for x in sys.argv[1::2]], sys.argv[2::2]))
    if "names" in a:
        names(a)
        return
    jobs = []
    for n, (line, progs) in enumerate(zip(open(a["in"]), open(a["programs"]))):
        b = json.loads(json.loads(line))
        for k, (e, prog) in enumerate(zip(b, json.loads(progs))):
            if e["verdict"] in ("ran", "failed"):
                jobs.append((f"{a['in']}#{n}, run {k}", e, prog))
    with cf.ThreadPoolExecutor(max_workers=int(a["jobs"])) as ex:
        res = list(ex.map(lambda j: run(j[1], j[2], a["host"], a["lib"], a["clang"]), jobs))
    for (at, e, prog), r in zip(jobs, res):
        if r:
            text = open(prog["file"], errors="replace").read()
            print(json.dumps({"fail": f"native {at}: the program, compiled and linked with the library, {r}", "kind": "native",
                              "behaviour": e, "program": text}))
            sys.exit(1)
    print(json.dumps({"behaviours": len(jobs), "ops": sum(e["req"]["shots"] for _, e, _ in jobs)}))


main()
