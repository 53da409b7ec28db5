"""Output as the specification writes it, and as the real code does."""
import re


def pieces(v):
    return b"".join(bytes([x]) if isinstance(x, int) else x.encode() for x in v)


RESULTS = re.compile(rb"Global Results: \[([01, ]*)\]\n")
STATE = re.compile("STATE: \\[ (\\|.*), \\]\n".encode())
TERM = re.compile("\\|([0-9]+)\u27e9: (.*)i".encode())


def dump(line):
    """A line of a machine dump as the specification writes it: results up to
    the last that is one, a state that is a single number without its phase."""
    m = RESULTS.fullmatch(line)
    if m:
        bits = [x for x in m[1].split(b", ") if x]
        while bits and bits[-1] == b"0":
            bits.pop()
        return b"Global Results: [" + b", ".join(bits) + b"]\n"
    m = STATE.fullmatch(line)
    if not m:
        return line
    whole = None
    for x in m[1].split(b", "):
        y = TERM.fullmatch(x)
        try:
            size = abs(complex((y[2].replace(b"+-", b"-") + b"j").decode())) ** 2
        except (TypeError, ValueError):
            return line
        if abs(size - 1) < 1e-6 and whole is None:
            whole = y[1]
        elif size > 1e-6:
            return line
    return line if whole is None else b"STATE: [ |" + whole + "\u27e9: 1+0i, ]\n".encode()


def plain(out):
    return b"".join(map(dump, out.splitlines(keepends=True))) if b"STATE: [ " in out or b"Global Results: [" in out else out
