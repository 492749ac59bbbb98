"""prune.py HARNESS ERRORS: leave out the items of the harness that the compiler rejects.

Exits 1 when no item could be blamed."""
import re
import sys

path, errs = sys.argv[1:]
lines = open(path).read().split("\n")
bad = set()
for l in open(errs):
    m = re.match(r"^(.*harness\.rs):(\d+):\d+: error", l)
    if m:
        bad.add(int(m.group(2)) - 1)


def span(i):
    """the lines of the top-level item that line i is in"""
    a = i
    while a > 0 and (lines[a][:1] in (" ", "\t", "}", "") and not (lines[a] == "" and a != i)):
        a -= 1
    if lines[a].startswith("use "):
        b = a
        while not lines[b].rstrip().endswith(";"):
            b += 1
        return a, b
    b = a
    if not lines[a].rstrip().endswith("}"):
        b = a + 1
        while b < len(lines) - 1 and not lines[b].startswith("}"):
            b += 1
    return a, b


n = 0
main = next(i for i, l in enumerate(lines) if l.startswith("fn main"))
for i in sorted(bad):
    if i >= len(lines) or lines[i] == "":
        continue
    a, b = span(i)
    if re.match(r"(fn|use|impl|struct|enum|trait|static|const|type) ?", lines[a]) and not (a <= main <= b):
        print("left out: " + lines[a][:100])
        for k in range(a, b + 1):
            lines[k] = ""
        n += 1
open(path, "w").write("\n".join(lines))
sys.exit(0 if n else 1)
