"""Stands in for z3 when cbmc calls it (see solver_env in run.py).

  z3shim.py REAL-Z3 DEFINE ...arguments cbmc gives z3, the file last

cbmc ends its file by asking for the value of every symbol; that can take z3
far longer than the verdict and is useless when that is "unsat", so the verdict
is asked for first.  With DEFINE=1 a symbol that is declared and at once
equated with a term is turned into a definition, which is the same formula but
spares z3 solving tens of thousands of equations."""
import os
import re
import subprocess
import sys

z3, define, args = sys.argv[1], sys.argv[2] == "1", sys.argv[3:]
f = args[-1]
lines = open(f).read().split("\n")
if define:
    out, i = [], 0
    pat = re.compile(r"^\(declare-fun (\|[^|]*\||\S+) \(\) (.*)\)$")
    while i < len(lines):
        m = pat.match(lines[i])
        if m and i + 1 < len(lines):
            head = f"(assert (= {m.group(1)} "
            nxt = lines[i + 1]
            if nxt.startswith(head) and nxt.endswith("))") and nxt.count(m.group(1) if m.group(1)[0] == "|" else m.group(1) + " ") == 1:
                body = nxt[len(head):-2]
                d, q, ok = 0, False, True       # one balanced term?
                for k, c in enumerate(body):
                    if c == "|":
                        q = not q
                    if q:
                        continue
                    d += (c == "(") - (c == ")")
                    if d < 0 or (d == 0 and c == " "):
                        ok = False
                        break
                if ok and d == 0 and not q:
                    out.append(f"(define-fun {m.group(1)} () {m.group(2)} {body})")
                    i += 2
                    continue
        out.append(lines[i])
        i += 1
    lines = out
q = f + ".q.smt2"
try:
    with open(q, "w") as o:
        o.write("\n".join(x for x in lines if not x.startswith("(get-value")))
    r = subprocess.run([z3, "-smt2", q], capture_output=True, text=True)
    if r.stdout.strip() == "unsat":
        print("unsat")
        sys.exit(0)
    if not define:
        os.execvp(z3, [z3] + args)
    with open(q, "w") as o:
        o.write("\n".join(lines))
    r = subprocess.run([z3, "-smt2", q], capture_output=True, text=True)
    sys.stdout.write(r.stdout)
    sys.stderr.write(r.stderr)
    sys.exit(r.returncode)
finally:
    if os.path.exists(q):
        os.unlink(q)
