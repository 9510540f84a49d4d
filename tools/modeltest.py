#!/usr/bin/env python3
"""Validation of the analyser's models of Python and numpy (not a check; it never touches the analysed package).

Runs small library programs (tools/modelcases.txt, one per paragraph) both in the abstract machine and in the real interpreter with numpy, and compares the results.
Usage: python3 tools/modeltest.py [filter]"""
import json
import os
import subprocess
import sys
import textwrap

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REAL = os.environ.get("MODELTEST_PYTHON", "/opt/venv-pypy/bin/python")

NORM = '''
def norm(x, depth=0):
    if isinstance(x, numpy.ma.MaskedArray):
        return ["ma", x.dtype.kind, list(x.shape), numpy.ma.getmaskarray(x).tolist(), norm(x.tolist(), depth + 1)]
    if isinstance(x, numpy.ndarray):
        if x.dtype.names is not None:
            return ["rec", list(x.dtype.names), list(x.shape), norm([list(y) for y in x.reshape(-1).tolist()], depth + 1)]
        return ["nd", x.dtype.kind, list(x.shape), norm(x.tolist(), depth + 1)]
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return x
    if isinstance(x, numpy.bool_):
        return bool(x)
    if isinstance(x, (int, numpy.integer)):
        return int(x)
    if isinstance(x, (float, numpy.floating)):
        return "f" + repr(float(x))
    if isinstance(x, bytes):
        return "bytes"
    if isinstance(x, (tuple, list)):
        return [type(x).__name__ if type(x) in (tuple, list) else "seq"] + [norm(y, depth + 1) for y in x]
    if isinstance(x, dict):
        return ["dict"] + [[norm(k, depth + 1), norm(v, depth + 1)] for k, v in x.items()]
    if isinstance(x, (set, frozenset)):
        return ["set"] + sorted([norm(k, depth + 1) for k in x], key=repr)
    if isinstance(x, type):
        return "type " + x.__name__
    return "object"
'''


def program(case):
    return "import numpy\nimport math\n" + NORM + "\ndef case():\n" + textwrap.indent(case, "    ") + "\n"


def cases():
    out = []
    for par in open(os.path.join(HERE, "modelcases.txt")).read().split("\n\n"):
        lines = [l for l in par.strip("\n").split("\n") if not l.startswith("#")]
        if not lines:
            continue
        if lines[0].startswith("* "):                      # every line is an expression of its own
            for l in lines:
                out.append("return " + l[2:])
        else:
            out.append("\n".join(lines))
    return out


RUNNER = '''
import sys, json, warnings
warnings.simplefilter("ignore")
for src in json.load(sys.stdin):
    ns = {}
    exec(src, ns)
    try:
        r = ["ok", ns["norm"](ns["case"]())]
    except Exception as e:
        r = ["raise", type(e).__name__]
    print(json.dumps(r))
'''


def where(a, b, path=""):
    """First place at which two results differ."""
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (p, q) in enumerate(zip(a, b)):
            if p != q:
                return where(p, q, path + "[%d]" % i)
    return "%s %s, model %s" % (path, json.dumps(a)[:300], json.dumps(b)[:300])


def main():
    cs = cases()
    if len(sys.argv) > 1:
        cs = [c for c in cs if sys.argv[1] in c]
    srcs = [program(c) for c in cs]
    real = [json.loads(l) for l in subprocess.run([REAL, "-W", "ignore", "-c", RUNNER], input=json.dumps(srcs), capture_output=True, text=True, check=True).stdout.splitlines()]
    from sa.harness import Analyser, host, Unsupported
    a = Analyser()
    bad = unsup = 0
    for c, s, r in zip(cs, srcs, real):
        try:
            res = list(a.run(s + "\nreturn norm(case())"))
        except Exception as e:
            a.machine = None
            print("CRASH", c.replace("\n", "; ")[:150], "|", repr(e)[:150])
            unsup += 1
            continue
        if len(res) != 1:
            print("PATHS", len(res), c)
            bad += 1
            continue
        _, (st, v), m = res[0]
        if st == "ok":
            got = ["ok", json.loads(json.dumps(host(m, v)))]
        elif st == "raise":
            got = ["raise", getattr(v, "name", None) or str(v)]
        else:
            got = [st, str(v)]
        if got[0] not in ("ok", "raise"):
            unsup += 1
            print("UNSUPPORTED", c.replace("\n", "; ")[:150], "|", got[1][:120])
        elif got != r and not (got[0] == r[0] == "raise"):
            bad += 1
            print("DIFFERS", c.replace("\n", "; ")[:300], "\n    real ", where(r, got), "\n    model", "")
    print("%d cases, %d differ, %d unsupported" % (len(cs), bad, unsup))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
