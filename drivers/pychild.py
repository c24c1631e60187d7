"""Runs inside the interpreter that has the extension: one JSON request per line, one answer per line."""
import json, sys, threading, time

import math_core
from math_core import LatexError, LatexToMathML

LOCK = math_core._math_core_rust.LockError
ks = {}


def call(f):
    try:
        r = f()
        return {"ok": r} if isinstance(r, str) else {"list": r} if type(r) is list else {"none": r is None}
    except LatexError as e:
        return {"latex": str(e.args[0]), "sub": isinstance(e, Exception), "n": len(e.args)}
    except LOCK as e:
        return {"lock": str(e)}
    except BaseException as e:
        return {"raise": type(e).__name__, "mro": [c.__name__ for c in type(e).__mro__], "text": str(e)[:300]}


def new(q):
    ks.pop(q["k"], None)

    def f():
        ks[q["k"]] = LatexToMathML(*q.get("pos", []), **q["opts"])
    return call(f)


def do(k, o):
    op = o[0]
    if op == "g":
        return call(lambda: k.convert_with_global_state(o[1], displaystyle=o[2]))
    if op == "l":
        return call(lambda: k.convert_with_local_state(o[1], displaystyle=o[2]))
    if op == "all":
        v = [tuple(x) for x in o[1]]
        return call(lambda: k.convert_all(v if len(v) % 2 else tuple(v)))
    if op == "reset":
        return call(k.reset_global_state)


def threads(q):
    sys.setswitchinterval(q["switch"])
    n = len(q["scripts"])
    barrier = threading.Barrier(n)
    res = [[] for _ in range(n)]

    def body(i):
        barrier.wait()
        for k, o in q["scripts"][i]:
            t0 = time.perf_counter()
            a = do(ks[k], o)
            res[i].append((t0, time.perf_counter(), a))
    ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(q["patience"])
    if any(t.is_alive() for t in ts):
        return {"stuck": [len(r) for r in res]}
    return {"res": res}


for line in sys.stdin.buffer:
    q = json.loads(line)
    op = q["op"]
    if op == "new":
        a = new(q)
    elif op == "do":
        a = do(ks[q["k"]], q["o"])
    elif op == "threads":
        a = threads(q)
    elif op == "drop":
        ks.clear()
        a = {}
    sys.stdout.buffer.write(json.dumps(a).encode() + b"\n")
    sys.stdout.buffer.flush()
