"""Replay server: runs harness cases on the ordinary (un-instrumented) pyuvdata.

Requests (JSON lines on stdin): {"prop", "case", "values"}.  Each is served in
a forked child with a time limit.  Reply: {"status": ok|violated|error|assume|
timeout, "msg": ...}.
"""
import importlib
import json
import os
import select
import signal
import sys
import time
import traceback
import warnings


def run_one(prop, casename, values):
    from symx import harness as H

    c = next(c for c in H.CASES[prop] if c.name == casename)
    S = H.ConcS(values)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            c.fn(S, **c.params)
    except H.AssumeFailed:
        return {"status": "assume", "msg": ""}
    except H.Violated as v:
        return {"status": "violated", "msg": v.msg}
    except Exception as err:
        tb = traceback.format_exc().splitlines()
        return {"status": "error", "msg": f"{type(err).__name__}: {err}", "tb": tb[-12:]}
    return {"status": "ok", "msg": "", "obligations": S.obligations}


def serve(limit=120):
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    for line in sys.stdin:
        req = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                res = run_one(req["prop"], req["case"], req["values"])
            except BaseException as err:  # noqa
                res = {"status": "internal", "msg": repr(err)}
            os.write(w, json.dumps(res).encode())
            os._exit(0)
        os.close(w)
        t0 = time.time()
        buf = b""
        res = None
        while True:
            left = limit - (time.time() - t0)
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                res = {"status": "timeout", "msg": f"no answer within {limit} s"}
                break
            rd, _, _ = select.select([r], [], [], left)
            if rd:
                chunk = os.read(r, 65536)
                if not chunk:
                    break
                buf += chunk
        os.close(r)
        _, st = os.waitpid(pid, 0)
        if res is None:
            res = json.loads(buf) if buf else {"status": "crash", "msg": f"wait status {st}"}
        out.write(json.dumps(res) + "\n")
        out.flush()


def main():
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    warnings.simplefilter("ignore")
    mods = sys.argv[1].split(",")
    for m in mods:
        importlib.import_module(m)
    if len(sys.argv) > 2:  # replay a saved counterexample file
        req = json.load(open(sys.argv[2]))
        res = run_one(req["property"], req["case"], req["values"])
        print(json.dumps(res, indent=1))
        sys.exit(1 if res["status"] in ("violated", "error", "crash") else 0)
    serve()


if __name__ == "__main__":
    main()
