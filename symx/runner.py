"""Runs the harness cases of one property and writes its evidence file."""
import importlib
import json
import os
import pickle
import re
import select
import signal
import subprocess
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get("SYMX_JOBS", "8"))
SLICE = 4.0


def explore(case, prefix, slice_s, timeout_ms, nwit):
    """Explore one subtree of one case for about slice_s seconds."""
    from symx import core as C, harness as H, hook

    hook.CALLED.clear()
    eng = C.Engine(timeout_ms=timeout_ms)
    eng.trail = [[[v]] for v in prefix]
    out = dict(found=[], limited=[], wit=[], reached=0, jobs=[], covered=set(), vac=0)
    t0 = time.time()
    first = True
    while True:
        eng.begin()
        C._CUR[0] = eng
        # the first path of a slice always runs to its end
        S = H.SymS(eng)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                case.fn(S, **case.params)
            eng.stats["paths"] += 1
            if S.reached:
                out["reached"] += 1
            out["covered"] |= S.covered
            if len(out["wit"]) < nwit:
                m = eng.path_model()
                if m is not None:
                    out["wit"].append(m)
        except C.PathDone:
            eng.stats["infeasible"] += 1
        except C.Found as f:
            eng.stats["paths"] += 1
            out["reached"] += 1
            out["found"].append((f.msg, f.model))
        except C.Unsupported as err:
            eng.stats["limited"] += 1
            m = eng.path_model()
            if len(out["limited"]) < 20:
                out["limited"].append((f"unsupported: {err} @ {_where()}", m))
        except RecursionError:
            eng.stats["limited"] += 1
            out["limited"].append(("recursion", eng.path_model()))
        except Exception as err:
            eng.stats["limited"] += 1
            m = eng.path_model()
            if m is None:
                eng.stats["infeasible"] += 1
            elif len(out["limited"]) < 20:
                out["limited"].append((f"exception {type(err).__name__}: {err} @ {_where()}", m))
        finally:
            C._CUR[0] = None
        if len(out["found"]) >= 3 or len(out["limited"]) >= 20:
            # enough to replay; give the rest back
            slice_s = 0
        # advance within the free part of the trail only
        more = False
        while len(eng.trail) > len(prefix):
            eng.trail[-1][0].pop()
            if eng.trail[-1][0]:
                more = True
                break
            eng.trail.pop()
        if not more:
            break
        if time.time() - t0 > slice_s:
            for i in range(len(prefix), len(eng.trail)):
                opts = eng.trail[i][0]
                head = [t[0][-1] for t in eng.trail[:i]]
                last = i == len(eng.trail) - 1
                for o in (opts if last else opts[:-1]):
                    out["jobs"].append(head + [o])
            break
    out["stats"] = eng.stats
    out["unknown"] = eng.unknown_msgs
    out["called"] = dict(hook.CALLED)
    return out


def _where():
    tb = sys.exc_info()[2]
    fr = [f for f in traceback.extract_tb(tb) if "/repo/" in f.filename or "/props/" in f.filename]
    return "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in fr[-3:])


class Replayer:
    def __init__(self, mod):
        env = dict(os.environ, PYTHONPATH=os.pathsep.join(
            p for p in (VERIF, os.environ.get("SYMX_REPO_SRC")) if p), PYTHONHASHSEED="0")
        self.p = subprocess.Popen([sys.executable, "-m", "symx.replayd", mod], cwd=VERIF,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env,
                                  stderr=subprocess.DEVNULL)

    def send(self, prop, case, values):
        self.p.stdin.write((json.dumps({"prop": prop, "case": case, "values": values})
                            + "\n").encode())
        self.p.stdin.flush()

    def run(self, prop, case, values):
        self.send(prop, case, values)
        return self.get()

    def get(self):
        line = self.p.stdout.readline()
        if not line:
            return {"status": "internal", "msg": "replay server died"}
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        self.p.kill()


def load_findings():
    path = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(path):
        return []
    return [f for f in json.load(open(path)) if f.get("status") == "known"]


def is_known(findings, prop, case, msg, values):
    for f in findings:
        if f["property"] != prop or not re.search(f["case"], case):
            continue
        if not re.search(f["message"], msg):
            continue
        return f
    return None


def run(prop, tier, mod, budget, title="", assumptions=(), only=None, verbose=False):
    from symx import harness as H, hook

    t_start = time.time()
    rep = Replayer(mod)
    wits = {r.p.stdout.fileno(): [r, None] for r in (Replayer(mod) for _ in range(6))}
    wqueue = []

    def witnesses(block=False):
        """replay the witnesses of finished paths beside the exploration"""
        nonlocal validated
        while True:
            for slot in wits.values():
                if slot[1] is None and wqueue:
                    slot[1] = wqueue.pop(0)
                    slot[0].send(prop, cases[slot[1][0]].name, slot[1][1])
            busy = [fd for fd, slot in wits.items() if slot[1] is not None]
            if not busy:
                return
            rd, _, _ = select.select(busy, [], [], 1.0 if block else 0)
            for fd in rd:
                slot = wits[fd]
                (i, w), r = slot[1], slot[0].get()
                slot[1] = None
                if r["status"] == "ok":
                    validated += 1
                elif r["status"] != "assume":
                    # the real code fails where the encoding passed
                    confirm(cases[i], i, "witness", w, r)
            if not rd and not block or ended:
                return

    hook.install()
    for n in ("pyuvdata",):
        importlib.import_module(n)
    importlib.import_module(mod)
    cases = [c for c in H.CASES.get(prop, []) if tier == "thorough" or c.tier == "quick"]
    if only:
        cases = [c for c in cases if re.search(only, c.name)]
    assert cases, f"no cases for {prop}"
    # build shared fixtures once before forking, by a dry warm-up import hook
    for f in getattr(sys.modules[mod], "WARM", []):
        f()
    timeout_ms = 20000 if tier == "quick" else 60000
    findings = load_findings()

    queue = [(i, [], True) for i in range(len(cases))]
    running = {}
    agg = {}
    per = [dict(paths=0, reached=0, wit=[], limited=[], nlimited=0, candidates=0, cov=set())
           for _ in cases]
    called = {}
    unknown, unconfirmed, timeouts, violations, known = [], [], [], [], []
    validated = mism = 0
    stop_case = set()
    ended = False

    def handle(i, res):
        nonlocal validated, mism, ended
        c, p = cases[i], per[i]
        for k, v in res["stats"].items():
            agg[k] = agg.get(k, 0) + v
        for k, v in res["called"].items():
            called[k] = called.get(k, 0) + v
        p["paths"] += res["stats"]["paths"]
        p["reached"] += res["reached"]
        p["nlimited"] += res["stats"]["limited"]
        p["cov"] |= res["covered"]
        for m in res["unknown"]:
            unknown.append((c.name, m))
        for j in res["jobs"]:
            if i not in stop_case:
                queue.append((i, j, False))
        for w in res["wit"]:
            if len(p["wit"]) < 3:
                p["wit"].append(w)
                wqueue.append((i, w))
        for why, m in res["limited"]:
            if len(p["limited"]) < 10:
                p["limited"].append(why)
            if m is None or (len(p["limited"]) >= 40):
                continue
            r = rep.run(prop, c.name, m)
            if r["status"] in ("violated", "error", "crash"):
                confirm(c, i, why, m, r)
        for msg, models in res["found"]:
            p["candidates"] += 1
            ok = False
            last = None
            for m in models:
                r = rep.run(prop, c.name, m)
                last = r
                if r["status"] in ("violated", "error", "crash"):
                    confirm(c, i, msg, m, r)
                    ok = True
                    break
            if not ok:
                unconfirmed.append((c.name, msg, models[0], last))
            if p["candidates"] >= 6:
                stop_case.add(i)

    def confirm(c, i, msg, values, r):
        nonlocal ended
        k = is_known(findings, prop, c.name, r["msg"] or msg, values)
        if k:
            if k not in known:
                known.append(k)
            return
        violations.append((c.name, msg, values, r))
        stop_case.add(i)
        ended = True

    while (queue or running) and not ended:
        while queue and len(running) < NPROC:
            i, prefix, fresh = queue.pop(0)
            if i in stop_case:
                continue
            rfd, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rfd)
                try:
                    signal.signal(signal.SIGINT, signal.SIG_DFL)
                    sl = SLICE if len(queue) + len(running) < 4 * NPROC else 4 * SLICE
                    res = explore(cases[i], prefix, sl, timeout_ms, 3 if fresh else 0)
                except BaseException as err:  # noqa
                    res = dict(err=traceback.format_exc())
                with os.fdopen(wfd, "wb") as fh:
                    pickle.dump(res, fh)
                os._exit(0)
            os.close(wfd)
            running[rfd] = (pid, i, time.time(), bytearray(), prefix)
        if not running:
            break
        rd, _, _ = select.select(list(running), [], [], 1.0)
        witnesses()
        now = time.time()
        for fd in list(running):
            pid, i, t0, buf, prefix = running[fd]
            if fd in rd:
                chunk = os.read(fd, 1 << 20)
                if chunk:
                    buf += chunk
                    continue
                os.close(fd)
                os.waitpid(pid, 0)
                del running[fd]
                res = pickle.loads(bytes(buf)) if buf else dict(err="worker died")
                if "err" in res:
                    timeouts.append((cases[i].name, res["err"][-1500:]))
                    continue
                handle(i, res)
                if verbose:
                    print(f"  {now - t_start:6.1f}s {cases[i].name} paths={res['stats']['paths']}"
                          f" lim={res['stats']['limited']} jobs={len(res['jobs'])}"
                          f" q={len(queue)} took={now - t0:.1f}", file=sys.stderr)
                if ended:
                    break
            elif now - t0 > max(400, budget / 2):
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                del running[fd]
                timeouts.append((cases[i].name, "one path exceeded its time limit"))
        if now - t_start > budget:
            for i, prefix, _ in queue:
                timeouts.append((cases[i].name, f"not reached within {budget} s"))
            queue.clear()
            for fd in list(running):
                pid, i = running[fd][:2]
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                timeouts.append((cases[i].name, f"still running after {budget} s"))
            running.clear()
            break
    for fd in list(running):
        pid = running[fd][0]
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
    if not ended:
        witnesses(block=True)
    rep.close()
    for slot in wits.values():
        slot[0].close()

    vac = [] if ended else [c.name for c, p in zip(cases, per)
                            if not p["reached"] and not p["nlimited"]
                            and c.name not in {t[0] for t in timeouts}]
    wall = time.time() - t_start
    funcs = sorted(k for k in called if k.startswith("pyuvdata."))
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "model_checking",
        "coverage": {
            "states": agg.get("paths", 0),
            "transitions": agg.get("forks", 0),
            "traces_validated_against_impl": validated,
            "samples": [{"case": c.name, "witness": {k: p["wit"][0][k] for k in list(p["wit"][0])[:40]}}
                        for c, p in list(zip(cases, per))[:200:max(1, len(cases) // 5)] if p["wit"]],
            "meaning": "states = symbolic paths explored to their end; transitions = forks taken "
                       "with both sides feasible; traces_validated = solver models of finished "
                       "paths replayed on the un-instrumented code with every assertion passing",
            "cases": len(cases),
            "functions_encoded": funcs,
            "obligations": agg.get("obligations", 0),
            "solver_queries": agg.get("queries", 0),
            "branch_queries": agg.get("branch_queries", 0),
            "solver_s": round(agg.get("solver_s", 0.0), 2),
            "infeasible_paths": agg.get("infeasible", 0),
            "limited_paths": agg.get("limited", 0),
            "limited_reasons": sorted({w[:200] for p in per for w in p["limited"]})[:20],
            "unknown_obligations": [f"{a}: {b}" for a, b in unknown][:20],
            "unconfirmed_counterexamples": [f"{a}: {b}" for a, b, _, _ in unconfirmed][:20],
            "timeouts": [f"{a}: {b}"[:300] for a, b in timeouts][:20],
            "bounds": sorted({c.bounds for c in cases if c.bounds}),
            "exhaustive_within_bounds": not (timeouts or unknown or agg.get("limited", 0)),
        },
        "assumptions": list(assumptions),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print(f"{prop} {tier}: {len(cases)} cases, {agg.get('paths', 0)} paths, "
          f"{agg.get('obligations', 0)} obligations, {agg.get('limited', 0)} limited, "
          f"{len(unknown)} unknown, {len(unconfirmed)} unconfirmed, {validated} validated, "
          f"{wall:.1f}s")
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if violations:
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        for n, (cn, msg, values, r) in enumerate(violations[:3]):
            path = os.path.join(d, f"{prop}_{n}.json")
            with open(path, "w") as fh:
                json.dump({"property": prop, "case": cn, "module": mod, "message": msg,
                           "values": values, "replay_result": r,
                           "replay_cmd": f"bin/replay evidence/replay/{prop}_{n}.json"}, fh, indent=1)
            print(f"  case {cn}: {msg}\n  replay: {r['status']}: {r['msg']}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    bad = False
    for a, b, m, last in unconfirmed[:10]:
        print(f"UNCONFIRMED {a}: {b}: {last}")
        if verbose:
            print(m)
        bad = True
    for a, b in unknown[:10]:
        print(f"UNKNOWN {a}: {b}")
        bad = True
    for a, b in timeouts[:10]:
        print(f"TIMEOUT {a}: {b}")
        bad = True
    for a in vac:
        print(f"VACUOUS {a}")
        bad = True
    if verbose or agg.get("limited"):
        for c, p in zip(cases, per):
            for w in p["limited"][:3]:
                print(f"LIMITED {c.name}: {w}")
    if bad:
        print(f"INCOMPLETE {prop}: no violation in what was explored, but not everything was decided")
    if os.environ.get("SYMX_STRICT") or not agg.get("obligations"):
        return 2 if bad or not agg.get("obligations") else 0
    return 0
