"""Runs the tasks of one property: each in its own process, over all paths, with a hard time limit."""
import importlib
import multiprocessing as mp
import os
import sys
import time
import traceback

from .engine import Engine, Obligation


def run_one(t, repo, tier, conn):
    import resource
    sys.setrecursionlimit(20000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    res = {}

    def body():
        t0 = time.time()
        try:
            E = Engine(repo=repo, timeout_ms=t.timeout_ms * (3 if tier == "thorough" else 1))
            E.load_all()
            E.inline_log.clear(); E.contract_log.clear(); E.ext_log.clear()
            errs = [(m.name, e) for m in E.modules.values() for e in getattr(m, "load_errors", [])]
            E.max_seconds = t.max_seconds * (3 if tier == "thorough" else 1)
            if t.setup:
                t.setup(E)
            base_contracts = dict(E.contracts)
            base_loops = dict(E.loops)

            def thunk():
                E.contracts = dict(base_contracts)
                E.loops = dict(base_loops)
                t.run(E)
            # loop-role inference may have several candidates: accept the first that proves everything
            best = None
            for attempt in range(8):
                E.obligations, E.undecided = [], []
                E.role_options = {}
                E.explore(thunk, t.name)
                bad = len([o for o in E.obligations if o.status != "proved"]) + len(E.undecided)
                if best is None or bad < best[0]:
                    best = (bad, list(E.obligations), list(E.undecided))
                if bad == 0:
                    break
                nxt = None
                for k, n in E.role_options.items():
                    if E.role_choice.get(k, 0) + 1 < n:
                        nxt = k
                        break
                if nxt is None:
                    break
                E.role_choice[nxt] = E.role_choice.get(nxt, 0) + 1
            obs, und = best[1], best[2]
            res.update(ok=True, obligations=[(o.name, o.status, o.time, o.backend, o.detail) for o in obs],
                       undecided=und, inline=sorted(E.inline_log), contracts=sorted(E.contract_log),
                       ext=sorted(E.ext_log), loops=sorted(map(str, E.loop_log)), solver_time=E.solver_time,
                       wall=time.time() - t0, load_errors=[str(e) for e in errs])
        except BaseException as e:
            res.update(ok=False, error="%s: %s" % (type(e).__name__, e), trace=traceback.format_exc()[-3000:], wall=time.time() - t0)
    th = threading.Thread(target=body)
    th.start()
    th.join()
    conn.send(res)
    conn.close()


def run_tasks(tasks, repo, tier, jobs=8):
    """-> list of (task, result)"""
    ctx = mp.get_context("fork")
    pend = list(enumerate(tasks))
    live = []
    out = {}
    while pend or live:
        while pend and len(live) < jobs:
            k, t = pend.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=run_one, args=(t, repo, tier, b))
            p.start()
            b.close()
            live.append((k, t, p, a, time.time()))
        nl = []
        for k, t, p, a, t0 in live:
            lim = (t.max_seconds + 60) * (3 if tier == "thorough" else 1)
            if a.poll(0.02):
                try:
                    out[k] = a.recv()
                except EOFError:
                    out[k] = dict(ok=False, error="verifier process died", wall=time.time() - t0)
                p.join(5)
                if p.is_alive():
                    p.kill()
            elif not p.is_alive():
                out[k] = dict(ok=False, error="verifier process ended without a result (exit %s)" % p.exitcode, wall=time.time() - t0)
            elif time.time() - t0 > lim:
                p.kill()
                p.join()
                out[k] = dict(ok=False, error="verifier time limit (%ds)" % lim, wall=time.time() - t0)
            else:
                nl.append((k, t, p, a, t0))
        live = nl
    return [(t, out[k]) for k, t in enumerate(tasks)]
