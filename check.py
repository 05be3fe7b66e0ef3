"""Decides one property: proves its contracts on /repo's current source, and looks for failing inputs.

usage: python3-vt check.py Cxx [--tier quick|thorough]
Exit 0: every obligation proved and no failing input found. Exit 1: a VIOLATION line was printed.
"""
import argparse
import ast
import hashlib
import importlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else "python3"

ENGINE_TRUST = [
    "pyvc itself: the verifier's reading of Python (evaluation order, method resolution, generators, exceptions, dict order) is trusted",
    "machine floats are read as exact real numbers; int is mathematical",
    "z3 4.8+/cvc5 verdicts 'unsat' are trusted",
]


def refute(prop, seed, seconds, out):
    env = dict(os.environ, PYTHONPATH=REPO + ":" + HERE, PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=REPO, PYTHONHASHSEED="0", MPLBACKEND="Agg")
    cmd = [PY, "-m", "refute", prop, "--seed", str(seed), "--seconds", str(seconds), "--out", out]
    try:
        p = subprocess.run(cmd, env=env, cwd="/tmp", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=seconds * 4 + 150)
        txt = p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return dict(error="time limit", cases=0, checks=0, failures=[], harness=[])
    try:
        res = json.load(open(out))
        os.unlink(out)
        return res
    except Exception:
        return dict(error=txt[-2000:], cases=0, checks=0, failures=[], harness=[])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = os.environ.get("VERIF_SEED", "1")
    t0 = time.time()
    from pyvc.runner import run_tasks
    mod = importlib.import_module("contracts." + prop.lower())
    results = run_tasks(mod.REG, REPO, tier)
    per, bad, nob, ndis, backends, solver = [], [], 0, 0, {}, 0.0
    inline, contr, ext = set(), set(), set()
    nb = nbd = 0
    for t, r in results:
        entry = dict(task=t.name, functions=t.functions)
        if getattr(t, "bounded", None):
            entry["bounded"] = t.bounded
        if not r.get("ok"):
            bad.append(("%s: %s" % (t.name, r.get("error")), r.get("trace", "")))
            entry["error"] = r.get("error")
            nob += 1
            per.append(entry)
            continue
        obs = r["obligations"]
        pr = [o for o in obs if o[1] == "proved"]
        entry.update(obligations=len(obs), discharged=len(pr), wall_s=round(r["wall"], 2), solver_s=round(r["solver_time"], 2),
                     names=sorted(set(o[0] for o in obs)))
        if entry.get("bounded"):
            nb += len(obs) + len(r["undecided"])
            nbd += len(pr)
        else:
            nob += len(obs) + len(r["undecided"])
            ndis += len(pr)
        solver += r["solver_time"]
        inline |= set(r["inline"])
        contr |= set(r["contracts"])
        ext |= set(r["ext"])
        for o in pr:
            backends[o[3]] = backends.get(o[3], 0) + 1
        for o in obs:
            if o[1] != "proved":
                bad.append(("%s: %s" % (t.name, o[0]), "%s\n%s" % (o[1], o[4])))
        for u in r["undecided"]:
            bad.append(("%s: undecided" % t.name, str(u)))
        if not obs:
            bad.append(("%s: no obligation generated" % t.name, ""))
        if r["load_errors"]:
            bad.append(("%s: module not loaded" % t.name, str(r["load_errors"])))
        per.append(entry)
    proved = not bad and nob > 0 and nob == ndis
    budget = (20 if tier == "thorough" else 6) if proved else (240 if tier == "thorough" else 90)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
    rf = dict(cases=0, checks=0, failures=[], harness=[])
    if os.path.exists(os.path.join(HERE, "refute", prop.lower() + ".py")):
        rf = refute(prop, seed, budget, "/tmp/refute.%s.%d.json" % (prop, os.getpid()))
    viol = []
    known = known_findings(prop)
    fails = []
    for f in rf["failures"]:
        k = [x for x in known if x["match"] in f["what"]]
        if k:
            print("KNOWN-FINDING: property=%s %s" % (prop, k[0]["what"]))
        else:
            fails.append(f)
    out = []
    if fails or bad:
        names = [b[0] for b in bad]
        path = os.path.join(HERE, "replay", "%s-%s.json" % (prop, hashlib.sha1(json.dumps([fails, names], default=repr).encode()).hexdigest()[:10]))
        rec = dict(property=prop, failed_obligations=names[:40], verifier_output=[b[1] for b in bad][:10], failing_inputs=fails,
                   replay=["cd /tmp && PYTHONPATH=%s:%s PYTHONHASHSEED=0 VERIF_REPO=%s %s -m refute %s --case %s --round %d --seed %s" % (REPO, HERE, REPO, PY, prop, f["case"], f["round"], f["seed"]) for f in fails])
        json.dump(rec, open(path, "w"), indent=1, default=repr)
        for nm in sorted(set(names))[:10]:
            print("failed obligation: %s" % nm)
        for f in fails[:3]:
            print("failing input: %s: %s %s" % (f["case"], f["what"], json.dumps(f["inputs"], default=repr)[:1500]))
        out.append("VIOLATION property=%s replay=%s%s" % (prop, path, "" if fails else " no-failing-input-found"))
        viol.append(dict(replay=path, failed_obligations=names[:40], failing_inputs=[f["what"] for f in fails]))
    ev = dict(property=prop, tier=tier, seed=int(seed) if seed.isdigit() else 0, level="proof",
              coverage=dict(obligations=nob, discharged=ndis,
                            checker_cmd="python3-vt /verif/check.py %s --tier %s" % (prop, tier),
                            trusted_base=ENGINE_TRUST + list(getattr(mod, "TRUST", [])) + ["library/external functions used through the verifier's model: " + ", ".join(sorted(ext))],
                            bounded_obligations=nb, bounded_obligations_discharged=nbd,
                            functions_under_contract=sorted(set(f for t in mod.REG for f in t.functions if not getattr(t, 'bounded', None))),
                            functions_bounded_only=sorted(set(f for t in mod.REG for f in t.functions if getattr(t, 'bounded', None)) - set(f for t in mod.REG for f in t.functions if not getattr(t, 'bounded', None))),
                            functions_executed_from_source=sorted(inline),
                            contracts_used_at_calls=sorted(contr),
                            violations_reported=viol, back_ends=backends, solver_time_s=round(solver, 2), tasks=per,
                            bounded_cross_check=dict(note="real code run on drawn inputs against an executable oracle; bounded, counts nothing towards the proof",
                                                     cases=rf.get("cases", 0), checks=rf.get("checks", 0), per_case=rf.get("per_case", {}),
                                                     harness_errors=rf.get("harness", []), error=rf.get("error"))),
              assumptions=list(getattr(mod, "ASSUME", [])) + ENGINE_TRUST,
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, default=repr)
    print("%s: %d obligations, %d discharged (%s), %d undecided/failed, refuter %d cases %d checks%s, %.1f s" % (
        prop, nob, ndis, ", ".join("%s %d" % x for x in sorted(backends.items())), len(bad), rf.get("cases", 0), rf.get("checks", 0),
        (", %d harness errors" % len(rf["harness"])) if rf.get("harness") else "", time.time() - t0))
    if rf.get("error"):
        print("refuter: " + rf["error"][-600:])
    for l in out:
        print(l)
    sys.stdout.flush()
    os._exit(1 if out else 0)


def known_findings(prop):
    p = os.path.join(HERE, "known_findings.txt")
    res = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)          # lines starting with "fixed:" suppress nothing
                if d.get("property") == prop and d.get("match"):
                    res.append(d)
    return res


if __name__ == "__main__":
    main()
