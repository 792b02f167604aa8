"""Batch runner: seeded runs in isolated forks, minimisation, replay files, evidence.

  python -m sim.runner P01 [--tier quick|thorough] [--runs N] [--workers N] [--replay FILE] [--only I] [--digests]

Exit 0: the property held on everything explored. Exit 1 and a VIOLATION line: it is broken.
Any other exit is an error of the machinery.
"""
import argparse
import fcntl
import hashlib
import importlib
import json
import mmap
import os
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

T0 = time.monotonic()
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
real_monotonic = time.monotonic


def load_check(pid):
    mod = importlib.import_module(f"sim.checks.{pid.lower()}")
    return mod.CHECK


def verify_target():
    import lightcurvelynx

    from sim.core import PKG_DIR, HarnessError

    if not os.path.abspath(lightcurvelynx.__file__).startswith(PKG_DIR):
        raise HarnessError(f"imported {lightcurvelynx.__file__}, expected the tree under {PKG_DIR}")


# --------------------------------------------------------------------------------------------------
def child_body(check, scn):
    from sim import core

    run = core.Run()
    res = {"violation": None, "error": None}
    try:
        check.execute(scn, run)
    except core.Violation as v:
        res["violation"] = {"kind": v.kind, "detail": v.detail, "sig": v.sig}
    except core.HarnessError as e:
        res["error"] = "".join(traceback.format_exception(e))[-3000:]
    except BaseException as e:  # noqa: BLE001
        frames = traceback.extract_tb(e.__traceback__)
        if any(f.filename.startswith(core.PKG_DIR) for f in frames) and not isinstance(e, SystemExit):
            res["violation"] = {"kind": "unexpected-exception", "detail": core.short_tb(e),
                                "sig": "unexpected-exception:" + type(e).__name__}
            res["trace"] = "".join(traceback.format_exception(e))[-3000:]
        else:
            res["error"] = "".join(traceback.format_exception(e))[-3000:]
    if res["violation"] and run.refined is not None:
        res["refined"] = run.refined
    res.update(faults=run.faults, probes=run.probes, states=sorted(run.states), nontrivial=run.nontrivial,
               simtime=run.simtime, ops=run.ops)
    res["log"] = hashlib.sha256(
        json.dumps([core.canon(run.log), run.faults, run.probes, res["violation"]], sort_keys=True,
                   default=repr).encode()).hexdigest()[:16]
    if res["violation"] and os.environ.get("VERIF_LIST"):
        with open(os.environ["VERIF_LIST"], "a") as f:
            f.write(json.dumps([res["violation"], scn], default=repr) + "\n")
    if os.environ.get("VERIF_DUMPLOG"):
        core.eprint(json.dumps([core.canon(run.log), run.faults, run.probes, res["violation"]], indent=1, default=repr))
    return res


def spawn(check, scn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            if not os.environ.get("VERIF_SHOW"):
                dn = os.open(os.devnull, os.O_RDWR)
                os.dup2(dn, 1)
                if not os.environ.get("VERIF_DUMPLOG"):
                    os.dup2(dn, 2)
            res = child_body(check, scn)
            data = json.dumps(res, default=repr).encode()
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:  # noqa: BLE001
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    return pid, r


def collect(pid, r, limit):
    """Read the child's result; a run that exceeds its wall limit is ended and reported as a hang."""
    buf = b""
    end = real_monotonic() + limit
    hung = False
    while True:
        left = end - real_monotonic()
        if left <= 0:
            hung = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if ready:
            chunk = os.read(r, 1 << 20)
            if not chunk:
                break
            buf += chunk
    if hung:
        try:
            os.killpg(pid, signal.SIGKILL)
        except ProcessLookupError:
            os.kill(pid, signal.SIGKILL)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    base = {"violation": None, "error": None, "faults": {}, "probes": {}, "states": [], "nontrivial": True,
            "simtime": 0.0, "ops": 0, "log": ""}
    if hung:
        base["violation"] = {"kind": "no-progress", "detail": f"run did not finish within {limit} s", "sig": "no-progress"}
        return base
    if status != 0 or not buf:
        base["error"] = f"run process ended with status {status}"
        return base
    return json.loads(buf)


def run_one(check, scn):
    return collect(*spawn(check, scn), check.LIMIT)


def scenario(check, seed, i, tier):
    from sim.core import Prng

    scn = check.generate(Prng("run", check.ID, seed, i), i, tier)
    return json.loads(json.dumps(scn))


def batch(check, seed, tier, n, workers, budget):
    """All runs of the batch; results keyed by run index, whatever the worker count."""
    tmp = tempfile.mkdtemp(prefix="vbatch")
    pids = []
    counter = mmap.mmap(-1, 8)

    def take():
        with open(os.path.join(tmp, "lock"), "w") as lk:
            fcntl.lockf(lk, fcntl.LOCK_EX)
            i = int.from_bytes(counter[:8], "big")
            counter[:8] = (i + 1).to_bytes(8, "big")
            return i

    for w in range(workers):
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                with open(os.path.join(tmp, str(w)), "w") as f:
                    while (i := take()) < n:
                        if real_monotonic() - T0 > budget:
                            break
                        if os.path.exists(os.path.join(tmp, "stop")):
                            break
                        t = real_monotonic()
                        try:
                            scn = scenario(check, seed, i, tier)
                            res = run_one(check, scn)
                        except Exception as e:  # noqa: BLE001
                            res = {"violation": None, "error": "".join(traceback.format_exception(e))[-3000:]}
                        res["i"] = i
                        res["wall"] = real_monotonic() - t
                        f.write(json.dumps(res) + "\n")
                        f.flush()
                        if res.get("violation") and len(os.listdir(tmp)) < 10**6:
                            # enough evidence once a worker has seen several violations
                            with open(os.path.join(tmp, f"v{w}"), "a") as g:
                                g.write("x")
                            if os.path.getsize(os.path.join(tmp, f"v{w}")) >= check.STOP_AFTER:
                                open(os.path.join(tmp, "stop"), "w").close()
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        pids.append(pid)
    bad = 0
    for pid in pids:
        _, st = os.waitpid(pid, 0)
        bad += st != 0
    out = {}
    for w in range(workers):
        p = os.path.join(tmp, str(w))
        if os.path.exists(p):
            for line in open(p):
                r = json.loads(line)
                out[r["i"]] = r
    shutil.rmtree(tmp)
    if bad:
        raise RuntimeError(f"{bad} workers failed")
    return out


def minimise(check, scn, violation, workers, budget_s):
    """Greedy shrink: accept a candidate when the same violation signature persists."""
    end = real_monotonic() + budget_s
    steps = tried = 0
    cur = scn
    res = run_one(check, scn)
    if res.get("refined"):
        # the same execution with its schedule written out, so that the schedule can be shrunk too
        ref = run_one(check, res["refined"])
        if ref["violation"] and ref["violation"]["sig"] == violation["sig"]:
            cur, violation = res["refined"], ref["violation"]
    progress = True
    while progress and real_monotonic() < end:
        progress = False
        cands = []
        seen = {json.dumps(cur, sort_keys=True)}
        for c in check.shrink(cur):
            c = json.loads(json.dumps(c))
            k = json.dumps(c, sort_keys=True)
            if k not in seen:
                seen.add(k)
                cands.append(c)
        for b in range(0, len(cands), workers):
            if real_monotonic() > end:
                break
            group = cands[b:b + workers]
            procs = [spawn(check, c) for c in group]
            results = [collect(pid, r, check.LIMIT) for pid, r in procs]
            tried += len(group)
            hit = next((j for j, r in enumerate(results) if r["violation"] and r["violation"]["sig"] == violation["sig"]), None)
            if hit is not None:
                cur = group[hit]
                violation = results[hit]["violation"]
                steps += 1
                progress = True
                break
    return cur, violation, steps, tried


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))["findings"] if f["property"] == pid]


def matches(finding, violation):
    return bool(violation) and violation["sig"] == finding["sig"] and finding.get("contains", "") in violation["detail"]


# --------------------------------------------------------------------------------------------------
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "8")))
    ap.add_argument("--replay")
    ap.add_argument("--only", type=int)
    ap.add_argument("--digests", action="store_true")
    ap.add_argument("--no-min", action="store_true")
    ap.add_argument("--budget", type=float)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    check = load_check(a.prop)
    pre = getattr(check, "PRELOAD", None)
    if pre and os.environ.get("VERIF_PRELOADED") != "1":
        lib = pre()
        env = dict(os.environ, LD_PRELOAD=lib, VERIF_PRELOADED="1")
        os.execve(sys.executable, [sys.executable, "-m", "sim.runner", *sys.argv[1:]], env)
    scratch = tempfile.mkdtemp(prefix="verif-" + check.ID + "-")
    os.environ["VERIF_SCRATCH"] = scratch
    for v in ("HOME", "XDG_CACHE_HOME", "XDG_CONFIG_HOME", "TMPDIR", "ASTROPY_CACHE_DIR"):
        d = os.path.join(scratch, v.lower())
        os.makedirs(d)
        os.environ[v] = d
    tempfile.tempdir = None
    try:
        return body(a, check, seed)
    finally:
        if os.path.basename(scratch).startswith("verif-"):
            shutil.rmtree(scratch, ignore_errors=True)


def write_replay(check, seed, i, scn, violation, extra):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    tag = hashlib.sha256(json.dumps(scn, sort_keys=True).encode()).hexdigest()[:8]
    path = os.path.join(d, f"{check.ID}-{violation['kind'].replace('/', '_')[:40]}-{tag}.json")
    with open(path, "w") as f:
        json.dump({"property": check.ID, "seed": seed, "run": i, "violation": violation, "scenario": scn, **extra}, f, indent=1)
    return path


def body(a, check, seed):
    from sim import core

    if getattr(check, "SIMLOCKS", False):
        from sim import sched

        sched.install_locks()
    verify_target()
    if hasattr(check, "prepare"):
        check.prepare()
    cold = None
    try:
        check.warm()
    except Exception as e:  # noqa: BLE001
        # The package cannot do what the warm-up asks of it. The runs say whether that breaks the property.
        cold = "".join(traceback.format_exception(e))[-3000:]
    if hasattr(check, "ready"):
        check.ready()
    if os.environ.get("VERIF_WALLS"):
        core.eprint("ready after", real_monotonic() - T0)
    if a.replay:
        rep = json.load(open(a.replay))
        res = run_one(check, rep["scenario"])
        if res["error"]:
            core.eprint(res["error"])
            return 2
        v = res["violation"]
        if v:
            print(json.dumps({"violation": v, "log": res["log"]}))
            print(f"VIOLATION property={check.ID} replay={a.replay}")
            return 1
        print("replay: no violation")
        return 0
    if a.only is not None:
        scn = scenario(check, seed, a.only, a.tier)
        print(json.dumps(scn, indent=1))
        res = run_one(check, scn)
        print(json.dumps({k: v for k, v in res.items() if k != "states"}, indent=1))
        return 1 if res["violation"] else 2 if res["error"] else 0

    n = a.runs or check.RUNS[a.tier]
    budget = a.budget or (700 if a.tier == "quick" else 3000)
    findings = known_findings(check.ID)
    for f in findings:
        res = run_one(check, f["scenario"])
        if res["error"]:
            core.eprint(res["error"])
            return 2
        if matches(f, res["violation"]):
            print(f"KNOWN-FINDING: property={check.ID} {f['what']}")
        elif res["violation"]:
            path = write_replay(check, seed, -1, f["scenario"], res["violation"], {})
            print(json.dumps(res["violation"]))
            print(f"VIOLATION property={check.ID} replay={path}")
            return 1
        else:
            print(f"note: listed finding no longer occurs: {f['what']}")
    t_batch = real_monotonic()
    out = batch(check, seed, a.tier, n, a.workers, budget)
    batch_wall = real_monotonic() - t_batch
    errors = [r for r in out.values() if r.get("error")]
    if a.digests:
        for i in sorted(out):
            print(i, out[i].get("log"))
    viol, suppressed = [], 0
    for i in sorted(out):
        v = out[i].get("violation")
        if v:
            if any(matches(f, v) for f in findings):
                suppressed += 1
            else:
                viol.append(i)

    if os.environ.get("VERIF_WALLS"):
        core.eprint("batch wall", batch_wall, "sum of runs", sum(r.get("wall", 0) for r in out.values()))
        for i in sorted(out, key=lambda i: -out[i].get("wall", 0))[:25]:
            core.eprint(i, round(out[i]["wall"], 2), json.dumps(scenario(check, seed, i, a.tier))[:400])
    faults, probes, states = {}, {}, set()
    nontrivial, simtime, ops = set(), 0.0, 0
    for i in sorted(out):
        r = out[i]
        for k, v in r.get("faults", {}).items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r.get("probes", {}).items():
            probes[k] = probes.get(k, 0) + v
        states.update(r.get("states", []))
        simtime += r.get("simtime", 0.0)
        ops += r.get("ops", 0)
        if r.get("nontrivial"):
            nontrivial.add(r.get("log"))
    samples = []
    for i in list(sorted(out))[:3]:
        s = json.dumps(scenario(check, seed, i, a.tier))
        samples.append({"run": i, "scenario": json.loads(s) if len(s) < 4000 else s[:4000]})
    cov = {
        "evaluations": len(out),
        "distinct_nontrivial": len(nontrivial),
        "rule": check.RULE,
        "samples": samples,
        "runs_planned": n,
        "operations": ops,
        "runs_per_hour": round(len(out) / max(batch_wall, 1e-6) * 3600),
        "seeds_per_hour": round(len(out) / max(batch_wall, 1e-6) * 3600),
        "simulated_time_s": round(simtime, 3),
        "simulated_time_note": check.SIMTIME,
        "fault_kinds_fired": dict(sorted(faults.items())),
        "probes": dict(sorted(probes.items())),
        "distinct_states": len(states),
        "distinct_states_measure": check.MEASURE,
        "real_components": check.REAL,
        "stubbed_components": check.STUB,
        "batch_digest": hashlib.sha256("".join(f"{i}:{out[i].get('log')};" for i in sorted(out)).encode()).hexdigest()[:16],
        "known_findings_suppressed": suppressed,
        "harness_errors": len(errors),
    }
    missing = [p for p in check.PROBES if not probes.get(p) and not faults.get(p)] if len(out) >= check.RUNS["quick"] else []
    cov["probes_never_hit"] = missing
    ev = {"property": check.ID, "tier": a.tier, "seed": seed, "level": check.LEVEL, "coverage": cov,
          "assumptions": check.ASSUMPTIONS, "wall_s": round(real_monotonic() - T0, 2), "violations": len(viol)}
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)

    code = 0
    if viol:
        i = viol[0]
        scn = scenario(check, seed, i, a.tier)
        v = out[i]["violation"]
        orig = (scn, v)
        steps = tried = 0
        if not a.no_min and v["kind"] != "no-progress":
            scn, v, steps, tried = minimise(check, scn, v, a.workers, 90 if a.tier == "quick" else 300)
        extra = {"minimise": {"accepted": steps, "tried": tried}, "other_violating_runs": viol[1:20],
                 "unminimised_scenario": orig[0] if steps else None}
        path = write_replay(check, seed, i, scn, v, extra)
        confirmed = replay_confirms(a.prop, path)
        if not confirmed and steps:
            path = write_replay(check, seed, i, orig[0], orig[1], {"minimise": "minimised file did not replay"})
            confirmed = replay_confirms(a.prop, path)
        print(f"violation: run {i} of seed {seed}: {v['kind']}: {v['detail'][:600]}")
        print(f"replay in a fresh process: {'reproduced' if confirmed else 'NOT reproduced'}")
        kinds = {}
        for j in viol:
            k = out[j]["violation"]["sig"]
            kinds[k] = kinds.get(k, 0) + 1
        print("violation signatures: " + json.dumps(kinds))
        print(f"VIOLATION property={check.ID} replay={path}")
        code = 1
    elif errors:
        core.eprint(f"{len(errors)} runs ended in a harness error; first (run {errors[0]['i']}):\n{errors[0]['error']}")
        code = 2
    elif len(out) < n * 0.5 or not nontrivial:
        core.eprint(f"only {len(out)} of {n} runs finished")
        code = 2
    if cold and not code:
        core.eprint("the warm-up failed:\n" + cold)
        code = 2
    ev["wall_s"] = round(real_monotonic() - T0, 2)
    with open(os.path.join(ev_dir, f"{check.ID}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    if code == 0:
        print(f"OK {check.ID} tier={a.tier} seed={seed} runs={len(out)} nontrivial={len(nontrivial)} states={len(states)} "
              f"faults={sum(faults.values())} wall={ev['wall_s']}s digest={cov['batch_digest']}"
              + (f" unreached={missing}" if missing else ""))
    return code


def replay_confirms(prop, path):
    env = {k: v for k, v in os.environ.items() if not k.startswith("VERIF_PRELOADED") and k != "LD_PRELOAD"}
    p = subprocess.run([sys.executable, "-m", "sim.runner", prop, "--replay", path], cwd=VERIF, env=env,
                       capture_output=True, text=True, timeout=600)
    return p.returncode == 1 and "VIOLATION" in p.stdout


class CheckBase:
    ID = "P00"
    LEVEL = "exploration"
    RULE = ""
    MEASURE = ""
    SIMTIME = "the code under test has no timers in this property; simulated time is not meaningful"
    REAL = []
    STUB = []
    ASSUMPTIONS = []
    PROBES = []
    RUNS = {"quick": 64, "thorough": 2000}
    LIMIT = 180
    STOP_AFTER = 2

    def warm(self):
        pass

    def generate(self, prng, i, tier):
        raise NotImplementedError

    def execute(self, scn, run):
        raise NotImplementedError

    def shrink(self, scn):
        return []


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
