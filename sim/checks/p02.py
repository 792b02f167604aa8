"""P02: concurrent callers sharing objects each get their solo result.

Two to four caller threads run seeded programs of read-type calls on one shared world under the thread
scheduler. Oracle: the same program run alone on an equally built world."""
import copy

import numpy as np

from sim import entropy, ops, sched, warmup, zoo
from sim.core import Outcome, Violation, diff
from sim.runner import CheckBase

NOT_HERE = ("salt2", "bayesn")


ALWAYS = ("node_string", "node_name", "node_pos", "states", "num_parameters")  # written by every sampling


class P02(CheckBase):
    ID = "P02"
    RULE = "a run is non-trivial when at least one thread was preempted inside a package call and at least two threads made calls"
    MEASURE = "distinct (model kind, source line at which a thread was preempted) pairs"
    REAL = ["lightcurvelynx (all models except the two JAX-heavy ones below)", "numpy, scipy, pandas, sncosmo, mocpy"]
    STUB = ["thread scheduling (sys.settrace gates, one runnable thread)", "threading.Lock/RLock made by package code (simulated locks)",
            "redback (stand-in source)", "salt2 and bayesn models are left out (JAX compilation dominates)"]
    ASSUMPTIONS = ["interleavings at the granularity of package source lines; a single line and third-party calls are atomic"]
    PROBES = ["preempt", "preempt-first-use", "store-switch", "lock-block", "race"]
    RUNS = {"quick": 900, "thorough": 30000}

    SIMLOCKS = True

    def warm(self):
        warmup.full()

    def generate(self, p, i, tier):
        kinds = [k for k in zoo.SED_KINDS + zoo.BAND_KINDS + zoo.MULTI_KINDS if k not in NOT_HERE] + ["sncosmo", "random", "additive"]
        srcs = [s for s in zoo.SOURCES if s not in ("mathj",)]
        w = zoo.gen_world(p.sub("w"), {"kinds": kinds, "sources": srcs, "no_random": NOT_HERE}, surveys=p.int(1, 2))
        for s in w["surveys"]:
            s["n"] = min(s["n"], 12)
        nt = p.wchoice([(2, 6), (3, 3), (4, 1)])
        q = p.sub("ops")
        threads = []
        same = q.chance(0.3)
        for t in range(nt):
            n = q.wchoice([(1, 5), (2, 3), (3, 1)])
            if same and t:
                o = copy.deepcopy(threads[0])
                for j, x in enumerate(o):
                    x["seed"] = q.seed32()
            else:
                o = [ops.gen_op(q, w) for _ in range(n)]
            threads.append(o)
        mode = p.wchoice([("few", 4), ("store", 4), ("random", 2), ("early", 3), ("race", 4)])
        sc = {"kind": mode, "seed": p.seed32(), "first": p.int(0, nt - 1)}
        if mode == "random":
            sc["p"] = p.choice([0.003, 0.02, 0.1])
        if mode == "store":
            sc["p"], sc["q"] = p.choice([0.05, 0.2, 0.5]), p.choice([0.0, 0.005])
        if mode == "race":
            sc["p"] = p.choice([0.1, 0.4, 1.0])
        return {"world": w, "threads": threads, "sched": sc, "presample": p.chance(0.3), "state_n": p.int(1, 3)}

    def program(self, W, oplist, state):
        out = []
        for op in oplist:
            use = state if state is not None and op["k"] in ("sed", "band") and op.get("v") == 3 else None
            out.append(Outcome.of(lambda op=op, use=use: ops.run_op(W, op, use)))
        return out

    def make(self, scn):
        W = zoo.World(scn["world"])
        state = W.model.sample_parameters(num_samples=scn["state_n"], rng_info=np.random.default_rng(3)) if scn["presample"] else None
        return W, state

    def execute(self, scn, run):
        entropy.install(5)
        threads = scn["threads"]
        solo, points, stored = [], [], {}
        for o in threads:
            W, state = self.make(scn)
            s = sched.Scheduler({"kind": "serial"})
            s.add(lambda W=W, o=o, state=state: self.program(W, o, state))
            s.run()
            if s.threads[0].exc is not None:
                raise s.threads[0].exc
            solo.append(s.threads[0].result)
            points.append(s.threads[0].points)
            for a, x in s.stored.items():
                stored.setdefault(a, []).append(x)
        mode = dict(scn["sched"])
        if mode["kind"] in ("few", "early"):
            from sim.core import Prng

            p = Prng("points", mode["seed"])
            at = []
            for _ in range(p.int(1, 5)):
                t = p.int(0, len(threads) - 1)
                hi = max(1, points[t])
                at.append([t, p.int(1, min(hi, 250) if mode["kind"] == "early" else hi)])
            mode["at"], mode["kind"] = at, "few"
        if mode["kind"] == "race":
            from sim.core import Prng

            names = sorted(a for a in stored if len(stored[a]) > 1) or sorted(stored) or ["-"]
            q = Prng("race", mode["seed"])
            rare = [a for a in names if a not in ALWAYS]
            mode["attr"] = q.choice(rare if rare and q.chance(0.75) else names)
            run.probe("race")
        W, state = self.make(scn)
        s = sched.Scheduler(mode)
        for o in threads:
            s.add(lambda o=o: self.program(W, o, state))
        s.run()
        pre = [x for x in s.switches if x[1] >= 0]
        run.fault("preempt", len(pre))
        run.probe("preempt", len(pre))
        run.probe("preempt-first-use", sum(1 for t, k, _ in pre if k < 200))
        if scn["sched"]["kind"] == "store":
            run.probe("store-switch", len(pre))
        run.probe("lock-block", s.blocks)
        run.probe("degraded", int(s.free))
        for f, line in s.sites:
            run.state(scn["world"]["model"]["kind"], f, line)
        run.refined = {**scn, "sched": {"kind": "explicit", "switches": s.switches, "first": mode.get("first", 0)}}
        run.event(s.switches, points)
        for t, o in enumerate(threads):
            if s.threads[t].exc is not None:
                raise s.threads[t].exc
            got = s.threads[t].result
            for j, op in enumerate(o):
                d = solo[t][j].diff(got[j])
                if d:
                    raise Violation("not-solo-result", f"thread {t} op {op}: alone vs concurrent: {d}", f"not-solo-result:{op['k']}")
        # nothing is left behind
        for t, o in enumerate(threads):
            again = self.program(W, o, state)
            for j, op in enumerate(o):
                d = solo[t][j].diff(again[j])
                if d:
                    raise Violation("left-behind", f"thread {t} op {op}: alone vs after the concurrent phase: {d}", f"left-behind:{op['k']}")
        self.readable(W, s, threads)
        if state is not None:
            W2, st2 = self.make(scn)
            d = diff(st2, state)
            if d:
                raise Violation("state-changed", f"a state sampled before the calls changed: {d}")
        run.ops += sum(len(o) for o in threads) * 3
        run.nontrivial = bool(pre) and len(threads) > 1

    def readable(self, W, s, threads):
        """States sampled during the run are still readable through the shared model, by name and by getter."""
        from lightcurvelynx.graph_state import GraphState

        for t, o in enumerate(threads):
            for j, op in enumerate(o):
                v = s.threads[t].result[j]
                if op["k"] != "sample" or v.exc is not None:
                    continue
                st = GraphState(op["n"])
                for node, d in v.value["states"].items():
                    st.states[node] = dict(d)
                for name in W.model.setters:
                    d = diff(v.value["states"].get(str(W.model), {}).get(name, "missing"), W.model.get_param(st, name, "missing"))
                    if d:
                        raise Violation("state-unreadable", f"parameter {name} of a state sampled by thread {t}: {d}")
                missing = [n for n, node in W.ctx.nodes if str(node) not in v.value["states"] and node.node_pos is not None]
                if missing:
                    raise Violation("state-unreadable", f"components {missing} can no longer be found in a state sampled by thread {t}")

    def shrink(self, scn):
        if len(scn["threads"]) > 2:
            for t in range(len(scn["threads"])):
                c = copy.deepcopy(scn)
                del c["threads"][t]
                if c["sched"]["kind"] == "explicit":
                    c["sched"]["switches"] = [[a - (a > t), k, b - (b > t)] for a, k, b in c["sched"]["switches"] if a != t and b != t]
                    c["sched"]["first"] = 0
                yield c
        for t, o in enumerate(scn["threads"]):
            for j in range(len(o)):
                if len(o) > 1:
                    c = copy.deepcopy(scn)
                    del c["threads"][t][j]
                    yield c
        sw = scn["sched"].get("switches")
        if sw:
            step = max(1, len(sw) // 2)
            while step >= 1:
                for a in range(0, len(sw), step):
                    c = copy.deepcopy(scn)
                    del c["sched"]["switches"][a:a + step]
                    yield c
                    if step == 1 and a > 60:
                        break
                step //= 2
        for w in zoo.shrink_world(scn["world"]):
            yield {**scn, "world": w}
        if scn["presample"]:
            yield {**scn, "presample": False}


CHECK = P02()
