"""P08: distributed evaluation of a sample set equals local evaluation.

A discrete-event simulation of a coordinator and workers in one process: a sampled state is split, the parts travel over a
simulated network (loss, duplication, delay and with it reordering) in one of several forms, workers with their own equally
built model and their own past evaluate them, crash, restart, or are interrupted and asked again; the coordinator retries and
reassembles by sample order. The result is compared with the evaluation of the whole state where it was sampled."""
import copy
import heapq
import os
import pickle
import shutil
import tempfile
import warnings

import numpy as np

from sim import hashserver, inject, warmup, zoo
from sim.checks.p04 import DETERMINISTIC, flat, plain, same_value
from sim.core import Outcome, Prng, Violation, diff, freeze, from_json, to_json
from sim.runner import CheckBase

HASHSEEDS = [3, 777]
FORMS = ["reference", "copy", "dict", "nested", "table", "file", "pickle"]
OPS = ["sed", "band", "curves", "params"]
KINDS = [k for k in DETERMINISTIC if k not in ("agn",)]
TIMES = np.array([5.0, 25.0, 41.5, 60.0, 77.0])
TAGS = ["text", "i8", "f4", "bool", "vec", "mixed"]
WORDS = ["Ia", "SLSN-I", "", "x y", "na\u00efve", "a", "II-P, blue"]
CALM, BOUND = 400.0, 4000.0


def encode(state, form, where):
    if form == "reference":
        return state
    if form == "copy":
        return state.copy()
    if form == "dict":
        return state.to_dict()
    if form == "nested":
        return copy.deepcopy(state.states), None
    if form == "table":
        return state.to_table()
    if form == "pickle":
        return pickle.dumps(state)
    path = os.path.join(where, f"part{len(os.listdir(where))}.ecsv")
    state.save_to_file(path)
    return path


def decode(msg, form, n):
    from lightcurvelynx.graph_state import GraphState

    if form in ("reference", "copy"):
        return msg
    if form == "dict":
        return GraphState.from_dict(msg, num_samples=n)
    if form == "nested":
        return GraphState.from_dict(msg[0], num_samples=n)
    if form == "table":
        return GraphState.from_table(msg)
    if form == "pickle":
        return pickle.loads(msg)
    return GraphState.from_file(msg)


def tag(state, kind, q):
    """Record something about the samples that no model uses."""
    n = state.num_samples
    if kind == "text":
        v = np.array([q.choice(WORDS) for _ in range(n)])
    elif kind == "i8":
        v = np.array([2**60 + q.int(0, 9999) for _ in range(n)])
    elif kind == "f4":
        v = np.array([q.uniform(-1, 1) for _ in range(n)], dtype=np.float32)
    elif kind == "bool":
        v = np.array([q.chance(0.5) for _ in range(n)])
    elif kind == "vec":
        v = np.array([[q.uniform(-1, 1) for _ in range(3)] for _ in range(n)])
    else:  # numbers of which the first happen to be whole
        v = np.array([float(k) if k < n // 2 else q.uniform(-1, 1) for k in range(n)])
    state.set("tag", kind, v if n > 1 else v[0])


def outputs(W, state, op, isband):
    """A list with one entry per sample."""
    from lightcurvelynx.simulate import compute_noise_free_lightcurves

    n = state.num_samples
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        if op == "params":
            full = [{k: freeze(W.model.get_param(s, k)) for k in W.model.list_params()} for s in state]
            return full
        if op == "curves":
            df = compute_noise_free_lightcurves(W.model, state, W.passbands, rest_frame_phase_min=-30.0, rest_frame_phase_max=30.0, rest_frame_phase_step=7.0)
            return [[df["ra"].tolist()[k], df["dec"].tolist()[k], df["z"].tolist()[k], {c: np.asarray(df["lightcurve"].iloc[k][c]) for c in df["lightcurve"].iloc[k].columns}] for k in range(n)]
        if op == "sed" and not isband:
            r = W.model.evaluate_sed(TIMES, np.linspace(3500.0, 9000.0, 9), state)
        else:
            r = W.model.evaluate_bandfluxes(W.passbands, TIMES, ["g", "r", "i", "g", "r"], state)
    return [r] if n == 1 else [r[k] for k in range(n)]


def scribble(nodes):
    hit = 0
    for values in nodes.values():
        for v in values.values():
            if isinstance(v, np.ndarray) and v.dtype.kind in "fi" and v.size and v.flags.writeable:
                v[...] = 7
                hit += 1
    return hit


class Node:
    """A worker process."""

    def __init__(self, k):
        self.k, self.up, self.epoch, self.W = k, True, 0, None


class P08(CheckBase):
    ID = "P08"
    RULE = "a run is non-trivial when the state was split into at least two parts or a network fault, crash or interrupt happened"
    MEASURE = "distinct (model kind, operation, form of the message, size of the part, past of the worker, fault the part met) combinations"
    REAL = ["sampling, GraphState splitting, joining and all its forms, evaluation of all models without evaluation-time randomness, noise-free light curves"]
    STUB = ["coordinator, network, workers' life and clock (discrete-event simulation); some parts go to a second real interpreter with another hash seed and past"]
    ASSUMPTIONS = ["models do not draw random numbers during evaluation", "values of single samples computed with jax are single-precision numbers"]
    PROBES = ["lost", "duplicated", "retried", "crash", "crash-with-work", "interrupted", "asked-again", "other-process", "rejoined", "single-parts", "chunks", "reordered", "parts-joined", "scribbled"] + ["tag-" + t for t in TAGS] + [f"form-{f}" for f in FORMS]
    RUNS = {"quick": 450, "thorough": 20000}

    def warm(self):
        warmup.full()

    def prepare(self):
        self.socks, self.procs = hashserver.start(self.ID, HASHSEEDS)

    def ready(self):
        hashserver.wait(self.socks, self.procs)

    def generate(self, p, i, tier):
        kinds = KINDS + (["salt2", "bayesn"] if p.chance(0.03) else [])
        w = plain(zoo.gen_world(p.sub("w"), {"kinds": kinds, "noise": False, "sources": [s for s in zoo.SOURCES if s not in ("pzflow", "snia")]}, surveys=1))
        n = p.choice([1, 2, 3, 4, 6])
        heavy = any(k in ("salt2", "bayesn") for k in zoo.kinds_in(w["model"]))
        idx = p.shuffle(list(range(n)))
        parts = []
        while idx:
            k = p.choice([1, 1, 2, 3])
            parts.append(idx[:k] if p.chance(0.5) else sorted(idx[:k]))
            idx = idx[k:]
        return {"world": w, "n": n, "rng": p.seed32(), "parts": parts, "forms": [p.choice(FORMS) for _ in parts], "how": p.choice(["list", "table"]), "op": p.choice(OPS), "workers": p.int(1, 3),
                "past": [p.choice(["positions", "sampled", "other", "both"]) for _ in range(3)], "loss": p.choice([0.0, 0.2, 0.5]), "dup": p.choice([0.0, 0.3]), "delay": p.choice([1.0, 30.0, 120.0]),
                "crashes": [[p.uniform(0, 300), p.int(0, 2), p.uniform(1, 80)] for _ in range(p.choice([0, 0, 1, 2, 4]))], "cuts": 0.0 if heavy else p.choice([0.0, 0.0, 0.3, 0.7]), "remote": p.int(0, len(HASHSEEDS) - 1) if p.chance(0.3) else None,
                "seed": p.seed32(), "given": p.chance(0.2), "tags": p.sample(TAGS, p.choice([0, 1, 2])), "join": p.choice(["singles", "parts"])}

    # ---------------------------------------------------------------------------------------------- in another interpreter
    def remote(self, scn, amb):
        W = self.build(scn, amb["past"])
        st = pickle.loads(bytes.fromhex(amb["state"]))
        o = Outcome.of(lambda: outputs(W, st, scn["op"], self.isband(scn)))
        return to_json({"v": o.value, "e": o.exc})

    def isband(self, scn):
        return any(c in zoo.BAND_KINDS for c in zoo.kinds_in(scn["world"]["model"]))

    def build(self, scn, past):
        if past in ("other", "both"):
            other = zoo.World(zoo.order({"seed": 9, "surveys": [{"kind": "fake", "seed": 1, "n": 5}], "model": zoo.gen_kind(Prng("other", scn["seed"]), "step")}))
            Outcome.of(lambda: other.model.sample_parameters(num_samples=2, rng_info=np.random.default_rng(1)))
        W = zoo.World(scn["world"], "ambient")
        if past in ("sampled", "both"):
            W.model.sample_parameters(num_samples=3, rng_info=np.random.default_rng(2))
        else:
            W.model.set_graph_positions()
        return W

    def independent(self, master, scn, parts, run):
        """A receiver that works in place on its copy (or a sender that reuses the buffer) does not reach the other side."""
        fixed = {k: sorted(v) for k, v in master.fixed_vars.items()}
        for other in (master.extract_single_sample(0), master.copy()):
            node = sorted(other.states)[0]
            name = sorted(other.states[node])[0]
            other.set(node, name, other.states[node][name], fixed=True)
            other.set(node, "another", 3.5, fixed=True)
        if fixed != {k: sorted(v) for k, v in master.fixed_vars.items()} or "another" in master.states[node]:
            raise Violation("shared-values", "fixing a parameter of an extracted sample or a copy fixes it in the whole state", "shared-values:fixed")
        for j, (ps, form) in enumerate(zip(parts, scn["forms"])):
            if form not in ("copy", "dict", "nested"):
                continue
            n = len(scn["parts"][j])
            was = freeze(copy.deepcopy(flat(ps)))
            if form == "nested":
                msg = copy.deepcopy(ps.states), None
                st = decode(msg, form, n)
                hit = scribble(msg[0])
            else:
                st = decode(encode(ps, form, None), form, n)
                hit = scribble(st.states)
                st = ps
            if hit:
                run.probe("scribbled")
                d = diff(was, freeze(flat(st)), 0.0)
                if d:
                    raise Violation("shared-values", f"part {j} after the other side of its {form} was written to: {d}", f"shared-values:{form}")

    # ---------------------------------------------------------------------------------------------- the run
    def execute(self, scn, run):
        where = tempfile.mkdtemp(prefix="parts-", dir=os.environ.get("VERIF_SCRATCH"))
        try:
            self.simulate(scn, run, where)
        finally:
            shutil.rmtree(where, ignore_errors=True)

    def simulate(self, scn, run, where):
        from lightcurvelynx.graph_state import GraphState

        op, n, isband = scn["op"], scn["n"], self.isband(scn)
        home = zoo.World(scn["world"], "ambient")
        given = None
        if scn["given"]:
            home.model.set_graph_positions()
            given = {home.model.node_string: {"dec": np.linspace(-11.0, -9.0, n) if n > 1 else -9.5}}
        master = home.model.sample_parameters(given, num_samples=n, rng_info=np.random.default_rng(scn["rng"]))
        for kind in scn.get("tags", []):
            tag(master, kind, Prng("tag", scn["seed"], kind))
            run.probe("tag-" + kind)
        before = {k: freeze(copy.deepcopy(v)) for k, v in flat(master).items()}
        whole = Outcome.of(lambda: outputs(home, master, op, isband))
        again = Outcome.of(lambda: outputs(home, master, op, isband))
        self.eq(whole, again, "evaluating the whole state a second time", "repeat")
        # ---- split
        parts = []
        for idx in scn["parts"]:
            if len(idx) == 1:
                parts.append(master.extract_single_sample(idx[0]))
                run.probe("single-parts")
            elif scn["how"] == "list":
                parts.append(GraphState.from_list([master.extract_single_sample(k) for k in idx]))
                run.probe("chunks")
            else:
                parts.append(GraphState.from_table(master.to_table()[idx]))
                run.probe("chunks")
        for j, ps in enumerate(parts):
            if ps.num_samples != len(scn["parts"][j]):
                raise Violation("split", f"part {j} has {ps.num_samples} samples, not {len(scn['parts'][j])}", "split")
            self.same_state(master, scn["parts"][j], ps, f"part {j}")
        self.independent(master, scn, parts, run)
        # ---- the simulated cluster
        q = Prng("net", scn["seed"])
        heap, seq, now = [], [0], 0.0
        nodes = [Node(k) for k in range(scn["workers"])]
        done, met = {}, {j: set() for j in range(len(parts))}
        encoded = {}

        def at(t, what, *x):
            seq[0] += 1
            heapq.heappush(heap, (t, seq[0], what, x))

        def send(what, j, *x):
            """A message on its way: lost, duplicated, delayed."""
            calm = now > CALM
            if not calm and q.chance(scn["loss"]):
                run.fault("message-lost")
                run.probe("lost")
                met[j].add("lost")
                return
            k = 1
            if not calm and q.chance(scn["dup"]):
                run.fault("message-duplicated")
                run.probe("duplicated")
                met[j].add("dup")
                k = 2
            for _ in range(k):
                d = q.uniform(0.1, 1.0 if calm else scn["delay"])
                if d > 20:
                    run.fault("message-delayed")
                at(now + d, what, j, *x)

        def dispatch(j, attempt):
            if j in done:
                return
            if attempt:
                run.probe("retried")
            if j not in encoded:
                encoded[j] = encode(parts[j], scn["forms"][j], where)
            run.probe(f"form-{scn['forms'][j]}")
            send("task", j, nodes[(j + attempt) % len(nodes)].k)
            at(now + 60.0, "retry", j, attempt + 1)

        def evaluate(node, st, j):
            if node.W is None:
                node.W = self.build(scn, scn["past"][node.k])
            if q.chance(scn["cuts"]) and now <= CALM:  # cut short, then asked again
                inst = inject.Instants("line")
                inst.run(lambda: Outcome.of(lambda: outputs(node.W, st, op, isband)))
                pos = inject.pick(q, inst, q.choice(["uniform", "store", "early"]))
                if pos is not None:
                    inst = inject.Instants("line", pos, q.choice(["kbd", "mem"]))
                    inst.run(lambda: outputs(node.W, st, op, isband))
                    if inst.fired:
                        run.fault("interrupt")
                        run.probe("interrupted")
                        met[j].add("cut")
                        if q.chance(0.4):
                            return None  # the worker gives up; the coordinator asks again
            o = Outcome.of(lambda: outputs(node.W, st, op, isband))
            if q.chance(0.3):
                self.eq(o, Outcome.of(lambda: outputs(node.W, st, op, isband)), f"evaluating part {j} twice", "repeat")
                run.probe("asked-again")
            return o

        order = []
        for j in range(len(parts)):
            at(0.0, "dispatch", j)
        for t, k, down in scn["crashes"]:
            if k < len(nodes):
                at(t, "crash", k, down)
        while heap and len(done) < len(parts):
            now, _, what, x = heapq.heappop(heap)
            if now > BOUND:
                break
            run.ops += 1
            run.event(round(now, 3), what, [y for y in x if isinstance(y, int | float)])
            if what == "dispatch":
                dispatch(x[0], 0)
            elif what == "retry":
                dispatch(*x)
            elif what == "crash":
                node = nodes[x[0]]
                if node.up:
                    run.fault("worker-crash")
                    run.probe("crash")
                    node.up, node.W = False, None
                    node.epoch += 1
                    at(now + x[1], "restart", x[0])
            elif what == "restart":
                nodes[x[0]].up = True
            elif what == "task":
                j, node = x[0], nodes[x[1]]
                if not node.up:
                    met[j].add("down")
                    continue
                at(now + q.uniform(0.5, 30.0), "work", j, node.k, node.epoch)
            elif what == "work":
                j, node = x[0], nodes[x[1]]
                if not node.up or node.epoch != x[2]:
                    run.probe("crash-with-work")
                    met[j].add("crash")
                    continue
                form = scn["forms"][j]
                st = decode(encoded[j], form, len(scn["parts"][j]))
                if len(st) != len(master) or st.num_samples != len(scn["parts"][j]):
                    raise Violation("join", f"part {j} arrived ({form}) with {len(st)} parameters of {st.num_samples} samples, sent were {len(master)} of {len(scn['parts'][j])}", "part-size")
                o = evaluate(node, st, j)
                self.same_state(master, scn["parts"][j], st, f"the state of part {j} after it was evaluated (sent as {form})")
                if o is not None:
                    send("result", j, o, encode(st, form, where))
            elif what == "result":
                j, o, back = x
                order.append(j)
                self.part(whole, o, scn, j, f"part {j} (samples {scn['parts'][j]}, sent as {scn['forms'][j]}, met {sorted(met[j])})")
                if j not in done:
                    done[j] = decode(back, scn["forms"][j], len(scn["parts"][j]))
                    run.state(scn["world"]["model"]["kind"], op, scn["forms"][j], len(scn["parts"][j]), scn["past"][x[0] % 3], tuple(sorted(met[j])))
        run.simtime += now
        run.probe("reordered", int(order != sorted(order)))
        if len(parts) > 1 or run.faults:
            run.nontrivial = True
        if len(done) < len(parts):
            raise Violation("no-progress", f"after {now} simulated seconds parts {sorted(set(range(len(parts))) - set(done))} never completed", "no-progress")
        # ---- reassemble by sample order
        singles = {}
        for j, st in done.items():
            for k, i in enumerate(scn["parts"][j]):
                singles[i] = st.extract_single_sample(k)
        if scn.get("join") == "parts" and len(done) > 1:  # whole parts first, then into order
            at_ = [i for j in sorted(done) for i in scn["parts"][j]]
            rows = GraphState.from_list([done[j] for j in sorted(done)])
            joined = GraphState.from_list([rows.extract_single_sample(at_.index(i)) for i in range(n)])
            self.same_state(master, at_, rows, "the parts put together")
            run.probe("parts-joined")
        else:
            joined = GraphState.from_list([singles[i] for i in range(n)])
        self.same_state(master, list(range(n)), joined, "the state reassembled from its parts")
        if list(flat(joined)) != list(flat(master)):
            raise Violation("join", f"the reassembled state lists {list(flat(joined))}, not {list(flat(master))}", "join")
        if not scn["given"] and any(f in ("reference", "copy", "pickle") for f in scn["forms"]) and not any(np.asarray(v).dtype.kind == "O" for v in before.values()):
            if not (joined == master):
                raise Violation("join", "the reassembled state does not compare equal to the original", "join-eq")
        self.discerning(scn, master, joined, before, run)
        run.probe("rejoined")
        self.eq(whole, Outcome.of(lambda: outputs(home, joined, op, isband)), "evaluating the reassembled state", "joined")
        if scn["remote"] is not None:
            amb = {"past": scn["past"][0], "state": pickle.dumps(joined).hex()}
            r = from_json(hashserver.ask(self.socks[scn["remote"]], scn, amb))
            here = from_json(to_json({"v": whole.value, "e": whole.exc}))
            run.probe("other-process")
            self.eq(Outcome(here["v"], here["e"]), Outcome(r["v"], r["e"]), "evaluating the pickled state in another interpreter", "process")
        now_ = {k: freeze(v) for k, v in flat(master).items()}
        d = diff(before, now_, 0.0)
        if d:
            raise Violation("state-changed", f"the sampled state changed: {d}", "state-changed")

    def discerning(self, scn, master, joined, before, run):
        """A part that was damaged on the way is told apart from the real one."""
        from lightcurvelynx.graph_state import GraphState

        q, n = Prng("damage", scn["seed"]), scn["n"]
        singles = [master.extract_single_sample(i) for i in range(n)]
        i = q.int(0, n - 1)
        names = [k for k, v in before.items() if np.asarray(v).dtype.kind == "f" and np.all(np.isfinite(np.asarray(v))) and np.all(np.asarray(v) != 0) and np.ndim(v) <= 1]
        if not names:
            return
        full = q.choice(sorted(names))
        node, name = full.rsplit(".", 1)
        broken = singles[i].copy()
        v = broken.states[node][name]
        broken.states[node][name] = v * (1 + q.choice([1e-3, -2e-3, 0.5]))
        run.fault("part-damaged")
        other = GraphState.from_list([broken if j == i else s for j, s in enumerate(singles)])
        if other == GraphState.from_list(singles) or broken == singles[i]:
            raise Violation("join", f"a state whose {full} was changed from {v!r} to {broken.states[node][name]!r} compares equal to the original", "damage-eq")
        if n > 1:
            broken = singles[i].copy()
            broken.states[node][name + "_old"] = broken.states[node].pop(name)
            try:
                GraphState.from_list([broken if j == i else s for j, s in enumerate(singles)])
            except (ValueError, KeyError):
                run.fault("part-renamed")
            else:
                raise Violation("join", f"parts with and without the parameter {full} were put together", "damage-names")

    def eq(self, a, b, what, sig):
        d = a.diff(b)
        if d:
            raise Violation(sig, f"{what} gives something else: {d}", sig)

    def part(self, whole, o, scn, j, what):
        idx = scn["parts"][j]
        if whole.exc is not None:
            return  # the whole fails because of some sample, which need not be in this part
        if o.exc is not None:
            raise Violation("part", f"{what} fails: {o.exc}; the whole does not", "part")
        for k, i in enumerate(idx):
            d = diff(whole.value[i], o.value[k], 1e-9)
            if d:
                raise Violation("part", f"{what}: sample {i} differs from the local evaluation: {d}", "part")

    def same_state(self, master, idx, st, what):
        a, b = flat(master), flat(st)
        if set(a) != set(b):
            raise Violation("state", f"{what}: parameters {sorted(b)}, not {sorted(a)}", "state")
        if st.num_samples != len(idx):
            raise Violation("state", f"{what}: {st.num_samples} samples", "state")
        for name in a:
            w = a[name] if master.num_samples == 1 else [a[name][i] for i in idx] if len(idx) > 1 else a[name][idx[0]]
            g = b[name]
            if len(idx) == 1:
                w, g = np.asarray(w), np.asarray(g)
            d = diff(freeze(np.asarray(w)), freeze(np.asarray(g)), 0.0) if same_value(w, g, len(idx)) else None
            if d:
                raise Violation("state", f"{what}: {name} is {g!r:.100}, not {w!r:.100}: {d}", "state")

    def shrink(self, scn):
        for key, v in (("remote", None), ("crashes", []), ("cuts", 0.0), ("loss", 0.0), ("dup", 0.0), ("delay", 1.0), ("workers", 1), ("given", False)):
            if scn[key] != v:
                yield {**scn, key: v}
        for j in range(len(scn["crashes"])):
            yield {**scn, "crashes": scn["crashes"][:j] + scn["crashes"][j + 1:]}
        for j, f in enumerate(scn["forms"]):
            if f != "copy":
                yield {**scn, "forms": scn["forms"][:j] + ["copy"] + scn["forms"][j + 1:]}
        if scn["n"] > 1:
            for n in {1, 2, scn["n"] - 1} - {scn["n"]}:
                parts = [[i for i in x if i < n] for x in scn["parts"]]
                keep = [k for k, x in enumerate(parts) if x]
                yield {**scn, "n": n, "parts": [parts[k] for k in keep], "forms": [scn["forms"][k] for k in keep]}
        if len(scn["parts"]) != 1:
            yield {**scn, "parts": [list(range(scn["n"]))], "forms": scn["forms"][:1]}
        for t in scn.get("tags", []):
            yield {**scn, "tags": [x for x in scn["tags"] if x != t]}
        for w in zoo.shrink_world(scn["world"]):
            yield {**scn, "world": w}


CHECK = P08()
