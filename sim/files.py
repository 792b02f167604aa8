"""Histories of saves and loads on a simulated disk, for the checks about stored files (P04, P05, P06).

A check provides a subject: what can be stored under which name (a slot), how to save it, load it and compare it. One run is
a history of saves (healthy, on a failing or full disk, interrupted, or cut by the death of the process or a power cut at a
recorded operation) and loads (healthy or with read errors). For every slot the reference keeps the set of values a load may
yield; an observed value becomes the only one."""
import copy
import os
import shutil
import tempfile

from sim import disk, inject
from sim.core import Prng, Violation
from sim.runner import CheckBase

ABSENT = object()


def gone(may):
    """Whether nothing may be there."""
    return any(v is ABSENT for v in may)


class Store:
    """The directory of a run (it moves when a crash image is adopted) and what may be found in it."""

    def __init__(self, base, slots):
        self.base = base
        self.n = 0
        self.root = os.path.join(base, "d0")
        os.makedirs(self.root)
        self.may = {s: [ABSENT] for s in slots}

    def fresh(self):
        self.n += 1
        return os.path.join(self.base, f"d{self.n}")


class FileCheck(CheckBase):
    PRELOAD = staticmethod(disk.preload)
    RULE = "a run is non-trivial when a file was judged after a save that was cut short, failed or met a fault"
    STUB = ["the disk below the scratch directory: operations are recorded and disturbed by the shim; crash images are rebuilt from the recording (and the rebuilt final directory is compared with the real one in every step)"]
    PROBES = ["save", "overwrite", "refused", "save-failed", "save-survived-fault", "kill", "power-cut", "torn-write", "interrupted", "load", "load-fault", "load-raised", "previous-kept", "new-there", "nothing-there", "recovered"]
    IMAGES = 5

    # ---- to be provided: slots, gen_slots, gen_value, save, load, same
    def gen_case(self, p, tier):
        """-> {"slots": [...], ...}"""
        raise NotImplementedError

    def generate(self, p, i, tier):
        scn = self.gen_case(p.sub("case"), tier)
        steps = []
        for j in range(p.int(2, 5 if tier == "quick" else 9)):
            o = p.sub("step", j)
            k = o.wchoice([("save", 3), ("load", 1)])
            st = {"k": k, "slot": o.int(0, len(scn["slots"]) - 1), "seed": o.seed32()}
            if k == "save":
                st["value"] = self.gen_value(o.sub("value"), scn, st["slot"])
                st["over"] = o.chance(0.75)
                st["how"] = o.wchoice([("well", 2), ("fault", 3), ("crash", 3), ("crash-fault", 1), ("cut", 1)])
            else:
                st["how"] = o.wchoice([("well", 2), ("fault", 2)])
            steps.append(st)
        scn["steps"] = steps
        return scn

    def execute(self, scn, run):
        base = tempfile.mkdtemp(prefix="files-", dir=os.environ.get("VERIF_SCRATCH"))
        try:
            S = Store(base, range(len(scn["slots"])))
            self.layout(S.root, scn)
            for j, st in enumerate(scn["steps"]):
                run.ops += 1
                what = f"step {j} ({st['k']} {scn['slots'][st['slot']]!r}, {st['how']})"
                (self.do_save if st["k"] == "save" else self.do_load)(S, scn, st, run, what)
            # once nothing fails any more, everything can be saved and loaded again
            for s in range(len(scn["slots"])):
                v = self.gen_value(Prng("final", scn["steps"][0]["seed"] if scn["steps"] else 0, s), scn, s)
                want = self.make(scn, s, v)
                _, exc, rec = disk.recorded(S.root, lambda: self.save(S.root, scn, s, want, True), seed=3)
                if exc is not None:
                    raise Violation("no-recovery", f"after {[x['how'] for x in scn['steps']]}: saving {scn['slots'][s]!r} on a healthy disk fails with {exc!r}", "no-recovery")
                S.may[s] = [want]
                run.probe("recovered")
                self.judge(S, scn, S.root, run, "after the last save", None)
            self.final(S, scn, run)
        finally:
            self.finish()
            shutil.rmtree(base, ignore_errors=True)

    def layout(self, root, scn):
        pass

    def finish(self):
        pass

    def load_may_write(self, before):
        return False

    def final(self, S, scn, run):
        pass

    # ----------------------------------------------------------------------------------------------
    def do_save(self, S, scn, st, run, what):
        s, q = st["slot"], Prng("save", st["seed"])
        value = self.make(scn, s, st["value"])
        before = {k: list(v) for k, v in S.may.items()}
        may, over = before[s], st["over"] or not self.CAN_REFUSE
        healthy_exc = None
        refuse = not over and not gone(may)
        run.probe("save")
        run.probe("overwrite", int(over and not gone(may)))
        call = lambda: self.save(S.root, scn, s, value, over)  # noqa: E731

        faults, tags, inst = [], [], None
        if st["how"] in ("fault", "crash-fault"):
            # the healthy operations are counted on a copy of the directory
            side = S.fresh()
            disk.materialize(disk.snapshot(S.root), side)
            _, healthy_exc, rec = disk.recorded(side, lambda: self.save(side, scn, s, value, over), seed=st["seed"])
            faults, tags = disk.plan(q, rec.ops)
            shutil.rmtree(side)
        if st["how"] == "cut":
            side = S.fresh()
            disk.materialize(disk.snapshot(S.root), side)
            inst = inject.Instants("line")
            _, healthy_exc = inst.run(lambda: self.save(side, scn, s, value, over))
            shutil.rmtree(side)
            at = inject.pick(q, inst, q.choice(["uniform", "store", "late"]))
            if at is not None:
                inst = inject.Instants("line", at, q.choice(["kbd", "mem"]))
        if inst is not None and inst.at is not None:
            (_, exc), _, rec = disk.recorded(S.root, lambda: inst.run(call), seed=st["seed"])
            if inst.fired:
                run.fault("interrupt")
                run.probe("interrupted")
                tags = [f"interrupt at {inst.fired}"]
        else:
            _, exc, rec = disk.recorded(S.root, call, faults, seed=st["seed"])
        disk.verify(rec)
        fired = [o for o in rec.ops if o.fault]
        disturbed = bool(fired) or (inst is not None and inst.fired is not None)
        for t in tags if fired else []:
            run.fault(t)
        run.event(what, rec.roles(), type(exc).__name__)
        what = f"{what}{tags or ''}"
        if not isinstance(exc, (Exception, KeyboardInterrupt, type(None))):
            raise exc
        # ---- what may be there afterwards
        if exc is None:
            if refuse:
                raise Violation("not-refused", f"{what}: the save over existing data without permission to overwrite returned normally", "not-refused")
            after = [value]
        elif refuse:
            run.probe("refused")
            after = may
        elif not disturbed:
            if over or all(v is ABSENT for v in may):  # something unreadable may be there
                raise Violation("save-failed", f"{what}: a save on a healthy disk failed with {exc!r}", "save-failed")
            after = may
        else:
            run.probe("save-failed")
            after = may + [value]
        if disturbed and exc is None:
            run.probe("save-survived-fault")
        if disturbed:
            run.nontrivial = True
        state = "refused" if refuse else "ok" if exc is None else "failed"
        crash = st["how"].startswith("crash")
        if crash:
            images = []
            for c in range(self.IMAGES):
                kind, upto, torn = disk.crash_point(q.sub("crash", c), rec)
                img = disk.crash_image(rec, kind, upto, torn, q.sub("image", c))
                done = upto >= len(rec.ops) and torn is None
                if done and kind == "kill":
                    poss = after
                elif refuse:
                    poss = may
                else:
                    poss = may + [value]
                images.append((kind, upto, torn, img, poss))
            for c, (kind, upto, torn, img, poss) in enumerate(images):
                run.fault("power-cut" if kind == "power" else "kill")
                run.probe("power-cut" if kind == "power" else "kill")
                run.probe("torn-write", int(torn is not None))
                where = f"{what}, {'power cut' if kind == 'power' else 'process death'} before operation {upto} of {rec.ops}" + (f" (torn at {torn}/1000)" if torn is not None else "")
                root = S.fresh()
                disk.materialize(img, root)
                T = Store.__new__(Store)
                T.root, T.may = root, {k: (list(poss) if k == s else list(v)) for k, v in before.items()}
                run.nontrivial = True
                got = self.judge(T, scn, root, run, where, s)
                run.state(self.kind(scn, s), state, kind, _op(rec, upto), torn is not None, got)
                if c == len(images) - 1:
                    old = S.root
                    S.root, S.may = root, T.may
                    shutil.rmtree(old, ignore_errors=True)
                else:
                    shutil.rmtree(root, ignore_errors=True)
        else:
            S.may[s] = after
            got = self.judge(S, scn, S.root, run, what, s)
            run.state(self.kind(scn, s), state, tuple(tags) if fired else "", got)

    # ----------------------------------------------------------------------------------------------
    def judge(self, S, scn, root, run, what, saved):
        """Loads every slot; each must be one of the values it may be. -> tag for the slot `saved`"""
        tag = None
        for s in S.may:
            got, exc = self.try_load(root, scn, s)
            t = self.settle(S, scn, s, got, exc, what, s == saved)
            run.probe({"absent": "nothing-there", "previous": "previous-kept", "new": "new-there"}[t])
            if s == saved:
                tag = t
        return tag

    def settle(self, S, scn, s, got, exc, what, just_saved):
        may, name = S.may[s], scn["slots"][s]
        if exc is not None:
            if gone(may):
                S.may[s] = [ABSENT]
                return "absent"
            raise Violation("lost", f"{what}: {name!r} can no longer be loaded ({exc!r}); it must be one of {len(may)} value(s) that were stored before or just now", "lost:" + self.kind(scn, s))
        why = []
        for v in reversed(may):
            if v is ABSENT:
                continue
            d = self.same(scn, s, v, got)
            if d is None:
                S.may[s] = [v]
                return "new" if v is may[-1] and just_saved else "previous"
            why.append(d)
        raise Violation("wrong-contents", f"{what}: {name!r} loads as something that was never stored there: {'; '.join(why)[:600] or 'nothing was stored'}", "wrong-contents:" + self.kind(scn, s))

    def try_load(self, root, scn, s):
        try:
            return self.load(root, scn, s), None
        except Exception as e:  # noqa: BLE001
            return None, e.with_traceback(None)

    def do_load(self, S, scn, st, run, what):
        s, q = st["slot"], Prng("load", st["seed"])
        run.probe("load")
        faults, tags = [], []
        if st["how"] == "fault":
            side = S.fresh()
            disk.materialize(disk.snapshot(S.root), side)
            _, _, rec = disk.recorded(side, lambda: self.load(side, scn, s), seed=st["seed"])
            shutil.rmtree(side)
            faults, tags = disk.plan(q, rec.ops, reads=True)
        before = disk.snapshot(S.root)
        (got, exc), crash, rec = disk.recorded(S.root, lambda: self.try_load(S.root, scn, s), faults, seed=st["seed"])
        if crash is not None:
            raise crash
        disk.verify(rec)
        fired = [o for o in rec.ops if o.fault]
        for t in tags if fired else []:
            run.fault(t)
        run.event(what, rec.roles(), type(exc).__name__)
        if fired:
            run.probe("load-fault")
            if exc is not None:
                run.probe("load-raised")
        if exc is None or not fired:
            self.settle(S, scn, s, got, exc, f"{what}{tags or ''} {rec.ops if fired else ''}", False)
        now = disk.snapshot(S.root)
        if now != before and not self.load_may_write(before):
            raise Violation("load-writes", f"{what}{tags or ''}: loading changed the files: {sorted(n for n in set(now) | set(before) if now.get(n) != before.get(n))}", "load-writes")
        self.judge(S, scn, S.root, run, what + " and a healthy load", None)

    # ----------------------------------------------------------------------------------------------
    def shrink(self, scn):
        for j in range(len(scn["steps"])):
            c = copy.deepcopy(scn)
            del c["steps"][j]
            yield c
        for j, st in enumerate(scn["steps"]):
            for how in ("well", "crash", "fault"):
                if st["how"] != how and not (st["k"] == "load" and how == "crash") and st["how"] != "well":
                    c = copy.deepcopy(scn)
                    c["steps"][j]["how"] = how
                    yield c
            if st["k"] == "save":
                for v in self.shrink_value(st["value"]):
                    c = copy.deepcopy(scn)
                    c["steps"][j]["value"] = v
                    yield c

    def shrink_value(self, v):
        return []


def _op(rec, upto):
    return disk.NAMES[rec.ops[upto].op] if upto < len(rec.ops) else "end"
