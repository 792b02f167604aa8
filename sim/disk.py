"""Simulated disk: records and disturbs the file operations below one scratch directory (through sim/disk.c), and rebuilds
the directory as the death of the process, or a power cut, at any recorded operation would leave it.

Process death keeps the page cache: every operation before the instant is there, the one it hits may be torn. A power cut
keeps a prefix of the changes of names not older than the last sync, and per file what was synced plus any part of what was
not (nothing, a prefix, a torn sector, a subset, zeros of the right length)."""
import ctypes
import errno
import hashlib
import os
import random
import struct
import tempfile

from sim.core import Prng

OPEN, WRITE, TRUNC, SYNC, RENAME, UNLINK, MKDIR, RMDIR, LINK, CLOSE, READ, OPENR = range(1, 13)
NAMES = {OPEN: "open", WRITE: "write", TRUNC: "truncate", SYNC: "sync", RENAME: "rename", UNLINK: "unlink", MKDIR: "mkdir", RMDIR: "rmdir", LINK: "link", CLOSE: "close", READ: "read", OPENR: "open-read"}
F_ERROR, F_SHORT, F_TORN, F_FOREVER, F_BUDGET = range(1, 6)
CHANGES = {OPEN, WRITE, TRUNC, RENAME, UNLINK, MKDIR, RMDIR, LINK}
REC = struct.Struct("<IIIIQqqIIII")
LIB = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "build", "disk.so")


def preload():
    if not os.path.exists(LIB):
        import subprocess

        subprocess.run(["bash", os.path.join(os.path.dirname(os.path.dirname(LIB)), "setup.sh")], check=True)
    return LIB


_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(LIB)
        _lib.disk_log.restype = ctypes.c_void_p
        _lib.disk_add_fault.argtypes = [ctypes.c_uint32, ctypes.c_uint32, ctypes.c_uint32, ctypes.c_int64]
    return _lib


class Op:
    __slots__ = ("op", "index", "fault", "err", "file", "off", "len", "p1", "p2", "flags", "data")

    def __repr__(self):
        return f"{self.index}:{NAMES[self.op]}" + (f"[{self.len}]" if self.op in (WRITE, TRUNC, READ) else "") + (f"!{errno.errorcode.get(self.err, self.err)}" if self.err else "") + (f"~{self.fault}" if self.fault and not self.err else "")


def parse(raw):
    out, i = [], 0
    while i < len(raw):
        o = Op()
        o.op, o.index, o.fault, o.err, o.file, o.off, o.len, n1, n2, o.flags, _ = REC.unpack_from(raw, i)
        i += REC.size
        o.p1, i = raw[i:i + n1].decode(), i + n1
        o.p2, i = raw[i:i + n2].decode(), i + n2
        o.data = b""
        if o.op == WRITE and o.len > 0:
            o.data, i = raw[i:i + o.len], i + o.len
        out.append(o)
    return out


class Node:
    """One file: what is in the page cache, what was last synced, and the unsynced changes since."""

    def __init__(self, data=b""):
        self.data = bytearray(data)
        self.durable = bytes(data)
        self.pending = []

    def change(self, o, data=None):
        apply_change(self.data, o, data)
        self.pending.append((o, data))


def apply_change(buf, o, data=None):
    if o.op == WRITE:
        d = o.data if data is None else data
        if o.off > len(buf):
            buf.extend(b"\0" * (o.off - len(buf)))
        buf[o.off:o.off + len(d)] = d
    else:
        n = 0 if o.op == OPEN else o.len
        if n < len(buf):
            del buf[n:]
        else:
            buf.extend(b"\0" * (n - len(buf)))


def snapshot(root):
    """{relative name: bytes | None for a directory | ('link', target)}"""
    out = {}
    for d, dirs, names in os.walk(root):
        for n in dirs:
            out[os.path.relpath(os.path.join(d, n), root)] = None
        for n in names:
            p = os.path.join(d, n)
            if os.path.islink(p):
                out[os.path.relpath(p, root)] = ("link", os.readlink(p))
            else:
                with open(p, "rb") as f:
                    out[os.path.relpath(p, root)] = f.read()
    return out


def materialize(image, root):
    os.makedirs(root)
    for n in sorted(image):
        p, v = os.path.join(root, n), image[n]
        if v is None:
            os.makedirs(p, exist_ok=True)
        elif isinstance(v, tuple):
            os.makedirs(os.path.dirname(p), exist_ok=True)
            os.symlink(v[1], p)
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(v)


class Recording:
    """The operations of one call, on top of the directory it started from."""

    def __init__(self, root, before, ops):
        self.root, self.before, self.ops = root, before, ops

    def rel(self, p):
        return os.path.relpath(p, self.root)

    def roles(self):
        """The operations without names and random contents (for digests)."""
        seen = {}
        return [(NAMES[o.op], o.len if o.op in (WRITE, TRUNC) else 0, o.err, o.fault, seen.setdefault(o.p1, len(seen)) if o.p1 else -1) for o in self.ops]

    def changing(self):
        return [j for j, o in enumerate(self.ops) if o.op in CHANGES and (not o.err or o.len > 0 and o.op == WRITE)]

    def replay(self, upto, torn=None):
        """-> (final names -> Node, list of name changes, number of those that a sync made durable). `torn`: the first part
        (in 1000ths) of the write at position `upto` is there as well."""
        names = {n: (v if v is None or isinstance(v, tuple) else Node(v)) for n, v in self.before.items()}
        files, log, barrier = {}, [], 0

        def do(e):
            k, a, b = e
            if k == "put":
                names[a] = b
            elif k == "del":
                names.pop(a, None)
            else:
                for n in [x for x in names if x == a or x.startswith(a + "/")]:
                    names[b + n[len(a):]] = names.pop(n)
            log.append(e)

        for j, o in enumerate(self.ops[:upto + (torn is not None)]):
            part = None
            if torn is not None and j == upto:
                if o.op != WRITE:
                    break
                part = o.data[:max(1, len(o.data) * torn // 1000)] if o.data else b""
            if o.op in (OPEN, OPENR) and not o.err:
                r = self.rel(o.p1)
                if o.flags & 1:
                    files[o.file] = Node()
                    do(("put", r, files[o.file]))
                else:
                    node = names.get(r)
                    if isinstance(node, Node):
                        files[o.file] = node
                        if o.op == OPEN and o.flags & 2:
                            node.change(o)
            elif o.op == WRITE and o.data and o.file in files:
                files[o.file].change(o, part)
            elif o.op == TRUNC and not o.err and o.file in files:
                files[o.file].change(o)
            elif o.op == SYNC and not o.err:
                if o.file in files:
                    f = files[o.file]
                    f.durable, f.pending = bytes(f.data), []
                barrier = len(log)
            elif o.err:
                continue
            elif o.op == RENAME:
                do(("move", self.rel(o.p1), self.rel(o.p2)))
            elif o.op in (UNLINK, RMDIR):
                do(("del", self.rel(o.p1), None))
            elif o.op == MKDIR:
                do(("put", self.rel(o.p1), None))
            elif o.op == LINK:
                do(("put", self.rel(o.p2), names.get(self.rel(o.p1))))
        return names, log, barrier

    def killed(self, upto, torn=None):
        """The directory after the process died before operation `upto` (or within it)."""
        names, _, _ = self.replay(upto, torn)
        return {n: bytes(v.data) if isinstance(v, Node) else v for n, v in names.items()}

    def power(self, upto, q):
        """The directory after a power cut before operation `upto`."""
        names, log, barrier = self.replay(upto)
        m = q.choice([barrier, len(log), q.int(barrier, len(log))])
        out = {n: v for n, v in self.before.items()}
        nodes = {n: None for n in ()}
        # the nodes the surviving name changes refer to, and how far each file's contents got
        cur = {}
        first = {n: (v if v is None or isinstance(v, tuple) else ("old", n)) for n, v in self.before.items()}
        cur.update(first)
        old = self._old_nodes(upto)
        for k, a, b in log[:m]:
            if k == "put":
                cur[a] = b
            elif k == "del":
                cur.pop(a, None)
            else:
                for n in [x for x in cur if x == a or x.startswith(a + "/")]:
                    cur[b + n[len(a):]] = cur.pop(n)
        made = {}
        out = {}
        for n, v in sorted(cur.items()):
            if isinstance(v, tuple) and v[0] == "old":
                v = old[v[1]]
            if isinstance(v, Node):
                if id(v) not in made:
                    made[id(v)] = self._survivor(v, q)
                out[n] = made[id(v)]
            else:
                out[n] = v
        del nodes
        return out

    def _old_nodes(self, upto):
        """Nodes of the files that were there at the start, with their changes, under their first names."""
        if getattr(self, "_old_cache", (None,))[0] == upto:
            return self._old_cache[1]
        names = {n: (v if v is None or isinstance(v, tuple) else Node(v)) for n, v in self.before.items()}
        start = dict(names)
        files = {}
        for o in self.ops[:upto]:
            if o.op in (OPEN, OPENR) and not o.err:
                r = self.rel(o.p1)
                if o.flags & 1:
                    files[o.file] = names[r] = Node()
                elif isinstance(names.get(r), Node):
                    files[o.file] = names[r]
                    if o.op == OPEN and o.flags & 2:
                        names[r].change(o)
            elif o.op == WRITE and o.data and o.file in files:
                files[o.file].change(o)
            elif o.op == TRUNC and not o.err and o.file in files:
                files[o.file].change(o)
            elif o.op == SYNC and not o.err and o.file in files:
                f = files[o.file]
                f.durable, f.pending = bytes(f.data), []
            elif not o.err and o.op == RENAME:
                a, b = self.rel(o.p1), self.rel(o.p2)
                for n in [x for x in names if x == a or x.startswith(a + "/")]:
                    names[b + n[len(a):]] = names.pop(n)
            elif not o.err and o.op in (UNLINK, RMDIR):
                names.pop(self.rel(o.p1), None)
        self._old_cache = (upto, start)
        return start

    @staticmethod
    def _survivor(node, q):
        if not node.pending:
            return node.durable
        how = q.choice(["none", "prefix", "sector", "subset", "zeros", "all"])
        buf = bytearray(node.durable)
        n = len(node.pending)
        if how == "all":
            return bytes(node.data)
        if how == "zeros":
            if len(node.data) > len(buf):
                buf.extend(b"\0" * (len(node.data) - len(buf)))
            return bytes(buf)
        if how in ("prefix", "sector"):
            k = q.int(0, n)
            for o, d in node.pending[:k]:
                apply_change(buf, o, d)
            if how == "sector" and k < n and node.pending[k][0].op == WRITE:
                o, d = node.pending[k]
                d = o.data if d is None else d
                apply_change(buf, o, d[:(q.int(0, len(d)) // 512) * 512])
        elif how == "subset":
            for o, d in node.pending:
                if q.chance(0.5):
                    apply_change(buf, o, d)
        return bytes(buf)


def seed_names(seed):
    """Temporary names become a function of the seed."""
    s = tempfile._RandomNameSequence()
    s._rng = random.Random(seed)
    s._rng_pid = os.getpid()
    tempfile._name_sequence = s


def recorded(root, call, faults=(), seed=0):
    """Runs `call` with the operations below `root` recorded and `faults` = [(index, kind, errno, arg)] injected.
    Returns (result, exception, Recording)."""
    root = os.path.realpath(root)
    before = snapshot(root)
    L = lib()
    seed_names(seed)
    L.disk_clear_plan()
    for f in faults:
        L.disk_add_fault(*f)
    L.disk_arm(root.encode())
    res = exc = None
    try:
        res = call()
    except BaseException as e:  # noqa: BLE001
        exc = e.with_traceback(None)
    finally:
        L.disk_disarm()
        L.disk_clear_plan()
    n = ctypes.c_size_t()
    p = L.disk_log(ctypes.byref(n))
    ops = parse(ctypes.string_at(p, n.value) if n.value else b"")
    return res, exc, Recording(root, before, ops)


def verify(rec):
    """The rebuilt directory equals the real one (so the crash images are those of the real call)."""
    want, got = snapshot(rec.root), rec.killed(len(rec.ops))
    if want != got:
        diff = sorted(n for n in set(want) | set(got) if want.get(n, 0) != got.get(n, 0))
        raise RuntimeError(f"simulated disk is wrong about {diff[:4]}: real {[(n, n in want and want[n] and len(want[n])) for n in diff[:4]]}, rebuilt {[(n, n in got and got[n] and len(got[n])) for n in diff[:4]]}; ops {rec.ops}")


def digest(image):
    h = hashlib.sha256()
    for n in sorted(image):
        h.update(repr((n, image[n])).encode())
    return h.hexdigest()[:12]


# ---- fault plans ------------------------------------------------------------------------------
ERRS = {WRITE: [errno.ENOSPC, errno.EIO, errno.EDQUOT], OPEN: [errno.ENOSPC, errno.EACCES, errno.EMFILE, errno.EROFS], OPENR: [errno.EMFILE, errno.EIO, errno.ENOMEM], TRUNC: [errno.EIO, errno.ENOSPC],
        SYNC: [errno.EIO, errno.ENOSPC], RENAME: [errno.EIO, errno.ENOSPC, errno.EROFS], UNLINK: [errno.EIO, errno.EROFS], MKDIR: [errno.ENOSPC, errno.EROFS], RMDIR: [errno.EIO], LINK: [errno.EMLINK],
        CLOSE: [errno.EIO, errno.ENOSPC], READ: [errno.EIO]}


def plan(q, ops, reads=False):
    """A seeded fault plan for a call whose healthy operations are `ops`. -> (list for `recorded`, tags)"""
    pool = [o for o in ops if (o.op in (READ, OPENR)) == reads] if reads else [o for o in ops if o.op not in (READ, OPENR)] or ops
    if not pool:
        return [], []
    total = sum(o.len for o in pool if o.op == WRITE)
    how = q.wchoice([("error", 5), ("torn", 2), ("full", 2), ("forever", 2), ("short", 1.5), ("pair", 1)]) if not reads else q.wchoice([("error", 3), ("short", 2)])
    out, tags = [], []

    def one(kinds):
        o = q.choice([x for x in pool if x.op in kinds] or pool)
        return o

    if how in ("error", "pair"):
        for _ in range(2 if how == "pair" else 1):
            o = one({q.choice(sorted({x.op for x in pool}))})
            e = q.choice(ERRS[o.op])
            out.append((o.index, F_ERROR, e, 0))
            tags.append(f"{NAMES[o.op]}-{errno.errorcode[e]}")
    elif how == "torn":
        o = one({WRITE})
        e = q.choice([errno.EIO, errno.ENOSPC])
        out.append((o.index, F_TORN if o.op == WRITE else F_ERROR, e, q.int(0, 999)))
        tags.append(f"{NAMES[o.op]}-torn")
    elif how == "full":
        out.append((0, F_BUDGET, errno.ENOSPC, q.choice([0, 1, q.int(0, max(1, total)), q.int(0, max(1, total)), max(0, total - 1)])))
        tags.append("disk-full")
    elif how == "forever":
        e = q.choice([errno.EROFS, errno.EIO, errno.ENOSPC])
        out.append((q.choice(pool).index, F_FOREVER, e, 0))
        tags.append(f"from-then-on-{errno.errorcode[e]}")
    else:
        for o in q.sample(pool, min(len(pool), q.int(1, 4))):
            if o.op in (WRITE, READ):
                out.append((o.index, F_SHORT, 0, q.int(0, 999)))
        tags.append("short-" + ("read" if reads else "write"))
        if not out:
            return plan(q, ops, reads) if any(o.op in (WRITE, READ) for o in pool) else ([], [])
    return out, tags


def crash_point(q, rec):
    """A seeded crash point of a recording: (kind, upto, torn)."""
    ch = rec.changing()
    n = len(rec.ops)
    kind = q.choice(["kill", "kill", "power"])
    where = q.choice(["any", "names", "end", "torn"])
    upto, torn = n, None
    if ch:
        names = [j for j in ch if rec.ops[j].op in (RENAME, UNLINK, OPEN)]
        if where == "any":
            upto = q.choice(ch) + q.int(0, 1)
        elif where == "names" and names:
            upto = q.choice(names) + q.int(0, 1)
        elif where == "torn":
            w = [j for j in ch if rec.ops[j].op == WRITE and rec.ops[j].len > 1]
            if w:
                upto = q.choice(w)
                torn = q.int(0, 999)
                kind = "kill"
    return kind, min(upto, n), torn


def crash_image(rec, kind, upto, torn, q):
    return rec.power(upto, q) if kind == "power" else rec.killed(upto, torn)


__all__ = ["recorded", "verify", "plan", "crash_point", "crash_image", "materialize", "snapshot", "preload", "Prng"]
