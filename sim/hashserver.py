"""A second interpreter with another hash seed: a zygote that forks once per request.

The check starts it in `prepare()`; every run may ask it to evaluate `check.remote(scenario, what)` in a
fresh fork, which is how results are compared across processes that differ in hash seed and history."""
import json
import os
import socket
import struct
import subprocess
import sys
import time

from sim.core import HarnessError


def _recv(s, n):
    b = b""
    while len(b) < n:
        c = s.recv(n - len(b))
        if not c:
            raise EOFError
        b += c
    return b


def _send(s, obj):
    d = json.dumps(obj).encode()
    s.sendall(struct.pack(">Q", len(d)) + d)


def _get(s):
    (n,) = struct.unpack(">Q", _recv(s, 8))
    return json.loads(_recv(s, n))


def start(pid, hashseeds):
    """Start one zygote per hash seed; returns their socket paths."""
    scratch = os.environ["VERIF_SCRATCH"]
    procs, socks = [], []
    for h in hashseeds:
        path = os.path.join(scratch, f"zygote-{h}.sock")
        env = dict(os.environ, PYTHONHASHSEED=str(h))
        r, w = os.pipe()
        os.set_inheritable(r, True)
        p = subprocess.Popen([sys.executable, "-m", "sim.hashserver", pid, path, str(r)], env=env, pass_fds=[r],
                             stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL)
        os.close(r)
        procs.append((p, w))  # w stays open while this process (or a fork of it) lives
        socks.append(path)
    return socks, procs


def wait(socks, procs):
    end = time.monotonic() + 120
    for path, (p, _) in zip(socks, procs):
        while not os.path.exists(path):
            if p.poll() is not None or time.monotonic() > end:
                raise HarnessError("zygote did not start")
            time.sleep(0.02)


def ask(sock, scn, what=None):
    s = socket.socket(socket.AF_UNIX)
    s.connect(sock)
    with s:
        _send(s, {"scn": scn, "what": what})
        try:
            res = _get(s)
        except EOFError:
            raise HarnessError("zygote fork died") from None
    if "harness" in res:
        raise HarnessError(res["harness"])
    return res["value"]


def _child(conn, check):
    from sim import core

    try:
        import signal

        signal.signal(signal.SIGCHLD, signal.SIG_DFL)
        req = _get(conn)
        dn = os.open(os.devnull, os.O_RDWR)
        os.dup2(dn, 2)
        try:
            out = {"value": check.remote(req["scn"], req["what"])}
        except BaseException as e:  # noqa: BLE001
            import traceback

            out = {"harness": "".join(traceback.format_exception(e))[-3000:]}
        _send(conn, out)
    except BaseException:  # noqa: BLE001
        pass
    del core
    os._exit(0)


def main():
    import ctypes
    import select
    import signal

    ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    pid, path, rfd = sys.argv[1], sys.argv[2], int(sys.argv[3])
    from sim import runner

    runner.verify_target()
    check = runner.load_check(pid)
    check.warm()
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(path + ".tmp")
    srv.listen(256)
    os.rename(path + ".tmp", path)
    while True:
        ready, _, _ = select.select([srv, rfd], [], [])
        if rfd in ready:
            os._exit(0)
        conn, _ = srv.accept()
        if os.fork() == 0:
            srv.close()
            _child(conn, check)
        conn.close()


if __name__ == "__main__":
    main()
