"""One simulated run = one forked child of a worker that never runs library code itself."""
import _thread
import gc
import os
import pickle
import resource
import select
import signal
import sys
import time

from . import repo

_real_time, _real_sleep, _running = time.monotonic, time.sleep, _thread._count
_write, _read, _fork, exit_now = os.write, os.read, os.fork, os._exit


class HarnessError(Exception):
    pass


class ChildDied(HarnessError):
    status = 0


class ChildTimeout(HarnessError):
    pass


def settle(threads):
    """Wait until finished threads have gone, so that what they kept is given back."""
    for _ in range(20000):
        if _running() <= threads:
            return
        _real_sleep(0.0002)


def write_all(fd, data):
    mv = memoryview(data)
    while mv:
        n = _write(fd, mv[: 1 << 16])
        mv = mv[n:]


def send(fd, obj):
    data = pickle.dumps(obj, protocol=4)
    write_all(fd, len(data).to_bytes(8, "little") + data)


class Out:
    """Result channel of a child; usable from any simulated thread."""

    def __init__(self, fd):
        self.fd = fd

    def finish(self, obj):
        send(self.fd, obj)
        exit_now(0)


def recv(fd, deadline):
    buf = b""
    need = None
    while True:
        left = deadline - _real_time()
        if left <= 0:
            return "timeout", None
        r, _, _ = select.select([fd], [], [], left)
        if not r:
            return "timeout", None
        chunk = _read(fd, 1 << 16)
        if not chunk:
            return "eof", None
        buf += chunk
        if need is None and len(buf) >= 8:
            need = int.from_bytes(buf[:8], "little")
        if need is not None and len(buf) >= 8 + need:
            return "ok", pickle.loads(buf[8: 8 + need])


def run_child(fn, *args, timeout=60.0, hush=True):
    """fn(out, *args) in a forked child; returns the object it finished with."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = _fork()
    if pid == 0:
        code = 71
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            out = Out(w)
            try:
                res = fn(out, *args)
                send(w, ("ok", res))
                code = 0
            except BaseException as e:
                import traceback
                send(w, ("harness", "".join(traceback.format_exception(e))[-4000:]))
                code = 0
        finally:
            exit_now(code)
    os.close(w)
    try:
        st, obj = recv(r, _real_time() + timeout)
    finally:
        os.close(r)
        if 'st' not in locals() or st != "ok":
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        _, status = os.waitpid(pid, 0)
    if st == "timeout":
        raise ChildTimeout(f"simulated run exceeded {timeout} s of wall time")
    if st == "eof":
        e = ChildDied(f"child ended without a result, wait status {status}")
        e.status = status
        raise e
    tag, res = obj
    if tag == "harness":
        raise HarnessError(res)
    return res


class Workers:
    """Worker processes forked from this one; job numbers go out and results come back over pipes."""

    def __init__(self, n, fn, jobs):
        self.fn, self.jobs, self.given = fn, jobs, 0
        self.ws = {}                    # result fd -> [pid, job fd, job or None]
        for _ in range(min(n, jobs)):
            self._start()

    def _start(self):
        jr, jw = os.pipe()
        rr, rw = os.pipe()
        sys.stdout.flush()
        pid = _fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)        # so that its children end with it
                for fd, (_, j, _) in self.ws.items():
                    os.close(fd)
                    os.close(j)
                os.close(jw)
                os.close(rr)
                while True:
                    b = _read(jr, 8)
                    if len(b) < 8:
                        break
                    try:
                        res = ("ok", self.fn(int.from_bytes(b, "little")))
                    except BaseException as e:
                        import traceback
                        res = ("error", "".join(traceback.format_exception(e))[-4000:])
                    send(rw, res)
            finally:
                exit_now(0)
        try:
            os.setpgid(pid, pid)
        except OSError:
            pass
        os.close(jr)
        os.close(rw)
        self.ws[rr] = [pid, jw, None]
        self._give(rr)

    def _give(self, fd):
        w = self.ws[fd]
        if self.given < self.jobs:
            w[2] = self.given
            self.given += 1
            os.write(w[1], w[2].to_bytes(8, "little"))
        else:
            w[2] = None

    def next(self, timeout):
        busy = [fd for fd, w in self.ws.items() if w[2] is not None]
        if not busy:
            return "end", None
        ready = select.select(busy, [], [], max(0.0, timeout))[0]
        if not ready:
            return "timeout", None
        fd = ready[0]
        st, obj = recv(fd, _real_time() + 120)
        if st != "ok":
            pid, jfd, job = self.ws.pop(fd)
            self._end(pid, fd, jfd)
            if self.given < self.jobs:
                self._start()
            return "error", f"worker process ended ({st}) while working on chunk {job}"
        self._give(fd)
        return obj

    def _end(self, pid, fd, jfd):
        try:
            os.killpg(pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        os.close(fd)
        os.close(jfd)
        os.waitpid(pid, 0)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        while self.ws:
            fd, (pid, jfd, _) = self.ws.popitem()
            self._end(pid, fd, jfd)
