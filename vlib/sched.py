"""Deterministic multi-process scheduler and crash injector.

Workers are forked processes that run real NePS code on a shared directory.  A CPython audit
hook in each worker stops it before every file-system operation below the shared directory
(open, mkdir, rename, remove, flock, ...) and, for an open that truncates, once more after the
truncation (the state in which a file is being written).  At each stop the parent decides who
runs next, and may kill the worker there, as SIGKILL would.  Nothing in the code under test is
replaced, so the harness does not depend on how it is written.
"""

from __future__ import annotations

import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback
from dataclasses import dataclass, field
from typing import Any, Callable

from vlib.core import HarnessError

_PATH_EVENTS = {
    "open": 0,
    "os.mkdir": 0,
    "os.rename": 0,
    "os.remove": 0,
    "os.rmdir": 0,
    "os.listdir": 0,
    "os.scandir": 0,
    "os.link": 0,
    "os.symlink": 0,
    "os.truncate": 0,
    "shutil.rmtree": 0,
}


def _send(fd: int, obj: Any) -> None:
    b = pickle.dumps(obj)
    b = struct.pack("<I", len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def _recv(fd: int) -> Any:
    def rd(n):
        out = b""
        while len(out) < n:
            c = os.read(fd, n - len(out))
            if not c:
                raise EOFError
            out += c
        return out

    (n,) = struct.unpack("<I", rd(4))
    return pickle.loads(rd(n))


class WorkerHandle:
    """Given to the worker's body: lets it report facts to the parent."""

    def __init__(self, up: int, down: int, idx: int):
        self.up, self.down, self.idx = up, down, idx
        self.active = False

    def tell(self, obj: Any) -> None:
        was, self.active = self.active, False
        _send(self.up, ("tell", obj))
        self.active = was

    def pause(self, what: str) -> None:
        """An explicit scheduling point (used inside evaluations)."""
        was, self.active = self.active, False
        _send(self.up, ("at", what))
        cmd = _recv(self.down)
        if cmd != "go":
            os._exit(137)
        self.active = was


@dataclass
class W:
    idx: int
    pid: int
    up: int
    down: int
    at: str | None = None  # the operation it is stopped before
    done: bool = False
    killed: bool = False
    exit: Any = None
    tells: list = field(default_factory=list)
    steps: int = 0


def _child(root: str, body: Callable[[WorkerHandle], Any], h: WorkerHandle) -> None:
    roots = tuple({root, os.path.realpath(root)})

    def rel(p: Any) -> str | None:
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if hasattr(p, "__fspath__"):
            p = os.fspath(p)
        if not isinstance(p, str):
            return None
        for r in roots:
            if p.startswith(r):
                return p[len(r) :].lstrip("/") or "."
        return None

    def hook(event: str, args: tuple) -> None:
        if not h.active:
            return
        if event == "fcntl.flock":
            h.active = False
            try:
                try:
                    p = rel(os.readlink(f"/proc/self/fd/{args[0]}"))
                except (OSError, TypeError):
                    p = None
            finally:
                h.active = True
            if p is not None:
                h.pause(f"flock {p}")
            return
        if event not in _PATH_EVENTS:
            return
        p = rel(args[0])
        if p is None:
            return
        if event == "open":
            flags = args[2] if len(args) > 2 and isinstance(args[2], int) else 0
            mode = args[1] if isinstance(args[1], str) else ""
            trunc = bool(flags & os.O_TRUNC) or "w" in mode
            writes = trunc or bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
            h.pause(f"open{'-w' if writes else '-r'} {p}")
            if trunc:
                h.active = False
                try:
                    full = args[0]
                    try:
                        fd = os.open(
                            os.fspath(full), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o666
                        )
                        os.close(fd)
                    except OSError:
                        pass
                finally:
                    h.active = True
                h.pause(f"writing {p}")
        else:
            h.pause(f"{event} {p}")

    sys.addaudithook(hook)
    # Waiting is decided by the scheduler, not by the clock.
    real_sleep = time.sleep
    time.sleep = lambda t: real_sleep(min(t, 0.0005))
    try:
        h.active = True
        r = body(h)
        h.active = False
        out = ("ok", r)
    except BaseException as e:  # noqa: BLE001
        h.active = False
        chain = []
        x: BaseException | None = e
        while x is not None and len(chain) < 6:
            chain.append(f"{type(x).__name__}: {str(x)[:300]}")
            x = x.__cause__ or x.__context__
        out = ("raised", type(e).__name__, " <- ".join(chain), traceback.format_exc()[-3000:])
    try:
        _send(h.up, ("done", out))
    finally:
        os._exit(0)


class Sched:
    def __init__(self, root: str, max_steps: int = 60000):
        self.root = root
        self.ws: list[W] = []
        self.total = 0
        self.max_steps = max_steps
        self.trace: list[tuple[int, str]] = []

    def spawn(self, body: Callable[[WorkerHandle], Any]) -> W:
        up_r, up_w = os.pipe()
        dn_r, dn_w = os.pipe()
        idx = len(self.ws)
        pid = os.fork()
        if pid == 0:
            try:
                signal.setitimer(signal.ITIMER_PROF, 0)
                signal.signal(signal.SIGPROF, signal.SIG_DFL)
                os.close(up_r)
                os.close(dn_w)
                _child(self.root, body, WorkerHandle(up_w, dn_r, idx))
            finally:
                os._exit(3)
        os.close(up_w)
        os.close(dn_r)
        w = W(idx, pid, up_r, dn_w)
        self.ws.append(w)
        self._wait(w)
        return w

    def _wait(self, w: W) -> None:
        """Read from w until it stops at an operation or ends."""
        while True:
            r, _, _ = select.select([w.up], [], [], 300)
            if not r:
                self.close()
                raise HarnessError(f"worker {w.idx} unresponsive after {w.at}")
            try:
                msg = _recv(w.up)
            except EOFError:
                w.done = True
                w.at = None
                if w.exit is None:
                    w.exit = ("died",)
                self._reap(w)
                return
            if msg[0] == "tell":
                w.tells.append(msg[1])
            elif msg[0] == "at":
                w.at = msg[1]
                return
            elif msg[0] == "done":
                w.exit = msg[1]
                w.done = True
                w.at = None
                self._reap(w)
                return

    def _reap(self, w: W) -> None:
        try:
            os.waitpid(w.pid, 0)
        except ChildProcessError:
            pass
        for fd in (w.up, w.down):
            try:
                os.close(fd)
            except OSError:
                pass

    def step(self, w: W) -> None:
        assert not w.done
        self.total += 1
        w.steps += 1
        self.trace.append((w.idx, w.at or ""))
        _send(w.down, "go")
        self._wait(w)

    def kill(self, w: W) -> str:
        """Kill w at the operation it is stopped before."""
        at = w.at or ""
        os.kill(w.pid, signal.SIGKILL)
        w.done = True
        w.killed = True
        w.exit = ("killed", at)
        w.at = None
        self._reap(w)
        return at

    def burst(self, w: W, n: int, grain: str = "op") -> None:
        """Let w run for n operations, or past n lock acquisitions (grain="lock").

        Stops early when w only polls a lock that somebody else holds.
        """
        while n > 0 and not w.done:
            before = w.at
            self.step(w)
            if before == w.at and (before or "").startswith("flock"):
                return
            if grain == "op" or (before or "").endswith("lock"):
                n -= 1

    def live(self) -> list[W]:
        return [w for w in self.ws if not w.done]

    def run_all(self) -> bool:
        """Round-robin until everyone is done.  False if the step bound was reached."""
        while self.live():
            for w in self.live():
                self.burst(w, 25)
            if self.total > self.max_steps:
                return False
        return True

    def run_solo(self, w: W, limit: int) -> bool:
        while not w.done and limit > 0:
            self.step(w)
            limit -= 1
        return w.done

    def close(self) -> None:
        for w in self.ws:
            if not w.done:
                try:
                    os.kill(w.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                w.done = True
                self._reap(w)
