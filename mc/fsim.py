"""A closed environment for edulint's background state: clock, network and the file system operations of
one scratch directory, each of which can be a crash point or a scheduling point.

Everything is intercepted at the level of Python's own primitives (open, os.replace, Session.request,
time.time, ...), never by edulint's names, so the code may reach them any way it likes."""
from __future__ import annotations

import builtins
import io
import os
import threading
import time
from typing import Any, Callable, List, Optional

import _io


class Crash(BaseException):
    """The process is killed here; nothing it does afterwards has any effect."""


class ClosedWorld:
    def __init__(self, root: str):
        self.root = os.path.realpath(root)
        self.now = 1_000_000
        self.server: Callable[[str], Any] = lambda url: None
        self.requests: List[str] = []
        self.hook: Optional[Callable[[str], None]] = None
        self.split_writes = True
        self.fds: set = set()
        self.events = 0
        self.crash_at: Optional[int] = None
        self.dead = False
        self._patched: List[Any] = []
        # background threads the code starts: "real", "sync" (run to completion at start) or "defer"
        self.threads = "real"
        self.deferred: List[threading.Thread] = []
        self.thread_failures: List[str] = []

    # -- events
    def event(self, name: str) -> None:
        if self.dead:
            raise Crash(name)
        if self.hook is not None:
            self.hook(name)
            return
        self.events += 1
        if self.crash_at is not None and self.events == self.crash_at:
            self.dead = True
            raise Crash(name)

    def run(self, fn: Callable[[], Any], crash_at: Optional[int] = None) -> Any:
        """Run one operation, killed at its crash_at-th event; ("crash", None) if that happened."""
        self.events = 0
        self.crash_at = crash_at
        self.dead = False
        try:
            return ("ok", fn())
        except Crash:
            return ("crash", None)
        except Exception as e:  # noqa: BLE001
            if self.dead:
                return ("crash", None)
            return ("raised", repr(e))
        finally:
            self.crash_at = None
            self.dead = False

    # -- patches
    def mine(self, path: Any) -> bool:
        try:
            p = os.fspath(path)
        except TypeError:
            return isinstance(path, int) and path in self.fds
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return os.path.abspath(p).startswith(self.root + os.sep)

    def __enter__(self) -> "ClosedWorld":
        import requests

        world = self
        real_open = builtins.open
        real_os_open = os.open

        def sim_open(file: Any, mode: str = "r", *args: Any, **kw: Any) -> Any:
            if not world.mine(file):
                return real_open(file, mode, *args, **kw)
            if isinstance(file, int):
                f = real_open(file, mode, *args, **kw)
                world.fds.discard(file)
            else:
                world.event(f"open {mode} {os.path.basename(os.fspath(file))}")
                f = real_open(file, mode, *args, **kw)
            if any(c in mode for c in "wax+"):
                world.event("opened")
                return WriteProxy(world, f)
            return ReadProxy(world, f)

        def sim_os_open(path: Any, flags: int, *args: Any, **kw: Any) -> int:
            if not world.mine(path):
                return real_os_open(path, flags, *args, **kw)
            world.event("os.open")
            fd = real_os_open(path, flags, *args, **kw)
            world.fds.add(fd)
            return fd

        def wrap(module: Any, name: str) -> None:
            real = getattr(module, name)

            def sim(path: Any, *args: Any, **kw: Any) -> Any:
                if world.mine(path):
                    world.event(f"{name} {os.path.basename(str(path))}")
                return real(path, *args, **kw)

            self._patch(module, name, sim)

        real_os_write = os.write

        def sim_os_write(fd: int, data: bytes) -> int:
            if fd not in world.fds:
                return real_os_write(fd, data)
            world.event("os.write")
            half = len(data) // 2
            if world.split_writes and half:
                real_os_write(fd, data[:half])
                world.event("os.write half")
                real_os_write(fd, data[half:])
            else:
                real_os_write(fd, data)
            world.event("os.written")
            return len(data)

        real_sleep = time.sleep

        def sim_request(session: Any, method: str, url: str, **kw: Any) -> Any:
            world.event("request")
            world.requests.append(url)
            res = world.server(url)
            world.event("response")
            if isinstance(res, BaseException):
                raise res
            status, text = res
            resp = requests.Response()
            resp.status_code = status
            resp.encoding = "utf-8"
            resp._content = text.encode("utf-8")
            resp.url = url
            return resp

        for mod in (builtins, io, _io):
            self._patch(mod, "open", sim_open)
        self._patch(os, "open", sim_os_open)
        self._patch(os, "write", sim_os_write)
        for name in ("replace", "rename", "remove", "unlink", "link", "truncate"):
            wrap(os, name)
        self._patch(requests.sessions.Session, "request", sim_request)
        self._patch(time, "time", lambda: float(world.now))
        self._patch(time, "time_ns", lambda: int(world.now) * 10**9)
        self._patch(time, "sleep", lambda s: real_sleep(0))
        real_start = threading.Thread.start

        def sim_start(thread: threading.Thread) -> None:
            if world.threads == "real" or getattr(thread, "mc_own", False):
                real_start(thread)
            elif world.threads == "defer":
                world.deferred.append(thread)
            else:
                world.run_thread(thread)

        self._patch(threading.Thread, "start", sim_start)
        return self

    def run_thread(self, thread: threading.Thread) -> None:
        """What a background thread does; its failure must stay its own."""
        try:
            thread.run()
        except Exception as e:  # noqa: BLE001
            self.thread_failures.append(repr(e))

    def _patch(self, obj: Any, name: str, val: Any) -> None:
        self._patched.append((obj, name, getattr(obj, name)))
        setattr(obj, name, val)

    def __exit__(self, *_: Any) -> None:
        for obj, name, val in reversed(self._patched):
            setattr(obj, name, val)
        self._patched = []


class ReadProxy:
    def __init__(self, world: ClosedWorld, f: Any):
        self._w = world
        self._f = f

    def read(self, *a: Any) -> Any:
        self._w.event("read")
        return self._f.read(*a)

    def __enter__(self) -> "ReadProxy":
        return self

    def __exit__(self, *a: Any) -> None:
        self._f.close()

    def __iter__(self) -> Any:
        return iter(self._f)

    def __getattr__(self, name: str) -> Any:
        return getattr(self._f, name)


class WriteProxy:
    def __init__(self, world: ClosedWorld, f: Any):
        self._w = world
        self._f = f

    def write(self, data: Any) -> Any:
        w = self._w
        if not w.split_writes:
            return self._f.write(data)
        w.event("write")
        half = len(data) // 2
        if half:
            self._f.write(data[:half])
            self._f.flush()
            w.event("write half")
        self._f.write(data[half:])
        self._f.flush()
        w.event("written")
        return len(data)

    def writelines(self, lines: Any) -> None:
        for line in lines:
            self.write(line)

    def close(self) -> None:
        if self._w.split_writes or self._f.closed:
            self._f.close()
            return
        self._w.event("close")
        self._f.close()
        self._w.event("closed")

    def __enter__(self) -> "WriteProxy":
        return self

    def __exit__(self, *a: Any) -> None:
        if self._w.dead:
            self._f.close()
        else:
            self.close()

    def __getattr__(self, name: str) -> Any:
        return getattr(self._f, name)


# ---------------------------------------------------------------------------------------------
# interleavings


class Scheduler:
    """Runs operations in threads of which exactly one moves at a time, switching only at events."""

    def __init__(self, world: ClosedWorld, fns: List[Callable[[], Any]]):
        self.world = world
        self.fns = fns
        self.results: List[Any] = [None] * len(fns)
        self.done = [False] * len(fns)
        self.turn = [threading.Semaphore(0) for _ in fns]
        self.back = threading.Semaphore(0)
        self.local = threading.local()
        self.trace: List[Any] = []

    def _hook(self, name: str) -> None:
        me = getattr(self.local, "id", None)
        if me is None:
            return
        self.trace.append((me, name))
        self.back.release()
        self.turn[me].acquire()

    def _body(self, i: int) -> None:
        self.local.id = i
        self.turn[i].acquire()
        try:
            self.results[i] = ("ok", self.fns[i]())
        except BaseException as e:  # noqa: BLE001
            self.results[i] = ("raised", repr(e))
        self.done[i] = True
        self.back.release()

    def run(self, choices: List[int]) -> List[Any]:
        """Follow the choices (indices into the enabled threads, running one first), then choice 0.
        Returns the points: (number of enabled threads, whether the running one was among them)."""
        self.world.hook = self._hook
        threads = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(len(self.fns))]
        for t in threads:
            t.mc_own = True  # type: ignore[attr-defined]
            t.start()
        running: Optional[int] = None
        points = []
        try:
            while not all(self.done):
                enabled = [i for i in range(len(self.fns)) if not self.done[i]]
                still = running in enabled
                if still:
                    enabled.remove(running)
                    enabled.insert(0, running)
                k = len(points)
                c = choices[k] if k < len(choices) else 0
                if c >= len(enabled):
                    raise AssertionError("schedule diverged on replay")
                points.append((len(enabled), still, c))
                running = enabled[c]
                self.turn[running].release()
                self.back.acquire()
        finally:
            self.world.hook = None
        for t in threads:
            t.join()
        return points


def schedules(make: Callable[[], Scheduler], check: Callable[[Scheduler, List[int]], None], bound: int) -> int:
    """Explore every schedule with at most ``bound`` preemptions; returns their number."""
    n = 0
    stack: List[List[int]] = [[]]
    while stack:
        prefix = stack.pop()
        sched = make()
        points = sched.run(prefix)
        n += 1
        taken = [c for _n, _s, c in points]
        check(sched, taken)
        cost = sum(1 for _n, still, c in points[: len(prefix)] if still and c > 0)
        for i in range(len(prefix), len(points)):
            n_enabled, still, _c = points[i]
            here = cost + (1 if still else 0)
            if here > bound:
                continue
            for alt in range(1, n_enabled):
                stack.append(taken[:i] + [alt])
    return n
