"""C13: configurations fetched from a URL: freshness, offline fallback, crash points, concurrent runs.

Explicit-state search: a state is the content of the cache directory plus what the reference allows it
to mean; transitions call the real configuration resolution with a chosen clock advance, server answer
and crash point. A second part explores all interleavings (up to a preemption bound) of two runs."""
from __future__ import annotations

import itertools
import os
import shutil
from typing import Any, Dict, FrozenSet, List, Optional, Tuple

from mc import common, fsim

LEVEL = "model_checking"

TTL = 5 * 60
OFFLINE = 500 * 24 * 60
URLS = ("https://a.example/x.toml", "https://a.example/y.toml")
# answers that are not the text of a configuration, whatever they carry
STATUSES = (202, 204, 206, 300, 304, 400, 401, 403, 404, 410, 429, 500, 502, 503, 504)
SERVERS = ("up", "500", "down", "timeout")
ADVANCE = (0, 1, TTL - 1, TTL, OFFLINE - TTL, OFFLINE)


def text(url: str, version: int) -> str:
    tag = f"{URLS.index(url)}v{version}"
    pad = "".join(f"# padding {i} \u017elu\u0165 {tag}\n" for i in range(3))
    return f'pylint = "--first={tag}"\n{pad}flake8 = "--last={tag}"\n'


NAMES: set = set()


class Sut:
    def __init__(self) -> None:
        self.dir = common.fresh_dir("c13")
        self.data = os.path.join(self.dir, "data")
        os.makedirs(self.data)
        os.environ["XDG_DATA_HOME"] = self.data
        self.py = common.write(os.path.join(self.dir, "f.py"), "x = 1\n")
        self.world = fsim.ClosedWorld(self.data)

    def snapshot(self) -> Dict[str, bytes]:
        res = {}
        for base, _d, files in os.walk(self.data):
            for name in files:
                p = os.path.join(base, name)
                with open(p, "rb") as f:
                    res[os.path.relpath(p, self.data)] = f.read()
        return res

    def restore(self, snap: Dict[str, bytes]) -> None:
        shutil.rmtree(self.data)
        os.makedirs(self.data)
        for name, data in snap.items():
            p = os.path.join(self.data, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(data)

    def get(self, url: str) -> Any:
        """The version number served, "torn", or None if the configuration could not be loaded."""
        from edulint.config.config import get_config_many
        from edulint.options import Option

        res = get_config_many([self.py], [f"config-file={url}"])
        if not res:
            return None
        conf = res[0][1]
        first = [a[8:] for a in conf[Option.PYLINT] if a.startswith("--first=")]
        last = [a[7:] for a in conf[Option.FLAKE8] if a.startswith("--last=")]
        prefix = f"{URLS.index(url)}v"
        if len(first) == 1 and first == last and first[0].startswith(prefix):
            return int(first[0][len(prefix) :])
        return f"torn:{first}/{last}"

    def set_server(self, mode: str, version: int) -> None:
        import requests

        def answer(url: str) -> Any:
            if mode == "up":
                return 200, text(url, version)
            if mode.isdecimal():
                return int(mode), "oops"
            if "with" in mode:
                return int(mode[:3]), "" if mode.endswith("nothing") else text(url, version)
            if mode == "down":
                return requests.exceptions.ConnectionError("down")
            return requests.exceptions.Timeout("slow")

        self.world.server = answer


Entry = Optional[Tuple[int, int]]  # (version, when fetched)


def expect(possible: FrozenSet[Entry], now: int, mode: str, version: int):
    """Per possible cache entry: (result, requests made, next entry)."""
    for e in possible:
        if e is not None and now < e[1] + TTL:
            yield e, e[0], 0, e
        elif mode == "up":
            yield e, version, 1, (version, now)
        elif e is not None and now < e[1] + OFFLINE:
            yield e, e[0], 1, e
        else:
            yield e, None, 1, e


def canon(snap: Dict[str, bytes], poss: Tuple[FrozenSet[Entry], ...], now: int) -> str:
    import re

    order: Dict[bytes, bytes] = {}

    def ren(m: Any) -> bytes:
        return b"v" + order.setdefault(m.group(1), str(len(order)).encode())

    files = []
    for k in sorted(snap, key=lambda k: (k not in NAMES, snap[k])):
        data = re.sub(rb"v(\d+)", ren, snap[k])
        data = re.sub(rb"\d{6,}", lambda m: str(min(now - int(m.group()), OFFLINE + 1)).encode(), data)
        # files under other names than those a completed run leaves are leftovers of a killed run
        item = (k if k in NAMES else "leftover", data.decode("utf-8", "replace"))
        if item not in files:
            files.append(item)
    ps = []
    for p in poss:
        ps.append(
            sorted(
                str((e and (order.get(str(e[0]).encode(), b"?").decode(), min(now - e[1], OFFLINE + 1))))
                for e in p
            )
        )
    return common.digest([files, ps])


def step(sut: Sut, snap, poss, now, action, version) -> List[Dict[str, Any]]:
    """Perform one action at every crash point and without a crash."""
    url, mode, crash = action
    i = URLS.index(url)
    out = []
    crash_at: Optional[int] = None
    while True:
        sut.restore(snap)
        sut.world.now = now
        sut.world.requests.clear()
        sut.set_server(mode, version)
        with common.LogCapture("ERROR") as log:
            kind, res = sut.world.run(lambda: sut.get(url), crash_at)
        events = sut.world.events
        rec: Dict[str, Any] = {"snap": sut.snapshot(), "crash_at": crash_at, "kind": kind, "res": res}
        problem = None
        nexts = set()
        if kind == "crash":
            for e, _r, _n, nxt in expect(poss[i], now, mode, version):
                nexts.add(e)
                nexts.add(nxt)
                if e is not None and nxt is not None and nxt != e:
                    nexts.add((nxt[0], e[1]))  # the text replaced, its date not yet
                if e is None and nxt is not None:
                    nexts.add(None)
        elif kind == "raised":
            problem = f"raised {res}"
        else:
            reqs = len(sut.world.requests)
            options = list(expect(poss[i], now, mode, version))
            for _e, r, n, nxt in options:
                if r == res and n == reqs:
                    nexts.add(nxt)
            if not nexts:
                problem = (
                    f"got {res} with {reqs} requests, allowed: "
                    f"{sorted({(str(r), n) for _e, r, n, _x in options})}"
                )
            elif res is None and not log.records:
                problem = "failed without an error message"
        rec["problem"] = problem
        new = list(poss)
        new[i] = frozenset(nexts)
        rec["poss"] = tuple(new)
        out.append(rec)
        if not crash:
            break
        if crash_at is None:
            total = events
            crash_at = 0
        crash_at += 1
        if crash_at > total:
            break
    return out


def bfs_worker(job):
    sut = Sut()
    out = []
    with sut.world:
        for snap, poss, now, history, crashes, actions, last in job:
            for dt, url, mode in actions:
                version = len(history) + 1
                for rec in step(sut, snap, poss, now + dt, (url, mode, crashes > 0 and not last), version):
                    h = history + [(dt, URLS.index(url), mode, rec["crash_at"])]
                    left = crashes - (1 if rec["kind"] == "crash" else 0)
                    out.append((rec, now + dt, h, left))
    shutil.rmtree(sut.dir, ignore_errors=True)
    # keep one representative per canonical state
    best = {}
    bad = []
    for rec, now, h, left in out:
        if rec["problem"]:
            bad.append((h, rec["problem"]))
            continue
        key = (canon(rec["snap"], rec["poss"], now), left)
        if key not in best:
            best[key] = (rec["snap"], rec["poss"], now, h, left)
    return len(out), best, bad


def corrupt_starts() -> List[Tuple[str, str, Any]]:
    """Disk states left by other means: (name, what to do to the metadata or text file)."""
    return [
        ("metadata empty", "meta", b""),
        ("metadata truncated", "meta", b'{"timestamp": 10'),
        ("metadata not an object", "meta", b"[]"),
        ("metadata null", "meta", b"null"),
        ("metadata without timestamp", "meta", b'{"source": "x"}'),
        ("timestamp not a number", "meta", b'{"timestamp": "soon", "source": "x"}'),
        ("metadata not text", "meta", b"\xff\xfe\x00"),
        ("text gone", "body", None),
        ("text not text", "body", b"\xff\xfe\x00\x80"),
        ("metadata gone", "meta", None),
    ]


def run_concurrent(job):
    """Two runs fetching the same or different URLs at once, over every start state and server."""
    bound, part = job
    sut = Sut()
    n = 0
    bad = []
    outcomes = set()
    sut.world.split_writes = False
    with sut.world:
        sut.world.now = 1_000_000
        sut.set_server("up", 1)
        base = sut.snapshot()
        sut.get(URLS[0])
        cached = sut.snapshot()
        for start, age, second, mode in itertools.product(
            ("none", "cached"), (TTL - 1, TTL), (0, 1), ("up", "down", "mixed")
        ):
            if (start == "none" and age != TTL) or (second, mode) != part:
                continue

            def make() -> fsim.Scheduler:
                import requests

                sut.restore(cached if start == "cached" else base)
                sut.world.now = 1_000_000 + age
                count = [1]

                def answer(url: str) -> Any:
                    if mode == "down" or (mode == "mixed" and count[0] > 1):
                        return requests.exceptions.ConnectionError("down")
                    count[0] += 1
                    return 200, text(url, count[0])

                sut.world.server = answer
                return fsim.Scheduler(
                    sut.world, [lambda: sut.get(URLS[0]), lambda: sut.get(URLS[second])]
                )

            def check(s: fsim.Scheduler, taken: List[int]) -> None:
                allowed: set = set()
                if start == "cached":
                    allowed.add(1)
                if mode != "down":
                    allowed |= {2, 3}
                for i, (kind, res) in enumerate(s.results):
                    other = second == 1 and i == 1
                    ok = kind == "ok" and (
                        res in (allowed - {1} if other else allowed)
                        or (res is None and (mode != "up") and (other or start == "none"))
                    )
                    if kind == "ok" and start == "cached" and age == TTL - 1 and not other:
                        ok = res == 1
                    outcomes.add(str(res))
                    if not ok:
                        bad.append(((start, age, second, mode, taken), f"run {i}: {kind} {res}"))
                # afterwards the cache serves a complete text without the network
                if not bad:
                    sut.set_server("down", 0)
                    res = sut.get(URLS[0])
                    if isinstance(res, str):
                        bad.append(((start, age, second, mode, taken), f"afterwards: {res}"))

            n += fsim.schedules(make, check, bound)
    shutil.rmtree(sut.dir, ignore_errors=True)
    return n, bad, outcomes


def corrupt_worker(case):
    name, which, data, mode, dt = case
    sut = Sut()
    problem = None
    with sut.world:
        sut.set_server("up", 1)
        assert sut.get(URLS[0]) == 1
        snap = sut.snapshot()
        for fname in list(snap):
            is_meta = b"timestamp" in snap[fname]
            if is_meta == (which == "meta"):
                if data is None:
                    del snap[fname]
                else:
                    snap[fname] = data
        sut.restore(snap)
        sut.world.now += dt
        sut.set_server(mode, 2)
        kind, res = sut.world.run(lambda: sut.get(URLS[0]))
        want = {2} if mode == "up" else {None}
        if kind != "ok" or res not in want:
            problem = f"{kind} {res}, expected {want}"
        elif mode == "up":
            sut.set_server("down", 3)
            kind, res = sut.world.run(lambda: sut.get(URLS[0]))
            if (kind, res) != ("ok", 2):
                problem = f"not repaired: {kind} {res}"
    shutil.rmtree(sut.dir, ignore_errors=True)
    return case, problem


def status_worker(case):
    """the first answer, or the answer when the stored text is stale, has a status other than 200"""
    stored, mode = case
    sut = Sut()
    problems = []
    with sut.world:
        if stored:
            sut.set_server("up", 1)
            assert sut.get(URLS[0]) == 1
        age = 0
        for dt in (TTL, 1, OFFLINE - TTL - 2, 1):
            age += dt
            sut.world.now += dt
            sut.world.requests.clear()
            sut.set_server(mode, 2)
            kind, res = sut.world.run(lambda: sut.get(URLS[0]))
            want = 1 if stored and age < OFFLINE else None
            if kind != "ok" or res != want or len(sut.world.requests) != 1:
                problems.append(f"{kind} {res} with {len(sut.world.requests)} requests, expected {want}")
        sut.set_server("up", 3)
        kind, res = sut.world.run(lambda: sut.get(URLS[0]))
        if (kind, res) != ("ok", 3):
            problems.append(f"afterwards, with the server up: {kind} {res}")
    shutil.rmtree(sut.dir, ignore_errors=True)
    return case, problems


def run(check: common.Check) -> None:
    depth = 5 if common.THOROUGH else 4
    crash_bound = 2 if common.THOROUGH else 1
    none: FrozenSet[Entry] = frozenset([None])
    frontier = [({}, (none, none), 1_000_000, [], crash_bound)]
    seen = {(canon({}, (none, none), 1_000_000), crash_bound)}
    transitions = 0
    per_level = []
    sut = Sut()
    with sut.world:
        sut.set_server("up", 1)
        for url in URLS:
            sut.get(url)
        NAMES.update(sut.snapshot())
    for level in range(depth):
        last = level == depth - 1
        actions = [
            (dt, url, mode)
            for dt in (ADVANCE if level and (common.THOROUGH or not last) else (0, TTL, OFFLINE))
            for url in URLS[: 1 if level == 0 else 2]  # the two URLs are symmetric at the start
            for mode in (SERVERS if level < 2 or common.THOROUGH else ("up", "down"))
        ]
        nxt = []
        jobs = [[node + (actions, last) for node in ch] for ch in common.chunks(frontier, 8)]
        for n, best, bad in common.pmap(bfs_worker, jobs):
            transitions += n
            for h, problem in bad:
                check.violation(common.digest(h), f"history {h}: {problem}", {"history": h, "problem": problem})
            for key, node in best.items():
                if key not in seen:
                    seen.add(key)
                    nxt.append(node)
        frontier = nxt
        per_level.append(len(nxt))
        if check.violations:
            break
    check.add(states=len(seen), transitions=transitions, traces_validated_against_impl=transitions)
    check.notes["new_states_per_level"] = per_level
    check.notes["bounds"] = f"histories of {depth} runs, {crash_bound} crash(es) at any write, rename or request"
    if frontier:
        check.sample("history", frontier[len(frontier) // 2][3])
        check.sample("history", frontier[-1][3])

    scases = [
        (stored, f"{code}{with_}")
        for stored in (False, True) for code in STATUSES for with_ in ("", " with nothing", " with the text")
    ]
    for case, problems in common.pmap(status_worker, scases):
        check.add(transitions=5, traces_validated_against_impl=5)
        if problems:
            check.violation(f"status-{case}", f"stored {case[0]}, the server answers {case[1]}: {problems[0]}", case)

    ccases = [c + (m, dt) for c in corrupt_starts() for m in ("up", "down") for dt in (0, TTL)]
    for case, problem in common.pmap(corrupt_worker, ccases):
        check.add(transitions=1, traces_validated_against_impl=1)
        if problem:
            check.violation(f"corrupt-{case[0]}-{case[3]}-{case[4]}", f"{case[0]}, server {case[3]}: {problem}", case)

    bound = 3 if common.THOROUGH else 2
    parts = [(bound, (second, mode)) for second in (0, 1) for mode in ("up", "down", "mixed")]
    check.notes["schedules_of_two_runs"] = 0
    for n, bad, outcomes in common.pmap(run_concurrent, parts):
        check.add(transitions=n, traces_validated_against_impl=n)
        check.notes["schedules_of_two_runs"] += n
        check.notes["preemption_bound"] = bound
        for o in sorted(outcomes):
            check.outcome("concurrent result " + o)
        for case, problem in bad:
            check.violation(common.digest(case), f"two runs {case}: {problem}", {"case": case, "problem": problem})
    check.rule = "every history of runs within the bounds; states are cache contents up to renaming of versions and relative age"
