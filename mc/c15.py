"""C15: the version check: how often it asks, when it tells, and that it survives crashes.

Explicit-state search over runs of the real command line with a chosen clock advance, package index
answer and crash point, then all interleavings of two concurrent runs' checks."""
from __future__ import annotations

import json
import re
from typing import Any, FrozenSet, List, Optional, Tuple

from mc import background, common, fsim

LEVEL = "model_checking"

TTL = 600
ADVANCE = (0, TTL - 1, TTL)
OK = [{"yanked": False}]
YANKED = [{"yanked": True}]
# what the index answers: (releases, the latest version it offers) or an error
INDEX = {
    "same": ({"4.2.9": OK, "4.3.1": OK, "4.3.0": OK}, "4.3.1"),
    "newer": ({"4.9.0": OK, "4.10.0": OK, "4.3.1": OK, "4.2.11": OK}, "4.10.0"),
    "newest yanked": ({"5.0.0": YANKED, "4.3.2": OK, "4.3.1": OK}, "4.3.2"),
    "newest partly yanked": ({"5.0.0": OK + YANKED, "4.4.0": YANKED + OK, "4.3.2": OK + OK, "4.3.1": OK}, "4.3.2"),
    "newest without files": ({"4.3.1": OK, "6.0.0": [], "4.3.0": OK}, "4.3.1"),
    "odd names": ({"4.3.1": OK, "nightly-build": OK, "4.3.10": OK, "4.3.9": OK}, "4.3.10"),
    "nothing released": ({}, None),
    "down": ("down", None),
    "not json": ("not json", None),
}
MAIN = ("same", "newer", "down")

State = Tuple[Optional[int], Optional[str]]  # (last query, latest known version)


def expect(s: State, now: int, enabled: bool, mode: str):
    """(queries, next state, versions a notice may name; None for no notice)"""
    last, known = s
    if not enabled:
        return 0, s, {None}
    if last is not None and now < last + TTL:
        return 0, s, {known if known != background.LOCAL else None}
    latest = INDEX[mode][1]
    if latest is not None:
        return 1, (now, latest), {latest if latest != background.LOCAL else None}
    # the query failed: nothing new is known
    return 1, (now, known), {None, known if known != background.LOCAL else None}


def set_server(cli: background.Cli, mode: str) -> None:
    import requests

    def answer(url: str) -> Any:
        releases = INDEX[mode][0]
        if releases == "down":
            return requests.exceptions.ConnectionError("down")
        if releases == "not json":
            return 503, "<html>busy</html>"
        return 200, json.dumps({"releases": releases})

    cli.world.server = answer


def notices(err: str) -> List[str]:
    return re.findall(r"Update for EduLint \(([^)]*)\)", err)


def canon(snap, poss, now) -> str:
    ps = sorted(str((s[0] is not None and min(now - s[0], TTL + 1), s[1])) for s in poss)
    return common.digest([background.canon_files(snap, NAMES, now, TTL + 1), ps])


NAMES: set = set()
ON = ["version", "--disable-explanations-update"]
OFF = ON + ["--disable-version-check"]


def step(cli, snap, poss: FrozenSet[State], now, enabled, mode, crash):
    out = []
    crash_at: Optional[int] = None
    total = 0
    while True:
        cli.restore(snap)
        cli.world.now = now
        cli.world.requests.clear()
        set_server(cli, mode)
        kind, res = cli.world.run(lambda: cli.call(ON if enabled else OFF), crash_at)
        events = cli.world.events
        problem = None
        nexts = set()
        if kind == "crash":
            for s in poss:
                _n, nxt, _v = expect(s, now, enabled, mode)
                # the stored state may be the old one, the new one, between them or lost
                nexts |= {s, nxt, (nxt[0], s[1]), (None, None)}
        elif kind == "raised":
            problem = f"raised {res}"
        else:
            reqs = len(cli.world.requests)
            told = notices(res["err"])
            allowed = []
            for s in poss:
                n, nxt, versions = expect(s, now, enabled, mode)
                allowed.append((n, sorted(map(str, versions))))
                if n == reqs and (told[0] if len(told) == 1 else None) in versions and len(told) < 2:
                    nexts.add(nxt)
            if res["rc"] != 0 or not res["out"].startswith("edulint version"):
                problem = f"exit status {res['rc']}, output {res['out']!r}"
            elif cli.world.thread_failures:
                problem = f"background failure {cli.world.thread_failures}"
            elif not nexts:
                problem = f"{reqs} queries, notice {told}; allowed (queries, versions): {allowed}"
        out.append((cli.snapshot(), frozenset(nexts), kind, crash_at, problem))
        if not crash:
            break
        if crash_at is None:
            total, crash_at = events, 0
        crash_at += 1
        if crash_at > total:
            break
    return out


def bfs_worker(job):
    cli = background.Cli("c15")
    best = {}
    bad = []
    n = 0
    with cli.world:
        for snap, poss, now, history, crashes, actions, last in job:
            for dt, enabled, mode in actions:
                for s, p, kind, at, problem in step(
                    cli, snap, poss, now + dt, enabled, mode, crashes > 0 and not last
                ):
                    n += 1
                    h = history + [(dt, enabled, mode, at)]
                    if problem:
                        bad.append((h, problem))
                        continue
                    left = crashes - (kind == "crash")
                    best.setdefault((canon(s, p, now + dt), left), (s, p, now + dt, h, left))
    cli.close()
    return n, best, bad


def concurrent_worker(job):
    bound, only = job
    cli = background.Cli("c15c")
    cli.world.split_writes = False
    n = 0
    bad = []
    outcomes = set()
    from loguru import logger

    with cli.world:
        base = cli.snapshot()
        starts = [("none", base)]
        for mode in ("same", "newer"):
            cli.restore(base)
            cli.world.now = 1_000_000
            set_server(cli, mode)
            cli.call(ON)
            starts.append((mode, cli.snapshot()))
        for start, snap in starts:
            for mode in ("newest yanked", "down"):
                if (start, mode) != only:
                    continue
                told: List[str] = []

                def make() -> fsim.Scheduler:
                    cli.restore(snap)
                    cli.world.now = 1_000_000 + TTL
                    set_server(cli, mode)
                    told.clear()
                    logger.remove()
                    logger.add(lambda m: told.append(m.record["message"]), level="WARNING")
                    cli.world.deferred.clear()
                    cli.world.threads = "defer"
                    for _ in range(2):
                        cli.mod.check_for_updates(False)
                    runs = [t.run for t in cli.world.deferred]
                    cli.world.threads = "sync"
                    return fsim.Scheduler(cli.world, runs)

                def check(s: fsim.Scheduler, taken: List[int]) -> None:
                    logger.remove()
                    case = (start, mode, taken)
                    if any(k != "ok" for k, _r in s.results):
                        bad.append((case, f"background failure {s.results}"[:200]))
                        return
                    latest = INDEX[mode][1]
                    known = None if start == "none" else INDEX[start][1]
                    allowed = {v for v in (latest, known) if v not in (None, background.LOCAL)}
                    for v in notices("\n".join(told)):
                        outcomes.add(v)
                        if v not in allowed:
                            bad.append((case, f"notice names {v}"))
                    # a later run works and asks again
                    cli.world.now += TTL
                    set_server(cli, "newer")
                    res = cli.call(ON)
                    if notices(res["err"]) != ["4.10.0"]:
                        bad.append((case, f"a later run says {res['err'][-200:]!r}"))

                n += fsim.schedules(make, check, bound)
    cli.close()
    return n, bad, outcomes


def run(check: common.Check) -> None:
    depth = 4 if common.THOROUGH else 3
    crash_bound = 2 if common.THOROUGH else 1
    cli = background.Cli("c15n")
    with cli.world:
        set_server(cli, "same")
        cli.call(ON)
        NAMES.update(cli.snapshot())
    cli.close()
    start: FrozenSet[State] = frozenset([(None, None)])
    frontier = [({}, start, 1_000_000, [], crash_bound)]
    seen = {(canon({}, start, 1_000_000), crash_bound)}
    transitions = 0
    levels = []
    for level in range(depth):
        last = level == depth - 1
        actions = [
            (dt, enabled, mode)
            for dt in (ADVANCE if level else (0,))
            for enabled in (True, False)
            for mode in ((INDEX if level < 1 or common.THOROUGH else MAIN) if enabled else ("newer",))
        ]
        nxt = []
        jobs = [[node + (actions, last) for node in ch] for ch in common.chunks(frontier, 4)]
        for n, best, bad in common.pmap(bfs_worker, jobs):
            transitions += n
            for h, problem in bad:
                check.violation(common.digest(h), f"history {h}: {problem}", {"history": h, "problem": problem})
            for key, node in best.items():
                if key not in seen:
                    seen.add(key)
                    nxt.append(node)
        frontier = nxt
        levels.append(len(nxt))
        if check.violations:
            break
    check.add(states=len(seen), transitions=transitions, traces_validated_against_impl=transitions)
    check.notes["new_states_per_level"] = levels
    check.notes["bounds"] = f"histories of {depth} runs, {crash_bound} crash(es)"
    if frontier:
        check.sample("history", frontier[len(frontier) // 2][3])
        check.sample("history", frontier[-1][3])
    bound = 3 if common.THOROUGH else 2
    jobs2 = [
        (bound, (s, m)) for s in ("none", "same", "newer") for m in ("newest yanked", "down")
    ]
    check.notes["schedules"] = 0
    for n, bad, outcomes in common.pmap(concurrent_worker, jobs2):
        check.add(transitions=n, traces_validated_against_impl=n)
        check.notes["schedules"] += n
        for o in sorted(outcomes):
            check.outcome("concurrent notice " + o)
        for case, problem in bad:
            check.violation(common.digest(case), f"concurrent {case}: {problem}", {"case": case, "problem": problem})
    check.rule = "every history of command-line runs within the bounds; states up to relative age"
