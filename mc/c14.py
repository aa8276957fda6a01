"""C14: explanations come from the newest complete document fetched, whatever happened to the fetching.

Explicit-state search over runs of the real command line with a chosen clock advance, server answer and
crash point, then all interleavings of an update with a lookup."""
from __future__ import annotations

import json
from typing import Any, FrozenSet, List, Optional, Tuple

from mc import background, common, fsim

LEVEL = "model_checking"

TTL = 600
ADVANCE = (0, TTL - 1, TTL)
SERVERS = ("up", "invalid", "500", "down")
COMMANDS = {
    "explain": ["explain", "--json", "--disable-version-check", "W0107"],
    "explain-off": [
        "explain", "--json", "--disable-version-check", "--disable-explanations-update", "W0107",
    ],
    "version": ["version", "--disable-version-check"],
    "version-off": ["version", "--disable-version-check", "--disable-explanations-update"],
}


def document(version: int) -> str:
    return (
        f'[W0107]\nwhy = "because <v{version}>"\nexamples = "ex <v{version}>"\n\n'
        f'[Z9999]\nwhy = "\u017elu\u0165 <v{version}>"\n'
    )


# the reference: (last attempt or None, stored document: None | ("doc", version) | ("bad",))
State = Tuple[Optional[int], Optional[Tuple[Any, ...]]]


def expect(s: State, now: int, cmd: str, mode: str, version: int):
    last, stored = s
    fetched = 0
    if not cmd.endswith("-off") and (last is None or now >= last + TTL):
        last = now
        fetched = 1
        if mode == "up":
            stored = ("doc", version)
        elif mode == "invalid":
            stored = ("bad",)
    shown = {None if not st or st[0] == "bad" else st[1] for st in (s[1], stored)}
    return fetched, (last, stored), shown


def set_server(cli: background.Cli, mode: str, version: int) -> None:
    import requests

    def answer(url: str) -> Any:
        if mode == "up":
            return 200, document(version)
        if mode == "invalid":
            return 200, f"<html>not <v{version}> toml</html>"
        if mode == "500":
            return 500, document(version)
        return requests.exceptions.ConnectionError("down")

    cli.world.server = answer


def shown_version(out: str) -> Any:
    """None for the packaged explanation, the version number of a fetched one, else a complaint."""
    try:
        expl = json.loads(out)["explanations"]["W0107"]
    except Exception as e:  # noqa: BLE001
        return f"no explanation printed: {e!r}"
    why, examples = expl.get("why", ""), expl.get("examples", "")
    if why.startswith("because <v"):
        v = why[len("because <v") : -1]
        return int(v) if examples == f"ex <v{v}>" else f"torn: {expl}"
    return None if len(why) > 20 and "<v" not in examples else f"torn: {expl}"


def canon(snap, poss, now) -> str:
    ps = sorted(
        str((s[0] is not None and min(now - s[0], TTL + 1), s[1] and s[1][0])) for s in poss
    )
    return common.digest([background.canon_files(snap, NAMES, now, TTL + 1), ps])


NAMES: set = set()


def step(cli: background.Cli, snap, poss: FrozenSet[State], now, cmd, mode, crash, version):
    out = []
    crash_at: Optional[int] = None
    total = 0
    while True:
        cli.restore(snap)
        cli.world.now = now
        cli.world.requests.clear()
        set_server(cli, mode, version)
        kind, res = cli.world.run(lambda: cli.call(COMMANDS[cmd]), crash_at)
        events = cli.world.events
        problem = None
        nexts = set()
        if kind == "crash":
            for s in poss:
                _f, nxt, _s = expect(s, now, cmd, mode, version)
                nexts |= {s, nxt, (nxt[0], s[1])}
        elif kind == "raised":
            problem = f"raised {res}"
        else:
            reqs = len(cli.world.requests)
            allowed = []
            for s in poss:
                f, nxt, shown = expect(s, now, cmd, mode, version)
                allowed.append((f, sorted(map(str, shown))))
                got = shown_version(res["out"]) if cmd.startswith("explain") else None
                if f == reqs and (not cmd.startswith("explain") or got in shown):
                    nexts.add(nxt)
            if res["rc"] != 0:
                problem = f"exit status {res['rc']}: {res['err'][-200:]}"
            elif cli.world.thread_failures:
                problem = f"background failure: {cli.world.thread_failures}"
            elif not nexts:
                problem = f"{reqs} requests, shows {got}; allowed (requests, shown): {allowed}"
        out.append((cli.snapshot(), frozenset(nexts), kind, crash_at, problem))
        if not crash:
            break
        if crash_at is None:
            total, crash_at = events, 0
        crash_at += 1
        if crash_at > total:
            break
    return out


def bfs_worker(job):
    cli = background.Cli("c14")
    best = {}
    bad = []
    n = 0
    with cli.world:
        for snap, poss, now, history, crashes, actions, last in job:
            for dt, cmd, mode in actions:
                for s, p, kind, at, problem in step(
                    cli, snap, poss, now + dt, cmd, mode, crashes > 0 and not last, len(history) + 1
                ):
                    n += 1
                    h = history + [(dt, cmd, mode, at)]
                    if problem:
                        bad.append((h, problem))
                        continue
                    left = crashes - (kind == "crash")
                    best.setdefault((canon(s, p, now + dt), left), (s, p, now + dt, h, left))
    cli.close()
    return n, best, bad


def concurrent_worker(bound: int):
    """An update and a lookup at once, from every stored state."""
    import sys

    cli = background.Cli("c14c")
    cli.world.split_writes = False
    n = 0
    bad = []
    outcomes = set()
    with cli.world:
        starts = []
        base = cli.snapshot()
        for mode in ("none", "up", "invalid"):
            cli.restore(base)
            if mode != "none":
                set_server(cli, mode, 1)
                cli.world.now = 1_000_000
                cli.call(COMMANDS["version"])
            starts.append((mode, cli.snapshot()))
        for (start, snap) in starts:
            for mode in ("up", "invalid", "down"):
                for both in ("lookup", "update"):

                    def make() -> fsim.Scheduler:
                        cli.restore(snap)
                        cli.world.now = 1_000_000 + TTL
                        set_server(cli, mode, 2)
                        ex = sys.modules["edulint.explanations"]
                        cli.world.deferred.clear()
                        cli.world.threads = "defer"
                        for _ in range(2):
                            ex.update_explanations()
                        updates = list(cli.world.deferred)
                        cli.world.threads = "sync"

                        def lookup() -> Any:
                            return json.dumps({"explanations": ex.get_explanations(True)})

                        fns = [updates[0].run, lookup if both == "lookup" else updates[1].run]
                        return fsim.Scheduler(cli.world, fns)

                    def check(s: fsim.Scheduler, taken: List[int]) -> None:
                        ex = sys.modules["edulint.explanations"]
                        before = 1 if start == "up" else None
                        after = {"up": 2, "invalid": None, "down": before}[mode]
                        got = [s.results[1]] if both == "lookup" else []
                        if any(k != "ok" for k, _r in s.results):
                            bad.append(((start, mode, both, taken), str(s.results)[:200]))
                            return
                        for _k, res in got:
                            v = shown_version(res)
                            outcomes.add(str(v))
                            if v not in (before, after):
                                bad.append(((start, mode, both, taken), f"lookup shows {v}"))
                        v = shown_version(json.dumps({"explanations": ex.get_explanations(True)}))
                        if v != after:
                            bad.append(((start, mode, both, taken), f"afterwards shows {v}, not {after}"))

                    n += fsim.schedules(make, check, bound)
    cli.close()
    return n, bad, outcomes


def run(check: common.Check) -> None:
    depth = 4 if common.THOROUGH else 3
    crash_bound = 2 if common.THOROUGH else 1
    cli = background.Cli("c14n")
    with cli.world:
        set_server(cli, "up", 1)
        cli.call(COMMANDS["version"])
        NAMES.update(cli.snapshot())
    cli.close()
    start: FrozenSet[State] = frozenset([(None, None)])
    frontier = [({}, start, 1_000_000, [], crash_bound)]
    seen = {(canon({}, start, 1_000_000), crash_bound)}
    transitions = 0
    levels = []
    for level in range(depth):
        last = level == depth - 1
        actions = [
            (dt, cmd, mode)
            for dt in (ADVANCE if level else (0,))
            for cmd in (COMMANDS if not last or common.THOROUGH else ("explain", "explain-off"))
            for mode in (SERVERS if not cmd.endswith("-off") else ("up",))
        ]
        nxt = []
        jobs = [[node + (actions, last) for node in ch] for ch in common.chunks(frontier, 4)]
        for n, best, bad in common.pmap(bfs_worker, jobs):
            transitions += n
            for h, problem in bad:
                check.violation(common.digest(h), f"history {h}: {problem}", {"history": h, "problem": problem})
            for key, node in best.items():
                if key not in seen:
                    seen.add(key)
                    nxt.append(node)
        frontier = nxt
        levels.append(len(nxt))
        if check.violations:
            break
    check.add(states=len(seen), transitions=transitions, traces_validated_against_impl=transitions)
    check.notes["new_states_per_level"] = levels
    check.notes["bounds"] = f"histories of {depth} runs, {crash_bound} crash(es)"
    if frontier:
        check.sample("history", frontier[len(frontier) // 2][3])
        check.sample("history", frontier[-1][3])
    bound = 3 if common.THOROUGH else 2
    for n, bad, outcomes in common.pmap(concurrent_worker, [bound], jobs=1):
        check.add(transitions=n, traces_validated_against_impl=n)
        check.notes["schedules"] = n
        for o in sorted(outcomes):
            check.outcome("concurrent lookup shows " + o)
        for case, problem in bad:
            check.violation(common.digest(case), f"concurrent {case}: {problem}", {"case": case, "problem": problem})
    check.rule = "every history of command-line runs within the bounds; states up to renaming and relative age"
