"""C08: a lint run does not depend on, and does not disturb, anything else done in the process.

Explores the tree of all sequences of operations (lint calls of different kinds, including failing ones,
edits of the linted files, their imports and configurations, changes of the working directory) by forking
a process at every node; after each lint its result must be what a process that did nothing else gets in
the same environment, and the process-wide state a lint may touch must be as before."""
from __future__ import annotations

import io
import json
import os
import shutil
import sys
from typing import Any, Dict, List, Optional, Tuple

from mc import common

LEVEL = "model_checking"

BODIES = (
    'def f(x):\n    """Doc."""\n    if x:\n        return True\n    else:\n        return False\n',
    'def f(x):\n    """Doc."""\n    pass\n    return x == None\n',
    "def f(x:\n    return x\n",
)
TOMLS = (
    'pylint = "--enable=W0107,C0116"\n[language-translations]\nW0107 = "first"\n',
    'config-file = "default"\n[language-translations]\nW0107 = "second"\nR6201 = "second {0}"\n',
)
HELPERS = ("def foo(x):\n    return x\n", "def bar(x):\n    return x\n", None)
USER = "import helper\n\n\ndef f(x):\n    return helper.foo(x) + helper.bar(x)\n"
MEMBER = ["config-file=empty", "no-flake8", "pylint=--disable=all", "pylint=--enable=E1101,E0401"]

# problems that override others on their line; the ones overridden elsewhere, alone
BOTH = (
    "def f(x, foo):\n    return x; pass\n",
    "def f(x):\n    x=x+1; y = x > 3 and x > 5\n",
    "def f(x):\n    if x:\n        return True\n    else:\n        return False\n",
    "def f(x):\n    y = [x] * 1; y = [[]] * x\n",
    "def f(x):\n    for k in x.keys():\n        print(x[k])\n",
    "def f(x):\n    for foo in range(len(x)):\n        print(x[foo])\n",
)
ALONE = (
    "def f(x):\n    pass; print(x)\n    y=x\n    foo = 1\n    print(y, foo)\n",
    "def f(x):\n    if x > 3:\n        return x\n    else:\n        return 2\n",
    "def f(x):\n    if x > 1 and x != 1:\n        return 1\n",
    "def f(x):\n    if x > 0:\n        return 1\n    elif x <= 0:\n        return 2\n",
    "def f(x):\n    if x > 0:\n        return 1\n    elif x > 2:\n        return 2\n    elif x > 1:\n        return 3\n",
    "def f(x):\n    y = [[]] * x\n    return y\n",
    "def f(x):\n    for k in x.keys():\n        print(k)\n",
)
FULL = ["config-file=empty", "pylint=--enable=all", "flake8=--ignore=", "flake8=--select=E,F,W", "set-groups=enhancement"]

# environment: version of a.py, of one.toml, of p/helper.py; whether the process is in p
Env = Tuple[int, int, int, int]
START: Env = (0, 0, 0, 0)

EDITS = {
    "edit a.py": (0, len(BODIES)),
    "edit one.toml": (1, len(TOMLS)),
    "edit p/helper.py": (2, len(HELPERS)),
    "chdir": (3, 2),
}
LINTS: Dict[str, Tuple[List[str], List[str]]] = {
    "a.py": (["a.py"], []),
    "a.py with one.toml": (["a.py"], ["config-file=@/one.toml"]),
    "all": (["."], ["pylint=--enable=C0114"]),
    "p/m.py": (["p/m.py"], MEMBER),
    "q/m.py": (["q/m.py"], MEMBER),
    "own pylint options": (
        ["a.py"],
        ["pylint=--load-plugins=pylint.extensions.docparams --max-args=0 --good-names=f "
         "--enable=R0913,C0103,W9015 --extension-pkg-allow-list=math --limit-inference-results=1"],
    ),
    "own flake8 options": (["a.py"], ["flake8=--max-line-length=9 --extend-ignore=E711 --extend-select=E501"]),
    "flake8 fails": (["a.py"], ["flake8=--config=@/nosuch"]),
    "flake8 prints": (["a.py"], ["flake8=-q"]),
    "pylint fails": (["a.py"], ["pylint=--rcfile=@/nosuch"]),
    "pylint rejects": (["a.py"], ["pylint=--max-args=foo"]),
    "missing": (["nosuch.py"], []),
    "groups and names": (
        ["a.py"], ["set-groups=enhancement allowed-onechar-names=x disallowed-builtin-names=map"]
    ),
    "no config": (["a.py"], ["config-file=@/nosuch.toml"]),
    "overriding": (["both"], FULL),
    "overridden": (["alone"], FULL),
    "ignore in-file": (["a.py", "q"], ["ignore-infile-config-for=all"]),
}
QUICK_LINTS = (
    "a.py", "a.py with one.toml", "all", "p/m.py", "q/m.py", "own pylint options", "flake8 fails",
    "flake8 prints", "pylint fails", "groups and names", "ignore in-file", "own flake8 options",
    "overriding", "overridden",
)
TRIPLES = {  # of depth 3 in the quick tier: nodes whose subtree is explored to the end
    "a.py", "a.py with one.toml", "p/m.py", "q/m.py", "flake8 fails", "pylint fails", "own pylint options",
}


class Place:
    def __init__(self, root: str):
        self.root = root
        self.env: Optional[Env] = None

    def put(self, env: Env) -> None:
        r = self.root
        if self.env is None:
            common.write(os.path.join(r, "p", "m.py"), USER)
            common.write(os.path.join(r, "q", "m.py"), USER)
            for name, texts in (("both", BOTH), ("alone", ALONE)):
                for i, t in enumerate(texts):
                    common.write(os.path.join(r, name, f"m{i}.py"), t)
            common.write(os.path.join(r, "q", "helper.py"), HELPERS[0])
            common.write(os.path.join(r, "edulint.toml"), 'config-file = "default"\n')
        if self.env is None or self.env[0] != env[0]:
            common.write(os.path.join(r, "a.py"), BODIES[env[0]])
        if self.env is None or self.env[1] != env[1]:
            common.write(os.path.join(r, "one.toml"), TOMLS[env[1]])
        if self.env is None or self.env[2] != env[2]:
            path = os.path.join(r, "p", "helper.py")
            if HELPERS[env[2]] is None:
                if os.path.exists(path):
                    os.remove(path)
            else:
                common.write(path, HELPERS[env[2]])
        os.chdir(os.path.join(r, "p") if env[3] else r)
        self.env = env


def state() -> Dict[str, Any]:
    import locale
    import signal

    return {
        "sys.stdout": id(sys.stdout),
        "sys.stderr": id(sys.stderr),
        "sys.stdin": id(sys.stdin),
        "working directory": os.getcwd(),
        "sys.path": list(sys.path),
        "sys.argv": list(sys.argv),
        "environment": {k: v for k, v in os.environ.items() if k != "PYLINTHOME"},
        "recursion limit": sys.getrecursionlimit(),
        "locale": locale.setlocale(locale.LC_ALL),
        "signal handler": str(signal.getsignal(signal.SIGINT)),
        "umask": _umask(),
    }


def _umask() -> int:
    old = os.umask(0o22)
    os.umask(old)
    return old


def lint(root: str, env: Env, name: str) -> Tuple[Any, List[str]]:
    """(what the lint call gave, which process-wide state it left changed)"""
    import edulint

    paths, options = LINTS[name]
    prefix = os.pardir if env[3] else os.curdir
    paths = [os.path.join(prefix, p) if env[3] else p for p in paths]
    options = [o.replace("@/", root + "/") for o in options]
    out, err = io.StringIO(), io.StringIO()
    real = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = out, err
    before = state()
    try:
        try:
            got = edulint.check_code(paths, options)
        except Exception as e:  # noqa: BLE001
            got = ("raised", type(e).__name__)
        after = state()
    finally:
        sys.stdout, sys.stderr = real
    changed = [k for k in before if before[k] != after[k]]
    if got is None:
        res: Any = None
    elif got[0] == "raised":
        res = list(got)
    else:
        res = [
            [[files, [(a.option.to_name(), a.val) for a in c], sorted(t)] for files, c, t in got[0]],
            [p.to_dict() for p in got[1]],
        ]
    text = json.dumps([res, out.getvalue()], sort_keys=True, default=str)
    return json.loads(text.replace(root, "@")), changed


def in_fork(fn):
    """fn's (JSON) result, computed in a forked process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            data = json.dumps(fn()).encode()
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        except BaseException:  # noqa: BLE001
            import traceback

            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if status != 0 or not data:
        raise RuntimeError(f"node process ended with {status}")
    return json.loads(data)


def reference(case: Tuple[Env, str]) -> Tuple[Env, str, Any, List[str]]:
    env, name = case
    place = Place(common.fresh_dir("c08r"))

    def go():
        place.put(env)
        return lint(place.root, env, name)

    res, changed = in_fork(go)
    shutil.rmtree(place.root, ignore_errors=True)
    return env, name, res, changed


REF: Dict[Tuple[Env, str], Any] = {}


def step(env: Env, op: str) -> Env:
    if op not in EDITS:
        return env
    i, n = EDITS[op]
    new = list(env)
    new[i] = (new[i] + 1) % n
    return tuple(new)  # type: ignore[return-value]


def explore(place: Place, env: Env, path: List[str], ops: List[str], depth: int) -> List[Any]:
    """The subtree below ``path``: [nodes, lints, failures, visited (env, op) pairs]"""
    nodes, lints, failures = 0, 0, []
    for op in ops:
        if op in EDITS and (depth == 1 or (path and path[-1] in EDITS and path[-1] > op)):
            continue  # edits commute, and an edit is observed by a later lint only
        def go(op=op):
            new = step(env, op)
            place.put(new)
            fails = []
            count = 0
            if op in LINTS:
                count = 1
                got, changed = lint(place.root, new, op)
                if got != REF[(new, op)]:
                    fails.append([path + [op], "result", REF[(new, op)], got])
                if changed:
                    fails.append([path + [op], "changed " + ", ".join(changed), None, None])
            sub = [0, 0, []]
            if depth > 1 and not fails:
                sub = explore(place, new, path + [op], ops, depth - 1)
            return [1 + sub[0], count + sub[1], fails + sub[2]]
        n, li, fails = in_fork(go)
        place.env = None  # a forked process changed the files
        nodes += n
        lints += li
        failures += fails
    return [nodes, lints, failures]


def subtree(job: Tuple[Tuple[str, ...], List[str], int]) -> List[Any]:
    prefix, ops, depth = job
    place = Place(common.fresh_dir("c08"))

    def go():
        env = START
        place.put(env)
        fails: List[Any] = []
        count = 0
        done: List[str] = []
        for op in prefix:
            env = step(env, op)
            place.put(env)
            done.append(op)
            if op in LINTS:
                count += 1
                got, changed = lint(place.root, env, op)
                if got != REF[(env, op)]:
                    fails.append([list(done), "result", REF[(env, op)], got])
                if changed:
                    fails.append([list(done), "changed " + ", ".join(changed), None, None])
                if fails:
                    return [len(done), count, fails]
        sub = explore(place, env, list(prefix), ops, depth)
        return [len(prefix) + sub[0], count + sub[1], sub[2]]

    res = in_fork(go)
    shutil.rmtree(place.root, ignore_errors=True)
    return res


# --- the work a lint does must not grow with the number of lints before it


def edulint_calls(case: Tuple[str, int]) -> Tuple[str, List[int]]:
    name, repeat = case
    place = Place(common.fresh_dir("c08w"))
    where = os.path.join(common.REPO, "edulint")

    def go():
        place.put(START)
        counts = []
        for _ in range(repeat):
            n = 0

            def prof(frame, event, _arg):
                nonlocal n
                if event == "call" and frame.f_code.co_filename.startswith(where):
                    n += 1

            sys.setprofile(prof)
            try:
                lint(place.root, START, name)
            finally:
                sys.setprofile(None)
            counts.append(n)
        return counts

    res = in_fork(go)
    shutil.rmtree(place.root, ignore_errors=True)
    return name, res


def run(check: common.Check) -> None:
    check.rule = (
        "nodes of the tree of operation sequences; at each, the lint's result is compared with a fresh "
        "process in the same environment and the process-wide state with the state before"
    )
    import edulint  # noqa: F401
    import flake8.main.application  # noqa: F401
    import pylint.lint  # noqa: F401
    import pylint.reporters.json_reporter  # noqa: F401

    names = list(LINTS) if common.THOROUGH else list(QUICK_LINTS)
    ops = list(EDITS) + names
    envs = [
        (a, b, c, d)
        for a in range(len(BODIES)) for b in range(len(TOMLS)) for c in range(len(HELPERS)) for d in range(2)
    ]

    def relevant(env: Env, name: str) -> Env:
        """the part of the environment a lint can depend on, for sharing references"""
        paths, options = LINTS[name]
        a = env[0] if any(p in ("a.py", ".") for p in paths) else 0
        b = env[1] if any("one.toml" in o for o in options) else 0
        c = env[2] if any(p.startswith((".", "p/")) for p in paths) else 0
        return (a, b, c, env[3])

    todo = sorted({(relevant(e, n), n) for e in envs for n in names})
    refs = {}
    for env, name, res, changed in common.pmap(reference, todo):
        refs[(env, name)] = res
        check.outcome("reference:" + ("none" if res[0] is None else "raised" if res[0][0] == "raised" else "ok"))
        check.add(transitions=1)
        for c in changed:
            check.violation(f"changed|{name}|{c}", f"linting ({name}) in a fresh process changed {c}", [env, name])
        if res[0] is not None and res[0][0] == "raised":
            check.violation(f"raised|{name}", f"linting ({name}) raised {res[0][1]}", [env, name])
    for e in envs:
        for n in names:
            REF[(e, n)] = refs[(relevant(e, n), n)]

    jobs: List[Tuple[Tuple[str, ...], List[str], int]] = []
    heavy = ops if common.THOROUGH else [o for o in ops if o in TRIPLES or o in EDITS]
    deep = 2 if common.THOROUGH else 1
    for first in ops:
        for second in ops:
            if second in EDITS and first in EDITS and first > second:
                continue
            full = first in heavy and second in heavy
            jobs.append(((first, second), ops if full else [], deep if full else 0))
    for nodes, lints, failures in common.pmap(subtree, jobs):
        check.add(states=nodes, transitions=lints, traces_validated_against_impl=lints)
        for path, kind, want, got in failures:
            check.violation(
                "history|" + "|".join(path),
                f"after {path[:-1]}, {path[-1]!r}: {kind}: expected {json.dumps(want)[:300]}, got {json.dumps(got)[:300]}",
                [path, kind, want, got],
            )
    repeat = 12 if common.THOROUGH else 4
    for name, counts in common.pmap(edulint_calls, [(n, repeat) for n in names]):
        check.add(transitions=repeat)
        check.sample("calls of edulint's functions per repeated lint", [name, counts], per_kind=4)
        if counts[-1] > 1.5 * counts[0] + 50:
            check.violation(
                f"growing|{name}", f"repeating the lint ({name}) takes more and more work: {counts}", [name, counts]
            )
    check.sample("operations", ops)
    check.notes["depth"] = 2 + deep
