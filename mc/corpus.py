"""The programs of the other checks, for checks that compare what is said of a program with what is said of a
variant of it. The families of C17 to C22 are enumerated as in the quick tier, and every n-th program taken."""
from __future__ import annotations

import importlib
from typing import Any, Dict, Iterator, List, NamedTuple, Sequence, Tuple

from mc import common, prog

CHECKS = ("c17", "c18", "c19", "c20", "c21", "c22")


class Program(NamedTuple):
    family: str
    text: str
    module: bool  # a whole module (else code that can stand among other code)


def families(of: str) -> Dict[str, List[Program]]:
    """All programs of all families of a check."""
    result: Dict[str, List[Program]] = {}

    def record(
        check: Any, name: str, cases: Sequence[Any], text: Any, _judge: Any, *_: Any, **kw: Any
    ) -> Dict[str, int]:
        family = f"{check.pid}-{name}"
        result.setdefault(family, []).extend(Program(family, text(i, c), False) for i, c in enumerate(cases))
        return {}

    def record_modules(check: Any, name: str, texts: Sequence[str]) -> None:
        family = f"{check.pid}-{name}"
        result.setdefault(family, []).extend(Program(family, t, True) for t in texts)

    from mc import c22

    modules = c22.modules
    original, tier = prog.run_family, common.THOROUGH
    prog.run_family, common.THOROUGH, c22.modules = record, False, record_modules  # type: ignore[assignment]
    try:
        importlib.import_module("mc." + of).run(common.Check(of.upper(), "exploration"))
    finally:
        prog.run_family, common.THOROUGH, c22.modules = original, tier, modules
    return result


# kinds of problems that need rare programs
EXAMPLES = [
    "def f1(x, y, z):\n    if not x:\n        r = True\n    else:\n        r = False\n    return r\n",
    "def f2(x, y, z):\n    r = True if not x else False\n    return r\n",
    "def f2(x, y, z):\n    r = y if x else False\n    return r\n",
    "def f3(x, y, z):\n    if x:\n        return 1\n    else:\n        return\n",
    "def f3(x, y, z):\n    if x > 0:\n        return\n    return 1\n",
    "def f4():\n    x = int(input())\n    if x <= 2 and x >= -2:\n        return 1\n    return 2\n",
    "def f5():\n    x = int(input())\n    if x < 2 or x > 2:\n        return 1\n    return 2\n",
    "def f6():\n    x = int(input())\n    y = int(input())\n    if x % 2 == 0 and y % 2 == 0 or x % 2 == 1 and y % 2 == 1:\n"
    "        return 1\n    return 2\n",
    "def f7(xs, ys, n, m):\n    r = []\n    for i in range(len(xs)):\n        r.append(-xs[i] * 2)\n    return r\n",
    "def f8():\n    while True:\n        if c():\n            p(0)\n            break\n    p('end')\n",
    "def f9(x):\n    return x * x * x\n",
    "def f10(p, x, y, xs):\n    n = 0\n    if x > y:\n        n += True\n    else:\n        n += False\n    return n\n",
    "def f11(p, x, y, xs):\n    if x > y:\n        for a in xs:\n            out(a)\n            x += 1\n            out(x)\n"
    "            out(y)\n    else:\n        for a in xs:\n            out(a)\n            x += 2\n            out(x)\n"
    "            out(y)\n    return x\n",
    "def f12(p, x, y, xs):\n    n = 0\n    if x > 0:\n        if y <= 0:\n            out('a')\n            out(x)\n            n = 1\n"
    "        else:\n            out('b')\n            out(y)\n    else:\n        if y > 1:\n            out('a')\n            out(x)\n"
    "            n = 1\n        else:\n            out('b')\n            out(y)\n    return n\n",
    "def f13(p, x, y, xs):\n    for i in range(3):\n        out(x, y)\n        out(x, y)\n        out(x, y)\n    return x\n",
    "def g14(a, b):\n    c = 0\n    for d in a:\n        if d > b:\n            c += d\n        else:\n            c -= 1\n    return c\n\n\n"
    "def f14(p, x, y, xs):\n    ys = [1, 2]\n    c = 0\n    for d in xs:\n        if d > x:\n            c += d\n        else:\n"
    "            c -= 1\n    out(x)\n",
]


def every(n: int) -> List[List[Program]]:
    """About n programs of each family, evenly spread."""

    def worker(of: str) -> List[List[Program]]:
        return [programs[:: max(1, len(programs) // n)] for programs in families(of).values()]

    result: List[List[Program]] = [
        [Program("examples", t, False) for t in EXAMPLES[:-1]],
        [Program("calls", EXAMPLES[-1], True)],
    ]
    for found in common.pmap(worker, CHECKS):
        result += found
    return sorted(result)


def packed(programs: Sequence[Program], size: int) -> Iterator[List[Program]]:
    """Programs that can stand in one file; whole modules alone."""
    yield from ([p] for p in programs if p.module)
    yield from common.chunks([p for p in programs if not p.module], size)


def representatives(n: int, per_kind: int, codes: Sequence[str]) -> List[Program]:
    """Of n programs of each family, the first ones that some kind of problem is reported in, and some others."""
    opts = prog.options(codes)

    def worker(programs: List[Program]) -> List[Tuple[Program, List[str]]]:
        found = prog.lint_batch([p.text for p in programs], opts)
        return [(p, sorted({f[0] for f in fs})) for p, fs in zip(programs, found)]

    groups = [g for programs in every(n) for g in packed(programs, 40)]
    groups = [[p for g in gs for p in g] if gs[0][0].module else gs[0] for gs in batched(groups)]

    def several(programs: List[Program]) -> List[Tuple[Program, List[str]]]:
        if programs[0].module:
            return [x for p in programs for x in worker([p])]
        return worker(programs)

    kept: Dict[str, List[Program]] = {}
    count: Dict[Tuple[str, str], int] = {}
    for p, kinds in sorted(x for out in common.pmap(several, groups) for x in out):
        keys = [(p.family, k) for k in kinds or ("nothing",)]
        if any(count.get(k, 0) < per_kind for k in keys):
            kept.setdefault(p.family, []).append(p)
            for k in keys:
                count[k] = count.get(k, 0) + 1
    return [p for family in sorted(kept) for p in kept[family]]


def batched(groups: List[List[Program]]) -> Iterator[List[List[Program]]]:
    """Groups of one module each, 20 at a time; others one at a time."""
    modules = [g for g in groups if g[0].module]
    yield from common.chunks(modules, 20)
    yield from ([g] for g in groups if not g[0].module)
