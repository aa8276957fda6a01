"""C21: code reported as repeated is repeated, and repetition is removed as told without changing what happens.

Bounded-exhaustive families of ifs, sequences and blocks built from near-identical pieces are linted; what is
said to be identical is compared syntactically (by Python's own parser), and rewrites are executed."""
from __future__ import annotations

import ast
import itertools
import re
from typing import Any, Dict, Iterator, List, Optional, Sequence, Tuple

from mc import common, prog

LEVEL = "exploration"

IDENTICAL = ["R6501", "R6502", "R6503", "R6504"]
SIMILAR = ["R6501", "R6555", "R6556", "R6557", "R6558", "R6559", "R6561", "R6562"]
LOOPS = ["R6552", "R6553", "R6560"]
BLOCKS = ["R6551", "R6554"]


def indent(lines: Sequence[str], by: int = 4) -> List[str]:
    return [" " * by + s for line in lines for s in line.splitlines()]


def dumps(stmts: Sequence[ast.AST]) -> List[str]:
    return [ast.dump(s) for s in stmts]


def function(program: str) -> ast.FunctionDef:
    return next(s for s in ast.parse(program).body if isinstance(s, ast.FunctionDef))


def chain(node: ast.If) -> Tuple[List[ast.expr], List[List[ast.stmt]], bool]:
    """Conditions and branches of an if, and whether the last branch is an else."""
    tests, bodies = [node.test], [node.body]
    while len(node.orelse) == 1 and isinstance(node.orelse[0], ast.If):
        node = node.orelse[0]
        tests.append(node.test)
        bodies.append(node.body)
    if node.orelse:
        bodies.append(node.orelse)
    return tests, bodies, bool(node.orelse)


def make_chain(tests: Sequence[ast.expr], bodies: Sequence[List[ast.stmt]]) -> List[ast.stmt]:
    if not tests:
        return list(bodies[0]) if bodies else []
    body = list(bodies[0]) or [ast.Pass()]
    return [ast.If(test=tests[0], body=body, orelse=make_chain(tests[1:], bodies[1:]))]


def common_prefix(lists: Sequence[List[str]]) -> int:
    n = 0
    for items in zip(*lists):
        if len(set(items)) != 1:
            break
        n += 1
    return n


def lines_of(stmts: Sequence[ast.stmt]) -> int:
    return (stmts[-1].end_lineno or 0) - stmts[0].lineno + 1


# -- execution


class Stop(Exception):
    pass


class Log:
    def __init__(self) -> None:
        self.items: List[str] = []

    def __call__(self, *args: Any, **kw: Any) -> int:
        self.items.append(repr((args, sorted(kw.items()))))
        if len(self.items) > 60:
            raise Stop
        return len(self.items)


VALUES: List[Any] = [-1, 0, 1, 2]
LISTS: List[List[int]] = [[], [3], [1, 2, 0]]
INPUTS = [(p, x, y, xs) for p in (False, True) for x in VALUES for y in VALUES for xs in LISTS] + [(True, "a", 4, ["b", "c"])]


def compile_function(node: ast.FunctionDef) -> Any:
    module = ast.Module(body=[node], type_ignores=[])
    return compile(ast.fix_missing_locations(module), "<case>", "exec")


def execute(code: Any, name: str, data: Tuple[Any, ...]) -> Any:
    p, x, y, xs = data
    log = Log()
    env: Dict[str, Any] = {"out": log, "act": log}
    exec(code, env)
    mine = list(xs)
    try:
        result = ("returns", repr(env[name](p, x, y, mine)))
    except Exception as e:  # noqa: BLE001
        result = ("raises", type(e).__name__)
    return result, tuple(log.items), repr(mine), repr(env.get("G"))


def differ(a: ast.FunctionDef, b: ast.FunctionDef, inputs: Sequence[Any] = INPUTS) -> Optional[str]:
    """What is different for which input; where the original raises an exception, anything may happen."""
    name = a.name
    ca, cb = compile_function(a), compile_function(b)
    for data in inputs:
        ra = execute(ca, name, data)
        if ra[0][0] == "raises":
            continue
        rb = execute(cb, name, data)
        if ra != rb:
            return f"for (p, x, y, xs) = {data}: {ra} became {rb}"
    return None


def with_body(fn: ast.FunctionDef, body: Sequence[ast.stmt]) -> ast.FunctionDef:
    new = prog.clone(fn)
    new.body = prog.clone(list(body))
    return new


def replaced(body: Sequence[ast.stmt], first: ast.stmt, count: int, by: Sequence[ast.stmt]) -> List[ast.stmt]:
    i = next(i for i, s in enumerate(body) if s is first)
    return list(body[:i]) + list(by) + list(body[i + count :])


# -- near-identical statements

GROUPS: List[List[str]] = [
    ["n = 1", "n = True", "n = 1.0", "n = '1'", "n = b'1'", "n = (1,)", "n = -1", "n = +1", "n = ~1", "n = 1j", "n: int = 1", "m = 1", "n = n = 1"],
    ["n += x", "n -= x", "n = x", "n *= x", "n += y", "m += x"],
    ["out(0)", "out(-0)", "out(0.0)", "out(-0.0)", "out(False)", "out('')", "out(None)", "out(())", "out([])", "out({})"],
    ["out(x)", "act(x)", "out(y)", "out(*xs)", "out(xs)", "out(k=x)", "out(j=x)", "out(**{'k': x})", "out(x, x)", "out()", "out(x).a", "out", "out[x]"],
    ["out(f'{x}')", "out(f'{x!r}')", "out(f'{x!s}')", "out(f'{x:>3}')", "out(f'{x:<3}')", "out(f'{x:>{y}}')", "out(f'{x:>{x}}')", "out(f'{y}')", "out('{x}')", "out(f'{x} ')"],
    ["out(x < y)", "out(x <= y)", "out(y < x)", "out(x < y < n)", "out(x < y <= n)", "out(x is y)", "out(x is not y)", "out(x == y)", "out(not x < y)"],
    ["out(x and y)", "out(x or y)", "out(x and y and n)"],
    ["out(x + y)", "out(x - y)", "out(x ** y)", "out(-x + y)", "out(-(x + y))", "out(x + y + n)", "out(x - (y + n))", "out(x if y else n)", "out(n if y else x)"],
    ["out([a for a in xs])", "out({a for a in xs})", "out([b for b in xs])", "out([a for a in xs if a])", "out([a for a in xs if a if x])", "out([x for a in xs])", "out({a: a for a in xs})", "out([a for a in xs for a in xs])"],
    ["out((lambda a: a)(x))", "out((lambda *a: a)(x))", "out((lambda a, b=1: a)(x))", "out((lambda a, b=True: b)(x))", "out((lambda a, /: a)(x))", "out((lambda b: b)(x))", "out((lambda **a: a)())", "out((lambda **b: x)())", "out((lambda *a: x)())", "out((lambda *b: x)())"],
    ["out(xs[0])", "out(xs[1])", "out(xs[:1])", "out(xs[1:])", "out(xs[::1])", "out(xs[0:1])", "out(xs[0, 1])", "out(xs[-1])", "out(xs[True])", "out(xs.a)", "out(xs.b)"],
    ["xs[0] = x", "xs[1] = x", "xs[x] = 0", "xs.a = x", "xs.b = x", "xs[:] = [x]", "xs[0], n = x, y", "n, xs[0] = x, y", "[n, m] = x, y", "n, *m = x, y", "*n, m = x, y"],
    ["del xs[0]", "del xs[1]", "del xs[:]", "del xs.a", "del xs", "del n", "del m", "del n, m"],
    ["return x", "return y", "return", "return None", "return 1", "return True", "return x, y", "return (x,)", "raise ValueError", "raise ValueError(x)", "raise ValueError from None", "yield x", "yield", "yield from xs", "pass"],
    ["assert x", "assert x, y", "assert y", "assert x, x"],
    ["for a in xs:\n    out(a)", "for b in xs:\n    out(b)", "for a in xs:\n    out(x)", "for a in xs:\n    out(a)\nelse:\n    out(x)", "for a in xs:\n    out(a)\n    break", "for a in xs:\n    out(a)\n    continue", "for x in xs:\n    out(x)", "for a, in xs:\n    out(a)"],
    ["while out(x) < 3:\n    n += 1", "while out(x) < 3:\n    n += True", "while out(x) <= 3:\n    n += 1", "while out(x) < 3:\n    n += 1\nelse:\n    n += 1"],
    ["try:\n    out(xs[0])\nexcept IndexError:\n    out(x)", "try:\n    out(xs[0])\nexcept IndexError as e:\n    out(x)", "try:\n    out(xs[0])\nexcept:\n    out(x)", "try:\n    out(xs[0])\nexcept KeyError:\n    out(x)", "try:\n    out(xs[0])\nfinally:\n    out(x)", "try:\n    out(xs[0])\nexcept IndexError:\n    pass\nelse:\n    out(x)", "try:\n    out(xs[0])\nexcept IndexError:\n    pass\nfinally:\n    out(x)", "try:\n    out(xs[0])\nexcept* IndexError:\n    out(x)"],
    ["with x as n:\n    out(n)", "with x:\n    out(n)", "with y as n:\n    out(n)", "with x as n, y:\n    out(n)", "with x as n, y as m:\n    out(n)", "with x, y as n:\n    out(n)"],
    ["import os", "import os as sys", "import sys", "from os import path", "from os import path as q", "from os import *", "from . import path", "from .. import path", "from .os import path", "import os, sys"],
    ["global G\nG = 1", "global G, H\nG = 1", "G = 1", "global H\nG = 1"],
    ["match x:\n    case 1:\n        out(x)", "match x:\n    case 1.0:\n        out(x)", "match x:\n    case None:\n        out(x)", "match x:\n    case True:\n        out(x)", "match x:\n    case a:\n        out(x)", "match x:\n    case [a, *b]:\n        out(x)", "match x:\n    case [*a, b]:\n        out(x)", "match x:\n    case {'a': 1}:\n        out(x)", "match x:\n    case {'a': 1, **b}:\n        out(x)", "match x:\n    case {'a': 1, **c}:\n        out(x)", "match x:\n    case A(b=1):\n        out(x)", "match x:\n    case A(c=1):\n        out(x)", "match x:\n    case 1 if y:\n        out(x)", "match x:\n    case 1 | 2:\n        out(x)", "match x:\n    case (1 | 2) as a:\n        out(x)", "match x:\n    case _:\n        out(x)"],
    ["def g():\n    return 1", "def h():\n    return 1", "def g(a):\n    return 1", "def g(a=1):\n    return 1", "def g(a=True):\n    return 1", "def g(*a):\n    return 1", "def g(*b):\n    return 1", "def g(**a):\n    return 1", "def g(*, a):\n    return 1", "def g(a, /):\n    return 1", "def g() -> int:\n    return 1", "def g(a: int):\n    return 1", "@out\ndef g():\n    return 1", "class g:\n    a = 1", "class g(x):\n    a = 1", "class g(metaclass=x):\n    a = 1", "class g(k=x):\n    a = 1", "lambda: 1", "async def g():\n    return 1"],
]
ASYNC: List[List[str]] = [
    ["for a in xs:\n    out(a)", "async for a in xs:\n    out(a)"],
    ["with x:\n    out(x)", "async with x:\n    out(x)"],
    ["out([a for a in xs])", "out([a async for a in xs])"],
    ["out(x)", "await out(x)", "out(await x)"],
]


def parses(text: str) -> bool:
    try:
        compile(text, "<c>", "exec")
        return True
    except SyntaxError:
        return False


COMMON = "act(n)"
Chain = Tuple[str, Tuple[Tuple[str, ...], ...]]


def identical_cases(check: common.Check) -> List[Tuple[str, Chain]]:
    cases: List[Tuple[str, Chain]] = []
    for prefix, groups in (("", GROUPS), ("async ", ASYNC)):
        for group in groups:
            for a, b in itertools.product(group, repeat=2):
                for bodies in (
                    ((a,), (b,)),
                    ((a, COMMON), (b, COMMON)),
                    ((COMMON, a), (COMMON, b)),
                    ((a,), (b,), (a,)),
                    ((a,), (a,), (b,)),
                    ((b,), (a,), (a,)),
                ):
                    if a == b and len(bodies) == 3:
                        continue
                    if not common.THOROUGH and (len(bodies) == 3 and bodies[2] == (a,) or bodies[0][0] == COMMON and len(bodies[0]) > 1 and a > b):
                        continue
                    for shape in ("else", "elif", "ifs") if len(bodies) == 2 else ("else", "ifs"):
                        cases.append((prefix, (shape, bodies)))
                if a != b:
                    cases.append((prefix, ("else", ((a, COMMON, b), (b, COMMON, a)))))
                    cases.append((prefix, ("else", ((a, b), (a,)))))
                    cases.append((prefix, ("else", ((b, a), (a,)))))
                    cases.append((prefix, ("else", ((a, b, a), (a, b), (a, b, b)))))
                    cases.append((prefix, ("else", ((a, b, a), (b, a), (b, b, a)))))
    cases = list(dict.fromkeys(cases))
    return [c for c in cases if parses(identical_text(0, c))]


def chain_text(shape: str, bodies: Sequence[Sequence[str]], tests: Sequence[str]) -> List[str]:
    lines: List[str] = []
    for i, body in enumerate(bodies):
        if shape == "else" and i == len(bodies) - 1:
            lines.append("else:")
        else:
            lines.append(("elif " if i and shape != "ifs" else "if ") + tests[i] + ":")
        lines += indent(body)
    return lines


def identical_text(i: int, case: Tuple[str, Chain]) -> str:
    prefix, (shape, bodies) = case
    lines = chain_text(shape, bodies, ["p == 3", "p == 4", "p == 5"])
    return "\n".join([f"{prefix}def f{i}(p, x, y, xs):"] + indent(lines))


def judge_identical(case: Any, program: str, found: List[prog.Found]) -> Tuple[int, List[Tuple[Any, str]]]:
    bad: List[Tuple[Any, str]] = []
    fn = next(s for s in ast.parse(program).body if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)))
    ifs = [s for s in fn.body if isinstance(s, ast.If)]
    tests, bodies, has_else = chain(ifs[0])
    strings = [dumps(b) for b in bodies]
    said = {}
    for code, text, line, _c, _e in found:
        if line + 1 == ifs[0].lineno or code in ("R6503", "R6504"):
            said.setdefault(code, []).append((text, line + 1))

    # identical parts of branches
    expected: List[Tuple[int, str]] = []
    whole = has_else and all(s == strings[0] for s in strings)
    if has_else:
        n = common_prefix(strings)
        if n:
            expected.append((lines_of(bodies[0][:n]), "before"))
        if not n or all(n < len(s) for s in strings):
            m = common_prefix([s[::-1] for s in strings])
            if m > 1 or m and not isinstance(bodies[0][-1], ast.Return):
                expected.append((lines_of(bodies[0][-m:]), "after"))

    def told(code: str) -> List[Tuple[int, str]]:
        out = []
        for text, _line in said.get(code, []):
            m = re.search(r"move (\d+) lines (before|after) the if", text)
            assert m, text
            out.append((int(m.group(1)), m.group(2)))
        return out

    if told("R6502") != ([] if whole else expected):
        bad.append(("R6502", f"R6502 says {told('R6502')}, but the branches have in common {expected}"))
    if whole and "R6501" not in said:
        bad.append(("R6501", "the branches are identical, but R6501 is not reported"))
    if not whole and "R6501" in said:
        same = has_else and not case[0]
        if same:
            variants = [with_body(fn, replaced(fn.body, ifs[0], 1, body)) for body in bodies]  # type: ignore[arg-type]
            try:
                same = all(differ(variants[0], v) is None for v in variants[1:])  # type: ignore[arg-type]
            except SyntaxError:
                same = False
        if not same:
            bad.append(("R6501", "R6501 says the branches are identical, but they are not"))

    # identical branches of consecutive conditions
    conditional: List[List[str]] = []
    positions: List[int] = []
    for node in ifs:
        cur: Optional[ast.If] = node
        while cur is not None:
            conditional.append(dumps(cur.body))
            positions.append(cur.lineno)
            cur = cur.orelse[0] if len(cur.orelse) == 1 and isinstance(cur.orelse[0], ast.If) else None  # type: ignore[assignment]
    runs: List[Tuple[int, int]] = []
    i = 0
    while i < len(conditional):
        n = 1
        while i + n < len(conditional) and conditional[i + n] == conditional[i]:
            n += 1
        if n > 1:
            runs.append((n, positions[i]))
        i += n

    def counts(code: str) -> List[Tuple[int, int]]:
        out = []
        for text, line in said.get(code, []):
            m = re.search(r"inside (\d+) consecutive", text)
            assert m, text
            out.append((int(m.group(1)), line))
        return sorted(out, key=lambda t: t[1])

    # three similar ifs are preferably told to be replaced by a loop
    joined = counts("R6503")
    if joined != ([] if has_else else runs) and (len(ifs) < 3 or joined):
        bad.append(("R6503", f"R6503 says {counts('R6503')}, but identical are (count, line) {runs}"))
    if counts("R6504") != (runs if has_else and not expected else []):
        bad.append(("R6504", f"R6504 says {counts('R6504')}, but identical are (count, line) {runs}"))
    return 1, bad



# -- code moved out of ifs, conditions joined

MOVED_TESTS = ["x > 0", "y > 0", "x > y", "xs", "len(xs) > 1", "x == 1", "x == 2", "p", "not p", "xs and xs[0] > x", "G > 0"]
MOVED = ["x = 0", "x += 1", "n = 1", "n += 1", "out(x)", "xs.append(x)", "return 1", "y = x", "xs = []", "p = False", "p = not p", "n = x", "raise ValueError", "xs[0] = x", "xs[:] = [y]", "for x in xs:\n    pass", "G += 1", "set_g()"]
MOVED_BOTH = ["n += 1", "out(x)", "x = 0", "x += 1", "xs.append(x)", "y = x", "p = not p", "G += 1", "set_g()", "n = [x := x + 1]"]


def moved_cases(check: common.Check) -> List[Any]:
    cases: List[Any] = []
    a, b = "out('a')", "out('b')"
    for t in MOVED_TESTS:
        for s in MOVED:
            cases.append(("else", ((s, a), (s, b)), (t,)))
            cases.append(("else", ((s, a), (s,)), (t,)))
            cases.append(("else", ((a, s), (b, s)), (t,)))
        for s, r in itertools.product(MOVED_BOTH, repeat=2):
            cases.append(("else", ((s, r, a), (s, r, b)), (t,)))
    for t, u in itertools.product(MOVED_TESTS, repeat=2):
        for s in MOVED:
            cases.append(("else", ((s, a), (s, b), (s,)), (t, u)))
            if not common.THOROUGH and t > u:
                continue
            cases.append(("else", ((a, s), (b, s), (s,)), (t, u)))
            for shape in ("elif", "ifs"):
                cases.append((shape, ((s,), (s,)), (t, u)))
            cases.append(("else", ((s,), (s,), (a,)), (t, u)))
            cases.append(("else", ((a,), (s,), (s,), (b,)), (t, u, "x == 0")))
    return cases


def moved_text(i: int, case: Any) -> str:
    shape, bodies, tests = case
    uses_g = "G" in " ".join(itertools.chain(tests, *bodies)).replace("set_g", "G")
    lines = (["global G"] if uses_g else []) + ["n = 0"] + chain_text(shape, bodies, tests) + ["out(n)", "return x, y, p, n"]
    return "\n".join([f"def f{i}(p, x, y, xs):"] + indent(lines))


HEADER = "G = 1\n\n\ndef set_g():\n    global G\n    G = 0\n\n\n"


def runs(fn: ast.FunctionDef) -> List[Any]:
    module = ast.parse(HEADER)
    module.body.append(fn)
    code = compile(ast.fix_missing_locations(module), "<case>", "exec")
    return [execute(code, fn.name, data) for data in INPUTS]


def judge_moved(case: Any, program: str, found: List[prog.Found]) -> Tuple[int, List[Tuple[Any, str]]]:
    bad: List[Tuple[Any, str]] = []
    fn = function(program)
    ifs = [s for s in fn.body if isinstance(s, ast.If)]
    tests, bodies, has_else = chain(ifs[0])
    original: List[Any] = []
    for code, text, _line, _c, _e in found:
        new: Optional[List[ast.stmt]] = None
        move = re.search(r"move (\d+) lines (before|after) the if", text)
        if move:
            lines = int(move.group(1))
            if move.group(2) == "before":
                k = next((k for k in range(1, len(bodies[0]) + 1) if lines_of(bodies[0][:k]) == lines), 0)
                new = bodies[0][:k] + make_chain(tests, [b[k:] for b in bodies])
            else:
                k = next((k for k in range(1, len(bodies[0]) + 1) if lines_of(bodies[0][-k:]) == lines), 0)
                new = make_chain(tests, [b[: len(b) - k] for b in bodies]) + bodies[0][-k:]
            assert k, (text, program)
            new = replaced(fn.body, ifs[0], 1, new)
        join = re.search(r"inside (\d+) consecutive", text)
        if join:
            n = int(join.group(1))
            if len(ifs) > 1:
                joined = ast.If(test=ast.BoolOp(op=ast.Or(), values=[f.test for f in ifs[:n]]), body=ifs[0].body, orelse=[])
                new = replaced(fn.body, ifs[0], n, [joined])
            else:
                start = next(i for i in range(len(tests)) if tests[i].lineno == fn.lineno + _line)
                test = ast.BoolOp(op=ast.Or(), values=tests[start : start + n])
                new = replaced(
                    fn.body, ifs[0], 1,
                    make_chain(tests[:start] + [test] + tests[start + n :], bodies[: start + 1] + bodies[start + n :]),
                )
        if new is None:
            continue
        original = original or runs(with_body(fn, fn.body))
        for data, a, b in zip(INPUTS, original, runs(with_body(fn, new))):
            if a != b and a[0][0] != "raises":
                bad.append((code, f"{code} {text}, but for (p, x, y, xs) = {data}: {a} became {b}"))
                break
    return len(INPUTS) * 2, bad


# -- branches that differ in values

VALUES_TESTS: List[Tuple[str, ...]] = [
    ("x > y",), ("p",), ("not p",), ("x",), ("xs",), ("x > 0 and p",), ("x == 0 or y == 0",), ("x == 0", "x == 1"), ("x > 0", "y > 0"), ("p", "x == y", "y"), ("x == 1 or x == 2", "y == 0"), ("out(x) > 2",), ("x == y",),
]
VALUE_PAIRS: List[Tuple[str, ...]] = [
    ("1", "2", "3", "4"), ("'a'", "'b'", "'c'", "'d'"), ("x", "y", "n", "p"), ("True", "False", "True", "False"), ("False", "True", "True", "True"), ("xs[0]", "xs[1]", "xs[2]", "xs[-1]"),
    ("x + 1", "x - 1", "x", "y"), ("1", "True", "1.0", "1"), ("0", "0.0", "-0.0", "0"), ("-1", "1", "0", "2"), ("f'{x}'", "f'{y}'", "f''", "f'{n}'"), ("x < y", "x <= y", "x > y", "x == y"),
    ("None", "0", "1", "2"), ("1", "2", "1", "2"), ("1", "1", "2", "2"), ("1", "2", "2", "1"), ("(x, y)", "(y, x)", "(x, x)", "(y, y)"), ("x if p else y", "y if p else x", "1", "2"), ("1", "'1'", "1.0", "(1,)"), ("x", "1", "y", "2"),
    ("len(xs)", "sum(xs)", "min(xs)", "max(xs)"), ("xs.pop()", "xs.index(0)", "x", "y"), ("True", "False", "False", "True"),
]
TEMPLATES: List[Tuple[str, ...]] = [
    ("n = H",), ("n += H",), ("out(H)",), ("return H",), ("n = H", "out(n)"), ("out(x)", "out(H)", "out(y)"), ("out(x)", "xs.append(H)", "out(xs)", "xs.append(x)"),
    ("for a in xs:\n    out(a)\n    out(H)",), ("for a in xs:\n    if a > H:\n        out(a)\n        out(y)",), ("for a in xs:\n    out(a)\n    x += H\n    out(x)\n    out(y)",), ("while n < 2:\n    n += 1\n    out(H)\n    out(n)",),
    ("xs[0] = H",), ("xs[H] = 1", "out(xs)"), ("n = act(x, H)", "out(n)"), ("n = [H, x]", "out(n)", "out(y)"), ("out(x, y, [x, y], H)", "out(xs)"), ("out(k=H)", "out(xs)", "out(x)"), ("n = H", "x = n", "out(x, y)"),
    ("x = H", "out(x)", "out(y)", "out(n)"), ("out(H)", "x += 1", "y -= 1", "out(x, y)"), ("x = 0", "out(x)", "out(H)"), ("out(x)", "if y > 0:\n    out(H)\n    out(n)", "out(y)"),
    ("n = x + H", "out(n)", "out(x)"), ("out(n + 2 * H)", "out(x)"), ("out(H)", "out(H)"), ("n = H", "m = H", "out(n, m)"), ("out(H, K)", "out(x)"), ("n = H", "m = K", "out(n, m)"), ("out(H)", "out(K)"), ("return out(x, H)",), ("return [x, y, H]",), ("return x == H",),
    ("try:\n    out(x)\n    out(xs[H])\nexcept IndexError:\n    out(y)",), ("out(f'{H}')", "out(x)", "out(y)"), ("out(lambda: H)", "n = (lambda: H)()", "out(x)"), ("n = H(x)",), ("out(x.H)",),
]


def values_cases(check: common.Check) -> List[Any]:
    cases: List[Any] = []
    for tests in VALUES_TESTS:
        for template in TEMPLATES:
            for vals in VALUE_PAIRS:
                text = "\n".join(template)
                if "H(x)" in text or "x.H" in text:
                    if not vals[0].isidentifier() or vals[0] in ("True", "False", "None"):
                        continue
                for other in ([None] if "K" not in text else [vals[1:] + vals[:1], VALUE_PAIRS[0]]):
                    bodies = []
                    for j in range(len(tests) + 1):
                        body = [re.sub(r"\bH\b", vals[j], st) for st in template]
                        if other:
                            body = [re.sub(r"\bK\b", other[j], st) for st in body]
                        bodies.append(tuple(body))
                    cases.append(("else", tuple(bodies), tests))
    # nested ifs with swapped branches
    inner = ["y > 0", "y <= 0", "not y > 0", "y % 2 == 0", "y % 2 == 1", "y % 2 != 0", "p", "not p", "y > 1", "x > y", "x <= y", "not (y > 0)", "y > 0 and p", "not y > 0 or not p", "y", "not y", "y == 0", "y != 0", "0 < y", "y >= 0"]
    for outer in ("x > 0", "p", "x > 0 and p", "out(x) > 2", "x"):
        for q, r in itertools.product(inner, repeat=2):
            for left, right in (("out('a')\nout(x)\nn = 1", "out('b')\nout(y)"), ("y += 1\nout(y)\nout(xs)", "out(y)\nout(x)\nx -= 1")):
                one = f"if {q}:\n" + "\n".join(indent(left.splitlines())) + "\nelse:\n" + "\n".join(indent(right.splitlines()))
                two = f"if {r}:\n" + "\n".join(indent(right.splitlines())) + "\nelse:\n" + "\n".join(indent(left.splitlines()))
                three = f"if {r}:\n" + "\n".join(indent(left.splitlines())) + "\nelse:\n" + "\n".join(indent(right.splitlines()))
                cases.append(("else", ((one,), (two,)), (outer,)))
                cases.append(("else", ((one,), (three,)), (outer,)))
    return cases


def values_text(i: int, case: Any) -> str:
    shape, bodies, tests = case
    lines = ["n = m = 0"] + chain_text(shape, bodies, tests) + ["return x, y, p, n, m"]
    return "\n".join([f"def f{i}(p, x, y, xs):"] + indent(lines))


class NotSimilar(Exception):
    pass


class Unifier:
    """The common part of several pieces of code, with holes for the expressions they differ in."""

    def __init__(self) -> None:
        self.holes: List[List[ast.expr]] = []

    def stmts(self, lists: Sequence[List[Any]]) -> List[Any]:
        if len({len(x) for x in lists}) != 1:
            raise NotSimilar
        return [self.node(list(items)) for items in zip(*lists)]

    def node(self, items: List[Any]) -> Any:
        if len({ast.dump(n) for n in items}) == 1:
            return prog.clone(items[0])
        if all(isinstance(n, ast.expr) and isinstance(getattr(n, "ctx", ast.Load()), ast.Load) for n in items):
            if all(type(n) is type(items[0]) for n in items):
                before = list(self.holes)
                try:
                    return self.fields(items)
                except NotSimilar:
                    self.holes = before
            self.holes.append(items)
            return ast.Name(id=f"HOLE{len(self.holes) - 1}", ctx=ast.Load())
        if all(type(n) is type(items[0]) for n in items):
            return self.fields(items)
        raise NotSimilar

    def fields(self, items: List[Any]) -> Any:
        if isinstance(items[0], ast.pattern):
            raise NotSimilar
        kw = {}
        for name in items[0]._fields:
            vals = [getattr(n, name, None) for n in items]
            if all(isinstance(v, list) for v in vals) and any(vals):
                if len({len(v) for v in vals}) != 1:
                    raise NotSimilar
                kw[name] = [self.value(list(vs)) for vs in zip(*vals)]
            else:
                kw[name] = self.value(vals)
        return type(items[0])(**kw)

    def value(self, vals: List[Any]) -> Any:
        if all(isinstance(v, ast.AST) for v in vals):
            return self.node(vals)
        if len({(type(v), repr(v)) for v in vals}) != 1:
            raise NotSimilar
        return vals[0]


class Fill(ast.NodeTransformer):
    def __init__(self, values: Dict[str, ast.expr]) -> None:
        self.values = values

    def visit_Name(self, node: ast.Name) -> ast.AST:
        return prog.clone(self.values[node.id]) if node.id in self.values else node


def fill(template: Sequence[ast.stmt], values: Sequence[ast.expr]) -> List[ast.stmt]:
    table = {f"HOLE{i}": v for i, v in enumerate(values)}
    return [Fill(table).visit(prog.clone(s)) for s in template]


def choice(tests: Sequence[ast.expr], values: Sequence[ast.expr]) -> ast.expr:
    result = values[-1]
    for t, v in reversed(list(zip(tests, values))):
        result = ast.IfExp(test=prog.clone(t), body=v, orelse=result)
    return result


def quiet_tests(tests: Sequence[ast.expr]) -> bool:
    return not any(isinstance(n, (ast.Call, ast.NamedExpr)) for t in tests for n in ast.walk(t))


def judge_values(case: Any, program: str, found: List[prog.Found]) -> Tuple[int, List[Tuple[Any, str]]]:
    bad: List[Tuple[Any, str]] = []
    fn = function(program)
    if_ = next(s for s in fn.body if isinstance(s, ast.If))
    tests, bodies, has_else = chain(if_)
    for code, text, line, _c, _e in found:
        if line + fn.lineno != if_.lineno or code == "R6501":
            continue
        new: Optional[List[List[ast.stmt]]] = None
        unifier = Unifier()
        try:
            template: Optional[List[ast.stmt]] = unifier.stmts(bodies)
        except NotSimilar:
            template = None
        if code == "R6557":
            m = re.search(r"Use condition '(.*)' to avoid", text, re.S)
            assert m, text
            first = bodies[0][0]
            assert isinstance(first, ast.If), program
            new = [[ast.If(test=ast.parse(m.group(1), mode="eval").body, body=first.body, orelse=first.orelse)]]
        elif template is None or not has_else:
            bad.append((code, f"{code} says that the branches are similar, but their structures differ"))
            continue
        elif code == "R6555":
            if len({tuple(map(ast.dump, h)) for h in unifier.holes}) != 1:
                bad.append((code, f"{code}, but the branches differ in {len(unifier.holes)} places"))
                continue
            values = [getattr(v, "value", None) for v in unifier.holes[0]]
            if len(values) != 2 or set(map(repr, values)) != {"True", "False"}:
                bad.append((code, f"{code}, but the branches do not differ in True and False"))
                continue
            test: ast.expr = ast.Call(func=ast.Name(id="bool", ctx=ast.Load()), args=[prog.clone(tests[0])], keywords=[])
            if values[0] is False:
                test = ast.UnaryOp(op=ast.Not(), operand=test)
            new = [fill(template, [test] * len(unifier.holes))]
        elif code == "R6558":
            m = re.search(r'i\.e\., "(.*)"\)', text, re.S)
            assert m, text
            told = ast.parse(m.group(1), mode="eval").body
            choices = [choice(tests, h) for h in unifier.holes]
            new = []
            for i in range(len(choices)):
                new.append(fill(template, [told if j == i or ast.dump(choices[j]) == ast.dump(choices[i]) else c for j, c in enumerate(choices)]))
        elif code in ("R6556", "R6559"):
            if code == "R6556":
                m = re.search(r"only contains lines (.*), but only", text)
                assert m, text
                told_lines = [tuple(map(int, r.split("-"))) * (1 if "-" in r else 2) for r in m.group(1).split(", ")]
                offset = START_OF(program, found, told_lines, bodies)
                if offset is not None:
                    bad.append((code, f"{code} {text}, but {offset}"))
            if not unifier.holes:
                bad.append((code, f"{code}, but the branches are identical"))
            if code == "R6559" and quiet_tests(tests):
                names = [f"EXTRA{i}" for i in range(len(unifier.holes))]
                if all(constant(v) for h in unifier.holes for v in h):
                    assigns = make_chain(tests, [
                        [ast.Assign(targets=[ast.Name(id=n, ctx=ast.Store())], value=h[j], lineno=1) for n, h in zip(names, unifier.holes)]
                        for j in range(len(bodies))
                    ])
                    new = [assigns + fill(template, [ast.Name(id=n, ctx=ast.Load()) for n in names])]
        if new is None or not quiet_tests(tests) and code in ("R6555", "R6557"):
            continue  # what has effects is not to be evaluated more than once
        problems = []
        for body in new:
            differs = differ(fn, with_body(fn, replaced(fn.body, if_, 1, body)))
            if differs is None:
                break
            problems.append(differs)
        else:
            bad.append((code, f"{code} {text}, but {problems[0] if problems else 'there is no place for it'}"))
    return len(INPUTS) * 2, bad


# -- ifs replaceable by a container

CONTAINER_TESTS: List[Tuple[str, ...]] = [
    ("x == 0", "x == 1", "x == 2"), ("x == 2", "x == 0", "x == 1"), ("x == 1", "x == 2", "x == 3"), ("x == 'a'", "x == 'b'", "x == 'c'"), ("x == 0", "x == 1", "x == 1"),
    ("x == 0", "x == 1", "x == 2", "x == 3"), ("x == 0", "x == 1", "x == 2", "x == -1"), ("0 == x", "x == 1", "2 == x"), ("x == 0", "y == 1", "x == 2"), ("x == 0", "x == 1", "x != 2"),
    ("x == 0 or x == 1", "x == 2", "x == 3"), ("x == 0", "x == 1 or x == 2", "x == 1 or x == 3"), ("x == 0 and y == 0", "x == 0 and y == 1", "x == 1 and y == 0"), ("x == 0 and y == 0", "y == 1 and x == 0", "y == 0 and x == 1", "x == 1 and y == 1"),
    ("x == 0 and y == 0", "x == 0", "y == 0"), ("(x == 0 or x == 1) and y == 0", "x == 0 and y == 1", "x == 2 and (y == 0 or y == 1)"),
    ("p", "x == 0", "x == 1", "x == 2"), ("x == 0", "x == 1", "x == 2", "p"), ("p", "x == 0", "x == 1", "x == 2", "x == 3", "y > 0"), ("x == True", "x == 0", "x == 2"), ("x == 1", "x == 1.0", "x == True"), ("x == None", "x == 0", "x == 2"),
    ("x == y", "x == 0", "x == 1", "x == 2"), ("x == 0", "x == 1", "x == 2", "x == y"), ("x == 0 == y", "x == 1", "x == 2"), ("not x == 0", "x == 1", "x == 2"),
]
CONTAINER_TEMPLATES: List[Tuple[str, ...]] = [
    ("n = H",), ("out(H)",), ("return H",), ("n = H", "out(x)"), ("x = H",), ("out(x)", "x = H"), ("y = H",), ("n += H",), ("n = H", "m = K"), ("out(H, K)",), ("n = x + H",), ("return H, x",), ("x += 1", "out(H)"),
    ("xs.append(H)",), ("out(H)", "out(K)", "out(x)"), ("n = H", "out(n)", "out(H)"), ("for a in xs:\n    out(a, H)",), ("n = (H, x)", "p = not p"), ("n = H", "return x"), ("global G\nG = H",), ("n = H", "x, y = y, x"), ("n = [x := H]",), ("for x in [H]:\n    out(x)",),
]
CONTAINER_VALUES: List[Tuple[str, ...]] = [
    ("'a'", "'b'", "'c'", "'d'", "'e'", "'f'", "'g'"), ("5", "6", "7", "8", "9", "10", "11"), ("0", "1", "2", "3", "4", "5", "6"), ("1", "1", "2", "2", "3", "3", "4"), ("1", "True", "1.0", "0", "False", "0.0", "-1"), ("x", "y", "p", "n", "m", "x", "y"),
    ("1", "'1'", "None", "2", "3", "4", "5"), ("2", "1", "0", "1", "0", "2", "3"), ("'x'", "x", "'y'", "y", "1", "2", "3"),
]


def containers_cases(check: common.Check) -> List[Any]:
    cases: List[Any] = []
    for tests in CONTAINER_TESTS:
        for template in CONTAINER_TEMPLATES:
            for vals in CONTAINER_VALUES[: None if common.THOROUGH else 5]:
                other = [None] if "K" not in " ".join(template) else [vals, vals[1:] + vals[:1], CONTAINER_VALUES[0]]
                for second in other:
                    bodies = []
                    for j in range(len(tests) + 1):
                        body = [re.sub(r"\bH\b", vals[j], st) for st in template]
                        bodies.append(tuple(re.sub(r"\bK\b", second[j], st) for st in body) if second else tuple(body))
                    cases.append(("else", tuple(bodies), tests))
                    cases.append(("elif", tuple(bodies[:-1]), tests))
                    cases.append(("ifs", tuple(bodies[:-1]), tests))
                    if second is None:
                        cases.append(("else", tuple(bodies[:-1]) + (("out(0)",),), tests))
                        cases.append(("mixed", tuple(bodies[:-1]), tests))
    return [c for c in cases if parses(containers_text(0, c))]


def containers_text(i: int, case: Any) -> str:
    shape, bodies, tests = case
    lines = ["n = m = 0"]
    if shape == "mixed":
        lines += chain_text("elif", bodies[:2], tests[:2]) + chain_text("elif", bodies[2:], tests[2:])
    else:
        lines += chain_text(shape, bodies, tests)
    return "\n".join([f"def f{i}(p, x, y, xs):"] + indent(lines + ["return x, y, p, n, m"]))


def keys_of(test: ast.expr) -> Optional[List[Dict[str, Any]]]:
    """Values of the variables for which the test holds, where it is made only of comparisons to constants."""
    if isinstance(test, ast.BoolOp):
        parts = [keys_of(v) for v in test.values]
        if any(k is None for k in parts):
            return None
        if isinstance(test.op, ast.Or):
            return [d for k in parts for d in k or []]
        result: List[Dict[str, Any]] = []
        for combination in itertools.product(*[k or [] for k in parts]):
            one: Dict[str, Any] = {}
            for d in combination:
                if any(k in one for k in d):
                    return None
                one.update(d)
            result.append(one)
        return result
    if not (isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], ast.Eq)):
        return None
    a, b = test.left, test.comparators[0]
    if isinstance(a, ast.Constant):
        a, b = b, a
    if not (isinstance(a, ast.Name) and isinstance(b, ast.Constant)):
        return None
    return [{a.id: b.value}]


def judge_containers(case: Any, program: str, found: List[prog.Found]) -> Tuple[int, List[Tuple[Any, str]]]:
    bad: List[Tuple[Any, str]] = []
    fn = function(program)
    for code, text, line, _c, _e in found:
        if code not in ("R6561", "R6562"):
            continue
        # conditions from the told line on, in the order in which they are tried
        where = next(i for i, s in enumerate(fn.body) if isinstance(s, ast.If) and s.lineno <= line + 1 <= (s.end_lineno or 0))
        siblings = [s for s in fn.body[where:] if isinstance(s, ast.If)]
        tests: List[ast.expr] = []
        bodies: List[List[ast.stmt]] = []
        orelse: List[ast.stmt] = []
        for node in siblings:
            t, b, has_else = chain(node)
            assert not has_else or len(siblings) == 1
            if has_else:
                orelse = b[-1]
                b = b[:-1]
            tests += t
            bodies += b
        start = next(i for i, t in enumerate(tests) if t.lineno == line + 1)
        keys = [keys_of(t) for t in tests]
        end = start
        while end < len(tests) and keys[end] is not None and set().union(*[set(k) for k in keys[end] or []]) == set((keys[start] or [{}])[0]):
            end += 1
        if end - start < 3:
            bad.append((code, f"{code}, but there are {end - start} conditions comparing the same variables"))
            continue
        unifier = Unifier()
        try:
            template = unifier.stmts(bodies[start:end])
        except NotSimilar:
            bad.append((code, f"{code}, but the branches differ not only in values"))
            continue
        names = sorted((keys[start] or [{}])[0])
        pairs: List[Tuple[Any, List[ast.expr]]] = []
        for j in range(start, end):
            for d in keys[j] or []:
                pairs.append((tuple(d[n] for n in names), [h[j - start] for h in unifier.holes]))
        if len({tuple(map(ast.dump, h)) for h in unifier.holes}) > 2:
            bad.append((code, f"{code}, but the branches differ in more than two values"))
        if code == "R6561" and {k for k, _v in pairs} != {(i,) for i in range(len(pairs))}:
            bad.append((code, f"{code}, but the variable is not compared to 0, 1, ..."))
            continue
        if any(isinstance(n, ast.Name) for _k, v in pairs for e in v for n in ast.walk(e)) and modifies(template, {n.id for _k, v in pairs for e in v for n in ast.walk(e) if isinstance(n, ast.Name)}):
            continue
        key_node = ast.Tuple(elts=[ast.Name(id=n, ctx=ast.Load()) for n in names], ctx=ast.Load())
        container = ast.Dict(
            keys=[ast.Tuple(elts=[ast.Constant(value=v) for v in k], ctx=ast.Load()) for k, _v in pairs[::-1]],
            values=[ast.Tuple(elts=[prog.clone(e) for e in v], ctx=ast.Load()) for _k, v in pairs[::-1]],
        )
        setup = ast.Assign(targets=[ast.Name(id="CONTAINER", ctx=ast.Store())], value=container, lineno=1)
        uses: List[ast.expr] = [
            ast.Subscript(value=ast.Name(id="VALUES", ctx=ast.Load()), slice=ast.Constant(value=i), ctx=ast.Load())
            for i in range(len(unifier.holes))
        ]
        get = ast.Assign(
            targets=[ast.Name(id="VALUES", ctx=ast.Store())],
            value=ast.Subscript(value=ast.Name(id="CONTAINER", ctx=ast.Load()), slice=key_node, ctx=ast.Load()), lineno=1,
        )
        inside = ast.Compare(left=key_node, ops=[ast.In()], comparators=[ast.Name(id="CONTAINER", ctx=ast.Load())])
        body: List[ast.stmt] = [get] + fill(template, uses)
        if len(siblings) == 1:
            new = make_chain(tests[:start] + [inside] + tests[end:], bodies[:start] + [body] + bodies[end:] + ([orelse] if orelse else []))
            changed = replaced(fn.body, siblings[0], 1, [setup] + new)
        elif start == 0 and end == len(tests):
            changed = replaced(fn.body, siblings[0], len(siblings), [setup, ast.If(test=inside, body=body, orelse=[])])
        elif start == 0 and any(t is tests[end - 1] for t in chain(siblings[-1])[0]):
            changed = replaced(fn.body, siblings[0], len(siblings), [setup] + make_chain([inside] + tests[end:], [body] + bodies[end:]))
        else:
            rest: List[ast.stmt] = []
            for j, (t, b) in enumerate(zip(tests, bodies)):
                if j == start:
                    rest += [setup, ast.If(test=inside, body=body, orelse=[])]
                elif not start <= j < end:
                    rest.append(ast.If(test=t, body=b, orelse=[]))
            changed = replaced(fn.body, siblings[0], len(siblings), rest)
        differs = differ(fn, with_body(fn, changed))
        if differs is not None:
            bad.append((code, f"{code} {text}, but {differs}"))
    return len(INPUTS) * 2, bad


def modifies(stmts: Sequence[ast.AST], names: Any) -> bool:
    return any(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in names for s in stmts for n in ast.walk(s))


# -- repeated statements replaceable by a loop

LOOP_TEMPLATES: List[Tuple[str, ...]] = [
    ("out(H)",), ("out(x, H)",), ("out(xs[H])", "act(H)"), ("xs.append(H)", "out(xs)"), ("out(H)", "out(K)"), ("out(H, K)",), ("n += H", "out(n)"), ("if x == H:\n    out(y)",), ("if x > H:\n    out(y)\n    return n",),
    ("for a in xs:\n    out(a, H)",), ("x += 1", "out(H)"), ("y = H", "out(y)"), ("out(H)", "x += 1"), ("xs[0] = H", "out(xs)"), ("n = x + H", "out(n)"), ("out(f'{H}')", "out(x)"), ("out('H')",), ("n = n * H + x",), ("out(x, y)",), ("out()", "x += 1"),
    ("if x > H:\n    break\nout(H)",), ("if x > H:\n    continue\nout(H)",), ("if x == H:\n    out(y)\n    break",), ("if x == H:\n    out(y)\n    continue",), ("if n > 5:\n    break\nn += 3\nout(n)",), ("if n > 5:\n    continue\nn += 3\nout(n)",),
    ("out(x + H)",), ("out(x - H, K)",), ("out(xs[H:K])",), ("x = H",), ("out(x)", "x = H"), ("n = (n, H)", "out(n)"), ("while n < H:\n    n += 1\n    out(n)",), ("out(H < K)",), ("out([H, K])",), ("out(H if x else K)",), ("x, y = y, H", "out(x)"), ("out(i, x)",), ("out(i)", "act(x)"), ("out(i, H)",),
]
LOOP_VALUES: List[Tuple[str, ...]] = [
    ("0", "1", "2", "3"), ("1", "2", "3", "4"), ("3", "2", "1", "0"), ("1", "3", "5", "7"), ("5", "0", "-5", "-10"), ("0", "-1", "-2", "-3"), ("1", "2", "4", "8"), ("1", "1", "2", "2"), ("'a'", "'b'", "'c'", "'d'"), ("'a'", "'c'", "'e'", "'g'"), ("'d'", "'c'", "'b'", "'a'"),
    ("'a'", "'c'", "'b'", "'e'"), ("'ab'", "'cd'", "'ef'", "'gh'"), ("x", "y", "n", "p"), ("x", "x + 1", "x + 2", "x + 3"), ("x - 1", "x", "x + 1", "x + 2"), ("x", "x * 2", "x * 3", "x * 4"), ("0", "x", "x * 2", "x * 3"), ("1", "x", "x ** 2", "x ** 3"), ("x", "x - 1", "x - 2", "x - 3"),
    ("x", "2 * x", "3 * x", "4 * x"), ("x", "1 + x", "2 + x", "3 + x"), ("x", "1 - x", "2 - x", "3 - x"), ("0", "1 - x", "2 - x", "3 - x"), ("x + 1", "x + 2", "x + 3", "x + 4"), ("xs[0]", "xs[1]", "xs[2]", "xs[3]"), ("xs[0]", "xs[0] + 1", "xs[0] + 2", "xs[0] + 3"),
    ("x + y", "x + y + 1", "x + y + 2", "x + y + 3"), ("True", "False", "True", "False"), ("False", "True", "2", "3"), ("0.5", "1.5", "2.5", "3.5"), ("1", "2", "3", "5"), ("0", "x", "2 * x", "x * 3"), ("x", "x / 2", "x / 3", "x / 4"), ("x", "x // 2", "x // 3", "x // 4"),
    ("x", "x % 2", "x % 3", "x % 4"), ("-x", "x", "2 * x", "3 * x"), ("1", "'b'", "2", "'d'"), ("None", "1", "2", "3"), ("7", "7", "7", "8"), ("0", "x", "y", "n"), ("x + 1", "x", "x - 1", "x - 2"), ("x", "y + 1", "y + 2", "y + 3"), ("0", "x + 1", "x + 2", "x + 3"),
    ("x + x", "x + 1", "x + 2", "x + 3"), ("2", "x", "x * 2", "x * 3"), ("'0'", "'1'", "'2'", "'3'"),
]
WRAPPERS: List[Tuple[str, str]] = [
    ("", ""), ("if p:", ""), ("for i in range(3):", ""), ("for i in range(x):", ""), ("for i in range(x + 1):", ""), ("for i in xs:", ""), ("for i in range(1, 3):", ""), ("while act(n) < 9:\n    n += 1", ""), ("for i in range(3):", "out(i)"), ("for i in range(y or 2):", ""), ("for _ in range(-x):", ""),
    ("for i in range(2):\n    out('first')", ""), ("for i in range(len(xs)):", ""), ("for i in range(2 if p else 1):", "out(i)"),
]


def loops_cases(check: common.Check) -> List[Any]:
    cases: List[Any] = []
    for template in LOOP_TEMPLATES:
        text = "\n".join(template)
        wrappers = WRAPPERS
        for wrapper in wrappers:
            inside = wrapper[0].startswith(("for", "while"))
            if ("break" in text or "continue" in text) and not inside or "(i" in text and not wrapper[0].startswith("for i"):
                continue
            values = LOOP_VALUES if wrapper in (("", ""), ("for i in xs:", "")) else LOOP_VALUES[:3]
            if "H" not in text:
                values = LOOP_VALUES[:1]
            for vals in values:
                for other in [None] if "K" not in text else [vals, vals[1:] + vals[:1], LOOP_VALUES[0], LOOP_VALUES[2], LOOP_VALUES[3]]:
                    for count in (3,) if not common.THOROUGH and wrapper[0] else (3, 4):
                        parts = []
                        for j in range(count):
                            part = re.sub(r"\bH\b", lambda m: vals[j].strip("'") if "'H'" in text else vals[j], text)
                            parts.append(re.sub(r"\bK\b", other[j], part) if other else part)
                        cases.append((tuple(parts), wrapper))
    return [c for c in cases if parses(loops_text(0, c))]


def loops_text(i: int, case: Any) -> str:
    parts, (before, after) = case
    lines = [line for part in parts for line in part.splitlines()]
    if before:
        lines = before.splitlines() + indent(lines)
    body = ["n = m = 0"] + lines + ([after] if after else []) + ["return x, y, p, n, m"]
    return "\n".join([f"def f{i}(p, x, y, xs):"] + indent(body))


ENVS = [{"x": 7, "y": 3, "n": 11, "p": 2, "xs": [13, 17, 19, 23]}, {"x": 2, "y": 29, "n": 5, "p": 31, "xs": [3, 37, 41, 43]}, {"x": 10, "y": -4, "n": 1, "p": -6, "xs": [-7, 8, 53, 9]}]


def follows(values: Sequence[ast.expr], told: Sequence[Any], env: Dict[str, Any]) -> Optional[Any]:
    """The values are start + step * i, or x / (start + step * i), for i in the told numbers."""
    divided = [v for v in values if isinstance(v, ast.BinOp) and isinstance(v.op, (ast.Div, ast.FloorDiv))]
    if divided and len({(type(v.op), ast.dump(v.left)) for v in divided}) == 1:
        rest = [v for v in values if v not in divided]
        if all(ast.dump(v) == ast.dump(divided[0].left) for v in rest):
            return follows([v.right if isinstance(v, ast.BinOp) and v in divided else ast.Constant(value=1) for v in values], told, env)
    try:
        numbers = [eval(compile(ast.fix_missing_locations(ast.Expression(prog.clone(v))), "<v>", "eval"), {}, dict(env)) for v in values]
    except (NameError, TypeError, ZeroDivisionError):
        return None
    if all(isinstance(v, str) and len(v) == 1 for v in numbers):
        numbers = [ord(v) for v in numbers]
    if not all(isinstance(v, int) for v in numbers):
        return None
    step = (numbers[1] - numbers[0]) / (told[1] - told[0])
    if all(v - numbers[0] == step * (t - told[0]) for v, t in zip(numbers, told)):
        return step
    return None


def find_block(tree: ast.AST, line: int) -> Tuple[ast.AST, List[ast.stmt], int]:
    for node in ast.walk(tree):
        for field in ("body", "orelse", "finalbody"):
            stmts = getattr(node, field, None)
            if isinstance(stmts, list):
                for i, st in enumerate(stmts):
                    if isinstance(st, ast.stmt) and st.lineno == line:
                        return node, stmts, i
    raise AssertionError(line)


def judge_loops(case: Any, program: str, found: List[prog.Found]) -> Tuple[int, List[Tuple[Any, str]]]:
    bad: List[Tuple[Any, str]] = []
    for code, text, line, _c, _e in found:
        if code == "R6553":
            m = re.search(r"starting on lines (.*)\. Avoid .* outer loop (.*) times", text, re.S)
            assert m, text
            starts = [int(v) for v in m.group(1).split(", ")]
            told_text = m.group(2)
            tree = ast.parse(program)
            fn = next(st for st in tree.body if isinstance(st, ast.FunctionDef))
            loop = next(st for st in ast.walk(fn) if isinstance(st, ast.For) and st.body[0].lineno == line + 1)
            size = len(loop.body) // len(starts)
            groups = [loop.body[i : i + size] for i in range(0, len(loop.body), size)]
            shift = starts[0] - groups[0][0].lineno
            if len(groups) != len(starts) or [g[0].lineno + shift for g in groups] != starts or any(dumps(g) != dumps(groups[0]) for g in groups):
                bad.append((code, f"{code} {text}, but the body does not consist of blocks identical to the first one"))
                continue
            new = prog.clone(fn)
            changed = next(st for st in ast.walk(new) if isinstance(st, ast.For) and st.body[0].lineno == line + 1)
            changed.body = changed.body[:size]
            changed.iter = ast.Call(func=ast.Name(id="range", ctx=ast.Load()), args=[ast.parse(told_text, mode="eval").body], keywords=[])
            differs = differ(fn, new)
            if differs is not None:
                bad.append((code, f"{code} {text}, but {differs}"))
        elif code in ("R6552", "R6560"):
            m = re.search(r"There are (\d+) repetitions of (\d+) similar.*iterating over '(.*)'\.$", text, re.S)
            assert m, text
            count, iterable = int(m.group(1)), m.group(3)
            fn = function(program)
            _parent, stmts, at = find_block(fn, line + 1)
            problem = f"there are no {count} repetitions"
            for size in range(1, (len(stmts) - at) // count + 1):
                groups = [stmts[at + i * size : at + (i + 1) * size] for i in range(count)]
                unifier = Unifier()
                try:
                    template = unifier.stmts(groups)
                except NotSimilar:
                    continue
                problem = check_loop(fn, line + 1, count, size, template, unifier.holes, code, iterable) or ""
                if not problem:
                    break
            if problem:
                bad.append((code, f"{code} {text}, but {problem}"))
    return len(INPUTS) * 2, bad


def check_loop(
    fn: ast.FunctionDef, line: int, count: int, size: int, template: List[ast.stmt],
    holes: List[List[ast.expr]], code: str, iterable: str,
) -> Optional[str]:
    parsed = ast.parse(iterable, mode="eval").body
    if code == "R6552":
        told = list(eval(iterable))
        if len(told) != count:
            return f"{iterable} has {len(told)} elements"
        for values in holes:
            if any(follows(values, told, env) is None for env in ENVS):
                return f"{', '.join(map(ast.unparse, values))} do not depend on {told} only"
        uses: List[ast.expr] = []
        for values in holes:
            use = values[-1]
            for t, v in reversed(list(zip(told, values))[:-1]):
                use = ast.IfExp(test=ast.Compare(left=ast.Name(id="TOLD", ctx=ast.Load()), ops=[ast.Eq()], comparators=[ast.Constant(value=t)]), body=prog.clone(v), orelse=use)
            uses.append(use)
    else:
        if not isinstance(parsed, ast.List) or len(parsed.elts) != count:
            return f"{iterable} does not have {count} elements"
        for values in holes:
            if dumps(values) != dumps(parsed.elts):
                return f"the values are {', '.join(map(ast.unparse, values))}"
        uses = [ast.Name(id="TOLD", ctx=ast.Load()) for _ in holes]
    new = prog.clone(fn)
    _parent, stmts, at = find_block(new, line)
    stmts[at : at + count * size] = [
        ast.For(target=ast.Name(id="TOLD", ctx=ast.Store()), iter=parsed, body=fill(template, uses), orelse=[], lineno=1)
    ]
    try:
        differs = differ(fn, new)
    except SyntaxError as e:
        return str(e)
    return differs and f"if looping over {iterable} {differs}"


# -- repeated blocks, blocks repeating a function

BODIES: List[Tuple[str, str, str]] = [  # parameters, body, returned value; names in upper case differ between copies
    ("A, B", "C = 0\nfor D in A:\n    if D > B:\n        C += D\n    else:\n        C -= 1", "C"),
    ("A, B", "C = []\nD = 0\nwhile D < len(A):\n    C.append(A[D] + B)\n    D += 1", "C"),
    ("A, B", "for D in A:\n    if D == B:\n        out(D, 1)\n    out(D, B)\nout(A, B)\nact(B)", ""),
    ("A, B", "A.append(B)\nA.sort()\nout(A[0], A[1])\nout(len(A))\nact(A, B)\nout(A, A)", ""),
    ("A, B", "C = A[0]\nD = A[1]\nE = C * B + D\nout(C, D, E)\nE += C - D\nout(E, E)", "E"),
    ("A, B", "C = A[B]\nif C > B:\n    D = C + B\nelif C < 0:\n    D = C - B\nelse:\n    D = B\nout(C, D)", "D"),
    ("A, B", "C = B\nD = B + 1\nfor E in A:\n    C, D = D, C + E\n    out(C, D)", "C, D"),
]
RENAMINGS: List[Dict[str, str]] = [
    {"A": "xs", "B": "x", "C": "c", "D": "d", "E": "e"}, {"A": "xs", "B": "y", "C": "n", "D": "d", "E": "x"}, {"A": "xs", "B": "3", "C": "c", "D": "d", "E": "e"}, {"A": "xs", "B": "(x + 1)", "C": "c", "D": "d", "E": "e"},
    {"A": "xs", "B": "x", "C": "c", "D": "c", "E": "c"}, {"A": "xs", "B": "xs[0]", "C": "c", "D": "d", "E": "e"}, {"A": "xs", "B": "c", "C": "c", "D": "d", "E": "e"}, {"A": "xs", "B": "x", "C": "x", "D": "d", "E": "e"}, {"A": "[1, 2, 3]", "B": "x", "C": "c", "D": "d", "E": "e"},
    {"A": "xs", "B": "len(xs)", "C": "c", "D": "d", "E": "e"}, {"A": "xs", "B": "x", "C": "d", "D": "c", "E": "e"}, {"A": "ys", "B": "x", "C": "c", "D": "d", "E": "e"},
]
MUTATIONS: List[Tuple[str, str]] = [
    ("", ""), ("+= D", "+= B"), ("C += D", "D += C"), (" + B", " - B"), ("1", "2"), ("0", "1"), ("out(", "act("), ("A[0]", "A[1]"), ("> B", ">= B"), ("D = B", "D = C"), ("C, D = D", "D, C = D"), ("== B", "!= B"), ("append", "remove"), ("else:", "elif x:"), ("len(A)", "len(ys)"), (", B)", ", A)"), (", D", ", C"), ("E += C", "E += D"),
]


def blocks_cases() -> List[Any]:
    cases: List[Any] = []
    for (params, body, value), renaming, mutation in itertools.product(BODIES, RENAMINGS, MUTATIONS):
        if mutation[0] not in body:
            continue
        positions = range(body.count(mutation[0])) if mutation[0] else [0]
        for position in positions:
            pieces = body.split(mutation[0]) if mutation[0] else [body]
            changed = mutation[0].join(pieces[: position + 1]) + (mutation[1] + mutation[0].join(pieces[position + 1 :]) if mutation[0] else "")
            caller = re.sub(r"\b[A-E]\b", lambda m: renaming[m.group(0)], changed)
            for kind in ("function", "blocks"):
                cases.append((params, body, value, caller, kind))
    cases = list(dict.fromkeys(cases))
    return [c for c in cases if parses(blocks_text(0, c))]


def blocks_text(i: int, case: Any) -> str:
    params, body, value, caller, kind = case
    lower = {k: k.lower() for k in "ABCDE"}
    callee = re.sub(r"\b[A-E]\b", lambda m: lower[m.group(0)], body).splitlines()
    returned = re.sub(r"\b[A-E]\b", lambda m: lower[m.group(0)], value)
    if kind == "function":
        lines = [f"def g{i}(a, b):"] + indent(callee + ([f"return {returned}"] if returned else [])) + ["", ""]
        lines += [f"def f{i}(p, x, y, xs):"] + indent(["ys = [1, 2]"] + caller.splitlines() + ["out(x)"])
    else:
        lines = [f"def g{i}(a, b):"] + indent(callee + ["act()"]) + ["", ""]
        lines += [f"def h{i}(a, b):"] + indent(["act(b)", "if a:"] + indent(callee)) + ["", ""]
        lines += [f"def f{i}(p, x, y, xs):"] + indent(["ys = [1, 2]"] + caller.splitlines() + ["out(x)"])
    return "\n".join(lines)


def shape(node: Any) -> Any:
    """Nesting of statements."""
    if isinstance(node, list):
        return [shape(n) for n in node]
    parts = [shape(getattr(node, f)) for f in ("body", "orelse", "finalbody", "handlers") if hasattr(node, f)]
    return type(node).__name__, parts


def substitution(callee: Any, caller: Any, local: Any, table: Dict[str, str]) -> bool:
    """Whether the second is the first with its local names consistently replaced."""
    if isinstance(callee, ast.Name):
        text = ast.unparse(caller) if isinstance(caller, ast.AST) else ""
        if callee.id not in local:
            return bool(text == callee.id)
        return table.setdefault(callee.id, text) == text
    if type(callee) is not type(caller):
        return False
    if isinstance(callee, list):
        return len(callee) == len(caller) and all(substitution(a, b, local, table) for a, b in zip(callee, caller))
    if isinstance(callee, ast.AST):
        return all(substitution(getattr(callee, f, None), getattr(caller, f, None), local, table) for f in callee._fields if f != "ctx")
    return bool(callee == caller)


def judge_blocks(case: Any, program: str, found: List[prog.Found]) -> Tuple[int, List[Tuple[Any, str]]]:
    bad: List[Tuple[Any, str]] = []
    tree = ast.parse(program)
    for code, text, line, _c, _e in found:
        if code == "R6551":
            m = re.search(r"There are (\d+) repetitions of (\d+) similar statements, starting on lines (.*)\. Extract", text)
            assert m, text
            starts = [int(v) for v in m.group(3).split(", ")]
            if len(starts) != int(m.group(1)):
                bad.append((code, f"{code} {text}, but {len(starts)} lines are told"))
                continue
            shift = starts[0] - (line + 1)
            blocks = []
            for start in starts:
                _parent, stmts, at = find_block(tree, start - shift)
                blocks.append(stmts[at:])
            # what is told are all statements from the first one up to some other
            if not any(
                len({repr(shape(b[:size])) for b in blocks}) == 1 and count_statements(blocks[0][:size]) == int(m.group(2))
                for size in range(1, min(map(len, blocks)) + 1)
            ):
                bad.append((code, f"{code} {text}, but there are no {m.group(2)} statements nested in the same way"))
        elif code == "R6554":
            m = re.search(r"existing function '(.*)' instead", text)
            assert m, text
            callee = next(s for s in ast.walk(tree) if isinstance(s, ast.FunctionDef) and s.name == m.group(1))
            body = [s for s in callee.body if not isinstance(s, ast.Return)]
            _parent, stmts, at = find_block(tree, line + 1)
            local = {a.arg for a in callee.args.args} | {n.id for n in ast.walk(callee) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            table: Dict[str, str] = {}
            if not substitution(body, stmts[at : at + len(body)], local, table):
                bad.append((code, f"{code} {text}, but the code is not that of the function"))
                continue
            assigned = {n.id for s in body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            if any(table[a] == table[b] for a in assigned & set(table) for b in set(table) if a != b):
                bad.append((code, f"{code} {text}, but different variables of the function are the same in the code"))
    return 1, bad


def count_statements(stmts: Sequence[ast.stmt]) -> int:
    total = 0
    for st in stmts:
        for n in ast.walk(st):
            if isinstance(n, (ast.stmt, ast.ExceptHandler)):
                total += 1
            orelse = getattr(n, "orelse", None)
            if isinstance(orelse, list) and orelse and not (isinstance(n, ast.If) and len(orelse) == 1 and isinstance(orelse[0], ast.If)):
                total += 1
    return total


def constant(node: ast.expr) -> bool:
    return all(isinstance(n, (ast.Constant, ast.UnaryOp, ast.USub)) for n in ast.walk(node))


def START_OF(program: str, found: Any, told: Any, bodies: List[List[ast.stmt]]) -> Optional[str]:
    """The parts of the branches outside of the told lines must be the same. Lines are those of the whole
    file, so that the parts are told apart by their offsets from the first one."""
    if len(told) != len(bodies):
        return f"{len(told)} ranges of lines are told for {len(bodies)} branches"
    lines = program.splitlines()
    spans = [(b[0].lineno, b[-1].end_lineno or 0) for b in bodies]
    for shift in range(told[0][0] - spans[0][1], told[0][0] - spans[0][0] + 1):
        rest = []
        for (start, end), (first, last) in zip(told, spans):
            start, end = start - shift, end - shift
            if not first <= start <= end <= last:
                break
            rest.append((lines[first - 1 : start - 1], lines[end:last]))
        else:
            if all(r == rest[0] for r in rest):
                return None
    return "the branches differ in other lines as well"


def run(check: common.Check) -> None:
    check.rule = "executions compared and pieces of code compared; distinct: claims of edulint decided"
    prog.run_family(check, "identical", identical_cases(check), identical_text, judge_identical, IDENTICAL, 60, always=True)
    prog.run_family(check, "moved", moved_cases(check), moved_text, judge_moved, IDENTICAL, 60, HEADER)
    prog.run_family(check, "values", values_cases(check), values_text, judge_values, SIMILAR, 60)
    prog.run_family(check, "containers", containers_cases(check), containers_text, judge_containers, SIMILAR, 60)
    prog.run_family(check, "loops", loops_cases(check), loops_text, judge_loops, LOOPS, 60)
    prog.run_family(check, "blocks", blocks_cases(), blocks_text, judge_blocks, BLOCKS, 1)
