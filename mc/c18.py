"""C18: what is said about the branches of an if, and the rewrites of ifs suggested, hold in every run.

Bounded-exhaustive families of programs made of if statements are linted; every claim is decided by
executing the program, and the program rewritten as told, on every input of a bounded domain."""
from __future__ import annotations

import itertools
import re
from typing import Any, Dict, List, Optional, Tuple

from mc import common, prog
from mc.c17 import TESTS, executed, spellings, unnegate

LEVEL = "exploration"

HEAD = "    x = int(input())\n    y = int(input())\n"
DOMAIN = list(itertools.product(range(-5, 7), repeat=2))
FLOATS = list(itertools.product([k / 2 for k in range(-7, 9)], range(-3, 4)))
CHAIN_CODES = ["R6217", "R6218", "R6219", "R6220", "R6221", "R6611", "R6612"]

CONDS = ["x > 0", "x >= 0", "x <= 0", "x < 0", "x == 0", "x != 0", "x == 1", "x > 3", "x < 3", "x == y",
         "x != y", "x > y", "x <= y", "x >= y", "x < y", "y > 0", "y <= 0", "x % 2 == 0", "x % 2 == 1",
         "x % 2 != 0", "x", "not x", "x > 0 and y > 0", "x > 0 and x < 3", "x <= 0 or x >= 3",
         "x > 0 or y > 0", "x < 0 or x > 3", "x >= 0 and x != y", "x > 3 and y > 0", "y > 0 and x <= 0",
         "x == 1 or x == 2", "x + y > 0", "x - y == 0", "x // 2 == 1", "0 < x < 3", "0 < x and x < 3",
         "not (x > 0 and y > 0)", "not (x > 0 or y > 0)", "x <= 0 and y <= 0", "0 >= x", "not x == y",
         "x <= 0 or y <= 0", "x in (1, 2)", "x not in (1, 2)", "x % 2 == y", "x % 2 == 3", "1 == x % 2", "x % 2 != 1", "0 >= x >= 3", "not 0 < x < 3", "x is y", "x is not y"]
FEW = ["x > 0", "x <= 0", "x == 0", "x < y", "x > y", "x == y", "x >= 0 and y > 0", "x < 0 or y > 0", "x == 1"]


def with_inputs(source: str, domain: List[Tuple[Any, ...]]) -> List[Any]:
    g: Dict[str, Any] = {}
    out = []
    values: List[Any] = []
    printed: List[Any] = []
    g["input"] = lambda *_: values.pop(0)
    g["print"] = lambda *a: printed.append(a)
    exec(source, g)
    for args in domain:
        values[:] = list(args)
        printed.clear()
        try:
            r: Any = ("value", g["f"]())
        except Exception as e:  # noqa: BLE001
            r = ("raises", type(e).__name__)
        out.append((r, tuple(printed)))
    return out


# -- chains


def chain_text(i: int, case: Tuple[Tuple[str, ...], bool, str]) -> str:
    conds, has_else, stmt = case
    s = f"def f{i}():\n" + HEAD
    for k, c in enumerate(conds):
        s += f"    {'el' if k else ''}if {c}:\n        {stmt.format(k)}\n"
    if has_else:
        s += f"    else:\n        {stmt.format(len(conds))}\n"
    else:
        s += f"    {stmt.format('9')}\n"
    return s


def chain_cases() -> List[Tuple[Tuple[str, ...], bool, str]]:
    out = []
    two = list(itertools.product(CONDS, repeat=2))
    three = list(itertools.product(FEW[: 9 if common.THOROUGH else 7], repeat=3))
    four = list(itertools.product(FEW[: 6 if common.THOROUGH else 4], repeat=4))
    for conds in two:
        out += [(conds, True, "return {}"), (conds, False, "print({})")]
    for conds in three:
        out += [(conds, True, "return {}"), (conds, False, "return {}")]
    out += [(conds, True, "print({})") for conds in four]
    return out


def chosen(tests: List[List[bool]], k: int, v: int) -> int:
    """Index of the branch taken by valuation v among the first k tests, k if none."""
    for i in range(k):
        if tests[i] is None or tests[i][v]:
            return i
    return k


CONSTRAINT = re.compile(r"'(.*)' can be replaced with '(.*)', because", re.S)
REORDER = re.compile(
    r"Conditions in the if statement can be simplified by reordering elif blocks, we suggest this order: '(.*)'"
    r" with these possibly simplified test conditions respectively: '(.*)'\.$",
    re.S,
)


def vector(expr: str) -> Optional[List[bool]]:
    code = prog.compiled(expr)
    if code is None or not set(code.co_names) <= {"x", "y"} | set(prog.SAFE):
        return None
    return [bool(prog.value(code, {"x": x, "y": y})) for x, y in DOMAIN]


def judge_chain(case: Tuple[Tuple[str, ...], bool, str], program: str, found: List[prog.Found]):
    conds, has_else, _stmt = case
    n_conds = len(conds)
    tests = [vector(c) for c in conds]
    vals = range(len(DOMAIN))
    n = 0
    bad: List[Tuple[Any, str]] = []
    for code, text, line, _c, _e in found:
        n += len(DOMAIN)
        k = (line - 3) // 2
        ok = True
        if code == "R6612" and k < n_conds:  # the rest of the chain is what the else consists of
            ok = k > 0 and not any(chosen(tests, n_conds, v) >= k for v in vals)
        elif code == "R6612" or code == "R6217" and "'else'" in text:
            k = n_conds
            ok = has_else and not any(chosen(tests, k, v) == k for v in vals)
        elif code in ("R6217", "R6221"):
            ok = 0 < k < n_conds and not any(chosen(tests, k + 1, v) == k for v in vals)
        elif code in ("R6218", "R6611"):
            ok = 0 < k < n_conds and all(tests[k][v] for v in vals if chosen(tests, k, v) == k)
        elif code == "R6219":
            m = CONSTRAINT.match(text)
            old, new = (vector(m.group(1)), vector(m.group(2))) if m else (None, None)
            ok = old is not None and new is not None and 0 < k < n_conds and old == tests[k]
            ok = ok and all(new[v] == tests[k][v] for v in vals if chosen(tests, k, v) == k)
        elif code == "R6220":
            m = REORDER.match(text)
            if m is None:
                ok = False
            else:
                order = [int(p) - 1 for p in m.group(1).replace(".", "").split(", ")]
                # conditions may contain commas
                new = [None if c == "else block" else vector(c) for c in split_conditions(m.group(2))]
                named = [c == "else block" for c in split_conditions(m.group(2))]
                ok = len(order) == len(new) and len(set(order)) == len(order)
                ok = ok and all((c is None) == e for c, e in zip(new, named)) and not any(named[:-1])
                if ok:
                    for v in vals:
                        a = chosen(tests, n_conds, v)
                        b = chosen(new, len(new), v)
                        b = order[b] if b < len(order) else n_conds
                        if a != b:
                            ok = False
                            break
        if not ok:
            bad.append(((code, line, text), f"{code} on line {line + 1}: {text}"))
    return n, bad


def split_conditions(text: str) -> List[str]:
    parts = text.split(", ")
    out: List[str] = []
    cur = ""
    for p in parts:
        cur = cur + ", " + p if cur else p
        if cur == "else block" or prog.compiled(cur) is not None:
            out.append(cur)
            cur = ""
    return out + ([cur] if cur else [])


# -- nested and consecutive ifs merged into one

TRIPLE = list(itertools.product([0, 1, 2, -1, None], [0, 1, 2], [0, 3]))
MERGE_TEXT = re.compile(r"The if statement can be merged with the (nested|following) one to 'if (.*):'$", re.S)


def two_text(i: int, case: Tuple[str, str, str, str]) -> str:
    kind, c, d, extra = case
    return f"def f{i}(x, y, z):\n" + two_body(case)


def two_body(case: Tuple[str, str, str, str], merged: Optional[str] = None) -> str:
    kind, c, d, extra = case
    if kind == "nested":
        if merged is not None:
            return f"    if {merged}:\n        return 1\n    return 0\n"
        return f"    if {c}:\n        if {d}:\n            return 1\n    return 0\n"
    first, second = ("1", "1") if kind == "same" else ("1", "2")
    tail = {"": "    return 0\n", "stmt": "    z = 5\n    return (z, x)\n", "if": "    if z == 3:\n        return 1\n    return 4\n"}[extra]
    if merged is not None:
        return f"    if {merged}:\n        return {first}\n" + tail
    return f"    if {c}:\n        return {first}\n    if {d}:\n        return {second}\n" + tail


def judge_two(case: Tuple[str, str, str, str], program: str, found: List[prog.Found]):
    kind, c, d, extra = case
    n = 0
    bad: List[Tuple[Any, str]] = []
    old = executed("def f(x, y, z):\n" + two_body(case), TRIPLE)
    for code, text, line, _c, _e in found:
        if kind != "nested" and line != 1:
            continue  # about the appended statements
        m = MERGE_TEXT.match(text)
        if m is None:
            bad.append(((code, text), f"unreadable: {text}"))
            continue
        cond = unnegate(m.group(2), spellings([c, d]))
        try:
            got = executed("def f(x, y, z):\n" + two_body(case, cond), TRIPLE)
        except SyntaxError:
            bad.append(((code, text), f"no condition: {text}"))
            continue
        n += len(got)
        for args, v, w in zip(TRIPLE, old, got):
            if v != w:
                bad.append(((code, text), f"{text}: for {args} it is {w}, not {v}"))
                break
    return n, bad


# -- consecutive ifs that can be elifs

SEQ_CONDS = ["x > 0", "x < 0", "x == 0", "x != 1", "x > 3", "x % 2 == 0", "x % 2 == 1", "y > x", "y <= x",
             "x > 0 and y > 0", "not x > 0", "x == 1 or x == 2", "x <= 0", "y < 0"]
SEQ_BODIES = [
    "r = 1", "x = 1", "x = 0", "x = 0 - 3", "x += 1", "x -= 2", "x = -x", "x = y", "x, y = y, x", "y = x", "y = 1",
    "x = x + 1", "x *= 2", "x //= 2", "x = abs(x)", "x = 2\nx = 0", "x: int = 4", "x = 1 if y > 0 else 2",
    "x = x + 1 if y > 0 else x - 1",
    "if y > 0:\n    x = 5", "if y > 0:\n    x = 5\nelse:\n    x = -1", "if y > 0:\n    x = 3\nelif y < 0:\n    x = -3",
    "if y > 0:\n    return 7", "if y > 0:\n    return 7\nx = 1", "if y > 0:\n    return 7\nelse:\n    x = -2",
    "if y > 0:\n    x = -2\nelse:\n    return 7", "assert x > 2", "if x > 2:\n    y = 0\n    x = y",
    "if y > 0:\n    x = -1\nelif y == 0:\n    return 7\nelse:\n    x = 0\n", "x = y\ny = 0", "r = x\nx = r",
    "x = -x\nif x > 0:\n    return 7", "if y > 0:\n    if x > 1:\n        x = 0\n    else:\n        return 7",
    "if y < 0:\n    return 7\nif y > 0:\n    x = 0 - y", "x = x % 2", "x = x // 2",
]
MORE_BODIES = [
    "if y > 0:\n    x = 5\n    return 7\nelif y < 0:\n    x = -5\nelse:\n    x = 0",
    "if y > 0:\n    x = 5\nelif y < 0:\n    return 7\nelse:\n    return 8",
    "if y > 0:\n    y = -1\nif y < 0:\n    x = -4",
    "x = y = 2", "x, r = 0, 1", "x = (y := 3)", "y -= x", "x = x - y", "x = x * y", "x = int(input())",
    "if x > y:\n    x = y\nelse:\n    y = x", "x = min(x, 0)", "x = 0 if x > 0 else y\ny = 1",
    "if x == 2:\n    raise ValueError", "try:\n    x = 1\nfinally:\n    y = 2", "for x in range(3):\n    pass",
    "while x > 0:\n    x -= 1", "print(x)", "del y\ny = -1", "x = True", "x = 0.5", "x = not x", "x = x > 0", "x /= 2",
]


def seq_text(i: int, case: Tuple[Any, ...], merged: Tuple[int, int] = (0, 0)) -> str:
    """Consecutive ifs; of them merged[1] after the one at merged[0] are elifs."""
    ifs, kind = case
    name = f"f{i}" if i >= 0 else "f"
    head = {"params": "", "input": HEAD, "float": HEAD.replace("int(", "float("), "mixed": HEAD.replace("int(", "float(", 1)}[kind]
    s = f"def {name}({'x, y' if kind == 'params' else ''}):\n{head}    r = 0\n"
    for k, (c, body) in enumerate(ifs):
        joined = merged[0] < k <= merged[0] + merged[1]
        first, *more = c.split(" | ")
        s += f"    {'elif' if joined else 'if'} {first}:\n"
        s += "".join(f"        {line}\n" for line in body.split("\n"))
        for j, other in enumerate(more):
            s += f"    elif {other}:\n        r = {20 + j}\n"
    return s + "    return (x, y, r)\n"


def seq_cases() -> List[Tuple[Any, ...]]:
    out = []
    bodies = SEQ_BODIES + MORE_BODIES
    conds = SEQ_CONDS if common.THOROUGH else SEQ_CONDS[:12]
    for c, d in itertools.product(conds, repeat=2):
        for b in bodies if common.THOROUGH else SEQ_BODIES + MORE_BODIES[::2]:
            out.append((((c, b), (d, "r = r + 2")), "input"))
    for c, d in itertools.product(SEQ_CONDS[:7], repeat=2):
        out += [(((c, b), (d, "x = 9\nr = r + 2")), "input") for b in MORE_BODIES]
    # a third if: what happens in the second must not excuse the first two
    for c, d, e in itertools.product(("x > 0", "x < 0", "y > x", "x == 1 or x == 2"), repeat=3):
        for b in SEQ_BODIES[::1]:
            out.append((((c, "r = 1"), (d, b), (e, "r = r + 4")), "input"))
        for b in SEQ_BODIES[::3]:
            out.append((((c, b), (d, "r = 1"), (e, "r = r + 4")), "input"))
    for c, d in itertools.product(("x > 3 | x < 0", "x == 0 | x > 2 | y > 0", "x > 0 | y > 0"), repeat=2):
        out += [(((c, b), (d, "r = r + 2")), "input") for b in SEQ_BODIES]
        out += [(((c, b), ("x == 1", "r = r + 2"), (d, "x = 1")), "input") for b in SEQ_BODIES[::2]]
    # other arithmetic
    odd = ("x % y == 0", "x * y > 2", "x // 2 == 1", "x / 2 > 1", "x + y > 0", "x == y", "x ** 2 > 4", "abs(x) > 2", "x and y", "not (x > 0 or y > 0)")
    for c, d in itertools.product(odd, SEQ_CONDS[:4]):
        out += [(((p, b), (q, "r = r + 2")), "input") for p, q in ((c, d), (d, c)) for b in SEQ_BODIES[::3]]
    for c, d in itertools.product(SEQ_CONDS[:5] + ["y > x", "x == 0.5", "x > 0.5"], repeat=2):
        out += [(((c, b), (d, "r = r + 2")), k) for k in ("float", "mixed") for b in SEQ_BODIES[::2]]
    out += [(((c, b), (d, "r = r + 2")), "params") for c, d in itertools.product(SEQ_CONDS[:8], repeat=2) for b in ("r = 1", "y = 1", "x = 1")]
    return out


def judge_seq(case: Tuple[Any, ...], program: str, found: List[prog.Found]):
    ifs, kind = case
    n = 0
    bad: List[Tuple[Any, str]] = []
    # the lines of the top-level ifs
    starts = [i for i, line in enumerate(program.split("\n")) if line.startswith("    if ")]
    domain = DOMAIN if kind in ("input", "params") else FLOATS
    run = (lambda s: executed(s, domain)) if kind == "params" else (lambda s: with_inputs(s, [d + (1, 2, 3) for d in domain]))
    old = None
    for code, text, line, _c, _e in found:
        m = re.match(r"The next (\d+) if statements after this one can be elif statements\.$", text)
        if m is None:
            bad.append(((code, text), f"unreadable: {text}"))
            continue
        if line not in starts or starts.index(line) + int(m.group(1)) >= len(starts):
            if any(line == i for i, t in enumerate(program.split("\n")) if t.lstrip().startswith("if ")) and line not in starts:
                continue  # ifs nested in a body
            bad.append(((code, text, line), f"no such ifs: {text} (line {line + 1})"))
            continue
        old = old or run(seq_text(-1, case))
        got = run(seq_text(-1, case, (starts.index(line), int(m.group(1)))))
        n += len(got)
        for args, v, w in zip(domain, old, got):
            if v != w and "AssertionError" not in str(v):
                bad.append(((code, text, line), f"{code} {text} (line {line + 1}): for {args} it is {w}, not {v}"))
                break
    return n, bad


def run(check: common.Check) -> None:
    check.rule = "executions of a program and of its rewriting compared; distinct: claims of edulint decided"
    check.assumptions.append("an execution that fails an assert of the program excuses merging ifs")
    prog.run_family(check, "chain", chain_cases(), chain_text, judge_chain, CHAIN_CODES, 60)
    tests = [t for t in TESTS if ":=" not in t]
    nested = [("nested", c, d, "") for c in TESTS for d in TESTS]
    seq = [(k, c, d, e) for k in ("same", "different") for c in tests for d in tests for e in ("", "stmt", "if")]
    prog.run_family(check, "two", nested + seq, two_text, judge_two, ["R6207", "R6208"], 100)
    prog.run_family(check, "consecutive", seq_cases(), seq_text, judge_seq, ["R6223", "R6224"], 60)
