"""C19: what is said about loops holds in every run.

Bounded-exhaustive families of programs with loops are linted. Claims about the paths through a loop are
decided by exploring every path (conditions are opaque and take all values); claims about the values in
a loop by executing the program, and the loop rewritten as told, on every input of a bounded domain."""
from __future__ import annotations

import ast
import copy
import itertools
from typing import Any, Callable, Dict, Iterator, List, Optional, Tuple

from mc import common, paths, prog
from mc.c18 import HEAD, MORE_BODIES, SEQ_BODIES, SEQ_CONDS

LEVEL = "exploration"
LOOPS = (ast.For, ast.While)


def loops_at(tree: ast.AST, line: int) -> List[Any]:
    return [n for n in ast.walk(tree) if isinstance(n, LOOPS) and n.lineno == line + 1]


def source_of(tree: ast.AST) -> str:
    return ast.unparse(ast.fix_missing_locations(tree))


def stmt(text: str) -> ast.stmt:
    return ast.parse(text).body[0]


def expr(text: str) -> ast.expr:
    return ast.parse(text, mode="eval").body


def replace(tree: ast.AST, old: ast.AST, new: List[ast.AST]) -> None:
    """Replaces a statement by statements (a pass for none)."""
    for n in ast.walk(tree):
        for _name, value in ast.iter_fields(n):
            if isinstance(value, list) and any(v is old for v in value):
                k = next(i for i, v in enumerate(value) if v is old)
                value[k : k + 1] = new or [ast.Pass()]
                return


# -- paths: conditions are opaque

LEAVES = ["p()", "break", "continue", "return p()"]
SHAPES = {
    "if c():\n{0}": 1,
    "if c():\n{0}\nelse:\n{1}": 2,
    "for _ in some():\n{0}": 1,
    "while c():\n{0}": 1,
    "while True:\n{0}": 1,
}
MORE_SHAPES = {
    "try:\n{0}\nfinally:\n    p()": 1,
    "with w():\n{0}": 1,
    "if c():\n{0}\nelif c() and c():\n{1}\nelse:\n    p()": 2,
    "for _ in some():\n{0}\nelse:\n{1}": 2,
    "while True:\n{0}\nelse:\n    p()": 1,
    "try:\n{0}\nexcept ValueError:\n{1}": 2,
}
HEADS = ["for _ in some():", "while c():", "while True:", "while 1:"]


class With:
    def __enter__(self) -> None:
        pass

    def __exit__(self, *_a: Any) -> None:
        pass


def path_cases() -> List[str]:
    memo: Dict[Any, Any] = {}
    blocks: List[Tuple[str, ...]] = []
    for size in range(1, 6 if common.THOROUGH else 5):
        blocks += paths.bodies(size, LEAVES, SHAPES, memo)
    shapes = dict(SHAPES)
    shapes.update(MORE_SHAPES)
    for size in range(1, 5 if common.THOROUGH else 4):
        blocks += [b for b in paths.bodies(size, LEAVES, shapes, memo) if any(w in "\n".join(b) for w in ("try", "with", "else", "elif"))]
    if common.THOROUGH:
        heads = HEADS
        blocks = list(dict.fromkeys(blocks))
    out = []
    for b in dict.fromkeys(blocks):
        for head in HEADS[:3] if not common.THOROUGH else heads:
            out.append(head + "\n" + paths.indent("\n".join(b)))
    for head, b in itertools.product(HEADS[3:], paths.bodies(2, LEAVES, SHAPES, memo)):
        out.append(head + "\n" + paths.indent("\n".join(b)))
    return out


def path_text(i: int, case: str) -> str:
    # what follows keeps the loop from being the end of the function, and an if before it from being the start
    return f"def f{i}():\n" + paths.indent(paths.numbered(case)) + "\n    p('end')\n"


def path_runs(tree: ast.AST, depth: int = 6) -> List[paths.Run]:
    finite = Finite().visit(prog.clone(tree))
    some = "def some():\n    while c():\n        yield\n"
    out = paths.runs(some + source_of(finite), depth, 60, tree.body[0].name, {"w": With})  # type: ignore[attr-defined]
    # where exactly a run was cut does not matter
    return [(a, t[:20] if r == ("cut",) else t, r) for a, t, r in out]


def watched(tree: ast.Module) -> ast.Module:
    """Loops report their entry and their iterations."""
    tree = prog.clone(tree)
    for loop in [n for n in ast.walk(tree) if isinstance(n, LOOPS)]:
        enter, it = f"p(('enter', {loop.lineno}))", f"p(('iteration', {loop.lineno}))"
        loop.body.insert(0, stmt(it))
        replace(tree, loop, [stmt(enter), loop])
    return tree


def no_while_true(tree: ast.Module, line: int) -> Optional[ast.Module]:
    """while True: if C: A; break else: B  R   becomes   while not C: B R else: A"""
    tree = prog.clone(tree)
    loop = next((n for n in loops_at(tree, line) if isinstance(n, ast.While)), None)
    if loop is None or not isinstance(loop.body[0], ast.If) or not isinstance(loop.body[0].body[-1], ast.Break):
        return None
    first = loop.body[0]
    loop.test = ast.UnaryOp(ast.Not(), first.test)
    loop.body = first.orelse + loop.body[1:] or [ast.Pass()]
    ends = next(k for k, s in enumerate(first.body) if isinstance(s, ast.Break))
    # what is after the first break never runs; another break there ends what is done at the end
    loop.orelse = [ast.For(ast.Name("_once", ast.Store()), expr("(0,)"), first.body[:ends], [])] if ends else []
    return tree


def judge_path(case: str, program: str, found: List[prog.Found], all_loops: bool = True):
    tree = ast.parse(program)
    n = 0
    bad: List[Tuple[Any, str]] = []
    told = watched(tree)
    seen = path_runs(told)
    n += len(seen)
    iterations: Dict[int, int] = {}
    left: Dict[int, bool] = {}
    cut = False
    for _answers, trace, outcome in seen:
        count: Dict[int, int] = {}
        for event in trace:
            if isinstance(event, tuple):
                kind, line = event
                count[line] = 0 if kind == "enter" else count.get(line, 0) + 1
                iterations[line] = max(iterations.get(line, 0), count[line])
        cut = cut or outcome == ("cut",)
        if outcome != ("cut",):
            for line in count:
                left[line] = True
    said = set()
    for code, text, line, _c, _e in found:
        if code == "E9996":
            said.add(line + 1)
            if iterations.get(line + 1, 0) > 1:
                bad.append(((code, line), f"{text} (line {line + 1}), but there is a run with {iterations[line + 1]} iterations"))
        elif code in ("R6309", "R6310"):
            if left.get(line + 1):
                bad.append(((code, line), f"{text} (line {line + 1}), but there is a run that leaves it"))
        elif code == "R6301":
            new = no_while_true(tree, line)
            try:
                got = path_runs(new) if new is not None else None
            except SyntaxError as e:
                got = str(e)
            old = path_runs(tree)
            if got != old:
                bad.append(((code, line), f"{text} (line {line + 1}): " + ("there is no such if" if got is None else "behaves differently")))
    if not cut and "try" not in program:
        # loops within others are taken for ones that may end
        endless = {x.lineno for x in ast.walk(tree) if isinstance(x, LOOPS) for s in x.body for y in ast.walk(s) if isinstance(y, ast.While) and isinstance(y.test, ast.Constant)}
        for line, k in iterations.items():
            if k == 1 and line not in said and line not in endless:
                bad.append((("E9996", line), f"E9996 missing: no run of the loop on line {line} has another iteration"))
    return n, bad


# -- early returns

ENDS = ["return p()", "p()\nreturn p()", "break", "continue", "if c():\n    return 1\nelse:\n    break", "if c():\n    return 1", "p()", "p()\np()\nreturn 1", "raise ValueError", "p()\np()"]
LONG = ["p()\np()\np()\np()", "p()\nif c():\n    p()\np()\np()", "p()\np()\np()\nreturn p()", "for _ in (1, 2):\n    p()\n    p()\n    break\np()", "p()\np()\np()\nbreak", "p()\nif c():\n    return 2\nelse:\n    p()", "p()\np()\np()\nif c():\n    return 1\nelse:\n    continue", "p()\np()\np()", "p()\np()\np()\nif c():\n    return 5"]


def early_cases() -> List[Tuple[str, ...]]:
    out = []
    for body, end, tail, head in itertools.product(LONG, ENDS, ("p()", "", "return p()", "break", "p()\np()\nreturn p()", "if c():\n    return 3\nelse:\n    return 4"), ("for _ in (1, 2):", "while c():", "")):
        for kind in ("else", "elif", "next", "before", "nested"):
            out.append((kind, head, body, end, tail))
    return out


def early_text(i: int, case: Tuple[str, ...]) -> str:
    kind, head, body, end, tail = case
    loop = head or "if True:"
    s = f"if c():\n{paths.indent(body)}\n"
    if kind == "else":
        s += f"else:\n{paths.indent(end)}\n{tail}"
    elif kind == "elif":
        s += f"elif c():\n{paths.indent(end)}\n{tail}"
    elif kind == "next":
        s += f"{end}\n{tail}"
    elif kind == "before":
        s = f"if c():\n    p()\n    p()\n    return p()\n" + s + f"{end}\n{tail}"
    else:
        s = f"if c():\n    p()\nelse:\n{paths.indent(s)}\n    else:\n{paths.indent(end, 8)}\n{tail}"
    text = f"def f{i}():\n    p()\n    {loop}\n        p()\n{paths.indent(paths.numbered(s), 8)}\n    p()\n"
    try:
        compile(text, "x", "exec")
    except SyntaxError:
        return f"def f{i}():\n    pass\n"
    return text


def early_return(tree: ast.Module, line: int) -> Optional[ast.Module]:
    tree = prog.clone(tree)
    for block in [v for n in ast.walk(tree) for _k, v in ast.iter_fields(n) if isinstance(v, list) and v and isinstance(v[0], ast.stmt)]:
        for k, node in enumerate(block):
            if isinstance(node, ast.If) and node.lineno == line + 1:
                if node.orelse:
                    last, rest = node.orelse, block[k + 1 :]
                else:
                    last, rest = block[k + 1 : k + 2], block[k + 2 :]
                block[k:] = [ast.If(ast.UnaryOp(ast.Not(), node.test), last or [ast.Pass()], [])] + node.body + rest
                return tree
    return None


def judge_early(case: Any, program: str, found: List[prog.Found]):
    bad: List[Tuple[Any, str]] = []
    tree = ast.parse(program)
    old = path_runs(tree, 8)
    for code, text, line, _c, _e in found:
        new = early_return(tree, line)
        if new is None or path_runs(new, 8) != old:
            bad.append(((code, line), f"{text} (line {line + 1}) behaves differently"))
    return len(old) * (1 + len(found)), bad


# -- values: loops over ranges


class Finite(ast.NodeTransformer):
    """Iterations are counted."""

    def visit_loop(self, node: Any) -> Any:
        self.generic_visit(node)
        node.body.insert(0, stmt("_tick()"))
        return node

    visit_For = visit_While = visit_loop


def execute(tree: ast.Module, domain: List[Tuple[Any, ...]], extra: Callable[[], Dict[str, Any]] = dict, limit: int = 60) -> List[Any]:
    tree = Finite().visit(prog.clone(tree))
    code = compile(ast.fix_missing_locations(tree), "<program>", "exec")
    name = tree.body[0].name
    out = []
    for args in domain:
        left = [limit]

        def tick() -> None:
            left[0] -= 1
            if left[0] < 0:
                raise paths.Cut

        env: Dict[str, Any] = {"_tick": tick}
        env.update(extra())
        exec(code, env)
        args = copy.deepcopy(args)
        try:
            r: Any = ("value", env[name](*args))
        except paths.Cut:
            r = ("cut",)
        except Exception as e:  # noqa: BLE001
            r = ("raises", type(e).__name__)
        out.append((plain(r), plain(args)))
    return out


def plain(v: Any) -> Any:
    if isinstance(v, (list, tuple)):
        return type(v)(plain(x) for x in v) if type(v) in (list, tuple) else [plain(x) for x in v]
    return "a function" if callable(v) else v


RANGES = ["range(len(xs))", "range(0, len(xs))", "range(0, len(xs), 1)", "range(n)", "range(m, n)", "range(0, 5, 2)", "range(1, 6, 2)", "range(4, 0, -1)",
          "range(5, 0, -2)", "range(m, n, 2)", "range(0, n, 3)", "range(n, m, -1)", "range(0, n, m)", "range(5)", "range(1, len(xs))", "range(len(xs), 0, -1)", "range(n + 1)", "range(len(xs) - 1)", "range(n, 0, -1)"]
LIST_RANGES = RANGES[:3]
BODY = [
    "r.append(i)", "r.append(xs[i])", "xs[i] = 1", "xs[i] += 1", "ys[i] = xs[i]", "r.append(ys[i])", "i += 1", "i = 0", "i = n", "xs.append(1)", "xs.pop()", "n -= 1",
    "m += 1", "xs = ys", "r.append(xs[i - 1])", "r.append(xs[0])", "del xs[i]", "for i in xs:\n    r.append(i)", "for j in range(i):\n    r.append(j)", "if xs[i]:\n    break",
    "def g():\n    return i\nr.append(g())", "r.append([xs[i] for i in ys])", "r.append([xs[i] for j in ys])", "r.append((lambda: xs[i])())", "for j in ys:\n    xs.append(1)\n    break",
    "if n > 1:\n    i = 2", "i = xs[i]", "while i < 3:\n    i += 1", "if xs[i] == n:\n    xs.append(2)\n    return r", "xs.insert(0, 3)\nr.append(xs[i])\nbreak",
    "r.append(i)\ni -= 1", "if n > 1:\n    continue", "r.append(xs[i])\nr.append(i)", "i: int = 3", "r.append(i := 3)", "i, j = 1, 2", "r.append(xs[i:])", "r.append(len(xs))", "r.append(xs)",
    "xs[i], ys[i] = ys[i], xs[i]", "for k in range(len(xs)):\n    r.append(xs[k] + xs[i])", "r.append(-xs[i] * 2)", "if n > 1:\n    xs = [7, 8]", "ys.append(xs[i])", "pass",
    "for k in range(2):\n    r.append(i)\n    i += 1", "try:\n    r.append(xs[i + 5])\nexcept IndexError:\n    i = 9", "try:\n    i = 1\nfinally:\n    r.append(i)", "global GLB\nGLB = i", "if i == n:\n    i = 1\nelse:\n    r.append(i)",
]
GUARDS = [f"if {c}:\n    {leave}" for c in ("i == 0", "i == m", "i == n - 1", "n - 1 == i", "i == len(xs) - 1", "i == 3", "i == 4", "0 == i", "i == 1", "i == n - 2", "i == n - m", "i == 5 - 2", "i == n", "i != 0", "i == n + 1", "i == n + 1 - 1", "i == len(xs) - 1 - 1", "i == 2", "i == 6 - 2", "i == m + 1", "n == i", "i == 1 - -1", "i < 1")
          for leave in ("continue", "break")] + [
    "if i == 0:\n    continue\nelse:\n    r.append(7)", "if i == n - 1:\n    break\nelif n > 1:\n    r.append(7)", "if i == 0 and n > 1:\n    continue", "if i == 0:\n    r.append(1)\n    continue", "if i == 0:\n    return r",
    "if n > 1:\n    r.append(3)\nelif i == 0:\n    continue",
]
TAILS = ["return r", "return (r, i)", "return (r, xs)", "for k in range(2):\n    r.append(i)\nreturn r", "def h():\n    return i\nreturn h()"]
LISTS = [([], [4, 5], 0, 1), ([3], [], 1, 0), ([1, 0], [2, 2], 2, 0), ([1, 2], [5, 6], 3, 1), ([0, 2, 1], [7, 8, 9], 3, 2), ([2, 0, 1, 3], [1, 2, 3, 4], 4, 2), ([1, 1, 1], [1, 2, 3], 5, -1)]


def range_cases() -> List[Tuple[str, ...]]:
    out = []
    for head, g, b in itertools.product(RANGES, GUARDS, ("r.append(i)", "n -= 1", "i = 3", "m += 1", "xs.pop()", "r.append(i)\nxs.append(1)", "n = i")):
        out.append((head, "", g + "\n" + b, TAILS[0]))
    for head, b in itertools.product(RANGES, BODY):
        out += [(head, "", b, t) for t in TAILS]
    for head, a, b in itertools.product(RANGES if common.THOROUGH else (RANGES[0], RANGES[4]), BODY, BODY):
        out += [(head, "", a + "\n" + b, t) for t in (TAILS if common.THOROUGH else TAILS[:2])]
    for b in BODY:
        for pre in ("i = 5", "i = 5\ndef later():\n    return i"):
            out += [(RANGES[0], pre, b, t) for t in TAILS + ["return later()" if "later" in pre else "return i"]]
    for a, b, t in itertools.product(BODY, BODY[:20], TAILS[:2]):
        out.append((RANGES[0], "", paths.indent(a).join(("if n > 1:\n", "\nelse:\n    pass\n")) + b, t))
        out.append((RANGES[0], "", b + "\nfor q in (1, 2):\n" + paths.indent(a), t))
    return out


def range_text(i: int, case: Tuple[str, ...]) -> str:
    head, pre, body, tail = case
    body = body.replace("GLB", f"G{i}")  # functions that share a global make the analysis slow
    text = f"def f{i}(xs, ys, n, m):\n    r = []\n" + (paths.indent(pre) + "\n" if pre else "")
    text += f"    for i in {head}:\n{paths.indent(body, 8)}\n{paths.indent(tail)}\n"
    try:
        compile(text, "x", "exec")
    except SyntaxError:
        return f"def f{i}():\n    pass\n"
    return text


class Indexed(ast.NodeTransformer):
    """Reads of xs[i] become reads of a variable."""

    def __init__(self, structure: str, index: str) -> None:
        self.what = f"{structure}[{index}]"

    def visit_Subscript(self, node: ast.Subscript) -> Any:
        if isinstance(node.ctx, ast.Load) and ast.unparse(node) == self.what:
            return ast.Name("_item", ast.Load())
        return self.generic_visit(node)


def unassigned(tree: ast.Module, line: int, name: str) -> Optional[ast.Module]:
    """The name is not bound by what is on the line."""
    tree = prog.clone(tree)
    done = []

    class Unbind(ast.NodeTransformer):
        def visit_AugAssign(self, node: ast.AugAssign) -> Any:
            if node.lineno == line + 1 and isinstance(node.target, ast.Name) and node.target.id == name:
                done.append(1)
                return ast.Expr(node.value)
            return self.generic_visit(node)

        def visit_Name(self, node: ast.Name) -> Any:
            if node.lineno == line + 1 and isinstance(node.ctx, ast.Store) and node.id == name:
                done.append(1)
                return ast.Name("_unused", ast.Store())
            return node

    tree = Unbind().visit(tree)
    return tree if done else None


def tracked(tree: ast.Module, line: int) -> Optional[ast.Module]:
    tree = prog.clone(tree)
    for loop in loops_at(tree, line):
        if isinstance(loop, ast.For) and isinstance(loop.body[0], ast.If):
            loop.iter = ast.Call(ast.Name("_track", ast.Load()), [loop.iter], [])
            loop.body[0].orelse.insert(0, stmt("_mark()"))
            loop.body.insert(1, stmt("_mark()"))
            return tree
    return None


def judge_range(case: Any, program: str, found: List[prog.Found]):
    tree = ast.parse(program)
    n = 0
    bad: List[Tuple[Any, str]] = []
    old = None
    for code, text, line, _c, _e in found:
        n += len(LISTS)
        problem = None
        new: Any = None
        if code == "R6302":
            which = 0 if "first" in text else -1
            marked: List[Any] = []
            current: List[Any] = [None]

            def track(it: Any, which: int = which, marked: List[Any] = marked, current: List[Any] = current) -> Iterator[Any]:
                items = list(it)
                special = len(items) - 1 if which else 0
                for k, v in enumerate(items):
                    current[0] = k == special
                    yield v

            def mark(marked: List[Any] = marked, current: List[Any] = current) -> None:
                if current[0]:
                    marked.append(1)

            new = tracked(tree, line)
            if new is None:
                problem = "there is no such loop"
            else:
                execute(new, LISTS, lambda: {"_track": track, "_mark": mark})
                problem = "it happens" if marked else None
        elif code in ("R6304", "R6307", "R6308"):
            old = old or execute(tree, LISTS)
            if code == "R6304":
                new = unassigned(tree, line, text.split("variable ")[1].split(" ")[0])
            else:
                new = prog.clone(tree)
                loop = next((x for x in loops_at(new, line) if isinstance(x, ast.For)), None)
                if loop is None:
                    new = None
                else:
                    structure = ast.unparse(loop.iter.args[-1 if len(loop.iter.args) < 3 else 1].args[0])  # type: ignore[attr-defined]
                    index = ast.unparse(loop.target)
                    loop.body = [Indexed(structure, index).visit(s) for s in loop.body]
                    loop.iter = expr(structure if code == "R6307" else f"enumerate({structure})")
                    loop.target = ast.Name("_item", ast.Store()) if code == "R6307" else ast.Tuple([loop.target, ast.Name("_item", ast.Store())], ast.Store())
            if new is None:
                problem = "there is no such statement"
            else:
                got = execute(new, LISTS)
                diff = [(a, v, w) for a, v, w in zip(LISTS, old, got) if v != w]
                if diff:
                    problem = f"for {diff[0][0]} it is {diff[0][2]}, not {diff[0][1]}"
        elif code == "R6306":
            name = text.split("variable ")[1].rstrip(".")
            inner = [x for x in loops_at(tree, line) if isinstance(x, ast.For) and ast.unparse(x.target) == name]
            outer = [x for x in ast.walk(tree) if isinstance(x, ast.For) and ast.unparse(x.target) == name and any(y in inner for s in x.body for y in ast.walk(s))]
            problem = None if inner and outer else "there are no such loops"
        if problem:
            bad.append(((code, line, text), f"{text} (line {line + 1}): {problem}"))
    return n, bad


# -- how many iterations

ENDPOINTS = ["-2", "-1", "0", "1", "2", "3", "n", "2 - 1", "True", "1.0"]


def count_cases() -> List[str]:
    out = [f"range({a})" for a in ENDPOINTS] + [f"range({a}, {b})" for a, b in itertools.product(ENDPOINTS, repeat=2)]
    return out + [f"range({a}, {b}, {s})" for a, b, s in itertools.product(ENDPOINTS, repeat=3)]


def count_text(i: int, case: str) -> str:
    return f"def f{i}(n):\n    for i in {case}:\n        n += i\n"


def judge_count(case: str, program: str, found: List[prog.Found], exact: bool = False):
    bad: List[Tuple[Any, str]] = []
    counts = set()
    for n in range(-3, 5):
        try:
            counts.add(len(list(eval(case, {"n": n}))))
        except (ValueError, TypeError):
            counts.add(None)
    said = {text for code, text, *_ in found if code == "R6606"}
    want = {"no iterations": {0}, "only one iteration": {1}}
    for text in said:
        k = text.split("makes ")[1].rstrip(".")
        if counts != want[k] and None not in counts:
            bad.append((text, f"{text} but it makes {counts}"))
    names = ("n" in case, "." in case)
    if not any(names) and counts in ({0}, {1}) and not said:
        bad.append(("missing", f"R6606 missing for {counts}"))
    return 8, bad


# -- iterated structures being modified


class Watched(list):
    log: List[Any] = []

    def __deepcopy__(self, _memo: Any) -> "Watched":
        return Watched(self)


def _watch(name: str) -> Any:
    def method(self: Any, *a: Any) -> Any:
        Watched.log.append(("modified", id(self)))
        return getattr(list, name)(self, *a)

    return method


for _name in ("append", "pop", "remove", "insert", "clear", "sort", "reverse", "extend", "__setitem__", "__delitem__", "__iadd__", "__imul__"):
    setattr(Watched, _name, _watch(_name))


MODIFY = ["xs.append(a)", "xs.remove(a)", "xs.pop()", "xs[0] = 1", "del xs[0]", "xs += [1]", "xs = [1, 2]", "xs.sort()", "ys.append(a)", "ys[0] = xs[0]", "ys = xs[:]", "xs.extend(ys)", "xs.insert(0, a)",
          "ys.append(len(xs))", "xs.count(a)", "xs.clear()", "zs = xs.copy()\nzs.append(1)", "xs.index(a)", "xs = ys", "del xs", "xs[0] += 1", "xs.reverse()"]
AFTER = ["", "break", "return 1", "continue", "ys.append(2)", "ys.append(2)\nbreak"]
AROUND = ["{0}", "if n > 1:\n{1}", "if n > 1:\n    pass\nelse:\n{1}", "for q in (1, 2):\n{1}", "while n > 1:\n{1}\n    n -= 1", "try:\n{1}\nfinally:\n    n += 1", "with w():\n{1}", "if n > 1:\n{1}\nys.append(3)"]


def modify_cases() -> List[Tuple[str, ...]]:
    out = []
    for m, after, around in itertools.product(MODIFY, AFTER, AROUND):
        block = m + ("\n" + after if after else "")
        text = around.replace("{0}", block).replace("{1}", paths.indent(block))
        out.append(("xs", "", text))
        out.append(("xs", "b = a", text))
    for m, o in itertools.product(MODIFY, repeat=2):
        out.append(("xs", m, o))
        out.append(("xs", "if n > 1:\n" + paths.indent(m), o))
    out += [(i, "", m) for i in ("ys", "xs[:]", "list(xs)", "range(len(xs))", "enumerate(xs)") for m in MODIFY]
    return out


def modify_text(i: int, case: Tuple[str, ...]) -> str:
    it, before, body = case
    return f"def f{i}(xs, ys, n):\n    for a in {it}:\n" + (paths.indent(before, 8) + "\n" if before else "") + paths.indent(body, 8) + "\n    return ys\n"


def judge_modify(case: Tuple[str, ...], program: str, found: List[prog.Found]):
    """Whether the structure is modified while it is iterated over, and where from."""
    it, _b, _body = case
    tree = ast.parse(program)
    said = {line + 1 for code, _t, line, *_ in found if code == "R6303"}
    modified_at: set = set()
    continued: set = set()
    loop = next(n for n in ast.walk(tree) if isinstance(n, ast.For))
    new = prog.clone(tree)

    class At(ast.NodeTransformer):
        def visit(self, node: Any) -> Any:
            node = super().visit(node)
            if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete)) and node.lineno > loop.lineno:
                return [ast.Expr(expr(f"_at({node.lineno})")), node]
            return node

    new = At().visit(new)
    inner = next(n for n in ast.walk(new) if isinstance(n, ast.For))
    inner.iter = ast.Call(ast.Name("_over", ast.Load()), [inner.iter], [])
    where = [0]
    over: List[Any] = [None]
    pending: set = set()

    def collect() -> None:
        for _k, who in Watched.log:
            if who == over[0]:
                modified_at.add(where[0])
                pending.add(where[0])
        Watched.log.clear()

    def at(line: int) -> None:
        collect()
        where[0] = line

    def iterate(structure: Any) -> Iterator[Any]:
        Watched.log.clear()
        pending.clear()
        over[0] = id(structure)
        k = 0
        while k < len(structure):
            yield structure[k]
            collect()
            continued.update(pending)
            k += 1
        return

    for xs in ([1], [1, 2], [2, 1, 3]):
        for n in (0, 2):
            Watched.log.clear()
            pending.clear()
            execute(new, [(Watched(xs), Watched([5]), n)], lambda: {"_at": at, "_over": iterate, "w": With}, 8)
            collect()
    bad: List[Tuple[Any, str]] = []
    for line in said - modified_at:
        bad.append((("R6303", line), f"R6303: the structure is not modified on line {line}"))
    if it in ("xs", "ys"):
        if "del xs" in program or "xs +=" in program:
            continued.clear()  # what happens to the name since then is not followed
        calls = {x.lineno for x in ast.walk(tree) if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call)}
        for line in (continued & calls) - said:  # other statements are not looked at
            bad.append((("R6303 missing", line), f"R6303 missing: the structure is modified on line {line} and then iterated further"))
    return 6, bad


# -- while loops counting

COUNT_CONDS = ["i < n", "i <= n", "n > i", "n >= i", "i > n", "i >= n", "n < i", "i < len(xs)", "i < 5", "i < m", "i < n + m", "i != n", "i < n and m", "i < n < m", "i + 1 < n", "i < xs[0]", "i < src()", "i < len(src())", "i < max(n, m)", "i < i + 1", "i < xs.pop()", "i < len(xs) - 1", "i < int(src())", "i < w.a", "i < abs(n)"]
COUNT_BODY = ["i += 1", "i -= 1", "i = i + 1", "i = 1 + i", "i = i - 1", "i = 1 - i", "i += 2", "i += m", "n += 1", "n -= 1", "xs.append(1)", "xs.pop()", "if m > 0:\n    i += 1", "if m > 0:\n    i += 1\nelse:\n    i += 1", "if m > 0:\n    i += 1\nelse:\n    i -= 1", "if m > 0:\n    i += 1\n    continue", "if m > 0:\n    continue",
              "if m > 0:\n    break", "if m > 0:\n    return r", "r.append(i)", "for _ in range(2):\n    i += 1", "while m > 0:\n    i += 1\n    m -= 1", "try:\n    i += 1\nexcept ValueError:\n    r.append(1)", "m = 1 - m", "xs[0] = 3", "xs = [1, 2]", "i += True", "i += 1.0", "i = 5", "pass", "i += 1\nif m > 0:\n    continue", "w.a -= 1", "try:\n    i += 1\nfinally:\n    r.append(2)", "with w:\n    i += 1", "xs[i] = 3", "i, j = i + 1, 2", "i: int = i + 1"]


def while_cases() -> List[Tuple[str, ...]]:
    out = []
    for c, b in itertools.product(COUNT_CONDS, COUNT_BODY):
        out.append((c, b))
    for c, a, b in itertools.product(COUNT_CONDS if common.THOROUGH else [c for k, c in enumerate(COUNT_CONDS) if k % 2 == 0], COUNT_BODY, COUNT_BODY):
        out.append((c, a + "\n" + b))
    for c, a, b, e in itertools.product(COUNT_CONDS[:9:3], COUNT_BODY if common.THOROUGH else COUNT_BODY[:16], COUNT_BODY[:3] + COUNT_BODY[12:14], COUNT_BODY if common.THOROUGH else COUNT_BODY[8:30]):
        out.append((c, a + "\n" + b + "\n" + e))
    return out


def while_text(i: int, case: Tuple[str, ...]) -> str:
    cond, body = case
    return f"def f{i}(xs, n, m):\n    r = []\n    i = m\n    while {cond}:\n{paths.indent(body, 8)}\n    return (r, i)\n"


WHILE_DOMAIN = [([3, 1], 4, 1), ([5, 2, 1], 3, 0), ([0], 0, 3), ([2, 2, 2, 2], -1, 2), ([1, 4], 5, -1), ([9], 4, 2)]


class Holder:
    def __init__(self) -> None:
        self.a = 4

    def __enter__(self) -> None:
        pass

    def __exit__(self, *_a: Any) -> None:
        pass


def judge_while(case: Tuple[str, ...], program: str, found: List[prog.Found]):
    bad: List[Tuple[Any, str]] = []
    tree = ast.parse(program)
    n = 0
    for code, text, line, _c, _e in found:
        new = prog.clone(tree)
        loop = next((x for x in loops_at(new, line) if isinstance(x, ast.While)), None)
        if loop is None or not isinstance(loop.test, ast.Compare) or len(loop.test.ops) != 1:
            bad.append(((code, line), f"{text} (line {line + 1}): there is no such loop"))
            continue
        loop.test = ast.Call(
            ast.Name("_compare", ast.Load()),
            [loop.test.left, loop.test.comparators[0], ast.Constant(loop.test.ops[0].__class__.__name__)], [],
        )
        enter = ast.Expr(expr("_enter()"))
        replace(new, loop, [enter, loop])
        entries: List[List[Any]] = []
        numbers = itertools.cycle([3, 1, 4, 2, 6, 0])

        def compare(a: Any, b: Any, op: str) -> bool:
            entries[-1].append((a, b))
            return bool(eval(f"a {'<' if op.startswith('Lt') else '>'}{'=' if op.endswith('E') else ''} b", {"a": a, "b": b}))

        class Source(int):
            def __len__(self) -> int:
                return int(self)

        env = {"_compare": compare, "_enter": lambda: entries.append([]), "src": lambda: Source(next(numbers)), "w": Holder()}
        execute(new, WHILE_DOMAIN, lambda: {**env, "w": Holder()}, 30)
        n += len(WHILE_DOMAIN)
        ok = True
        for values in entries:
            for (a, b), (x, y) in zip(values, values[1:]):
                ok = ok and {abs(x - a), abs(y - b)} == {0, 1}
            if len(values) > 2:
                steps = {(x - a, y - b) for (a, b), (x, y) in zip(values, values[1:])}
                ok = ok and len(steps) == 1
        if not ok:
            bad.append(((code, line), f"{text} (line {line + 1}): it does not go over a range: {entries[:3]}"))
    return n, bad


# -- infinite loops by their conditions

INFINITE_CONDS = SEQ_CONDS + ["x >= 0 or y > 0", "x * 2 > 3", "x + y > 0", "x / 2 > 1", "x % 3 != 1", "x // 2 >= 1", "x", "not x", "not (x > 0 and y > 0)", "abs(x) > 1", "x > 0.5", "x == x", "x > 0 or x <= 0", "2 > 1", "x - x == 0", "x == 1.5"]
INFINITE_BODIES = SEQ_BODIES + MORE_BODIES + ["pass", "z = 1", "print(x)", "def g():\n    pass\ng()", "def g():\n    nonlocal x\n    x = -9\ng()", "x += y", "x = x + 1\ny = y - 1", "x = x - 1\nx = x + 1", "if x > 5:\n    break", "for _ in range(2):\n    break", "while y > 0:\n    y -= 1\n    break", "exit()", "raise ValueError", "[x for x in range(3)]", "(x := x - 1)", "lambda: x", "y = [1]\ny.pop()", "x, y = y, x\nx, y = y, x", "try:\n    y = 3\nexcept ValueError:\n    pass", "x = int(float(x)) - 1", "x = 10 - x", "x = -x\nx = -x", "if x > 0:\n    x += 1\nelse:\n    x -= 1", "if x > 0:\n    y = 1\nelse:\n    y = 0\nx = y", "x = y * 0 + 1", "for x in (1, 2):\n    pass", "with open('a') as x:\n    pass", "import os as x", "class x:\n    pass", "x = (y := 0)", "if (x := y):\n    pass", "def x():\n    pass"]


def infinite_cases() -> List[Tuple[str, str, str]]:
    out = [(c, b, k) for c, b in itertools.product(INFINITE_CONDS, INFINITE_BODIES) for k in ("int", "float")]
    few = SEQ_BODIES if common.THOROUGH else SEQ_BODIES[:16]
    out += [(c, a + "\n" + b, "int") for c, a, b in itertools.product(SEQ_CONDS if common.THOROUGH else SEQ_CONDS[:6], few, few)]
    return out


def infinite_text(i: int, case: Tuple[str, str, str]) -> str:
    cond, body, kind = case
    head = HEAD if kind == "int" else HEAD.replace("int(", "float(")
    return f"def f{i}():\n{head}    r = 0\n    while {cond}:\n{paths.indent(body, 8)}\n    return (x, y, r)\n"


INPUTS = list(itertools.product(range(-3, 6), repeat=2))
HALF_INPUTS = [(a / 2, b / 2) for a, b in itertools.product(range(-5, 8), (-3, -1, 0, 2, 3))]


def judge_infinite(case: Tuple[str, str, str], program: str, found: List[prog.Found]):
    bad: List[Tuple[Any, str]] = []
    tree = ast.parse(program)
    n = 0
    for code, text, line, _c, _e in found:
        new = prog.clone(tree)
        loop = next((x for x in loops_at(new, line) if isinstance(x, ast.While)), None)
        if loop is None:
            bad.append(((code, line), f"{text} (line {line + 1}): there is no such loop"))
            continue
        entered: List[int] = []
        loop.body.insert(0, stmt("_entered()"))
        replace(new, loop, [loop, stmt("_left()")])
        for values in INPUTS if case[2] == "int" else HALF_INPUTS:
            n += 1
            feed = iter(list(values) + [2, -2, 1, 0] * 10)
            entered.clear()
            over: List[int] = []
            env = {"input": lambda *_a: next(feed), "print": lambda *_a: None, "_entered": lambda: entered.append(1), "_left": lambda: over.extend(entered)}
            execute(new, [()], lambda: env, 40)
            if over:
                bad.append(((code, line), f"{text} (line {line + 1}): but for {values} it ends"))
                break
    return n, bad


def run(check: common.Check) -> None:
    check.rule = "executions of a program or of its rewriting; distinct: claims of edulint decided"
    check.assumptions.append("structures are lists without aliases; a loop left by an exception may be called infinite")
    prog.run_family(check, "paths", path_cases(), path_text, judge_path, ["R6301", "R6309", "R6310", "E9996"], 100, always=True)
    prog.run_family(check, "early", early_cases(), early_text, judge_early, ["R6616"], 60)
    prog.run_family(check, "ranges", range_cases(), range_text, judge_range, ["R6302", "R6304", "R6306", "R6307", "R6308"], 80)
    prog.run_family(check, "count", count_cases(), count_text, judge_count, ["R6606"], 200, always=True)
    prog.run_family(check, "modified", modify_cases(), modify_text, judge_modify, ["R6303"], 100, always=True)
    prog.run_family(check, "while", while_cases(), while_text, judge_while, ["R6305"], 60)
    prog.run_family(check, "infinite", infinite_cases(), infinite_text, judge_infinite, ["R6309", "R6310"], 60)
