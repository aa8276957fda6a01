"""C22: constructs, names and sizes that edulint reports are there, and none is missed.

Bounded-exhaustive families of programs are linted; exactly the places found by an oracle built on the
standard library's parser and symbol tables have to be reported, with their true names and numbers."""
from __future__ import annotations

import ast
import itertools
import os
import re
from typing import Any, Dict, Iterator, List, Optional, Sequence, Set, Tuple

from mc import common, prog

LEVEL = "exploration"

Fact = Tuple[str, int, Tuple[Any, ...]]  # code, line, what is told

DEFS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)
IMPORTS = (ast.Import, ast.ImportFrom)
LOOPS = (ast.For, ast.AsyncFor, ast.While)
COMPREHENSIONS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def valid(text: str) -> bool:
    try:
        compile(text, "<case>", "exec")
    except SyntaxError:
        return False
    return True


def indent(text: str, by: str = "    ") -> str:
    return "".join(by + x if x.strip() else x for x in text.splitlines(True))


def parents(tree: ast.AST) -> Dict[ast.AST, ast.AST]:
    return {c: p for p in ast.walk(tree) for c in ast.iter_child_nodes(p)}


# -- constructs in every place

EXPRESSIONS = [
    "int(x / y)", "int(x // y)", "int(x / y + 1)", "int(x)", "int((x / y) / 2)", "abs(x / y)", "x.isdigit()", "x[0].isnumeric()", "x.isdecimal()", "isdigit(x)",
    "[[]] * x", "[x, [y]] * 3", "3 * [{}]", "[{x}] * 2", "[list()] * x", "[dict(), 1] * 2", "2 * [set()]", "[x] * 2", "[1, 'a', None] * 2", "[()] * 2", "[(x, y)] * x", "x * x",
    "[] * 2", "[[]] + x", "[x.y()] * 2", "int(x / y).isdigit()", "[[int(x / y)]] * 2", "[tuple()] * 3", "[not []] * 2", "[[] == []] * 3",
]
# places for an expression (X)
INSIDE = [
    "X", "a = X", "a = b = X", "a: int = X", "a: X", "a += X", "a[X] = 1", "del a[X]", "a, b = X, 1", "return X", "if X:\n    pass", "if x:\n    pass\nelif X:\n    pass", "while X:\n    pass",
    "while x:\n    a = X\n    b = 1", "for a in X:\n    pass", "for a in x:\n    a = X\nelse:\n    b = X", "async for a in X:\n    pass", "assert X", "assert x, X", "raise X", "raise x from X", "with X:\n    pass",
    "with x, X as b:\n    pass", "async with X as b:\n    pass", "try:\n    X\nexcept ValueError:\n    pass", "try:\n    pass\nexcept X:\n    pass", "try:\n    pass\nfinally:\n    X", "try:\n    pass\nexcept* X:\n    pass",
    "try:\n    pass\nexcept ValueError:\n    a = X\nelse:\n    b = X", "match X:\n    case 1:\n        pass", "match x:\n    case [a] if X:\n        b = X", "def g(a=X):\n    pass", "def g(*, a=X):\n    pass",
    "def g(a: X) -> None:\n    pass", "def g() -> X:\n    pass", "@X\ndef g():\n    pass", "@X\nclass A:\n    pass", "class A(X):\n    pass", "class A(metaclass=x):\n    a = X\n\n    def g(self):\n        return X",
    "async def g():\n    return X", "a = lambda: X", "a = lambda b=X: b", "a = [X for b in x]", "a = [b for b in X]", "a = [b for b in x if X]", "a = {X: 1}", "a = {1: X}", "a = {**X}", "a = {X}", "a = {b: X for b in x}",
    "a = (X for b in x)", "a = x[X]", "a = x[X:]", "a = x(X)", "a = x(b=X)", "a = x(*X)", "a = x(**X)", "a = f'{X}'", "a = f'{x:{X}}'", "a = (X, X)", "a = X if x else y", "a = x if X else y", "a = X and y",
    "a = not X", "a = X < y", "a = x < y < X", "a = X + 1", "a = (X)[0]", "a = (X).a", "a = (b := X)", "a = [*X]", "a = await X", "a = yield X", "yield from X", "global G\nG = X", "print(X, X)", "a = [X] * 2", "if x: a = X", "a = X; b = X",
    "a = (\n    X,\n    x,\n    X,\n)",
]


def place_cases() -> List[str]:
    return [p.replace("X", f"({e})" if " " in e and p.strip() != "X" and "{X}'" not in p else e) for p in INSIDE for e in EXPRESSIONS]


STATEMENTS = [
    "for a in x:\n    pass\nelse:\n    pass", "while x:\n    pass\nelse:\n    pass", "for a in x:\n    pass", "while x:\n    pass", "async for a in x:\n    pass\nelse:\n    a = 1", "for a in x: pass\nelse: pass",
    "if x:\n    pass\nelse:\n    if y:\n        pass", "if x:\n    pass\nelif y:\n    pass", "if x:\n    pass\nelse:\n    if y:\n        pass\n    else:\n        pass", "if x:\n    pass\nelse:\n    if y:\n        pass\n    a = 1",
    "if x:\n    pass\nelse:\n    a = 1\n    if y:\n        pass", "if x:\n    pass\nelif y:\n    pass\nelse:\n    if a:\n        pass", "if x:\n  pass\nelse:\n    if y:\n        pass", "if x:\n        pass\nelse:\n  if y:\n    pass", "if x: pass\nelse:\n    if y: pass",
    "if x: pass\nelif y: pass\nelse: pass", "if x:\n    pass\nelse:\n    # a comment\n    if y:\n        pass", "if x:\n    pass\nelse:\n    if y:\n        pass\n    elif a:\n        pass\n    else:\n        if b:\n            pass",
    "for x[0] in y:\n    pass", "for x.a in y:\n    pass", "for a, x.b in y:\n    pass", "for (a, (x[0], b)) in y:\n    pass", "for *x.a, b in y:\n    pass", "for x[y[0]] in y:\n    pass", "for x[0].a in y:\n    pass", "for x.a.b in y:\n    pass",
    "for x[y.z] in y:\n    pass", "for a in x[0]:\n    pass", "async for x.a in y:\n    pass", "for [a, x[0]] in y:\n    pass", "for x().a in y:\n    pass", "for x[0][1] in y:\n    pass", "a = [b for x.a in y]", "a = {b for x[0] in y}", "a = {b: 1 for b, x[0] in y}",
    "a = list(b for x.a in y for b in x)", "a = [b for b in x.y for c in x[0]]", "a = [b async for x[0] in y]", "for x[lambda: y[0]] in y:\n    pass", "for x[[b for b in y][0]] in y:\n    pass",
    "a = [b for b in x]", "a = [x for x in y]", "a = [x for x, b in y]", "a = [b for b, (x, c) in y]", "a = {x: b for b, x in y}", "a = [x for [x, b] in y]", "a = [x for b, *x in y]", "a = [1 for _ in y]", "_ = 1\na = [1 for _ in y]",
    "_ = 1\na = [1 for b, _ in y]", "b = [b for b in y]", "a = [c for b in y for c in b]", "a = [x for b in y for x in b]", "a = [[x for x in b] for b in y]", "a = [[b for b in c] for c in y]", "a = lambda b: [b for b in x]", "a = lambda b: [x for x in b]",
    "a = [b for b in x]\nb = 1", "a = {x for x in y}", "a = (x for x in y)", "def g(b):\n    return [b for b in x]", "def g(b):\n    return [x for x in b]", "import os\na = [os for os in x]", "def g():\n    pass\n\n\na = [g for g in x]",
    "for b in x:\n    a = [b for b in y]", "with x as b:\n    a = [b for b in y]", "try:\n    pass\nexcept ValueError as b:\n    a = [b for b in y]", "if (b := x):\n    a = [b for b in y]", "a = [(b := c) for c in x]\na = [b for b in x]", "a = [a for a in x]",
]
NESTED = [
    "{}", "if x:\n{}", "if x:\n    pass\nelse:\n{}\n    y = 2", "for i in x:\n{}", "while x:\n    y = 1\n{}", "with x:\n{}", "async with x:\n{}", "try:\n{}\nexcept ValueError:\n    pass", "try:\n    pass\nexcept ValueError:\n{}", "try:\n    pass\nfinally:\n{}",
    "try:\n    pass\nexcept ValueError:\n    pass\nelse:\n{}", "match x:\n    case 1:\n{{}}\n    case _:\n        pass", "def h():\n{}", "async def h():\n{}", "class A:\n{}", "return\n{0}", "for i in x:\n    pass\nelse:\n    y = 1\n{}", "try:\n    pass\nexcept* ValueError:\n{}", "async for i in x:\n{}",
    "while True:\n    pass\n{0}", "class A:\n    def h(self):\n{{}}",
]


def nest(place: str, body: str) -> str:
    if place.endswith("{0}"):
        return place.replace("{0}", body)
    return place.replace("{{}}", indent(body, "        ")).replace("{}", indent(body))


def statement_cases() -> List[str]:
    return [nest(p, s) for p in NESTED for s in STATEMENTS]


def function(i: int, case: str) -> str:
    for a in ("async def", "def"):
        text = f"{a} f{i}(x, y, z):\n{indent(case)}\n"
        if valid(text):
            return text
    return f"def f{i}():\n    pass\n"


def targets_of(node: ast.expr) -> Iterator[ast.expr]:
    if isinstance(node, (ast.Tuple, ast.List)):
        for e in node.elts:
            yield from targets_of(e)
    elif isinstance(node, ast.Starred):
        yield from targets_of(node.value)
    else:
        yield node


def mutable(node: ast.expr) -> bool:
    return isinstance(node, (ast.List, ast.Set, ast.Dict)) or (
        isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("list", "set", "dict")
    )


def frame_names(tree: ast.Module, text: str) -> Dict[ast.AST, Set[str]]:
    """For every function, lambda, class and the module, the names it binds itself."""
    result: Dict[ast.AST, Set[str]] = {}
    for frame in ast.walk(tree):
        if not isinstance(frame, (*DEFS, ast.Lambda, ast.Module)):
            continue
        names: Set[str] = set()
        outer: Set[str] = set()
        if not isinstance(frame, (ast.ClassDef, ast.Module)):
            a = frame.args
            for p in [*a.posonlyargs, *a.args, *a.kwonlyargs, a.vararg, a.kwarg]:
                if p is not None:
                    names.add(p.arg)
        todo: List[ast.AST] = [frame.body] if isinstance(frame, ast.Lambda) else list(frame.body)
        inside: List[ast.AST] = []
        while todo:
            n = todo.pop()
            if isinstance(n, DEFS):
                names.add(n.name)
                continue
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, COMPREHENSIONS):
                inside += [m for m in ast.walk(n) if isinstance(m, ast.NamedExpr)]
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names.add(n.id)
            elif isinstance(n, IMPORTS):
                names |= {(x.asname or x.name).split(".")[0] for x in n.names}
            elif isinstance(n, ast.ExceptHandler) and n.name:
                names.add(n.name)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                outer |= set(n.names)
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                names.add(n.name)
            elif isinstance(n, ast.MatchMapping) and n.rest:
                names.add(n.rest)
            todo += list(ast.iter_child_nodes(n))
        names |= {m.target.id for m in inside}
        result[frame] = names - outer
    return result


def construct_facts(text: str) -> Tuple[Set[Fact], Set[Fact]]:
    """What has to be reported, and what may be."""
    tree = ast.parse(text)
    lines = text.encode().splitlines()
    up = parents(tree)
    names = frame_names(tree, text)
    must: Set[Fact] = set()
    may: Set[Fact] = set()

    def frame(n: ast.AST) -> ast.AST:
        n = up[n]
        while n not in names:
            n = up[n]
        return n

    for n in ast.walk(tree):
        line = getattr(n, "lineno", 0)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "int" and len(n.args) == 1:
            if isinstance(n.args[0], ast.BinOp) and isinstance(n.args[0].op, ast.Div):
                must.add(("R6602", line, ()))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("isdigit", "isnumeric"):
            must.add(("R6603", line, ()))
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult):
            lists = [s for s in (n.left, n.right) if isinstance(s, ast.List)]
            if len(lists) == 1:
                if any(mutable(e) for e in lists[0].elts):
                    must.add(("R6610", line, ()))
                elif any(not isinstance(e, (ast.Constant, ast.Tuple, ast.Name, ast.Compare, ast.UnaryOp)) for e in lists[0].elts):
                    may.add(("R6610", line, ()))
        if isinstance(n, LOOPS) and n.orelse:
            must.add(("R6604", line, ("while" if isinstance(n, ast.While) else "for",)))
        if isinstance(n, ast.If) and len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If):
            inner = n.orelse[0]
            if lines[inner.lineno - 1][inner.col_offset :].startswith(b"if"):
                must.add(("R6605", inner.lineno, ()))
        if isinstance(n, (ast.For, ast.AsyncFor, ast.comprehension)):
            for t in targets_of(n.target):
                if not isinstance(t, ast.Name):
                    must.add(("E9984", t.lineno, (ast.unparse(t).replace("(lambda: y[0])", "lambda: y[0]"),)))
        if isinstance(n, ast.comprehension):
            home = frame(n)
            for t in targets_of(n.target):
                if isinstance(t, ast.Name) and t.id != "_":
                    if t.id in names[home]:
                        must.add(("E9988", t.lineno, (t.id,)))
                    else:
                        at: ast.AST = up[n]
                        while at in up:
                            at = up[at]
                            bound = names.get(at, set())
                            if isinstance(at, COMPREHENSIONS):
                                bound = {m.id for g in at.generators for m in ast.walk(g.target) if isinstance(m, ast.Name)}
                            if t.id in bound:
                                may.add(("E9988", t.lineno, (t.id,)))
                        # bound by another clause of the same comprehension: hides nothing of an outer scope
    return must, may


MESSAGES = {
    "R6602": r"Use integral division //\.$",
    "R6603": r"Use isdecimal to test if string contains a number\.$",
    "R6604": r"Do not use (while|for) loop with else\.$",
    "R6605": r"Use elif\.$",
    "R6610": r"Do not multiply list with mutable content\.$",
    "E9984": r'For loop or comprehension variable "(.*)" should not be a part of a larger object\.$',
    "E9988": r"Comprehension variable '(.*)' shadows a variable in an outer scope$",
    "E9992": r"Forbidden top-level code found on line (\d+)$",
    "R6401": r"Do not use global variables; you use (\w+), modifying it for example at line (\d+)\.$",
    "R6701": r"Too much code outside of functions or classes \((\d+) which is over 20 statements\)\.$",
    "R6702": r"Function '(\w+)' is too long \((\d+) which is over 20 statements\)\.$",
}


def told(code: str, text: str) -> Optional[Tuple[Any, ...]]:
    m = re.match(MESSAGES[code], text, re.S)
    return None if m is None else tuple(m.groups())


def judge_constructs(case: str, text: str, found: List[prog.Found]) -> Tuple[int, List[Tuple[Any, str]]]:
    must, may = construct_facts(text)
    got: List[Fact] = []
    bad = []
    for code, said, line, _c, _e in found:
        args = told(code, said)
        if args is None:
            bad.append(((code, said), f"{code} tells {said!r}"))
        else:
            got.append((code, line + 1, args))
    for f in set(got) - must - may:
        bad.append((f, f"{f} is reported, but not there"))
    for f in must - set(got):
        bad.append((f, f"{f} is not reported"))
    return len(must) + len(got), bad


CONSTRUCTS = ["R6602", "R6603", "R6604", "R6605", "R6610", "E9984", "E9988"]


# -- sizes

FILLERS: List[Tuple[str, int, int]] = []  # text, statements, headers of further clauses


def clauses(tree: ast.AST) -> int:
    count = 0
    for n in ast.walk(tree):
        if isinstance(n, LOOPS) and n.orelse:
            count += 1
        elif isinstance(n, ast.If) and n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            count += 1
        elif isinstance(n, (ast.Try, ast.TryStar)):
            count += len(n.handlers) + bool(n.orelse) + bool(n.finalbody)
        elif isinstance(n, ast.Match):
            count += len(n.cases)
    return count


def is_main(n: ast.AST) -> bool:
    return isinstance(n, ast.If) and ast.unparse(n.test) == "__name__ == '__main__'"


def sizes(body: Sequence[ast.stmt]) -> Tuple[int, int]:
    """The number of statements out of nested definitions, imports and main blocks, without and with the
    headers of further clauses."""
    low = high = 0
    for s in body:
        if isinstance(s, (*DEFS, *IMPORTS)) or is_main(s):
            continue
        low += 1
        high += 1
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str) and s is body[0]:
            low -= 1
        for field in ("body", "orelse", "finalbody"):
            inner = getattr(s, field, None)
            if inner and isinstance(inner, list):
                a, b = sizes(inner)
                plain = isinstance(s, ast.If) and field == "orelse" and len(inner) == 1 and isinstance(inner[0], ast.If)
                low += a
                high += b + (field != "body")
        for h in [*getattr(s, "handlers", []), *getattr(s, "cases", [])]:
            a, b = sizes(h.body)
            low += a
            high += b + 1
    return low, high


SHAPES = [
    "{}", "if x:\n{}", "if x:\n    pass\nelse:\n{}", "if x:\n    pass\nelif y:\n{}\nelse:\n    pass", "for a in x:\n{}", "for a in x:\n    pass\nelse:\n{}", "async for a in x:\n{}", "while x:\n{}", "while x:\n    pass\nelse:\n{}",
    "with x:\n{}", "with x, y as a:\n{}", "async with x:\n{}", "try:\n{}\nexcept ValueError:\n    pass", "try:\n    pass\nexcept ValueError:\n{}", "try:\n    pass\nexcept ValueError:\n    pass\nexcept KeyError:\n{}", "try:\n    pass\nexcept ValueError:\n    pass\nelse:\n{}",
    "try:\n    pass\nfinally:\n{}", "try:\n    pass\nexcept* ValueError:\n{}", "match x:\n    case 1:\n{{}}", "match x:\n    case 1:\n        pass\n    case [a, b] if a:\n{{}}\n    case _:\n        pass", "def h():\n{}", "async def h():\n{}", "class A:\n{}", "class A:\n    def h(self):\n{{}}",
    "import os\nimport sys as b\nfrom a import c\n{}", "if __name__ == '__main__':\n{}", "if __name__ == '__main__':\n    pass\nelse:\n{}", "if __name__ != '__main__':\n{}", "if __name__ == 'main':\n{}", "'''A docstring.'''\n{}", "return\n{}", "global G\n{}", "del x\nassert y\nraise x\n{}", "pass\n{}",
    "a = [b for b in x]; c = lambda: 1\n{}", "@x\ndef h():\n    pass\n\n\n{}",
]


def size_cases() -> List[Tuple[str, int, str]]:
    out = []
    for kind in ("def", "async def", "method", "nested"):
        for shape in SHAPES:
            for n in range(14, 24):
                out.append((kind, n, shape))
    for a, b in itertools.product(SHAPES, SHAPES):
        if "{{}}" not in a:
            for n in ((17, 18, 19, 20, 21) if common.THOROUGH else (17, 19)):
                out.append(("def", n, a.replace("{}", "\0") + "\1" + b))
    return out


def filled(n: int, shape: str) -> str:
    lines = "".join(f"y{i} = {i}\n" for i in range(n))
    if "\0" in shape:
        a, b = shape.split("\1")
        inner = fill(b, lines)
        return fill(a.replace("\0", "{}"), inner)
    return fill(shape, lines)


def fill(shape: str, body: str) -> str:
    if shape.splitlines()[-1] == "{}" and not shape[: -2].rstrip("\n").endswith(":"):
        return shape.replace("{}", body)
    return nest(shape, body)


def size_text(i: int, case: Tuple[str, int, str]) -> str:
    kind, n, shape = case
    body = filled(n, shape)
    texts = {
        "def": [f"def f{i}(x, y):\n{indent(body)}\n", f"async def f{i}(x, y):\n{indent(body)}\n"],
        "async def": [f"async def f{i}(x, y):\n{indent(body)}\n"],
        "method": [f"class C{i}:\n    def f{i}(self, x, y):\n{indent(body, ' ' * 8)}\n"],
        "nested": [f"def g{i}(x, y):\n    if x:\n        def f{i}():\n{indent(body, ' ' * 12)}\n        return f{i}\n"],
    }[kind]
    for t in texts:
        if valid(t):
            return t
    return f"def f{i}():\n    pass\n"


def judge_sizes(case: Any, text: str, found: List[prog.Found]) -> Tuple[int, List[Tuple[Any, str]]]:
    bad: List[Tuple[Any, str]] = []
    claims: Dict[Tuple[str, int], List[int]] = {}
    for code, said, line, _c, _e in found:
        args = told(code, said)
        if args is None:
            bad.append(((code, said), f"{code} tells {said!r}"))
        else:
            claims.setdefault((args[0], line + 1), []).append(int(args[1]))
    functions = 0
    for n in ast.walk(ast.parse(text)):
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        functions += 1
        low, high = sizes(n.body)
        at = n.decorator_list[0].lineno if n.decorator_list else n.lineno
        said = claims.pop((n.name, n.lineno), None) or claims.pop((n.name, at), None)
        if said is None:
            if low > 20:
                bad.append((n.name, f"{n.name} has at least {low} statements, which is not reported"))
        elif len(said) > 1 or not max(low, 21) <= said[0] <= high:
            bad.append((n.name, f"{n.name} has {low} to {high} statements, {said} reported"))
    for c in claims:
        bad.append((c, f"there is no function {c[0]} at line {c[1]}"))
    return functions, bad


# -- whole modules

TOP = [
    "import os", "from os import path", "def g():\n    pass", "async def g():\n    pass", "class A:\n    pass", "@abs\ndef g():\n    pass", "X = 1", "x = y = 1", "x, y = 1, 2", "x: int = 1", "x: int", "print(1)", "1", "'text'", "...", "pass", "if 0 == 1:\n    print('a')",
    "if __name__ == '__main__':\n    print(1)", 'if __name__ == "__main__": print(1)', "if __name__ == '__main__':\n    pass\nelse:\n    print(1)", "if __name__ != '__main__':\n    pass", "for i in []:\n    pass", "while False:\n    pass", "with open('a') as f:\n    pass",
    "try:\n    import a\nexcept ImportError:\n    pass", "raise ValueError", "assert True", "del os", "x[0] = 1", "x.a = 1", "lambda: 1", "[a for a in []]", "(z := 1)", "match 1:\n    case _:\n        pass", "x = [\n    1,\n]", "print(\n    1,\n)", "from __future__ import annotations", "global x",
    "if __name__ == '__main__' and x:\n    pass", "if x == '__main__':\n    pass", "async_ = 1; print(1)", "X = print(1)",
]


def top_cases() -> List[str]:
    out = list(TOP)
    out += [f"{a}\n{b}\n" for a, b in itertools.product(TOP, TOP) if not b.startswith("from __future__")]
    out += [f"'''Docstring.'''\n{a}\n" for a in TOP]
    return [t for t in out if valid(t)]


def top_facts(text: str) -> Tuple[Set[Fact], Set[Fact]]:
    tree = ast.parse(text)
    must = set()
    docstring = ast.get_docstring(tree) is not None
    for i, s in enumerate(tree.body):
        if i == 0 and docstring or is_main(s):
            continue
        if not isinstance(s, (*DEFS, *IMPORTS, ast.Assign, ast.AnnAssign)):
            must.add(("E9992", s.lineno, (str(s.lineno),)))
    return must, set()


# the module's variable G, and how it comes to be
BOUND = [
    "G = []", "G: list = []", "G = H = []", "(G, H) = [], 1", "[G, *H] = [], 1", "G, (H, I) = [], (1, 2)", "for G in [[]]:\n    pass", "with open('x') as G:\n    pass", "if 1:\n    G = []", "try:\n    G = []\nexcept ValueError:\n    pass", "while True:\n    G = []\n    break",
    "try:\n    pass\nfinally:\n    G = []", "try:\n    1 // 0\nexcept ZeroDivisionError as e:\n    G = e", "match []:\n    case G:\n        pass", "G = []\nG = [1]", "print(G := [])", "if (G := []):\n    pass", "G = 1\nG += 1", "if __name__ == '__main__':\n    G = []", "H = 1\nG = []",
    "import G", "from os import path as G", "def G():\n    pass", "class G:\n    pass", "H = 1", "G = []\ndel G", "if 1:\n    pass\nelse:\n    G = []",
]
# what a function does with G
USES: List[Tuple[str, bool]] = [
    # text, whether line with # ! modifies G of the scope it belongs to
    ("global G\nG = 1  # !", True), ("global G\nG += 1  # !", True), ("global G\nG: int = 1  # !", True), ("global G\nfor G in x:  # !\n    pass", True), ("global G\nwith x as G:  # !\n    pass", True), ("global G\nimport G  # !", True), ("global G\ndel G  # !", True),
    ("global G\nG, y = 1, 2  # !", True), ("global G\ny, (G, *z) = 1, x  # !", True), ("global G\n[G, y] = 1, 2  # !", True), ("global G\nif (G := x):  # !\n    pass", True), ("global G\ntry:\n    pass\nexcept ValueError as G:  # !\n    pass", True), ("global G\nif x:\n    G = 1  # !", True),
    ("global G\nfor i in x:\n    G = 1  # !", True), ("global G\nwhile x:\n    G = 1  # !", True), ("global G\ntry:\n    G = 1  # !\nexcept ValueError:\n    pass", True), ("global G\ntry:\n    pass\nfinally:\n    G = 1  # !", True), ("global G\nmatch x:\n    case 1:\n        G = 1  # !", True),
    ("global G\nmatch x:\n    case G:  # !\n        pass", True), ("global H, G\nG = 1  # !", True), ("if x:\n    global G\nG = 1  # !", True), ("global G\nreturn [G := 1 for y in x]  # !", True), ("global G\nG = G = 1  # !", True),
    ("global G\nx = 1\nreturn 2\nG = 1", False), ("while True:\n    global G\n    G = 1  # !", True), ("global G\ny = G = 1  # !", True), ("global G\nif x:\n    return 1\nelse:\n    G = 1  # !", True), ("global G\nwith x:\n    G = 1  # !", True),
    ("G.append(1)  # !", True), ("G[0] = 1  # !", True), ("G[0] += 1  # !", True), ("G.a = 1  # !", True), ("G.a.b = 1  # !", True), ("G[0].a = 1  # !", True), ("G.a += 1  # !", True), ("del G[0]  # !", True), ("del G.a  # !", True), ("G[0][1] = 1  # !", True),
    ("G.extend(x)  # !", True), ("G.pop()  # !", True), ("G.sort()  # !", True), ("G.update(x)  # !", True), ("return G.pop()  # !", True), ("x(G.pop())  # !", True), ("if G.pop():  # !\n    pass", True), ("while G.pop():  # !\n    pass", True), ("for i in x:\n    G.append(i)  # !", True),
    ("return [G.append(i) for i in x]  # !", True), ("for G[0] in x:  # !\n    pass", True), ("with x as G.a:  # !\n    pass", True), ("x, G[0] = 1, 2  # !", True), ("[x, [y, G.a]] = 1, [2, 3]  # !", True), ("return lambda: G.append(1)  # !", True), ("G[0].append(1)  # !", True),
    ("G[0]: int = 1  # !", True), ("y = G.pop() + 1  # !", True), ("return G.a.pop()  # !", True), ("async with x as G[0]:  # !\n    pass", True), ("G[1:2] = []  # !", True), ("assert G.pop()  # !", True), ("raise G.pop()  # !", True), ("yield G.pop()  # !", True),
    ("return f'{G.pop()}'  # !", True), ("return x if G.pop() else y  # !", True), ("match G.pop():  # !\n    case 1:\n        pass", True), ("match x:\n    case 1 if G.pop():  # !\n        pass", True), ("try:\n    G.clear()  # !\nexcept ValueError:\n    pass", True),
    # no modification
    ("print(G)", False), ("return G[0]", False), ("return G.a", False), ("return len(G)", False), ("G = 1", False), ("for G in x:\n    G.append(1)", False), ("G = []\nG.append(1)", False), ("return [G for G in x]", False), ("global G\nprint(G)", False), ("global G", False),
    ("return [G.append(1) for G in x]", False), ("return lambda G: G.append(1)", False), ("y = G\ny.append(1)", False), ("return G.copy()", False), ("x[G[0]] = 1", False), ("x.append(G)", False), ("x[0] = G", False), ("del x[G]", False), ("import G\nG.a = 1", False), ("G()", False),
    ("return G.index(x)", False), ("def h(G):\n    G.append(1)\n\n\nreturn h", False), ("x.G = 1", False), ("x.G.append(1)", False), ("x(G=1)", False), ("if x:\n    G = []\nG.append(1)", False), ("with x as G:\n    G.append(1)", False), ("y = {'G': 1}\ny['G'] = 2", False),
    ("def h():\n    nonlocal G\n    G = 1\n\n\nG = 2\nh()", False), ("G += 1", False), ("class B:\n    G = 1", False), ("G, y = x\nG.append(1)", False), ("try:\n    pass\nexcept ValueError as G:\n    G.a = 1", False), ("match x:\n    case [G]:\n        G.append(1)", False), ("match x:\n    case {**G}:\n        G.pop()", False),
    ("(G := x).append(1)", False), ("if (G := x):\n    G.pop()", False), ("[G := i for i in x]\nG.pop()", False),
]
# where it does so; U is replaced
WHERE = [
    "def f(x, y):\nU", "async def f(x, y):\nU", "class C:\n    def f(self, x, y):\nUU", "def o(x, y):\n    def f():\nUU\n    return f", "if 1:\n    def f(x, y):\nUU", "try:\n    def f(x, y):\nUU\nexcept ValueError:\n    pass", "class C:\n    class D:\n        @staticmethod\n        def f(x, y):\nUUU",
    "class C:\nU", "def f(x, y, G):\n    def f():\nUU\n    return f", "def o(x, y):\n    G = 1\n    def f():\nUU\n    return f", "class C:\n    G = 1\n    def f(self, x, y):\nUU", "def f(x, y, /, *G):\nU", "def f(x, y, *, G=1):\nU", "def f(x, y, **G):\nU", "def f(x, y, a=lambda: 1):\nU", "def f(x, y):\n    def h():\n        G = 1\n    return h\n\n\ndef g(x, y):\nU",
    "for i in []:\n    def f(x, y):\nUU", "with open('x') as z:\n    def f(x, y):\nUU", "def f(x, y):\nU\n\n\ndef f2(x, y):\nU", "while True:\n    def f(x, y):\nUU\n    break", "def o(G):\n    class C:\n        def f(self, x, y):\nUUU\n    return C",
]


def global_cases() -> List[Tuple[str, str, str, bool]]:
    out = []
    for b, (u, _), w in itertools.product(BOUND, USES, WHERE):
        if BOUND.index(b) in (0, 3) or WHERE.index(w) in (0,) or common.THOROUGH:
            out.append((b, u, w, False))
        if BOUND.index(b) in (0, 8) and WHERE.index(w) in (0, 2, 4):
            out.append((b, u, w, True))
    return out


def global_text(case: Tuple[str, str, str, bool]) -> str:
    b, u, w, after = case
    body = w.replace("UUU", indent(u, " " * 12)).replace("UU", indent(u, " " * 8)).replace("U", indent(u))
    parts = [body, b] if after else [b, body]
    return "\n\n\n".join(parts) + "\n"


MUTATORS = ("append", "extend", "pop", "sort", "update", "clear")
BINDING_HERE = (ast.Name, ast.ExceptHandler, ast.MatchAs, ast.MatchStar, ast.MatchMapping)


def root_name(n: ast.AST) -> Optional[ast.Name]:
    while isinstance(n, (ast.Attribute, ast.Subscript)):
        n = n.value
    return n if isinstance(n, ast.Name) else None


class Scopes:
    """Resolves names by the rules of the language reference."""

    def __init__(self, tree: ast.Module) -> None:
        self.tree = tree
        self.up = parents(tree)
        self.bound: Dict[ast.AST, Set[str]] = {}
        self.outer: Dict[ast.AST, Dict[str, bool]] = {}  # declared names; whether as global
        for n in ast.walk(tree):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                for name in n.names:
                    self.outer.setdefault(self.scope(n), {})[name] = isinstance(n, ast.Global)
            elif isinstance(n, ast.arg):
                self.bound.setdefault(self.up[self.up[n]], set()).add(n.arg)
            elif isinstance(n, IMPORTS):
                for x in n.names:
                    self.bound.setdefault(self.scope(n), set()).add((x.asname or x.name).split(".")[0])
            elif isinstance(n, DEFS):
                self.bound.setdefault(self.scope(n), set()).add(n.name)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Del):
                self.bound.setdefault(self.scope(n), set()).add(n.id)
        for name, n, _line in bindings(tree):
            self.bound.setdefault(self.home(n), set()).add(name)

    def scope(self, n: ast.AST) -> ast.AST:
        """The scope a node is evaluated in."""
        while n in self.up:
            child, n = n, self.up[n]
            if isinstance(n, DEFS):
                if child in n.body:
                    return n
            elif isinstance(n, ast.Lambda):
                if child is n.body:
                    return n
            elif isinstance(n, COMPREHENSIONS):
                if child is not n.generators[0] or not self.first_iter:
                    return n
            self.first_iter = isinstance(n, ast.comprehension) and child is n.iter
        return n

    def home(self, n: ast.AST) -> ast.AST:
        """The scope a name is bound in: targets of := within comprehensions are bound out of them."""
        s = self.scope(n)
        if isinstance(n, ast.Name) and isinstance(self.up[n], ast.NamedExpr) and self.up[n].target is n:
            while isinstance(s, COMPREHENSIONS):
                s = self.scope(s)
        return s

    def is_global(self, name: str, at: ast.AST) -> bool:
        """Whether a name used at a node is the module's."""
        s = self.home(at)
        first = True
        while not isinstance(s, ast.Module):
            if first or not isinstance(s, ast.ClassDef):
                if name in self.outer.get(s, {}):
                    if self.outer[s][name]:
                        return True
                elif name in self.bound.get(s, set()):
                    return False
            first = False
            s = self.scope(s)
        return True

    def depth(self, n: ast.AST) -> List[ast.AST]:
        """The scopes a node is in, from the innermost one."""
        out = []
        while not isinstance(n, ast.Module):
            n = self.scope(n)
            out.append(n)
        return out


def bindings(tree: ast.AST) -> Iterator[Tuple[str, ast.AST, int]]:
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            yield n.id, n, n.lineno
        elif isinstance(n, ast.ExceptHandler) and n.name:
            yield n.name, n, n.lineno
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            yield n.name, n, n.lineno
        elif isinstance(n, ast.MatchMapping) and n.rest:
            yield n.rest, n, n.lineno


def modifications(tree: ast.AST) -> Iterator[Tuple[str, ast.AST, int]]:
    yield from bindings(tree)
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Del):
            yield n.id, n, n.lineno
        elif isinstance(n, IMPORTS):
            for x in n.names:
                yield (x.asname or x.name).split(".")[0], n, n.lineno
        elif isinstance(n, DEFS):
            yield n.name, n, n.lineno
        elif isinstance(n, (ast.Attribute, ast.Subscript)) and not isinstance(n.ctx, ast.Load):
            r = root_name(n)
            if r is not None:
                yield r.id, r, r.lineno
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
            r = root_name(n.func)
            if r is not None:
                yield r.id, r, r.lineno


def global_facts(text: str) -> Tuple[Dict[str, Set[int]], Dict[str, Set[int]], Set[str]]:
    """Lines at which each module's variable is bound at the top level, lines at which it is modified in a
    function, and names that have to be reported."""
    tree = ast.parse(text)
    scopes = Scopes(tree)
    bound: Dict[str, Set[int]] = {}
    for name, n, line in bindings(tree):
        if isinstance(scopes.home(n), ast.Module):
            bound.setdefault(name, set()).add(line)
    others = {n.name for n in tree.body if isinstance(n, DEFS)}
    for n in tree.body:
        if isinstance(n, DEFS):
            bound.setdefault(n.name, set()).add(n.lineno)
        elif isinstance(n, ast.Delete):
            others |= {t.id for t in n.targets if isinstance(t, ast.Name)}
    required = set()
    modified: Dict[str, Set[int]] = {}
    for name, n, line in modifications(tree):
        holders = scopes.depth(n)
        if all(isinstance(h, (ast.Module, *COMPREHENSIONS)) for h in holders):
            continue
        if scopes.is_global(name, n):
            modified.setdefault(name, set()).add(line)
            if name in bound and name not in others and not all(isinstance(h, (ast.Module, ast.ClassDef, *COMPREHENSIONS)) for h in holders):
                required.add(name)
    return bound, modified, required


DEAD = "x = 1\nreturn 2\nG = 1"


def judge_module(text: str, found: List[Tuple[str, str, int]]) -> List[str]:
    bad = []
    got: List[Fact] = []
    for code, said, line in found:
        args = told(code, said)
        if args is None:
            bad.append(f"{code} tells {said!r}")
        else:
            got.append((code, line, args))
    must, may = top_facts(text)
    top = {f for f in got if f[0] == "E9992"}
    bad += [f"{f} is reported, but not so" for f in top - must - may] + [f"{f} is not reported" for f in must - top]
    bound, modified, required = global_facts(text)
    named = [f for f in got if f[0] == "R6401"]
    for code, line, (name, at) in named:
        if line not in bound.get(name, ()):
            bad.append(f"global variable {name} is not assigned at top level at line {line}")
        if int(at) not in modified.get(name, ()):
            bad.append(f"global variable {name} is not modified in a function at line {at}")
    names = [f[2][0] for f in named]
    if len(set(names)) != len(names):
        bad.append(f"reported repeatedly: {names}")
    for name in required - set(names):
        if DEAD not in text.replace("        ", "").replace("    ", ""):
            bad.append(f"global variable {name} is modified at lines {sorted(modified[name])}, which is not reported")
    low, high = sizes(ast.parse(text).body)
    long = [f for f in got if f[0] == "R6701"]
    if len(long) > 1 or long and not max(low, 21) <= int(long[0][2][0]) <= high:
        bad.append(f"the module has {low} to {high} statements, {long} reported")
    if not long and low > 20:
        bad.append(f"the module has at least {low} statements, which is not reported")
    return bad


def script_cases() -> List[str]:
    out = []
    for shape in SHAPES:
        for n in range(14, 24):
            t = filled(n, shape)
            out.append(t.replace("async for", "for").replace("async with", "with"))
    return [t for t in out if valid(t)]


def lint_modules(texts: Sequence[str], opts: Sequence[str]) -> List[List[Tuple[str, str, int]]]:
    import edulint

    folder = common.fresh_dir("m")
    paths = [common.write(os.path.join(folder, f"m{i}.py"), t) for i, t in enumerate(texts)]
    problems = edulint.lint_many(edulint.get_config_many([*paths], list(opts)))
    result: List[List[Tuple[str, str, int]]] = [[] for _ in texts]
    for p in problems:
        result[int(re.search(r"m(\d+)\.py$", p.path).group(1))].append((p.code, p.text, p.line))
    for path in paths:
        os.remove(path)
    return result


MODULE_CODES = ["E9992", "R6401", "R6701"]


def modules(check: common.Check, name: str, texts: List[str]) -> None:
    if name not in os.environ.get("MC_FAMILIES", name).split(","):
        return
    opts = prog.options(MODULE_CODES)

    def worker(chunk: List[str]) -> List[Tuple[str, List[Tuple[str, str, int]], List[str]]]:
        out = []
        for text, found in zip(chunk, lint_modules(chunk, opts)):
            failed = [f for f in found if f[0] not in MODULE_CODES]
            try:
                out.append((text, found, [f"linting failed: {failed}"] if failed else judge_module(text, found)))
            except BaseException as e:  # noqa: BLE001
                raise RuntimeError(f"judging failed with {e!r}:\n{text}") from e
        return out

    seen: Dict[str, int] = {}
    for out in common.pmap(worker, list(common.chunks(texts, 40))):
        for text, found, bad in out:
            for f in found:
                seen[f[0]] = seen.get(f[0], 0) + 1
                check.outcome(f[0])
                check.sample(f[0], {"family": name, "program": text, "says": f[1]}, 1)
            for what in bad:
                check.violation(f"{name}-{common.digest([text, what])}", f"{name}: {what}\n{text}", {"program": text, "wrong": what})
    check.add(evaluations=len(texts) + sum(seen.values()), distinct_nontrivial=sum(seen.values()), programs=len(texts))
    check.notes.setdefault("families", {})[name] = {"programs": len(texts), "claims": seen}


def run(check: common.Check) -> None:
    check.rule = (
        "every construct of an alphabet in every place of an expression or statement, every shape of functions and scripts "
        "around the limit, every pair of top-level statements, every way to bind a module's variable x every use x every place; "
        "distinct_nontrivial counts facts reported"
    )
    prog.run_family(check, "places", place_cases(), function, judge_constructs, CONSTRUCTS, always=True)
    prog.run_family(check, "statements", statement_cases(), function, judge_constructs, CONSTRUCTS, always=True)
    prog.run_family(check, "sizes", size_cases(), size_text, judge_sizes, ["R6702"], always=True)
    modules(check, "scripts", script_cases())
    modules(check, "top", top_cases())
    modules(check, "globals", [t for t in map(global_text, global_cases()) if valid(t)])
    check.assumptions.append("the standard library's parser is right")
