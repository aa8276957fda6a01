"""C20: what is said of expressions and assignments holds, and their rewrites keep the value.

Bounded-exhaustive families of expressions and statements are linted; every claim is decided by evaluating
the expression, and the expression rewritten as told, on every input of a bounded domain."""
from __future__ import annotations

import ast
import copy
import itertools
import re
from typing import Any, Dict, Iterator, List, Optional, Tuple

from mc import common, prog

LEVEL = "exploration"


class Record:
    def __init__(self, **kw: Any) -> None:
        self.__dict__.update(kw)

    def __eq__(self, other: Any) -> bool:
        return isinstance(other, Record) and self.__dict__ == other.__dict__

    def __repr__(self) -> str:
        return f"Record({self.__dict__})"


def source(values: Tuple[Any, ...]) -> Any:
    """A function that returns other values each time."""
    it = iter(itertools.cycle(values))
    return lambda: next(it)


def evaluate(code: Any, env: Dict[str, Any]) -> Any:
    try:
        return ("value", eval(code, env))
    except Exception as e:  # noqa: BLE001
        return ("raises", type(e).__name__)


def same(a: Any, b: Any) -> bool:
    if isinstance(a, float) and isinstance(b, float) or type(a) != type(b):
        return bool(a == b or (isinstance(a, (int, float)) and isinstance(b, (int, float)) and abs(a - b) <= 1e-9 * max(abs(a), abs(b))))
    return bool(a == b)


def expressions(tree: ast.AST, kind: Any, line: int, text: Optional[str] = None) -> List[Any]:
    return [n for n in ast.walk(tree) if isinstance(n, kind) and n.lineno == line + 1 and (text is None or ast.unparse(n) == text)]


# -- arithmetic

OPERANDS = ["x", "y", "0", "1", "2", "0.0", "1.0", "''", "-1", "w.a", "ys[0]", "src()", "ys[src()]", "-x", "True", "False", "(x + y)", "'a'", "1 - 1", "len(ys)", "w.m()", "x if y else x", "None"]
FEW = ["x", "y", "0", "1", "src()", "ys[src()]"]
OPERATORS = ["+", "-", "*", "/", "//", "%", "**", "|", "<<", "@"]


def wrapped(e: str) -> str:
    return f"({e})" if " " in e and not e.startswith("(") else e


def arithmetic_cases() -> List[str]:
    out = []
    for a, op, b in itertools.product(OPERANDS, OPERATORS, OPERANDS):
        out.append(f"return {wrapped(a)} {op} {wrapped(b)}")
    for a, o1, b, o2, c in itertools.product(FEW, OPERATORS[:7], FEW, OPERATORS[:7], FEW):
        out.append(f"return {a} {o1} {b} {o2} {c}")
        if common.THOROUGH or o1 == o2:
            out.append(f"return {a} {o1} ({b} {o2} {c})")
    for op in ("+", "*"):
        for leaves in itertools.product(("x", "y", "w.a", "ys[0]", "ys[src()]", "1"), repeat=4):
            if len(set(leaves)) < 3:
                a, b, c, d = leaves
                out += [f"return {a} {op} {b} {op} {c} {op} {d}", f"return ({a} {op} {b}) {op} ({c} {op} {d})", f"return {a} {op} ({b} {op} ({c} {op} {d}))"]
    for t, op, b in itertools.product(("x", "w.a", "ys[0]", "ys[src()]"), OPERATORS, OPERANDS):
        out.append(f"{t} {op}= {b}\nreturn ({t}, src())")
    return out


def body_text(i: int, case: str) -> str:
    text = f"def f{i}(x, y, ys, w, src):\n" + "".join(f"    {x}\n" for x in case.split("\n"))
    try:
        compile(text, "x", "exec")
    except SyntaxError:
        return f"def f{i}():\n    pass\n"
    return text


PROFILES: List[List[Tuple[Any, Any]]] = [
    [(a, b) for a in (-2, 0, 1, 3) for b in (-1, 0, 2, 5)],
    [(a, b) for a in (-1.5, 0.25, 2.0) for b in (-0.5, 4.0, 0.0)],
    [("ab", "c"), ("", "d"), ("e", "")],
]
STREAMS = [(0, 1, 2), (2, 0, 1), (1, 2, 0)]


def environments() -> Iterator[List[Dict[str, Any]]]:
    for profile in PROFILES:
        yield [
            {"x": x, "y": y, "ys": [y, x, y], "w": Record(a=x, m=source((x, y))), "src": source(s), "stream": s}
            for x, y in profile for s in STREAMS
        ]


def fresh(env: Dict[str, Any]) -> Dict[str, Any]:
    new = dict(env)
    new["ys"] = list(env["ys"])
    new["src"] = source(env["stream"])
    new["w"] = Record(a=env["x"], m=source((env["x"], env["y"])))
    new["__builtins__"] = {"len": len}
    return new


def code_of(node: ast.expr) -> Any:
    new = prog.clone(node)
    return compile(ast.fix_missing_locations(ast.Expression(new)), "<expr>", "eval")


def as_load(node: ast.expr) -> ast.expr:
    return ast.parse(ast.unparse(node), mode="eval").body


def redundant(node: ast.BinOp) -> bool:
    """Whether the value is in all environments of a profile that of an operand, its negation, or the same."""
    whole, left, right = code_of(node), code_of(node.left), code_of(node.right)
    some = False
    for envs in environments():
        values = [(evaluate(whole, fresh(e)), evaluate(left, fresh(e)), evaluate(right, fresh(e))) for e in envs]
        values = [v for v in values if v[0][0] == "value"]
        if not values:
            continue
        some = True
        if not (
            all(same(v[0][1], v[1][1]) for v in values)
            or all(same(v[0][1], v[2][1]) for v in values)
            or all(isinstance(v[2][1], (int, float, complex)) and same(v[0][1], -v[2][1]) for v in values)
            or all(same(v[0][1], values[0][0][1]) for v in values)
        ):
            return False
    return some or True


def flattened(node: ast.expr, op: Any) -> List[ast.expr]:
    if isinstance(node, ast.BinOp) and type(node.op) is op:
        return flattened(node.left, op) + flattened(node.right, op)
    return [node]


def repeated(node: ast.BinOp) -> bool:
    leaves = flattened(node, type(node.op))
    if len({ast.unparse(x) for x in leaves}) > 1:
        return False
    new = ast.BinOp(leaves[0], ast.Mult() if isinstance(node.op, ast.Add) else ast.Pow(), ast.Constant(len(leaves)))
    old_code, new_code = code_of(node), code_of(new)
    for env in next(environments()):
        a, b = fresh(env), fresh(env)
        if evaluate(old_code, a) != evaluate(new_code, b) or a["src"]() != b["src"]():
            return False
    return True


def judge_arithmetic(case: str, program: str, found: List[prog.Found]):
    tree = ast.parse(program)
    bad: List[Tuple[Any, str]] = []
    for code, text, line, _c, _e in found:
        if code == "R6608":
            what = text[len("Redundant arithmetic: "):]
            if re.search(r"[^=!<>*/+%-]=[^=]|[-+*/%]=", what):
                nodes = [ast.BinOp(as_load(n.target), n.op, n.value) for n in expressions(tree, ast.AugAssign, line)]
            else:
                nodes = expressions(tree, ast.BinOp, line, prog.normal(what))
            if not nodes:
                bad.append(((code, line), f"{text} (line {line + 1}): there is no such expression"))
            elif not any(redundant(n) for n in nodes):
                bad.append(((code, line), f"{text} (line {line + 1}): it does something"))
        else:
            what = text.split(" in ", 1)[1][:-1]
            nodes = expressions(tree, ast.BinOp, line, prog.normal(what))
            kind = ast.Add if "addition" in text.split(" in ")[0] else ast.Mult
            nodes = [n for n in nodes if isinstance(n.op, kind)]
            if not nodes:
                bad.append(((code, line), f"{text} (line {line + 1}): there is no such expression"))
            elif not any(repeated(n) for n in nodes):
                bad.append(((code, line), f"{text} (line {line + 1}): it is not the same"))
    return len(found) * 27, bad


# -- augmented assignments

TARGETS = ["x", "w.a", "ys[0]", "ys[src()]", "w.m().a", "z = x", "x = z", "x, z", "(x)", "x: int", "x: 'int'"]
SIDES = ["x", "1", "2.5", "-1", "'a'", "y", "w.a", "ys[0]", "ys[src()]", "int(y)", "str(x)", "len(ys)", "int(ys[src()])", "(1 + 2)", "(3 - 1)", "True", "(2 if y else 3)", "abs(x)", "inc()", "int(inc())", "float(y)", "[1]", "(1,)", "bool(y)", "not x"]


def augmented_cases() -> List[str]:
    out = []
    for t, a, op, b in itertools.product(TARGETS, SIDES, OPERATORS[:9] + ["&"], SIDES):
        last = t.split(" = ")[-1].split(":")[0].strip("()").split(",")[0]
        if last in (a, b) or t.split(" = ")[0] in (a, b) or t.split(":")[0] in (a, b):
            out.append(f"{t} = {wrapped(a)} {op} {wrapped(b)}")
    for t, a, o, b, p, c in itertools.product(("x", "w.a"), ("x", "1", "y", "w.a"), "+-*", ("x", "2", "int(y)", "w.a"), "+-*", ("x", "3", "int(y)", "w.a")):
        out += [f"{t} = {a} {o} {b} {p} {c}", f"{t} = {a} {o} ({b} {p} {c})"]
    return out


def augmented_text(i: int, case: str) -> str:
    return body_text(i, "def inc():\n    nonlocal x\n    x += 3\n    return 1\nz = 7\n" + case + "\nreturn (x, z, src(), inc())")


AUGMENTED_DOMAIN = [(x, y, s) for x in (-2, 0, 3, 2.5, "ab", True, (5,)) for y in (1, -3, "c", (6, 7)) for s in STREAMS[:2]]


def call_all(tree: ast.Module) -> List[Any]:
    env: Dict[str, Any] = {}
    exec(compile(ast.fix_missing_locations(prog.clone(tree)), "<program>", "exec"), env)
    f = env[tree.body[0].name]  # type: ignore[attr-defined]
    out = []
    for x, y, s in AUGMENTED_DOMAIN:
        ys = [y, x, y]
        w = Record(a=x, m=source((Record(a=5), Record(a=6))))
        try:
            r: Any = ("value", f(x, y, ys, w, source(s)))
        except Exception as e:  # noqa: BLE001
            r = ("raises", type(e).__name__)
        w.m = w.m()
        out.append((r, ys, w))
    return out


def judge_augmented(case: str, program: str, found: List[prog.Found]):
    tree = ast.parse(program)
    old = call_all(tree)
    bad: List[Tuple[Any, str]] = []
    for code, text, line, _c, _e in found:
        new = prog.clone(tree)
        body = new.body[0].body
        at = [k for k, s in enumerate(body) if s.lineno == line + 1]
        try:
            put = ast.parse(text[len("Use augmented assignment: '"):-1]).body
        except SyntaxError:
            bad.append(((code, line), f"{text} (line {line + 1}): it is not a statement"))
            continue
        if len(at) != 1:
            bad.append(((code, line), f"{text} (line {line + 1}): there is no such statement"))
            continue
        body[at[0]:at[0] + 1] = put
        try:
            got = call_all(new)
        except SyntaxError:
            bad.append(((code, line), f"{text} (line {line + 1}): it is not valid"))
            continue
        diff = [(i, a, b) for i, a, b in zip(AUGMENTED_DOMAIN, old, got) if a != b and not (a[0][0] == b[0][0] == "raises") and not (a[0][0] == "raises")]
        if diff:
            bad.append(((code, line), f"{text} (line {line + 1}): for {diff[0][0]} it is {diff[0][2]}, not {diff[0][1]}"))
    return len(found) * len(AUGMENTED_DOMAIN), bad


# -- append

OBJECTS = ["ys", "w.a", "w.m()", "zs[0]", "zs[src()]", "(ys or zs)", "(ys if x else zs)", "(ys + zs)", "w.m().a", "[1, 2]", "(ys)", "ys[:]", "list(ys)", "[y for y in ys]"]
ITEMS = ["x", "1", "*zs", "*zs, ", "(1, 2)", "[x]", "x if y else 1", "lambda: 1", "src()", "*src2()", "'a' 'b'", "(1, )", "-x", "x and y", "x == y", "{}", "()", "(q := 1)", "q := 1", "*(1, 2)", "[*zs]", "not x", "y for y in ()", "(y for y in ())", "x, ", "f'{x}'", "x, y", ""]


def append_cases() -> List[str]:
    out = []
    for o, e in itertools.product(OBJECTS, ITEMS):
        out += [f"{o}.extend([{e}])", f"{o} += [{e}]", f"r = {o}.extend([{e}])", f"{o}.extend(({e},))", f"{o}.insert([{e}])"]
    out += ["ys.extend([x], )", "ys.extend(\n        [x]\n    )", "ys.extend(*[x])", "ys.extend([x], [y])", "extend([x])", "w.a.m.extend([x])", "ys = ys + [x]", "ys += (x,)", "ys += [x for x in zs]", "ys -= [x]", "ys *= [2]", "x += [ys]"]
    return out


def append_text(i: int, case: str) -> str:
    text = f"def f{i}(x, y, ys, zs, w, src, src2):\n    r = q = 0\n    {case}\n    return (x, ys, zs, r, q, src())\n"
    try:
        compile(text, "x", "exec")
    except SyntaxError:
        return f"def f{i}():\n    pass\n"
    return text


def plain(v: Any) -> str:
    return re.sub(r" at 0x[0-9a-f]+", "", repr(v))


def append_all(tree: ast.Module) -> List[Any]:
    env: Dict[str, Any] = {}
    exec(compile(ast.fix_missing_locations(prog.clone(tree)), "<program>", "exec"), env)
    f = env[tree.body[0].name]  # type: ignore[attr-defined]
    out = []
    for x, y, ys, zs in itertools.product((0, 1), (0, 2), ([], [4]), ([[]], [[5], [6, 7]])):
        ys, zs = copy.deepcopy((ys, zs))
        one, two = Record(a=[8]), Record(a=[])
        lists = Record(a=[1], m=source((ListRecord([8]), ListRecord([]))))
        try:
            r: Any = ("value", plain(f(x, y, ys, zs, lists, source((0, 0, 1)), source(([3], [4, 5])))))
        except Exception as e:  # noqa: BLE001
            r = ("raises", type(e).__name__)
        out.append((r, plain(ys), plain(zs), plain(lists.a), [plain(list(lists.m())) for _ in range(2)], one, two))
    return out


class ListRecord(list):  # type: ignore[type-arg]
    @property
    def a(self) -> Any:
        return self


def judge_append(case: str, program: str, found: List[prog.Found]):
    tree = ast.parse(program)
    old = append_all(tree)
    bad: List[Tuple[Any, str]] = []
    for code, text, line, _c, _e in found:
        first, rest = text[len("Use "):-1].split(" instead of ", 1)
        new = prog.clone(tree)
        try:
            put = ast.parse(first.strip(), mode="eval").body
            taken = prog.normal(rest) if "+=" not in rest else ast.unparse(ast.parse(rest))
        except SyntaxError:
            bad.append(((code, line), f"{text} (line {line + 1}): it is not an expression"))
            continue
        done = []

        class Replace(ast.NodeTransformer):
            def visit_Call(self, node: ast.Call) -> Any:
                if ast.unparse(node) == taken:
                    done.append(1)
                    return put
                return self.generic_visit(node)

            def visit_AugAssign(self, node: ast.AugAssign) -> Any:
                if ast.unparse(node) == taken:
                    done.append(1)
                    return ast.Expr(put)
                return node

        new = Replace().visit(new)
        if not done:
            bad.append(((code, line), f"{text} (line {line + 1}): there is no such code"))
            continue
        got = append_all(new)
        diff = [(a, b) for a, b in zip(old, got) if a != b and a[0][0] != "raises"]
        if diff:
            bad.append(((code, line), f"{text} (line {line + 1}): it is {diff[0][1]}, not {diff[0][0]}"))
    return len(found) * 16, bad


# -- letters

NUMBERS = list(range(31, 130))


def letter_cases() -> List[str]:
    out = []
    for n in NUMBERS:
        for form in ("ord(c) - {}", "ord(c) + {}", "{} - ord(c)", "{} + ord(c)", "chr(ord(c) - {} + x)", "chr(x + ord(c) - {})", "ord(c) + x + {}", "ord(c) - ord(d) + {}", "{} + ord(c) - x", "2 * (ord(c) - {})", "ord(c) * 2 - {}",
                     "ord(c) - {} - x", "ord(c) - ({} - x)", "(ord(c) - {}) % 26", "{} - (ord(c) - x)", "ord(c) - -{}", "-{} + ord(c)", "ord(c) - {}.0", "(x - ord(c)) - {}", "x - {}", "ord(c) - ({} + 1)", "ord(c) - {} * 2"):
            out.append("return " + form.format(n))
    if not common.THOROUGH:
        numbers = [32, 33, 47, 39, 48, 49, 50, 56, 57, 58, 92, 64, 65, 66, 89, 90, 91, 96, 97, 98, 99, 100, 121, 122, 123, 126, 127]
    else:
        numbers = NUMBERS
    for n in numbers:
        for op in ("<", "<=", ">", ">=", "==", "!="):
            for form in ("ord(c) {op} {n}", "{n} {op} ord(c)", "x < ord(c) {op} {n}", "{n} {op} ord(c) < x", "{n} {op} ord(c) {op} 122", "ord(c) + 1 {op} {n}", "{n} {op} ord(c) - x", "ord(c) < x {op} {n}", "{n} {op} x < ord(c)", "ord(c) < 91 {op} {n}",
                         "97 <= ord(c) {op} {n}", "not ord(c) {op} {n}", "x + ord(c) * 2 {op} {n}", "{n} {op} {n} {op} ord(c)"):
                out.append("return " + form.format(n=n, op=op))
    for op, n in itertools.product(("is", "in", "not in"), ("97", "(97, 98)", "[97]")):
        out += [f"return ord(c) {op} {n}", f"return 97 {op} [ord(c)]"]
    return out


def letter_text(i: int, case: str) -> str:
    return f"def f{i}(c, d, x):\n    {case}\n"


LETTERS = [(chr(c), "b", x) for c in list(range(30, 130)) for x in (0, 1, 100)]


def letters_all(code: Any) -> List[Any]:
    out = []
    for c, d, x in LETTERS:
        out.append(evaluate(code, {"c": c, "d": d, "x": x, "__builtins__": {"ord": ord, "chr": chr}}))
    return out


def judge_letter(case: str, program: str, found: List[prog.Found]):
    row = program.splitlines()[1]
    expr = row.strip()[len("return "):]
    shift = len(row) - len(expr)
    old = letters_all(compile(expr, "<expr>", "eval"))
    bad: List[Tuple[Any, str]] = []
    for code, text, line, column, end in found:
        if code == "R6614":
            suggestion = text[len('Use "'):].split('" instead')[0]
            assert end is not None
            new = row[:column] + suggestion + row[end:]
            new = new[shift:]
        else:
            suggestion = text.split('directly "')[1].split('" instead')[0]
            tree = ast.parse(row.strip()).body[0].value  # type: ignore[attr-defined]
            compare = [n for n in ast.walk(tree) if isinstance(n, ast.Compare)]
            if len(compare) != 1:
                bad.append(((code, line), f"{text}: there is no comparison"))
                continue
            old_compare = ast.unparse(compare[0])
            ops, sides = compare[0].ops, [compare[0].left] + compare[0].comparators
            first = suggestion.startswith(("'", '"'))
            try:
                part = ast.parse(f"{suggestion} x" if first else f"x {suggestion}", mode="eval").body
            except SyntaxError:
                bad.append(((code, line), f"{text}: it is not a comparison"))
                continue
            assert isinstance(part, ast.Compare)
            letter = part.left if first else part.comparators[0]
            sides[0 if first else -1] = ast.Call(ast.Name("ord", ast.Load()), [letter], [])
            ops[0 if first else -1] = part.ops[0]
            changed = ast.Compare(sides[0], ops, sides[1:])
            new = expr.replace(old_compare, ast.unparse(ast.fix_missing_locations(changed)))
        try:
            got = letters_all(compile(new, "<expr>", "eval"))
        except SyntaxError:
            bad.append(((code, line), f"{text}: {new!r} is not an expression"))
            continue
        diff = [(i, a, b) for i, a, b in zip(LETTERS, old, got) if a != b and a[0] == "value"]
        if diff:
            bad.append(((code, line, column, text), f"{text}: for {diff[0][0]} {new} is {diff[0][2]}, not {diff[0][1]}"))
    return len(found) * len(LETTERS), bad


# -- multiplied lists

ELEMENTS = ["0", "[]", "[0]", "{}", "{1}", "set()", "list()", "dict()", "()", "([],)", "'a'", "x", "list(ys)", "dict(a=1)", "[0] * x", "[[]]", "*[[]]", "*ys", "tuple()", "frozenset()", "None", "[] or 0", "[] if x else 0", "len([])", "list", "lambda: []", "{**{}}", "[i for i in ys]", "-1", "str([])"]


def multiplied_cases() -> List[str]:
    out = []
    for e, n in itertools.product(ELEMENTS, ("x", "2", "(x + 1)", "len(ys)")):
        out += [f"return [{e}] * {n}", f"return {n} * [{e}]", f"return [{e}] * {n} * {n}", f"return [[{e}] * {n}] * {n}", f"return ({e},) * {n}", f"return [{e}] + [{e}]", f"return [{e} for _ in range({n})]", f"return [[{e}] * {n} for _ in range({n})]"]
    for a, b in itertools.product(ELEMENTS, repeat=2):
        out.append(f"return [{a}, {b}] * x")
    return out


def aliased(value: Any) -> bool:
    """Whether a mutable object is in a list twice."""
    if isinstance(value, list):
        seen: Dict[int, Any] = {}
        for v in value:
            if isinstance(v, (list, set, dict)):
                if id(v) in seen:
                    return True
                seen[id(v)] = v
    return False


def judge_multiplied(case: str, program: str, found: List[prog.Found]):
    tree = ast.parse(program)
    bad: List[Tuple[Any, str]] = []
    for code, text, line, column, end in found:
        nodes = [n for n in ast.walk(tree) if isinstance(n, ast.BinOp) and (n.lineno, n.col_offset, n.end_col_offset) == (line + 1, column, end)]
        nodes = nodes or [n for n in ast.walk(tree) if isinstance(n, ast.BinOp) and n.lineno == line + 1]
        ok = False
        for n in nodes:
            for x in (2, 3):
                r = evaluate(code_of(n), {"x": x, "ys": [1, 2]})
                ok = ok or r[0] == "value" and aliased(r[1])
        if not ok:
            bad.append(((code, line), f"{text}: nothing mutable is there twice"))
    return len(found), bad


def run(check: common.Check) -> None:
    check.rule = "evaluations of an expression, a statement or its rewriting; distinct: claims of edulint decided"
    check.assumptions.append("values are numbers, strings and lists; the rewriting of code that raises is not judged")
    prog.run_family(check, "arithmetic", arithmetic_cases(), body_text, judge_arithmetic, ["R6607", "R6608"], 200)
    prog.run_family(check, "augmented", augmented_cases(), augmented_text, judge_augmented, ["R6609"], 60)
    prog.run_family(check, "append", append_cases(), append_text, judge_append, ["R6601"], 100)
    prog.run_family(check, "letters", letter_cases(), letter_text, judge_letter, ["R6614", "R6615"], 200)
    prog.run_family(check, "multiplied", multiplied_cases(), body_text, judge_multiplied, ["R6610"], 200)
