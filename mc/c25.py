"""C25: what edulint takes to be the type of a value is its type in every run.

Bounded-exhaustive families of programs determine the type of a variable by literals, operators,
builtins, methods, branches, loops, unpacking, updates and nested functions; then something is done with the
variable that edulint comments on only because of its type. Every comment is decided by running the program
as it is and as told on every input of a bounded domain."""
from __future__ import annotations

import ast
import itertools
import re
from typing import Any, Dict, List, Optional, Tuple

from mc import common, prog

LEVEL = "exploration"

CODES = ["R6609", "R6617", "R6618", "R6619", "R6211", "R6212", "R6213", "R6214", "R6215", "R6216", "R6222"]

REPLACE = [
    re.compile(r"'(.*)' can be (?:replaced with|simplified to) '(.*?)'(?:\.|$)", re.S),
    re.compile(r"Consider replacing '(.*)' with '(.*)'$", re.S),
]
ALWAYS = re.compile(r"This condition is always (True|False)\.")
AUGMENT = re.compile(r"Use augmented assignment: '(.*)'$", re.S)

INPUTS = ("0", "2", "-1", "0.5", "", "ab")
ADDED: Tuple[Any, ...] = ([1], "a", 1, (1,), {1}, 0.5)

OBSERVERS = {
    "member": "return x in range(5)",
    "step": "return x not in range(-1, 8, 3)",
    "zero": "if x == 0 or not x:\n    return 1\nreturn 2",
    "rest": "if x % 2 > 0 and x % 2 < 1:\n    return 1\nreturn 2",
    "grow": "z = x\nx = x + w\nreturn x, z",
    "join": "z = x\nx = x | w\nreturn x, z",
    "times": "z = x\nx = x * 2\nreturn x, z",
}
SHORT = ("member", "zero", "grow")

LEAVES = [
    "int(input())", "float(input())", "input()", "2", "0.5", "True", "None", "'ab'", "''", "[1]", "(1, 2)", "{1}", "{}", "1j", "b'a'",
]
UNARY = [
    "-{}", "+{}", "~{}", "not {}", "abs({})", "round({})", "round({}, 1)", "round({}, None)", "round(number={}, ndigits=1)", "int({})", "float({})", "str({})",
    "len({})", "bool({})", "sum({})", "sum({}, [])", "sum({}, 0.5)", "max({})", "list({})", "tuple({})", "set({})", "dict({})", "sorted({})",
    "pow({}, 2)", "pow({}, -1)", "pow(2, {})", "pow({}, 2, 5)", "divmod({}, 2)", "ord({})", "chr({})", "bin({})", "repr({})", "isinstance({}, int)",
    "any({})", "all({})", "callable({})", "hex({})", "{}.copy()", "{}.count(1)", "{}.count('a')", "{}.upper()", "{}.split()", "{}.partition('a')", "{}.index(1)",
    "{}.find('a')", "{}.union([2])", "{}.isdigit()", "{}.join(['c'])", "({}, 1)", "[{}]", "{{{}}}", "{{1: {}}}", "[v for v in {}]", "{{v for v in {}}}",
    "(lambda: {})", "{} if c else 2", "{} if c else 0.5", "{} if c else None", "(x := {})", "f'{{{}}}'", "({} == 1)", "({} is None)", "({} in (1,))",
    "math.trunc({})", "math.sqrt({})", "math.radians({})", "{} @ 2", "*{},", "({} and 2)", "({} or 2)", "({} or [])", "({} or 0.5)", "({} and None)",
]
CONTAINERS = ["[0.5]", "[1, 0.5]", "(0.5, 1)", "{0.5}", "['a']", "(True, False)", "[[1]]", "[None]", "{0.5: 1}", "{1: 0.5}", "[c, w]"]
BINARY = ["+", "-", "*", "/", "//", "%", "**", "&", "|", "^", "<<", ">>", "and", "or"]


def wrapped(e: str) -> str:
    return f"({e})" if re.search(r"[^\w().']", e) or e.isdigit() or e.startswith("'") or "." in e else e


def expressions() -> List[str]:
    out = list(LEAVES)
    out += [u.format(wrapped(leaf)) for u in UNARY for leaf in LEAVES]
    out += [u.format(e) for u in UNARY for e in CONTAINERS]
    out += [f"{e}[{i}]" for e in CONTAINERS for i in ("0", "-1", ":1")]
    out += [f"{a} {op} {b}" for op in BINARY for a in LEAVES for b in LEAVES]
    few = ["int(input())", "float(input())", "2", "0.5", "True", "'ab'", "[1]", "{1}"]
    nested = [u for u in UNARY if u.split("(")[0] in ("abs", "round", "sum", "pow", "math.trunc", "max") or u[0] in "-+~"]
    nested = [u for u in nested if "math" not in u]
    ops = BINARY if common.THOROUGH else ["+", "*", "//", "%", "**", "or"]
    out += [u.format(f"({a} {op} {b})") for u in nested for op in ops for a in few for b in few[:4]]
    some = few if common.THOROUGH else few[:4]
    deep = BINARY if common.THOROUGH else ["+", "-", "*", "//", "%", "**", "&", "or"]
    out += [f"({a} {o} {b}) {p} {d}" for o in deep for p in deep for a in some for b in some[:3] for d in some[:3]]
    seen = {}
    for e in out:
        try:
            ast.parse(f"x = {e}")
        except SyntaxError:
            continue
        seen[e] = None
    return list(seen)


BINDINGS = [
    "x = {a}\nif c:\n    x = {b}",
    "if c:\n    x = {a}\nelse:\n    x = {b}",
    "x = {a}\nif c:\n    x = {b}\nelse:\n    pass",
    "x = {a}\nx = {b}",
    "x = {a}\nwhile c:\n    c -= 1\n    x = {b}",
    "x = {a}\nwhile c:\n    c -= 1\n    if x:\n        x = {b}\n        continue\n    x = {a}",
    "x = {a}\nfor _ in range(2):\n    x = {b}\n    if c:\n        break\nelse:\n    x = {a}",
    "x = {a}\ny = {b}\nif c:\n    x = y",
    "y = {a}\nx = y\ny = {b}",
    "y = {a}\nif c:\n    y = {b}\nx = y\ny = 5",
    "x = y = {a}\nif c:\n    x = {b}",
    "y = {a}\nx = y = {b}",
    "x, y = {a}, {b}",
    "x, y = {b}, {a}\nx, y = y, x",
    "x, y = y, x = {a}, {b}",
    "y, x = {a}, {b}\nx, y = {b}, {a}",
    "[x, y] = {a}, {b}",
    "[x, y] = [{a}, {b}]",
    "(x, y), z = ({a}, {b}), 5",
    "z, (x, y) = 0.5, ({a}, {b})",
    "z, (y, x) = 0.5, [{b}, {a}]",
    "x, *y = {a}, {b}, 5",
    "*x, y = {a}, {b}, 5",
    "y, *x = {a}, {b}, 5",
    "y, x = p = {b}, {a}",
    "p = {a}, {b}\nx, y = p",
    "x, y = {a}, {b}\ny += 1",
    "x = 5\nx, y = {a}, x",
    "for x, y in [({a}, {b})]:\n    pass",
    "for x in [{a}, {b}]:\n    pass",
    "x = {a}\nfor x in range(c):\n    pass",
    "for x in range(3):\n    if c:\n        x = {a}",
    "x = {a}\nfor i in range(2):\n    y = x\n    x = {b}\nx = y",
    "y = {a}\nfor x in range(3):\n    x, y = y, x",
    "x = {a}\ny = [x for x in range(3)]",
    "x = {a}\ny = [(x := {b}) for _ in range(c)]",
    "(x := {a})\nif c:\n    (x := {b})",
    "if c and (x := {a}):\n    pass\nelse:\n    x = {b}",
    "y = (x := {a}) or (x := {b})",
    "x: int = {a}\nif c:\n    x: float = {b}",
    "x: float\nx = {a}",
    "x = {a}\ntry:\n    x = {b}\n    x = {a}\nexcept Exception:\n    pass",
    "x = {a}\ntry:\n    x = {b}\nexcept Exception:\n    pass",
    "x = {a}\ntry:\n    y = 1 // c\n    x = {b}\nexcept Exception:\n    pass",
    "x = {a}\ntry:\n    if 1 // c:\n        x = {b}\nexcept Exception:\n    pass",
    "x = {b}\ntry:\n    x = {b}\n    while c < 2:\n        x = {a}\n        y = 1 // c\n        c += 1\n        x = {b}\nexcept Exception:\n    pass",
    "for x in range(2):\n    x = {a}\n    try:\n        x = 2 // c\n        continue\n    except Exception:\n        break",
    "x = {a}\nwhile True:\n    try:\n        x = int(input())\n        break\n    except ValueError:\n        break",
    "x = {a}\ntry:\n    y = 1 // c\n    x = {b}\nfinally:\n    return x in range(4)",
    "try:\n    x = {a}\nexcept Exception:\n    x = {b}",
    "try:\n    x = {a}\n    y = 1 // c\nexcept Exception:\n    x = {b}\nelse:\n    y = 2",
    "x = {a}\ntry:\n    pass\nfinally:\n    if c:\n        x = {b}",
    "x = {a}\ntry:\n    raise ValueError({b})\nexcept ValueError as e:\n    x = e.args[0]",
    "x = {a}\ndef g():\n    x = {b}\n    return x\ny = g()",
    "x = {a}\ndef g():\n    nonlocal x\n    x = {b}\nif c:\n    g()",
    "x = {a}\ndef g(x={b}):\n    return x\ny = g()",
    "x = {a}\ndef x():\n    return {b}\nx = x()",
    "x = {a}\nclass A:\n    x = {b}\ny = A.x",
    "x = {a}\nclass x:\n    pass",
    "x = {a}\nif c:\n    import math as x",
    "x = {a}\ny = lambda x={b}: x\ny = y()",
    "x = {a}\nmatch {b}:\n    case [x, 5]:\n        pass\n    case x if c:\n        pass\n    case _:\n        pass",
    "x = {a}\nmatch {b}:\n    case (int() | float() | str()) as x:\n        pass",
    "x = {a}\nmatch [{b}, 1]:\n    case [*x]:\n        pass",
    "x = {a}\nmatch [{b}, 1]:\n    case [x, *y]:\n        pass",
    "x = {a}\ndel x\nx = {b}",
    "x = {a}\nif c:\n    x = [1]\n    x.append(2)",
    "x = {a}\nif c:\n    x = [{b}]\n    x[0] = 2\n    x.append(2)",
    "x = {a}\nif c:\n    del x\n    x = {b}",
    "x = {a}\nassert c or x\nif c:\n    return 7\nx = {b}",
    "y = x = {a}\ny = {b}",
    "x = {a} if c else {b}",
    "x = [{a}, {b}]\nx = x[c]",
    "x = (lambda: {a})()",
    "x = {a}\nx = x",
    "x = {a}\nx = x if c else {b}",
    "x = {a}\nx = x or {b}",
    "x = {a}\nx = x and {b}",
    "x = {a}\nfor x.y in []:\n    pass",
    "with memory({a}) as x:\n    pass",
    "x = {a}\nwith memory({b}) as x:\n    pass",
    "with memory(({a}, {b})) as (x, y):\n    pass",
    "try:\n    raise ValueError\nexcept ValueError as x:\n    x = {a}",
]
UPDATES = ["+", "-", "*", "/", "//", "%", "**", "&", "|", "^", "<<", ">>"]
UPDATING = [
    "x = {a}\nx {o}= {b}",
    "x = {a}\nwhile c:\n    c -= 1\n    x {o}= {b}",
    "x = {a}\nwhile c:\n    c -= 1\n    x = x {o} {b}",
    "x = {a}\nif c:\n    x {o}= {b}",
    "x = {a}\ny = x\ny {o}= {b}\nif c:\n    x = y",
    "x = {a}\nx {o}= 1\nx {o}= {b}",
    "x = {a}\nfor _ in range(2):\n    x {o}= {b}\n    x = x {o} {b}",
]


class Memory:
    def __init__(self, value: Any) -> None:
        self.value = value

    def __enter__(self) -> Any:
        return self.value

    def __exit__(self, *_a: Any) -> None:
        return None


def indent(text: str) -> str:
    return "\n".join("    " + line for line in text.splitlines())


def text_of(i: int, case: Tuple[str, str]) -> str:
    prelude, observer = case
    return f"def f{i}(c, w):\n" + indent(prelude + "\n" + OBSERVERS[observer]) + "\n"


def domain(prelude: str, observer: str) -> List[Tuple[int, Any, Tuple[str, ...]]]:
    reads = prelude.count("input()") * (2 if re.search(r"^(for|while)", prelude, re.M) else 1)
    added = ADDED if observer in ("grow", "join") else (1,)
    streams = list(itertools.product(INPUTS, repeat=min(reads, 2)))
    return [(c, w, s * 3) for c in (0, 1) for w in added for s in streams]


def executed(tree: ast.Module, name: str, cases: List[Tuple[int, Any, Tuple[str, ...]]]) -> List[Any]:
    import copy
    import math

    env: Dict[str, Any] = {"math": math, "memory": Memory}
    exec(compile(tree, "<program>", "exec"), env)
    out = []
    for c, w, stream in cases:
        it = iter(stream)
        env["input"] = lambda it=it: next(it)
        try:
            result: Any = env[name](c, copy.copy(w))
            out.append(("value", repr(result)))
        except Exception as e:  # noqa: BLE001
            out.append(("raises", type(e).__name__))
    return out


def rewritten(tree: ast.Module, found: prog.Found) -> Tuple[Optional[ast.Module], str]:
    code, text, line, column, _end = found
    new = prog.clone(tree)
    always, augment = ALWAYS.search(text), AUGMENT.search(text)
    if augment:
        put = ast.parse(augment.group(1)).body
        for parent in ast.walk(new):
            for field in ("body", "orelse", "finalbody"):
                stmts = getattr(parent, field, None)
                if isinstance(stmts, list):
                    for k, s in enumerate(stmts):
                        if s.lineno == line + 1 and s.col_offset == column and isinstance(s, ast.stmt):
                            stmts[k : k + 1] = put
                            return ast.fix_missing_locations(new), ""
        return None, "there is no such statement"
    match = next((m for m in (p.search(text) for p in REPLACE) if m), None)
    if always:
        old, put_text = None, always.group(1)
    elif match:
        old, put_text = match.groups()
    else:
        return None, "not understood"
    try:
        put_expr = ast.parse(put_text, mode="eval").body
    except SyntaxError:
        return None, "the suggestion does not parse"

    class Put(ast.NodeTransformer):
        done = 0

        def visit(self, node: ast.AST) -> Any:
            if (
                isinstance(node, ast.expr)
                and not self.done
                and (node.lineno, node.col_offset) == (line + 1, column)
                and (ast.unparse(node) == prog.normal(old) if old else isinstance(node, (ast.BoolOp, ast.Compare)))
            ):
                self.done = 1
                return put_expr
            return self.generic_visit(node)

    put_in = Put()
    new = put_in.visit(new)
    return (ast.fix_missing_locations(new), "") if put_in.done else (None, "there is no such expression")


def judge(case: Tuple[str, str], program: str, found: List[prog.Found]):
    tree = ast.parse(program)
    name = tree.body[0].name  # type: ignore[attr-defined]
    cases = domain(*case)
    old = executed(tree, name, cases)
    bad: List[Tuple[Any, str]] = []
    for f in found:
        new, why = rewritten(tree, f)
        what = f"{f[0]} {f[1]} (line {f[2] + 1})"
        if new is None:
            bad.append(((f[0], f[2], f[3]), f"{what}: {why}"))
            continue
        got = executed(new, name, cases)
        diff = [(i, a, b) for i, a, b in zip(cases, old, got) if a != b]
        if diff:
            (c, w, s), a, b = diff[0]
            bad.append(((f[0], f[2], f[3]), f"{what}: for c={c}, w={w!r}, inputs {s[:2]} it gives {b}, not {a}"))
    return len(found) * len(cases) * 2, bad


def run(check: common.Check) -> None:
    check.rule = (
        "programs that determine the type of a variable x what is done with it; evaluations: executions of the original "
        "and of the program rewritten as told; distinct: claims decided"
    )
    exprs = [(f"x = {e}", o) for e in expressions() for o in OBSERVERS]
    prog.run_family(check, "expression", exprs, text_of, judge, CODES, 120)
    kinds = ["3", "int(input())", "0.5", "'ab'", "None", "[1]", "(3,)", "{1}", "True"]
    pairs = list(itertools.product(kinds, repeat=2))
    binding = [(b.format(a=p, b=q), o) for b in BINDINGS for p, q in pairs for o in SHORT]
    prog.run_family(check, "binding", list(dict.fromkeys(binding)), text_of, judge, CODES, 120)
    amounts = ["3", "0.5", "-1", "'a'", "[1]", "{1}", "True", "int(input())"]
    updating = [
        (u.format(a=p, b=q, o=op), o) for u in UPDATING for op in UPDATES for p, q in itertools.product(kinds[:4] + ["[1]", "{1}", "True"], amounts) for o in SHORT
    ]
    prog.run_family(check, "updating", updating, text_of, judge, CODES, 120)
    functions = [(f"{b}\n{d}", "member") for b in ("x = 3", "x = int(input())") for d in nested()]
    prog.run_family(check, "nested", functions, text_of, judge, CODES, 120)


def nested() -> List[str]:
    """Changes of the variable by other functions, which need not be called or need not reach the change."""
    out = []
    for change in ("x = 3", "if c:\n    x = 3", "while c:\n    c -= 1\n    x = 3", "y = c and (x := 3)", "return\nx = 3"):
        g = "def g():\n    nonlocal x, c\n" + indent(change)
        for call in ("g()", "if c:\n    g()", "y = c and g()", "y = [g() for _ in range(c)]", "'a'.join(['b'])", "y = g if c else list\ny()", "for _ in range(c):\n    g()"):
            out += [f"{g}\nx = 0.5\n{call}", f"{g}\nx = 0.5\nif c > 5:\n    y = 1\n{call}", f"{g}\nif c:\n    x = 0.5\n    {call}" if "\n" not in call else f"{g}\n{call}"]
    for change in ("x = 0.5", "x /= 2", "x, y = 0.5, 1", "y = (x := 0.5)", "try:\n    x = 1 // 0\nexcept Exception:\n    x = 0.5", "x = None", "(x := 0.5)", "x += 0.5", "x = x / 4"):
        g = "def g():\n    nonlocal x\n" + indent(change)
        h = "def g():\n    def h():\n        nonlocal x\n" + indent(indent(change)) + "\n    h()"
        k = "class A:\n    def g(self):\n        nonlocal x\n" + indent(indent(change))
        for call in ("g()", "if c:\n    g()", "for _ in range(c):\n    g()", "y = [g() for _ in range(c)]", "try:\n    g()\nfinally:\n    pass", "y = g\ny()", "y = [g]\ny[0]()"):
            out += [f"{g}\n{call}", f"{h}\n{call}"]
        out.append(f"{k}\nA().g()")
        out.append("y = x\n" + g.replace("nonlocal x", "nonlocal y").replace("x", "y").replace("neyt", "next") + "\ng()\nx = y")
    return out
