"""C17: a suggested condition decides the same as the one it replaces.

Bounded-exhaustive families of conditions are linted; every suggestion is decided by evaluating the
original and the suggested expression on every valuation of a bounded domain."""
from __future__ import annotations

import ast
import itertools
import re
from fractions import Fraction
from typing import Any, Dict, List, Optional, Tuple

from mc import common, prog

LEVEL = "exploration"

OPS = ("<", "<=", ">", ">=", "==", "!=")
INTS = list(range(-6, 8))
HALVES = [k / 2 for k in range(-9, 10)] + [0.25, 2.75]
BINDING = {"int": "int(input())", "float": "float(input())", "len": "len(input())"}
CONDITIONS = [f"R62{i}" for i in (11, 12, 13, 14, 15, 16, 22)]

SUGGESTION = [
    re.compile(r"'(.*)' can be (?:replaced with|simplified to) '(.*?)'(?:\.|$)", re.S),
    re.compile(r"Consider replacing '(.*)' with '(.*)'$", re.S),
    re.compile(r"Use '(.*)' directly rather than as '(.*)'\.$", re.S),
]
DIRECTIONS = {0: (1, 2), 1: (1, 2), 2: (2, 1)}


def atoms() -> List[str]:
    simple = [f"x {o} {c}" for o in OPS for c in (-1, 0, 2)] + [f"x {o} y" for o in OPS]
    simple += ["x > 1", "x < 3", "x <= 3", "x > -3", "x >= -2", "0 < x", "2 >= x", "3 == x", "y < x", "y == x"]
    other = [f"x % {k} == {r}" for k in (2, 3) for r in (0, 1)]
    other += ["x % 2 != 0", "x % 3 > 1", "x // 2 == 1", "x / 2 > 1", "x // -2 == 1", "x % -2 == 0", "x % 2"]
    other += ["x", "not x", "not x > 1", "y > 0", "y == 1", "x == 1.5", "x > 0.5", "abs(x) > 1", "abs(x) <= 2"]
    other += ["x + 1 > 2", "x + y > 1", "x - 1 == y", "x * 2 > 3", "-x > 1", "2 * x == y", "x - y"]
    other += ["0 < x < 3", "x > y > 0", "True", "False", "1", "x ** 2 > 3", "(x > 1 or y > 1)", "(x > 1 and y > 1)"]
    other += ["not (x > 1 and y > 1)", "(x < 0 or x > 2)", "not (x < 0 or x > 2)", "x in (1, 2)", "x is y"]
    return simple + other


def pairs(items: List[str]) -> List[str]:
    return [f"{a} {op} {b}" for a, b in itertools.product(items, repeat=2) for op in ("and", "or")]


SHAPES = (
    "{} and {} and {}",
    "{} or {} or {}",
    "{} or {} and {}",
    "{} and ({} or {})",
    "not ({} and ({} or {}))",
)


def triples(items: List[str]) -> List[str]:
    return [s.format(*t) for s in SHAPES for t in itertools.product(items, repeat=3)]


def residues() -> List[str]:
    two = [
        f"x % 2 {o} {a} and y % 2 {p} {b}" for o in ("==", "!=") for p in ("==", "!=") for a in (0, 1) for b in (0, 1)
    ]
    out = [f"{a} or {b}" for a, b in itertools.product(two, repeat=2)]
    out += [f"{a} or {b} or {c}" for a, b, c in itertools.product(two[::3], two[::2], two[1::5])]
    three = [f"x % 3 == {a} and y % 3 == {b}" for a in range(3) for b in range(3)]
    three_not = [f"x % 3 == {a} and y % 3 != {b}" for a in range(3) for b in range(3)]
    out += [f"{a} or {b} or {c}" for a, b, c in itertools.product(three, repeat=3)]
    out += [f"{three_not[a]} or {three_not[3 + b]} or {three_not[6 + c]}" for a, b, c in itertools.product(range(3), repeat=3)]
    out += [f"{three[a]} or {b} or {three[c]}" for a, b, c in itertools.product((0, 4), three_not, (4, 8))]
    out += [f"x % 2 == {a} and y % 3 == {a} or x % 2 == {b} and y % 3 == {b}" for a in (0, 1) for b in (0, 1)]
    out += [f"(x + 1) % 2 == {a} and y % 2 == {b} or (x + 1) % 2 == {c} and y % 2 == {d}" for a, b, c, d in itertools.product((0, 1), repeat=4)]
    return out


def divisions() -> List[str]:
    """Remainders and quotients of every sign, next to bounds and to each other."""
    single = [
        f"x {o} {k} {p} {r}" for o in ("%", "//") for k in (-3, -2, -1, 1, 2, 3) for p in ("==", ">=", "<", ">") for r in (-1, 0, 1)
    ]
    partners = ["x > 1", "x <= 2", "x % 2 == 0", "x % -3 == 0", "x // 2 == 0", "y > 0", "x % 3 > 0", "x // -2 >= 0"]
    return [f"{a} {c} {b}" for a in single for b in partners for c in ("and", "or")]


def spans() -> List[str]:
    """Bounds on both sides: what abs, max, min and equality are suggested for."""
    out = []
    order = ("<", "<=", ">", ">=")
    for o, p in itertools.product(order, repeat=2):
        for c, d in itertools.product((-2, 0, 1, 2), repeat=2):
            for con in ("and", "or"):
                out.append(f"x {o} {c} {con} x {p} {d}")
        for con in ("and", "or"):
            out += [f"x {o} a {con} x {p} b", f"a {o} x {con} b {p} x", f"x {o} a {con} b {p} x"]
            out += [f"x {o} a {con} x {p} a", f"x {o} a {con} a {p} x", f"x {o} a {con} x {p} -a"]
            out += [f"x {o} y {con} y {p} x", f"x {o} 2.5 {con} x {p} -2.5", f"2 {o} x {con} x {p} -2"]
            out += [f"x {o} a {con} y > 0 {con} x {p} b", f"x {o} 2 {con} y > 0 {con} x {p} -2"]
            out += [f"x + y {o} 2 {con} x + y {p} -2", f"x + y {o} a {con} x + y {p} b", f"x {o} 1 {con} x {p} a"]
    return out


def bind(kind: str, i: int, body: str) -> str:
    names = ("x", "y", "a", "b")
    if kind == "param":
        return f"def f{i}({', '.join(names)}):\n{body}"
    if kind == "mixed":
        types = ("int", "float", "int", "float")
    else:
        types = (kind,) * 4
    used = [n for n in names if re.search(rf"\b{n}\b", body)]
    return f"def f{i}():\n" + "".join(f"    {n} = {BINDING[types[names.index(n)]]}\n" for n in used) + body


FORMS = {
    "if": "    if {}:\n        return 1\n    return 2\n",
    "value": "    r = {}\n    return r\n",
    "while": "    while {}:\n        x = int(input())\n    return 2\n",
    "return": "    return {}\n",
}


def domain(kind: str, names: List[str]) -> List[Tuple[Any, ...]]:
    small = {
        "int": INTS,
        "len": [v for v in INTS if v >= 0],
        "float": HALVES,
        "param": INTS + HALVES,
        "mixed": None,
    }
    doms: List[List[Any]] = []
    for n in names:
        d = small[kind]
        if d is None:
            d = INTS if n in "xa" else HALVES
        if len(names) > 2:
            d = [v for v in d if -4 <= v <= 4 and v * 2 == int(v * 2)]
            if len(names) == 4:
                d = [v for v in d if abs(v) in (0, 1, 2, 3)]
        doms.append(d)
    return list(itertools.product(*doms))


def exact(v: Any) -> Any:
    return Fraction(v) if isinstance(v, float) else v


def differ(kind: str, old: str, new: str, as_value: bool) -> Tuple[int, Optional[str]]:
    a, b = prog.compiled(old), prog.compiled(new)
    if a is None or b is None:
        return 1, f"'{new}' for '{old}' is no expression"
    names = sorted(set(a.co_names + b.co_names) - set(prog.SAFE))
    if not set(names) <= {"x", "y", "a", "b"}:
        return 1, f"'{new}' for '{old}' mentions other names"
    n = 0
    for vals in domain(kind, names):
        env = dict(zip(names, vals))
        v, w = prog.value(a, env), prog.value(b, env)
        n += 1
        if isinstance(v, type):  # the original does not decide anything here
            continue
        same = (v == w and type(v) is type(w)) if as_value else (bool(v) == bool(w) and not isinstance(w, type))
        if not same:
            return n, f"'{new}' for '{old}': {env} gives {w!r} for {v!r}"
    return n, None


FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}


def canonical(node: ast.expr) -> str:
    """Equal for expressions that differ in the direction of comparisons or the nesting of and/or."""
    if isinstance(node, ast.BoolOp):
        return f"{type(node.op).__name__}{sorted(operands(node))}"
    if isinstance(node, ast.Compare) and len(node.ops) == 1 and type(node.ops[0]) in FLIP:
        left, right = canonical(node.left), canonical(node.comparators[0])
        op = type(node.ops[0])
        if right < left:
            left, right, op = right, left, FLIP[op]
        return f"({left} {op.__name__} {right})"
    return ast.dump(node)


def operands(node: ast.expr) -> List[str]:
    if not isinstance(node, ast.BoolOp):
        return [canonical(node)]
    out = []
    for v in node.values:
        out += operands(v) if isinstance(v, ast.BoolOp) and type(v.op) is type(node.op) else [canonical(v)]
    return out


def occurs(program: str, expr: str) -> bool:
    """Whether an expression occurs in a program, possibly as some of the operands of and/or."""
    body = ast.parse(expr.strip(), mode="eval").body
    want = canonical(body)
    for node in ast.walk(ast.parse(program)):
        if not isinstance(node, ast.expr):
            continue
        if canonical(node) == want:
            return True
        if isinstance(node, ast.BoolOp) and isinstance(body, ast.BoolOp) and type(node.op) is type(body.op):
            if set(operands(body)) <= set(operands(node)):
                return True
    return False


def judge_condition(case: Tuple[str, str, str], program: str, found: List[prog.Found]):
    kind, form, cond = case
    n = 0
    bad: List[Tuple[Any, str]] = []
    for code, text, line, column, end in found:
        if code == "R6222":
            always = text.split()[-1].rstrip(".")
            nodes = prog.subexpressions(program, line, column)
            if end is not None and any(e.end_col_offset == end for e in nodes):
                nodes = [e for e in nodes if e.end_col_offset == end]
            verdicts = []
            for e in nodes:
                k, wrong = differ(kind, ast.unparse(e), always, False)
                n += k
                verdicts.append(wrong)
            if not verdicts or all(verdicts):
                bad.append(((code, text, line, column), f"{text} {verdicts[:1]}"))
            continue
        for i, rx in enumerate(SUGGESTION):
            m = rx.match(text)
            if m:
                old, new = (m.group(g) for g in DIRECTIONS[i])
                break
        else:
            bad.append(((code, text), f"unreadable: {text}"))
            continue
        as_value = form in ("value", "return") and code != "R6613"
        k, wrong = differ(kind if code != "R6613" else kind, old, new, as_value)
        n += k
        if wrong is None and not occurs(program, old):
            wrong = f"'{old}' is not there"
        if wrong:
            bad.append(((code, text), f"{code}: {wrong}"))
    return n, bad


def condition_text(i: int, case: Tuple[str, str, str]) -> str:
    kind, form, cond = case
    return bind(kind, i, FORMS[form].format(cond))


# -- ifs that only compute a truth value

TESTS = ["x", "x > 1", "not x", "x and y", "x or y", "x == 1 and y", "not (x and y)", "x if y else z",
         "x == y == 1", "not x or y", "x in (1, 2)", "z == 2 or x and y", "(w := x)", "x is None",
         "0 < x < 2", "(x if y else z) and x", "x == y or z", "x != y", "not x == y"]
VALUES = ["True", "False", "y > 1", "y", "0", "1", "None", "not y", "y or z", "y and z", "y or z and x",
          "(y or z) and x", "y if z else x", "lambda: y", "(y, z)", "y == 1", '"a"', "not (y or z)",
          "[True]", "(v := y)", "True and y", "y == z == 1"]
DECIDING = {
    "return": ("    if {c}:\n        return {a}\n    return {b}\n", "    return {n}\n"),
    "return else": ("    if {c}:\n        return {a}\n    else:\n        return {b}\n", "    return {n}\n"),
    "assign": ("    if {c}:\n        r = {a}\n    else:\n        r = {b}\n    return r\n", "    r = {n}\n    return r\n"),
    "expression": ("    r = {a} if {c} else {b}\n    return r\n", "    r = {n}\n    return r\n"),
    "elif": ("    if z == 7:\n        r = 5\n    elif {c}:\n        r = {a}\n    else:\n        r = {b}\n    return r\n",
             "    if z == 7:\n        r = 5\n    else:\n        r = {n}\n    return r\n"),
    "assign before": ("    r = {b}\n    if {c}:\n        r = {a}\n    return r\n", "    r = {n}\n    return r\n"),
    "return elif": ("    if z == 7:\n        return 5\n    elif {c}:\n        return {a}\n    return {b}\n",
                    "    if z == 7:\n        return 5\n    return {n}\n"),
}
TRUTH_CODES = ["R6201", "R6202", "R6203", "R6204", "R6209", "R6210"]
TRUTH_DOMAIN = list(itertools.product([0, 1, 2, -1, None], [0, 1, 2], [0, 3, 7]))
TRUTH = [
    re.compile(r"The if statement can be replaced with 'return (.*)'$", re.S),
    re.compile(r"The conditional assignment can be replaced with 'r = (.*)'$", re.S),
    re.compile(r"The if expression can be replaced with '(.*)'$", re.S),
]


def truth_cases() -> List[Tuple[str, str, str, str]]:
    out = []
    bools = ("True", "False")
    for form in DECIDING:
        for c in TESTS:
            for a, b in itertools.product(VALUES, repeat=2):
                if a not in bools and b not in bools:
                    if not {a, b} <= {"0", "1", "None", "y", "y > 1"}:
                        continue
                cc, aa, bb = c, a, b
                if form == "expression":
                    cc = f"({c})" if " if " in c else c
                    aa, bb = (f"({v})" if " if " in v or "lambda" in v or ":=" in v else v for v in (a, b))
                out.append((form, cc, aa, bb))
    return out


def truth_text(i: int, case: Tuple[str, str, str, str]) -> str:
    form, c, a, b = case
    return f"def f{i}(x, y, z):\n" + DECIDING[form][0].format(c=c, a=a, b=b)


def unnegate(text: str, exprs: List[str]) -> str:
    """'<negated E>' and '<negated (E)>' spelled with not, for an expression E of the program."""
    for e in sorted(exprs, key=len, reverse=True):
        for spelled in (f"<negated ({e})>", f"<negated {e}>"):
            text = text.replace(spelled, f"(not ({e}))")
    return text


def spellings(exprs: List[str]) -> List[str]:
    import astroid

    out = []
    for e in exprs:
        out.append(e)
        out.append(astroid.extract_node(f"({e})").as_string())
        out.append(ast.unparse(ast.parse(f"({e})", mode="eval")))
    return out


def executed(source: str, domain: List[Tuple[Any, ...]]) -> List[Any]:
    g: Dict[str, Any] = {}
    exec(source, g)
    out = []
    for args in domain:
        try:
            out.append(("value", g["f"](*args)))
        except Exception as e:  # noqa: BLE001
            out.append(("raises", type(e)))
    return out


def truth(outcome: Tuple[str, Any]) -> Tuple[str, Any]:
    return (outcome[0], bool(outcome[1])) if outcome[0] == "value" else outcome


def judge_truth(case: Tuple[str, str, str, str], program: str, found: List[prog.Found]):
    form, c, a, b = case
    n = 0
    bad: List[Tuple[Any, str]] = []
    head = "def f(x, y, z):\n"
    old = executed(head + DECIDING[form][0].format(c=c, a=a, b=b), TRUTH_DOMAIN)
    for code, text, _line, _column, _end in found:
        m = next((m for rx in TRUTH for m in [rx.match(text)] if m), None)
        if m is None:
            bad.append(((code, text), f"unreadable: {text}"))
            continue
        new = unnegate(m.group(1), spellings([c]))
        try:
            got = executed(head + DECIDING[form][1].format(n=new), TRUTH_DOMAIN)
        except SyntaxError:
            bad.append(((code, text), f"no expression: {text}"))
            continue
        n += len(got)
        for args, v, w in zip(TRUTH_DOMAIN, old, got):
            if truth(v) != truth(w):
                bad.append(((code, text), f"{text}: for {args} decides {w} for {v}"))
                break
    return n, bad


# -- pass in the positive branch


def pass_cases() -> List[Tuple[str, ...]]:
    return [(c,) for c in TESTS] + [(f"({c}) and ({d})",) for c in TESTS for d in TESTS[:4]]


def judge_pass(case: Tuple[str, ...], program: str, found: List[prog.Found]):
    n = 0
    bad: List[Tuple[Any, str]] = []
    (c,) = case
    old = executed(f"def f(x, y, z):\n    if {c}:\n        pass\n    else:\n        return 1\n    return 0\n", TRUTH_DOMAIN)
    for code, text, _l, _c, _e in found:
        m = re.match(r"Use 'if (.*): <else body>' instead of 'pass'$", text, re.S)
        if m is None:
            bad.append(((code, text), f"unreadable: {text}"))
            continue
        try:
            got = executed(f"def f(x, y, z):\n    if {unnegate(m.group(1), spellings([c]))}:\n        return 1\n    return 0\n", TRUTH_DOMAIN)
        except SyntaxError:
            bad.append(((code, text), f"no condition: {text}"))
            continue
        n += len(got)
        for args, v, w in zip(TRUTH_DOMAIN, old, got):
            if v != w:
                bad.append(((code, text), f"{text}: for {args} decides {w} for {v}"))
                break
    return n, bad


# -- ranges


def range_cases() -> List[Tuple[str, str, str]]:
    out = []
    nums = (-3, -1, 0, 1, 2, 5)
    steps = (-3, -2, -1, 1, 2, 3)
    exprs = ["y", "y + 1", "y - 2", "2 + y", "-y", "a", "y * 2", "y // 2", "a - y", "y or a", "y if a else x", "abs(y)", "len('ab')", "y % 3", "not y", "x", "y > 1"]
    args = [f"{e}" for e in nums] + [f"{s}, {t}" for s in nums for t in nums]
    args += [f"{s}, {t}, {d}" for s in nums for t in nums for d in steps]
    args += exprs + [f"{s}, {t}" for s in exprs for t in ("0", "3", "y", "y + 3", "a")]
    args += [f"{t}, {s}" for s in exprs for t in ("-1", "2")]
    args += [f"{s}, {t}, {d}" for s in ("y", "y + 1", "1", "y - 1", "-2") for t in ("y + 3", "4", "y", "y - 5", "a") for d in steps]
    args += ["0, 3, 0", "True, 3", "0, 4, True", "1.0", "y, a, y"]
    for arg in args:
        for op in ("in", "not in"):
            out.append(("int", "value", f"x {op} range({arg})"))
    out += [("int", "value", f"y > 0 {o} x {op} range({arg})") for arg in args[:80:9] for op in ("in", "not in") for o in ("and", "or")]
    out += [("float", "value", f"x {op} range({arg})") for arg in args[:150:7] for op in ("in", "not in")]
    out += [("param", "value", f"x {op} range({arg})") for arg in args[:150:7] for op in ("in", "not in")]
    out += [("int", "if", f"x + 1 {op} range({arg})") for arg in args[:150:7] for op in ("in", "not in")]
    return out


# -- comparisons with bools


BOOL_CONTEXTS = ("{}", "y and {}", "{} or y", "not ({})")


def bool_cases() -> List[Tuple[str, str, str, str]]:
    whats = ["x", "(x and y)", "(x or y)", "(not x)", "(x == y)", "(x if y else a)", "(x | y)", "(x ^ y)", "(x := y)",
             "(x, y)[0]", "max(x, y)", "(x < y)", "(x in (y, a))"]
    return [(w, o, v, c) for c in BOOL_CONTEXTS for w in whats for o in ("is", "is not") for v in ("True", "False")]


def bool_text(i: int, case: Tuple[str, str, str, str]) -> str:
    w, o, v, c = case
    return f"def f{i}(x, y, a):\n    if {c.format(f'{w} {o} {v}')}:\n        return 1\n    return 2\n"


def judge_bool(case: Tuple[str, str, str, str], program: str, found: List[prog.Found]):
    n = 0
    bad: List[Tuple[Any, str]] = []
    w, o, v, _context = case
    before = prog.compiled(f"{w} {o} {v}")
    for code, text, _l, _c, _e in found:
        m = SUGGESTION[2].match(text)
        after = prog.compiled(m.group(1)) if m else None
        if after is None:
            bad.append(((code, text), f"unreadable: {text}"))
            continue
        for vals in itertools.product((False, True), repeat=3):
            env = dict(zip("xya", vals))
            old, new = prog.value(before, dict(env)), prog.value(after, dict(env))
            n += 1
            if bool(old) != bool(new) or isinstance(new, type):
                bad.append(((code, text), f"{text}: differs for {env}"))
                break
    return n, bad


def run(check: common.Check) -> None:
    check.rule = "evaluations of an original and its replacement; distinct: claims of edulint decided"
    all_atoms = atoms()
    few = ["x > 0", "x > 2", "x <= 0", "x != 1", "x % 2 == 0", "y > 0", "x > y", "x == y", "y <= x", "x"]
    if common.THOROUGH:
        few += ["x == 2", "x < 2", "x % 2 == 1", "y < 0", "x + y > 1", "not x", "x // 2 == 1", "x >= 2"]
    conds = [("int", "if", c) for c in pairs(all_atoms)]
    conds += [("int", "if", c) for c in triples(few[:18 if common.THOROUGH else 8])]
    some = all_atoms[::2] if not common.THOROUGH else all_atoms
    conds += [("float", "if", c) for c in pairs(some)]
    conds += [("int", "value", c) for c in pairs(all_atoms[1::3] if not common.THOROUGH else all_atoms)]
    conds += [(k, "if", c) for k in ("int", "float", "param", "mixed") for c in spans()]
    conds += [("param", "return", c) for c in spans()]
    conds += [("int", "if", c) for c in residues()]
    conds += [("int", "if", c) for c in divisions()]
    if common.THOROUGH:
        conds += [(k, "value", c) for k in ("int", "float", "param") for c in divisions()]
    conds += [("len", "while", c) for c in pairs(all_atoms[::6])]
    conds += [("param", "if", c) for c in pairs(all_atoms[::4])]
    prog.run_family(check, "condition", conds, condition_text, judge_condition, CONDITIONS, 120)
    prog.run_family(check, "range", range_cases(), condition_text, judge_condition, ["R6617", "R6618", "R6619"], 60)
    prog.run_family(check, "truth", truth_cases(), truth_text, judge_truth, TRUTH_CODES, 120)
    prog.run_family(
        check, "pass", pass_cases(),
        lambda i, c: f"def f{i}(x, y, z):\n    if {c[0]}:\n        pass\n    else:\n        return 1\n    return 0\n",
        judge_pass, ["R6205"],
    )
    prog.run_family(
        check, "bool", bool_cases(), bool_text, judge_bool, ["R6613"]
    )
