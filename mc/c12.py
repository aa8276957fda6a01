"""C12: no file makes a lint fail, and every problem lies within its file.

Enumerates programs over all kinds of statements and expressions of Python: every expression in every
expression position, every pair of statements in sequence and nested, every kind of parameter and target,
programs that parse but do not compile, and files that are unusual as texts. Each is linted with all of
edulint's checkers; a checker that fails inside pylint counts as a failure too."""
from __future__ import annotations

import ast
import itertools
import os
import shutil
import warnings
from typing import Any, Dict, Iterator, List, Tuple

from mc import common

LEVEL = "exploration"

ATOMS = ["x", "1", "-1", "1.5", "1j", "'a'", "b'a'", "f'{x}'", "True", "None", "...", "''", "10**9", "'a' 'b'", '"""a\nb"""']
EXPRS = ATOMS + [
    "x + y", "x - 1", "x * 2", "x / y", "x // 2", "x % 2", "x ** 2", "x @ y", "x << 1", "x & y", "x | y", "x ^ y",
    "-x", "+x", "~x", "not x", "x and y", "x or y", "x and y and z", "x < y", "x < 1 < y", "x == 1", "x != y", "x is None",
    "x is not y", "x in y", "x not in [1, 2]", "x == y == z", "x < y > z", "x if y else z", "lambda: x", "lambda a, *b, c=1, **d: a",
    "x()", "x(y)", "x(*y)", "x(**y)", "x(y, z=1, *y, **z)", "x.y", "x.y()", "x.y.z", "x[0]", "x[-1]", "x[y]", "x[1:2]", "x[:]",
    "x[::-1]", "x[1:2, 3]", "x[y][z]", "x[...]", "[]", "[x]", "[x, y]", "[*x, y]", "()", "(x,)", "x, y", "{}", "{x: y}", "{**x}",
    "{x}", "{*x, y}", "[a for a in x]", "[a for a in x if a]", "[a for a in x for b in a if b]", "{a for a in x}",
    "{a: b for a, b in x}", "(a for a in x)", "[a async for a in x]", "[(yield_) for yield_ in x]", "await x", "yield", "yield x",
    "yield from x", "(w := x)", "[w := 1, w]", "f'{x!r:>{y}}'", "f'{x}' 'b' f'{y=}'", "len(x)", "range(x)", "range(len(x))",
    "range(1, x, 2)", "enumerate(x)", "zip(x, y)", "isinstance(x, int)", "type(x) == int", "abs(x)", "max(x, y)", "min(x, 1)",
    "ord(x)", "chr(97)", "ord('a')", "sorted(x)", "x.append(y)", "x.pop()", "x.copy()", "print(x)", "input()", "int(input())",
    "open(x)", "'a'.format(x)", "'%s' % x", "[x] * 2", "[[]] * x", "'a' * x", "x + x + x", "x * x * x * x", "x == True", "x == None",
    "x is True", "not x == y", "not (x and y)", "x > 3 and x > 5", "x == 1 or x == 2 or x == 3", "x < 'a'", "x >= 97",
    "not not x", "x + 0", "x * 1", "0 + x", "x // 1", "x[len(x) - 1]", "x[x[0]]", "(x)", "((x, y), z)", "super()", "__name__ == 'x'",
    "x[0]()", "x()()", "x.y()()", "(lambda: x)()", "'a'.join(x)", "(x if y else z)()", "[].copy()", "super().y()",
]
# places for an expression; E is replaced
PLACES = [
    "E", "a = E", "a = b = E", "a: int = E", "a: E", "a += E", "a -= E", "x[0] = E", "x[E] = 1", "x.a = E", "del x[E]", "a, b = E",
    "[a, *b] = E", "return E", "if E:\n    pass", "if E:\n    return True\nreturn False", "if E:\n    return E\nelse:\n    return y",
    "if E:\n    a = 1\nelse:\n    a = 2", "if x:\n    pass\nelif E:\n    y = 1\nelse:\n    y = 2", "while E:\n    x += 1",
    "while E:\n    break\nelse:\n    pass", "for a in E:\n    print(a)", "for a in E:\n    if a:\n        return True\nreturn False",
    "for i in range(len(x)):\n    print(x[i], E)", "for a in x:\n    b = E\n    print(b)", "assert E", "assert x, E", "raise E", "raise x from E",
    "with E:\n    pass", "with E as a:\n    print(a)", "with x, E as (a, b):\n    pass", "try:\n    E\nexcept ValueError:\n    pass",
    "try:\n    pass\nexcept E:\n    pass", "try:\n    pass\nfinally:\n    E", "match E:\n    case 1:\n        pass\n    case _:\n        pass",
    "match x:\n    case [a, b] if E:\n        pass", "def g(a=E):\n    return a", "def g(a: E) -> E:\n    return a", "@E\ndef g():\n    pass",
    "class A(E):\n    pass", "class A(metaclass=E):\n    b = E", "a = lambda: E", "a = [E for b in x]", "a = [b for b in E]", "a = [b for b in x if E]",
    "a = {E: 1}", "a = x[E]", "a = x.b(E)", "a = f'{E}'", "a = (E, E)", "a = E if E else E", "a = (E) and (E)", "a = not (E)", "a = (E) < (E)",
    "a = (E) + 1", "a = (E) == x", "print(E, end='')", "a = [E] * 2", "a = [x, E] * y\nb = (E,) * 2",
    "for a in [x, E]:\n    print(a)", "a = -(E) + (E) % 2", "a = x ** (E)", "a = x in [E, y]", "for i in range(E):\n    pass", "a = x[E:]", "a = len(E) == 0", "a = (E)[0]",
    "a = (E).b", "a = int(E)\na = a + 1", "x.append(E)", "x.sort(key=E)", "while True:\n    if E:\n        break\n    x += 1",
    "if (E) and x:\n    return 1\nelif (E) or y:\n    return 2", "global G\nG = E", "import os; E", "if E: pass\nelse: pass",
    "a = E\na = a + (E)\nreturn a", "if x:\n    print(E)\n    y = 1\nelse:\n    print(E)\n    y = 2",
]

STATEMENTS = [
    "pass", "x", "x = 1", "y = x", "x = x + 1", "x += 1", "x, y = y, x", "x: int", "x: int = 1", "del x", "del x, y", "del x[0], y.a", "return",
    "return x", "raise", "raise ValueError", "raise ValueError('a') from None", "assert x", "assert x, 'a'", "import a", "import a.b", "import a.b as c",
    "from a import b", "from . import b", "from a import b as c, d", "global x", "global G\nG = 1", "nonlocal_ = 1", "break_ = 1", "...", "'docstring'",
    "print(x)", "x.append(1)", "x[0] = 1", "x.a = 1", "*a, b = x", "(a, (b, c)) = x", "for x.a in y:\n    pass", "for x[0] in y:\n    pass", "type T = int", "x = yield", "await x",
]
COMPOUNDS = [
    "if x:\n{}", "if x:\n    pass\nelse:\n{}", "if x:\n    pass\nelif y:\n{}\nelse:\n    pass", "for i in x:\n{}", "for i in x:\n    pass\nelse:\n{}",
    "for i in range(10):\n{}", "for i, j in enumerate(x):\n{}", "async for i in x:\n{}", "while x:\n{}", "while True:\n{}", "while x:\n    pass\nelse:\n{}",
    "while x:\n{}\n    if y:\n        break\n    continue", "with x:\n{}", "with x as a, y as b:\n{}", "async with x as a:\n{}", "try:\n{}\nexcept ValueError:\n    pass",
    "try:\n    pass\nexcept ValueError as e:\n{}", "try:\n    pass\nexcept (ValueError, KeyError):\n{}\nexcept Exception:\n    raise", "try:\n    pass\nexcept:\n{}",
    "try:\n    pass\nexcept ValueError:\n    pass\nelse:\n{}", "try:\n{}\nfinally:\n    pass", "try:\n    pass\nfinally:\n{}", "try:\n    pass\nexcept* ValueError:\n{}",
    "match x:\n    case 1:\n{{{}}}", "match x:\n    case [1, *a] | {{'k': v, **b}} if y:\n{{{}}}\n    case C(z=1) as d:\n        pass\n    case None:\n        pass",
    "def g():\n{}", "def g(a, /, b, *c, d=1, **e):\n{}", "async def g():\n{}", "class A:\n{}", "class A(B, metaclass=C):\n    def g(self):\n        pass\n{}",
    "def g():\n    def h():\n        nonlocal x\n        x = 2\n    h()\n{}",
]

SIGNATURES = ["x, y, z", "x, y=1, z=[]", "x, /, y, *, z", "x, *y, z=1", "*x, **y", "x: int, y: 'list[int]' = None, *z: int", "self, x, y=print(), z=lambda: 1", ""]

NOT_COMPILING = [
    "nonlocal a", "return 1", "return", "break", "continue", "yield 1", "yield from x", "await x", "x = yield", "a = 1\nglobal a", "print(a)\nglobal a",
    "def f(a, a):\n    pass", "def f():\n    a = 1\n    global a", "def f(a):\n    global a", "def f(a):\n    nonlocal a", "def f():\n    nonlocal zz",
    "class A:\n    nonlocal a", "class A:\n    return 1", "class A:\n    yield 1", "def f():\n    break", "def f():\n    continue", "for i in x:\n    def f():\n        break",
    "if x:\n    continue", "while x:\n    class A:\n        break", "*a, *b = x", "a, *b, *c = x", "*a = x", "from a import *\ndef f():\n    from b import *",
    "async def f():\n    yield from x", "def f():\n    await x", "def f():\n    async for a in x:\n        pass", "def f():\n    async with a:\n        pass",
    "def f():\n    return [a async for a in x]", "from __future__ import braces", "x = 1\nfrom __future__ import division", "try:\n    pass\nexcept:\n    pass\nexcept ValueError:\n    pass",
    "match x:\n    case a:\n        pass\n    case b:\n        pass", "match x:\n    case a | b:\n        pass", "def f():\n    x: int\n    global x", "lambda: (yield)", "lambda a, a: 1",
    "[x := 1 for x in y]", "[y for x in (y := z)]", "class A:\n    [b := 1 for c in d]", "def f():\n    print(a)\n    nonlocal a", "__debug__ = 1", "def f(__debug__):\n    pass",
    "def f():\n    def g():\n        nonlocal a\n    a = 1", "try:\n    pass\nexcept* ValueError:\n    return", "{**a for a in b}", "f(**a, *b)", "f(a=1, a=2)", "del f()", "1 = x", "f() = 1", "x +=",
    "def f(:\n    pass", "if x\n    pass", "(", ")", "'", '"""', "x = [1, 2", "  x = 1", "if x:\npass", "\tif x:\n        y\n\telse:\n    z", "é = 1", "x = 0777", "print 'a'", "exec 'a'", "x <> y", "`x`", "$", "?",
    "class", "def f()\n    pass", "import", "from a import", "lambda", "a b", "f'{'", "f'{x'", "f'}'", "f'{x!q}'", "async x", "match x:\n    pass", "x = 1 if y", "not", "x++", "x = = 1", "else:\n    pass",
    "def f():\nreturn 1", "while x:\n", "@\ndef f():\n    pass", "return = 1", "None = 1", "f(x for x in y, 1)", "*x", "x: int: str", "'\\N{nope}'", "b'é'", "0x", "1_", "1__0", "\\", "x = \\\n", "x = \\ \n1",
]

RAW: Dict[str, bytes] = {
    "empty": b"", "newline": b"\n", "spaces": b"   ", "tab": b"\t\n", "comment": b"# c", "comment and newlines": b"\n\n# c\n\n\n", "no newline": b"x = 1",
    "crlf": b"def f(x):\r\n    x = x + 1\r\n    return x\r\n", "cr": b"x = 1\ry = 2\r", "mixed newlines": b"x = 1\r\ny = 2\nz = 3\r",
    "bom": b"\xef\xbb\xbfx = 1\n", "bom only": b"\xef\xbb\xbf", "form feed": b"x = 1\n\x0cy = 2\n", "form feed in line": b"def f():\n\x0c    pass\n", "vertical tab": b"x = 1\n\x0b\n",
    "latin-1 cookie": b"# -*- coding: latin-1 -*-\nx = '\xe9'\n", "latin-1": b"x = '\xe9'\n", "utf-16": "x = 1\n".encode("utf-16"), "cp1250": b"# coding: cp1250\nx = '\x9a'\n", "bad cookie": b"# coding: nosuch\nx = 1\n",
    "late cookie": b"x = 1\ny = 2\n# coding: latin-1\nz = '\xe9'\n", "nul": b"x = 1\n\x00\n", "nul in string": b"x = '\x00'\n", "ctrl-z": b"x = 1\n\x1a", "binary": bytes(range(256)),
    "invalid utf-8": b"x = '\xff\xfe'\n", "surrogate": b"x = '\xed\xa0\x80'\n", "non-ascii names": "á = 1\nprint(á)\n".encode(), "nfkc": "ﬁ = 1\nprint(fi)\n".encode(), "emoji": "x = '😀'\nprint(x == True)\n".encode(),
    "wide columns": "def f(x):\n    return '😀😀' + x == None\n".encode(), "line separators": "x = '\u2028'\ny = 1\u0085\n".encode(), "nbsp": "x\xa0= 1\n".encode(), "zero width": "x\u200b = 1\n".encode(),
    "long line": b"x = '" + b"a" * 20000 + b"'\n", "many lines": b"x = 1\n" * 300, "many newlines": b"\n" * 300 + b"x = 1\n", "backslashes": b"x = 1 + \\\n    2 + \\\n    3\n", "backslash end": b"x = 1 \\",
    "deep parens": b"x = " + b"(" * 80 + b"1" + b")" * 80 + b"\n", "deep lists": b"x = " + b"[" * 60 + b"]" * 60 + b"\n", "deep calls": b"f(" * 60 + b")" * 60 + b"\n",
    "long sum": b"x = " + b" + ".join([b"y"] * 120) + b"\n", "long and": b"def f(y):\n    return " + b" and ".join([b"y"] * 60) + b"\n", "long elif": b"def f(x):\n    if x == 0:\n        return 0\n" + b"".join(b"    elif x == %d:\n        return %d\n" % (i, i) for i in range(1, 40)),
    "deep nesting": b"".join(b" " * i + b"if x:\n" for i in range(18)) + b" " * 18 + b"pass\n", "deep loops": b"".join(b" " * i + b"for a%d in x:\n" % i for i in range(18)) + b" " * 18 + b"pass\n", "too deep": b"".join(b" " * i + b"if x:\n" for i in range(101)) + b" " * 101 + b"pass\n",
    "deep functions": b"".join(b" " * i + b"def f%d():\n" % i for i in range(18)) + b" " * 18 + b"pass\n", "huge integer": b"x = " + b"9" * 5000 + b"\n", "big power": b"x = 10 ** 10 ** 2\ny = 2 ** 1000 if x > 1e300 else 1\n", "big multiplication": b"x = 'a' * 10 ** 9\n",
    "semicolons": b"x = 1; y = 2; ;\n", "tabs": b"def f(x):\n\tif x:\n\t\treturn 1\n\treturn 2\n", "tabs and spaces": b"def f(x):\n\tif x:\n\t    return 1\n        return 2\n", "shebang": b"#!/usr/bin/env python3\nx = 1\n",
    "type comments": b"x = []  # type: list[int]\nfor a in x:  # type: int\n    pass\n", "bad type comment": b"x = []  # type: list[\n", "doctest": b'def f():\n    """\n    >>> f(\n    """\n', "bad noqa": b"x = 1  # noqa: \n# pylint: disable\n# pylint: \n# pylint: disable=\n",
    "bad pragma": b"# pylint: enable=nosuch,,,\n# pylint: foo=bar\n# pylint: disable=all enable=W0107\nx = 1\n", "skip": b"# pylint: skip-file\nx = 1\n", "edulint lines": b"# edulint: pylint='\n# edulint: \\\n# edulint: =\nx = 1\n",
    "module calls": b"import sys\nsys.exit(1)\nraise SystemExit\n", "self import": b"import m\nfrom m import x\nfrom . import y\nfrom .. import z\n", "star import": b"from os import *\nfrom nosuch import *\nprint(path)\n", "syntax at end": b"x = 1\ndef f(:\n",
}


def indent(text: str, by: str = "    ") -> str:
    return "".join(by + line if line.strip() else line for line in text.splitlines(True))


def nest(compound: str, body: str) -> str:
    if "{{{}}}" in compound:
        return compound.replace("{{{}}}", indent(body, "        ").rstrip("\n")).replace("{{", "{").replace("}}", "}")
    return compound.replace("{}", indent(body).rstrip("\n"))


def function(body: str, signature: str = "x, y, z", is_async: bool = True) -> str:
    return ("async " if is_async else "") + f"def FUNC({signature}):\n{indent(body)}\n"


def functions() -> Iterator[str]:
    for place in PLACES:
        for e in EXPRS:
            wrapped = f"({e})" if any(c in e for c in (",", "yield", "lambda", ":=")) and place != "E" else e
            text = function(place.replace("E", wrapped).replace("Error", "Error"), is_async="await" in e or "async" in e)
            yield text
    if common.THOROUGH:
        for place in PLACES[:24]:
            for a, b in itertools.product(EXPRS, repeat=2):
                if "x" in a and "yield" not in a + b and "await" not in a + b:
                    yield function(place.replace("E", "(" + a.replace("x", f"({b})", 1) + ")"), is_async="async" in a + b)
    for a, b in itertools.product(STATEMENTS, repeat=2):
        yield function(a + "\n" + b)
    for c in COMPOUNDS:
        for s in STATEMENTS + ["break", "continue"]:
            yield function(nest(c, s))
            yield function("y = 0\n" + nest(c, s + "\ny = 1") + "\nreturn y")
        for s in STATEMENTS:
            yield function(s + "\n" + nest(c, "print(y)\n" + s) + "\n" + s)
    for a, b in itertools.product(COMPOUNDS, repeat=2):
        for s in ("x = 1", "return y", "break", "continue", "raise ValueError", "y = x\nx = y"):
            yield function(nest(a, nest(b, s)))
    if common.THOROUGH:
        for a, b, c in itertools.product(COMPOUNDS, repeat=3):
            yield function(nest(a, nest(b, nest(c, "y += x"))))
        for a, b in itertools.product(COMPOUNDS, repeat=2):
            yield function(nest(a, "x = 1") + "\n" + nest(b, "y = x"))
    for sig in SIGNATURES:
        for s in STATEMENTS + ["for x in y:\n    z = x", "return [x for x in y]", "return lambda z: x", "x = y = z = 1\nreturn x"]:
            yield function(s, sig)
            yield f"class FUNC:\n    a = 1\n    def g({sig}):\n{indent(s, '        ')}\n    b = a\n"


OPERANDS = [
    "x", "y.a", "z[0]", "0", "1", "2", "-1", "97", "1.5", "'a'", "''", "b'a'", "True", "None", "[]", "[1]", "[[]]", "(1, 2)", "{}", "{1: x}", "{1}",
    "f()", "len(x)", "ord(x)", "range(3)", "(lambda: x)", "(x if y else 1)", "(x or y)", "(x < y)", "(not x)", "(-x)", "(x + 1)", "(x % 2)",
    "[a for a in x]", "f'{x}'", "(w := x)", "x[1:]", "1j", "10 ** 20", "...", "x.f(1)", "'ab' * 2", "int(input())", "float(x)", "abs(*x)", "abs()",
]
# the alphabets of a quick check
QUICK_OPERANDS = [
    "x", "y.a", "0", "2", "-1", "97", "1.5", "'a'", "b'a'", "True", "None", "[1]", "[[]]", "(1, 2)", "{}", "len(x)", "ord(x)", "(x < y)", "(x + 1)",
    "(x % 2)", "f'{x}'", "(w := x)", "1j", "10 ** 20", "...", "float(x)", "abs(*x)", "abs()",
]
BINARY = ["+", "-", "*", "/", "//", "%", "**", "@", "<<", ">>", "&", "|", "^"]
COMPARE = ["<", "<=", ">", ">=", "==", "!=", "is", "is not", "in", "not in"]
FUNCTIONS = [
    "len", "range", "enumerate", "zip", "sorted", "reversed", "abs", "max", "min", "sum", "ord", "chr", "int", "str", "float", "bool", "list", "dict",
    "set", "tuple", "isinstance", "type", "print", "input", "open", "map", "filter", "any", "all", "round", "divmod", "pow", "super", "next", "iter",
    "eval", "getattr", "f", "x.f", "x[0]", "math.sqrt",
]
METHODS = [
    "append", "extend", "pop", "insert", "remove", "clear", "sort", "reverse", "copy", "keys", "values", "items", "get", "add", "discard", "update", "union",
    "setdefault", "split", "join", "isdigit", "isnumeric", "isdecimal", "isalpha", "lower", "format", "index", "count", "replace", "strip", "startswith", "real",
]
ARGUMENTS = ["", "x", "0", "1.5", "'a'", "None", "[]", "[x]", "[*x]", "{}", "(1, 2)", "*x", "**x", "k=1", "range(3)", "len(x)", "lambda a: a", "a for a in x"]
ARGUMENTS += ["x, y", "0, x", "0, 10", "10, 0", "0, 10, 2", "0, 10, 0", "x, y, -1", "1, 2, 3, 4", "x, *y", "0, len(x)", "len(x), 0, -1", "'a', 1", "x, k=1", "1.5, 2.5", "True, 2", "int, 2"]


def cannot_be_byte(op: str, a: str, b: str) -> bool:
    """Whether pylint alone fails on the comparison: astroid asks whether the bytes contain the number."""
    return op in ("in", "not in") and b == "b'a'" and a in ("-1", "10 ** 20")


def tables() -> List[str]:
    """Single statements: all operators with all kinds of operands, all functions and methods with all kinds of
    arguments, in the statements checkers look into."""
    out = []
    operands = OPERANDS if common.THOROUGH else QUICK_OPERANDS
    functions_ = FUNCTIONS if common.THOROUGH else [f for f in FUNCTIONS if f not in ("dict", "tuple", "float", "map", "all", "divmod", "iter", "eval", "x.f", "bool", "zip", "open")]
    methods = METHODS if common.THOROUGH else METHODS[::2] + ["extend"]
    huge = ("10 ** 20",)  # powers and products of them are not computed by pylint in any time
    for op, a, b in itertools.product(BINARY, operands, operands):
        if op not in ("**", "<<", "*") or not (a == huge[0] or b == huge[0]):
            out.append(f"v = {a} {op} {b}")
    for op, a, b in itertools.product(COMPARE, operands, operands):
        if not cannot_be_byte(op, a, b):
            out.append(f"v = {a} {op} {b}")
    for op, a, b in itertools.product(COMPARE, operands[::2], operands[1::2]):
        if cannot_be_byte(op, a, b) or cannot_be_byte(op, b, a):
            continue
        out.append(f"if {a} {op} {b}:\n    return True\nelif {b} {op} {a}:\n    v = 1")
        out.append(f"while {a} {op} {b}:\n    x += 1")
        out.append(f"v = {a} {op} {b} {op} 1 and {b} {op} {a}")
    for op, a, b in itertools.product(("and", "or"), operands, operands):
        out.append(f"if {a} {op} {b}:\n    v = 1")
        out.append(f"return x > {a} {op} {b} > x {op} y")
    for op, t, v in itertools.product(BINARY, ("x", "x.a", "x[0]", "x[y]", "x[1:]"), operands):
        if v == huge[0] and op in ("**", "<<", "*"):
            continue
        out.append(f"{t} {op}= {v}")
        out.append(f"{t} = {t} {op} {v}")
        out.append(f"{t} = {v} {op} {t}")
        out.append(f"if x > 0:\n    {t} {op}= {v}\nif x < 0:\n    y = 1")
        out.append(f"while x > 0:\n    {t} {op}= {v}")
    for o, op, v in itertools.product(("-", "+", "~", "not "), BINARY, [v for v in operands if v != huge[0]]):
        out.append(f"v = {o}{v} {op} 1")
    for fn, args in itertools.product(functions_, ARGUMENTS):
        call = f"{fn}({args})"
        out += [call, f"v = {call}", f"for i in {call}:\n    v = x[i]\n    i = 1", f"if x in {call}:\n    return {call}", f"v = x + {call}"]
        out += [f"for i in {call}:\n    if i == 0:\n        continue\n    x.append(i)", f"while x < {call}:\n    x += 1", f"v = {call} == 97", f"for i in {call}:\n    return i"]
    for r, m, args in itertools.product(("x", "x.a", "x[0]", "[]", "'a'", "f()", "{1: 2}", "(1, 2)"), methods, ARGUMENTS[:22]):
        out.append(f"{r}.{m}({args})")
        if r in ("x", "'a'"):
            out += [f"for i in x:\n    {r}.{m}({args})", f"for i in range(len(x)):\n    v = x[i].{m}({args})", f"if {r}.{m}({args}):\n    v = {r}.{m}"]
    for i, (a, b) in enumerate(itertools.product(operands, repeat=2)):
        out += [f"for i in range({a}, {b}):\n    if i == {a}:\n        continue\n    v = i", f"for i in range({a}, {b}, {operands[i % 17]}):\n    i = {b}"]
        out += [f"v = x in range({a}, {b}, {operands[i % 13]})", f"v = x[{a}:{b}]", f"v = {{{a}: {b}}}", f"x[{a}] = {b}"]
    return out


TABLE_SIZE = 25


def table_functions() -> List[str]:
    statements = [t for t in dict.fromkeys(tables()) if parses(t.replace("return", "v ="))]
    return [
        function("\n".join(part), is_async=False) for part in common.chunks(statements, TABLE_SIZE)
    ]


OPTIONS = [
    "config-file=full", "set-groups=python-specific,enhancement,complexity", "flake8=--select=A,B,C,D,E,F,W", "pylint=--enable=astroid-error,fatal,parse-error",
    "allowed-onechar-names=xyz",
]
INTERNAL = ("F0002", "E0002")  # of a checker; F0010 is pylint's way to say that a file cannot be parsed


def parses(text: str) -> bool:
    try:
        ast.parse(text)
        return True
    except (SyntaxError, ValueError, RecursionError, MemoryError):
        return False


def lint(path: str) -> Tuple[List[Any], str]:
    import edulint

    try:
        problems = edulint.lint_many(edulint.get_config_many([path], OPTIONS))
    except Exception as e:  # noqa: BLE001
        cause = e.__cause__ or e
        return [], f"raised {type(cause).__name__}: {str(cause)[:200]}"
    for p in problems:
        if p.code in INTERNAL:
            return problems, f"internal failure reported: {p.code} {p.text[:200]}"
    return problems, ""


def check_locations(problems: List[Any], path: str, data: bytes) -> List[str]:
    import io
    import tokenize

    try:
        encoding, _ = tokenize.detect_encoding(io.BytesIO(data).readline)
        text = data.decode(encoding, errors="replace")
    except SyntaxError:
        text = data.decode("latin-1")
    lines = max(len(text.split("\n")), len(text.splitlines())) + 1
    out = []
    for p in problems:
        bad = None
        if p.path != path:
            bad = f"path {p.path}"
        elif not 0 <= p.line <= lines or p.line == 0 and p.code not in ("E902",):
            bad = f"line {p.line} of {lines}"
        elif p.column < 0:
            bad = f"column {p.column}"
        elif p.end_line is not None and (p.end_line < p.line or p.end_line > lines):
            bad = f"end line {p.end_line} of a problem on line {p.line} of {lines}"
        elif p.end_line is not None and p.end_line == p.line and p.end_column is not None and p.end_column < p.column:
            bad = f"end column {p.end_column} before column {p.column}"
        elif not p.text or not p.code or "\x00" in p.text:
            bad = f"text {p.text!r}"
        if bad:
            out.append(f"{p.code} {p.text[:60]!r}: {bad}")
    return out


def functions_case(job):
    d = common.fresh_dir("c12")
    out = []
    codes: set = set()

    def smallest(fn: str) -> str:
        """The first statement of a function that makes the lint fail alone, otherwise the function."""
        try:
            body = ast.parse(fn).body[0].body  # type: ignore[attr-defined]
        except SyntaxError:
            return fn
        path = os.path.join(d, "s.py")
        for stmt in body if len(body) > 2 else []:
            text = function(ast.unparse(stmt))
            common.write(path, text)
            if lint(path)[1]:
                return text
        return fn

    def attempt(fns: List[str]) -> None:
        path = os.path.join(d, "m.py")
        text = "G = 1\n\n\n" + "\n\n".join(f.replace("FUNC", f"fun{i}") for i, f in enumerate(fns))
        common.write(path, text)
        problems, failure = lint(path)
        codes.update(p.code for p in problems)
        if failure:
            if len(fns) == 1:
                out.append((smallest(fns[0]), failure))
                return
            before = len(out)
            attempt(fns[: len(fns) // 2])
            attempt(fns[len(fns) // 2 :])
            if len(out) == before:
                out.append((text, failure))
            return
        for bad in check_locations(problems, path, text.encode()):
            out.append((text, bad))

    attempt(job)
    shutil.rmtree(d, ignore_errors=True)
    return len(job), codes, out


def files_case(job):
    out = []
    codes: set = set()
    d = common.fresh_dir("c12f")
    for name, data in job:
        path = os.path.join(d, "m.py")
        with open(path, "wb") as f:
            f.write(data)
        problems, failure = lint(path)
        codes.update(p.code for p in problems)
        if failure:
            out.append((name, failure))
        out.extend((name, bad) for bad in check_locations(problems, path, data))
    shutil.rmtree(d, ignore_errors=True)
    return len(job), codes, out


def run(check: common.Check) -> None:
    fns = [f for f in dict.fromkeys(functions()) if parses(f.replace("FUNC", "f"))]
    compiling = 0
    warnings.simplefilter("ignore", SyntaxWarning)
    for f in fns[::1]:
        try:
            compile(f.replace("FUNC", "f"), "x", "exec", dont_inherit=True)
            compiling += 1
        except SyntaxError:
            pass
    tabled = table_functions()
    check.outcome("functions", len(fns))
    check.outcome("functions of operators and calls", len(tabled))
    check.outcome("statements of operators and calls", len(tabled) * TABLE_SIZE)
    fns += tabled
    check.outcome("functions that compile", compiling)
    codes: set = set()
    for n, seen, out in common.pmap(functions_case, list(common.chunks(fns, 15))):
        check.add(evaluations=n)
        codes |= seen
        for case, problem in out:
            check.violation(common.digest([case, problem.split(":")[0]]), f"{problem} for {case[-300:]!r}", [case, problem])
    files: List[Tuple[str, bytes]] = list(RAW.items())
    for text in NOT_COMPILING:
        for suffix in ("\n", "\n\n\ndef last(x):\n    x = x + 1\n    return x\n"):
            files.append((text + suffix, (text + suffix).encode()))
    for e in EXPRS:
        for place in PLACES:
            text = place.replace("E", f"({e})" if "," in e or ":=" in e else e) + "\n"
            if "\n" not in text.strip() or common.THOROUGH:
                files.append((text, text.encode()))
    check.outcome("whole files", len(files))
    for n, seen, out in common.pmap(files_case, list(common.chunks(files, 40))):
        check.add(evaluations=n)
        codes |= seen
        for case, problem in out:
            check.violation(common.digest([case, problem.split(":")[0]]), f"{problem} for {case[-300:]!r}", [case, problem])
    check.add(distinct_nontrivial=len(fns) + len(files))
    check.outcome("different problem codes", len(codes))
    check.rule = (
        "every expression of an alphabet of all kinds in every expression position, every ordered pair of "
        "statements, every statement in every compound statement and every pair of those nested, every kind of "
        "signature; programs that parse but do not compile or do not parse; unusual texts and encodings. "
        "distinct_nontrivial counts different programs"
    )
    check.sample("function", fns[1234])
    check.sample("function", fns[-100])
    check.sample("file", files[60][0])
