"""C11: a translated message is the translation with the message's own extracts in its place.

Part 1 takes every message pylint, its extensions, edulint's checkers, pyflakes, mccabe and flake8 define,
fills it in with every combination of arguments from an alphabet, and translates it under every kind of
translation. The extracts shown must be the arguments. Part 2 lints programs for real, with and without
translations of everything."""
from __future__ import annotations

import glob
import itertools
import os
import re
import shutil
from typing import Any, Dict, Iterator, List, Optional, Tuple

from mc import common

LEVEL = "exploration"

CONVERSION = re.compile(r"%(?:\((\w+)\))?([#0+-]*\d*(?:\.\d+)?)([a-zA-Z%])")

WORDS = ["x", "a b", "'q'", '"', "", "(.*)", "{}", "{0} {1}", "%s", "\\1", "č", "X", "before", "p\nq"]
FEW = ["x", "b y", "", "p\nq"]
NUMBERS = [0, 7, 120]


def parts_of(message: str) -> Tuple[List[str], List[Tuple[Optional[str], str]]]:
    """the literal parts between the conversions, and (name, conversion) for each of them"""
    lits, convs, end, lit = [], [], 0, ""
    for m in CONVERSION.finditer(message):
        lit += message[end : m.start()]
        end = m.end()
        if m.group(3) == "%":
            lit += "%"
            continue
        lits.append(lit)
        lit = ""
        convs.append((m.group(1), f"%{m.group(2)}{m.group(3)}"))
    lits.append(lit + message[end:])
    return lits, convs


def decompositions(text: str, lits: List[str]) -> Iterator[Tuple[str, ...]]:
    """every way in which text is the literals with something between them"""
    if not text.startswith(lits[0]):
        return
    rest = text[len(lits[0]) :]
    if len(lits) == 1:
        if rest == "":
            yield ()
        return
    if len(lits) == 2:
        if rest.endswith(lits[1]):
            yield (rest[: len(rest) - len(lits[1])],)
        return
    for i in range(len(rest) + 1):
        for tail in decompositions(rest[i:], lits[1:]):
            yield (rest[:i],) + tail


def catalogue() -> Dict[str, Dict[str, Tuple[Optional[str], str]]]:
    """{source: {code: (symbol, message)}}"""
    import flake8.plugins.pyflakes as fp
    import mccabe
    import pyflakes.messages
    import pylint.extensions
    import tomli
    from pylint.lint import PyLinter

    def of(plugins: List[str]) -> Dict[str, Tuple[Optional[str], str]]:
        linter = PyLinter()
        linter.load_default_plugins()
        linter.load_plugin_modules(plugins)
        return {
            code: (d.symbol, d.msg) for code, d in linter.msgs_store._messages_definitions.items()
        }

    exts = sorted(
        "pylint.extensions." + os.path.basename(f)[:-3]
        for f in glob.glob(os.path.join(os.path.dirname(pylint.extensions.__file__), "[a-z]*.py"))
    )
    with open(os.path.join(common.REPO, "edulint/config/files/empty.toml"), "rb") as f:
        own = of(tomli.load(f)["pylint"]["load-plugins"])
    core = of([])
    extensions = {
        # the ids R6301 and R6201 of pylint's extensions are those of edulint's checkers, which win
        k: v for k, v in of(exts).items() if k not in core and k not in own
    }
    flakes = {}
    for name, code in fp.FLAKE8_PYFLAKES_CODES.items():
        msg = getattr(pyflakes.messages, name).message
        if code == "F823":
            msg = msg.replace("{0}", "%s")  # 'defined in enclosing scope on line %r' or a builtin
        flakes[code] = (None, msg)
    flakes["C901"] = (None, mccabe.McCabeChecker._error_tmpl[5:])
    flakes["E999"] = (None, "%s: %s")
    return {
        "pylint": core,
        "extensions": extensions,
        "edulint": {k: v for k, v in own.items() if k not in core},
        "flake8": flakes,
    }


def arguments(convs: List[Tuple[Optional[str], str]]) -> Iterator[Tuple[Any, ...]]:
    def alphabet(conv: str, words: List[str]) -> List[Any]:
        return words if conv[-1] in "sra" else NUMBERS[: len(words)]

    if len(convs) <= 2 or common.THOROUGH and len(convs) == 3:
        yield from itertools.product(*(alphabet(c, WORDS) for _n, c in convs))
        return
    yield from itertools.product(*(alphabet(c, FEW) for _n, c in convs[:5]), *([[1]] * len(convs[5:])))
    for i in range(len(convs)):
        for w in alphabet(convs[i][1], WORDS):
            yield tuple(w if j == i else alphabet(convs[j][1], ["z"])[0] for j in range(len(convs)))


BAD_TEMPLATES = ["{", "}", "a {x}", "{99}", "{0:d}", "{0!z}", "{0.x}", "{0[x]}", "{} {0}"]


def esc(s: str) -> str:
    return s.replace("\\", "\\\\").replace('"', '\\"')


def config_of(translations: Dict[str, str], extracts: Dict[str, Dict[str, Dict[str, str]]], form: str):
    """the translations as EduLint holds them, read from a configuration or a language file"""
    from edulint.config.config import get_config_many

    d = common.fresh_dir("c11")
    lines = [f'"{k}" = "{esc(v)}"' for k, v in translations.items()]
    for key, orders in extracts.items():
        for order, words in orders.items():
            table = ", ".join(f'"{esc(w)}" = "{esc(t)}"' for w, t in words.items())
            lines.append(f'translated_extracts."{key}".{order} = {{ {table} }}')
    text = "\n".join(lines) + "\n"
    common.write(os.path.join(d, "f.py"), "x = 1\n")
    options = ["config-file=" + os.path.join(d, "c.toml")]
    if form == "config":
        common.write(os.path.join(d, "c.toml"), "[language-translations]\n" + text)
    else:
        common.write(os.path.join(d, "c.toml"), 'language-file = "lang.toml"\n')
        common.write(os.path.join(d, "lang.toml"), text)
    ((_f, _c, result),) = get_config_many([os.path.join(d, "f.py")], options)
    shutil.rmtree(d, ignore_errors=True)
    return result


def template(n: int, order: Optional[List[int]] = None) -> str:
    if n == 0:
        return "T"
    return "T" + "".join(f"⟦{i}:{{{i}}}⟧" for i in (order or range(n)))


def worker(job):
    from edulint.linters import Linter
    from edulint.linting.linting import translate
    from edulint.linting.problem import Problem

    kind, msgs = job
    by = {code: parts_of(msg) for _s, code, _sym, msg in msgs}
    out = []
    n = 0
    distinct = set()

    def show(translations: Any, source: str, code: str, symbol: Optional[str], text: str) -> str:
        linter = Linter.FLAKE8 if source == "flake8" else Linter.PYLINT
        return translate(
            translations, Problem(linter, None, "f.py", 1, 0, code, text, symbol=symbol)
        ).text

    def texts(code: str, msg: str) -> Iterator[Tuple[Tuple[Any, ...], str]]:
        lits, convs = by[code]
        if not convs:
            yield (), msg.replace("%%", "%")
            return
        for args in arguments(convs):
            shown = tuple(c % a for (_n, c), a in zip(convs, args))
            text = lits[0] + "".join(s + l for s, l in zip(shown, lits[1:]))
            yield shown, text

    if kind == "plain":
        for form in ("config", "file"):
            for named in ("code", "symbol"):
                table = {
                    (code if named == "code" or sym is None else sym): template(len(by[code][1]))
                    for _s, code, sym, _m in msgs
                }
                translations = config_of(table, {}, form)
                for source, code, sym, msg in msgs:
                    if named == "symbol" and sym is None:
                        continue
                    lits, convs = by[code]
                    for shown, text in texts(code, msg):
                        n += 1
                        got = show(translations, source, code, sym, text)
                        if convs:
                            ways = list(itertools.islice(decompositions(text, lits), 200))
                            wanted = ["T" + "".join(f"⟦{i}:{e}⟧" for i, e in enumerate(w)) for w in ways]
                        else:
                            wanted = ["T"]
                        distinct.add((code, got))
                        if got not in wanted:
                            out.append(((kind, form, named, code, text), got, wanted[:3]))
    elif kind == "orders":
        # other orders, repetitions and omissions; an untranslated message; another message's code
        for source, code, sym, msg in msgs:
            lits, convs = by[code]
            k = len(convs)
            if k == 0 or k > 3:
                continue
            for order in itertools.chain.from_iterable(
                itertools.product(range(k), repeat=r) for r in range(1, k + 1)
            ):
                translations = config_of({code: template(k, list(order)), "X0000": "no"}, {}, "config")
                for shown, text in itertools.islice(texts(code, msg), 6):
                    if len(list(itertools.islice(decompositions(text, lits), 2))) != 1:
                        continue
                    n += 1
                    got = show(translations, source, code, sym, text)
                    want = "T" + "".join(f"⟦{i}:{shown[i]}⟧" for i in order)
                    distinct.add((code, got))
                    if got != want:
                        out.append(((kind, "config", "code", code, text), got, [want]))
                    other = show(translations, source, "Y0000", "other", text)
                    if other != text:
                        out.append(((kind, "config", "other", code, text), other, [text]))
    elif kind == "words":
        # translated extracts: the word in that place only, by the very word only
        for source, code, sym, msg in msgs:
            lits, convs = by[code]
            k = len(convs)
            if k == 0 or k > 4:
                continue
            for i in range(k):
                word = convs[i][1] % ("before" if convs[i][1][-1] in "sra" else 7)
                key = sym if sym and i % 2 else code
                translations = config_of(
                    {key: template(k)}, {key: {str(i + 1): {word: "W", word + "x": "no"}}}, "file" if i else "config"
                )
                for args in itertools.product(
                    *(["before", "Before", "y"] if c[-1] in "sra" else [7, 8] for _n, c in convs)
                ):
                    shown = [c % a for (_n, c), a in zip(convs, args)]
                    text = lits[0] + "".join(s + l for s, l in zip(shown, lits[1:]))
                    if len(list(itertools.islice(decompositions(text, lits), 2))) != 1:
                        continue
                    n += 1
                    got = show(translations, source, code, sym, text)
                    want = "T" + "".join(
                        f"⟦{j}:{'W' if j == i and s == word else s}⟧" for j, s in enumerate(shown)
                    )
                    distinct.add((code, got))
                    if got != want:
                        out.append(((kind, "", str(i + 1), code, text), got, [want]))
    elif kind == "bad":
        for source, code, sym, msg in msgs:
            for bad in BAD_TEMPLATES:
                translations = config_of({code: bad}, {}, "config")
                for shown, text in itertools.islice(texts(code, msg), 2):
                    n += 1
                    with common.LogCapture("WARNING") as log:
                        got = show(translations, source, code, sym, text)
                    want = text if by[code][1] else bad
                    if got != want:
                        out.append(((kind, "", bad, code, text), got, [want]))
                    elif by[code][1] and not log.records:
                        out.append(((kind, "", bad, code, text), "not reported", ["a warning"]))
    return kind, n, len(distinct), out


# --- part 2: messages of real programs

PROGRAMS = {
    "names": "def f(a, foo):\n    x = a + foo\n    bar = x\n    return bar\n",
    "bool": "def f(a, b):\n    return [a == True, a == False, b != True, b != False, a == None, None != b]\n",
    "builtin": "def sum(list):\n    len = list\n    return len\n",
    "ops": "def f(x, a):\n    y = x * x * x * x\n    if not(y):\n        return a + a + a + a\n    return x\n",
    "imports": "import os, sys\nfrom math import *\nfrom ib111 import week_01\nimport json as j\n",
    "augment": "def f(x):\n    x = x + 1\n    y = x\n    y = y // 2\n    return x, y\n",
    "syntax": "def f(:\n    pass\n",
    "magic": "def f(c):\n    if ord(c) >= 97 and ord(c) <= 122:\n        return chr(ord(c) + 65)\n    return c\n",
    "globals": "G = 0\n\n\ndef f():\n    global G\n    G = 1\n    return G\n\n\ndef g():\n    global G\n    G += 2\n",
    "ifs": "def f(x):\n    if x > 0:\n        return True\n    else:\n        return False\n\n\ndef g(x):\n    if x:\n        print(1)\n        print(x)\n        return 2\n    else:\n        print(1)\n        print(x)\n        return 3\n",
    "seq": "def f(x):\n    if x == 1:\n        print('a')\n    elif x == 2:\n        print('a')\n    elif x == 3:\n        print('a')\n    return x\n",
    "blocks": "def f(a, b, c, d):\n    print(a)\n    a += 1\n    print(a * 2)\n    print(b)\n    b += 1\n    print(b * 2)\n    print(c)\n    c += 1\n    print(c * 2)\n    print(d)\n    d += 1\n    print(d * 2)\n    return a, b, c, d\n",
    "loops": "def f(xs):\n    for i in range(len(xs)):\n        print(xs[i])\n    i = 0\n    while i < 10:\n        print(i)\n        i += 1\n    while True:\n        if i > 3:\n            break\n        i += 1\n",
    "percent": "def f(x):\n    print('%s %s' % (x,))\n    print('%(a)s' % {'b': x})\n    print('{} {}'.format(x))\n    print('%z' % x)\n    print('{a}'.format(b=1))\n    return f''\n",
    "undefined": "def f():\n    return y\n\n\ndef g():\n    print(z)\n    z = 1\n    t: int\n\n\ndef g():\n    return 'a' is 'b'\n",
    "spaces": "def f( x ):\n  y = [1,2]\n  return x [0]+ y  [1], {'a':1}, x<3\nclass A: pass\nx=1;y = 2\nl = 1\n",
    "conditions": "def f(x):\n    if x > 3 and x > 5:\n        return 1\n    elif x == 6 or x == 7:\n        return 2\n    if not x == 3:\n        return x == x\n    return None\n",
    "regex": "import re\n\nX = re.compile('\\d')\n",
    "long": "def f():\n    return '" + "a" * 120 + "'\n",
    "multi-line": "def f(x, y):\n    if (x ==\n            1 and\n            y):\n        return True\n    return False\n",
}


def real(job):
    import edulint

    name, text, catalogue_ = job
    d = common.fresh_dir("c11r")
    path = common.write(os.path.join(d, "f.py"), text)
    options = ["config-file=empty", "pylint=--enable=all", "flake8=--ignore=", "flake8=--select=A,B,C,D,E,F,W", "flake8=--max-complexity=1"]
    table = {}
    for _source, msgs in catalogue_.items():
        for i, (code, (sym, msg)) in enumerate(msgs.items()):
            table[sym if sym and i % 2 else code] = template(len(parts_of(msg)[1]))
    for code in ("E1", "E2", "E3", "E4", "E5", "E7", "W"):
        del code
    common.write(os.path.join(d, "lang.toml"), "".join(f'"{k}" = "{esc(v)}"\n' for k, v in table.items()))
    plain = edulint.lint_many(edulint.get_config_many([path], options))
    translated = edulint.lint_many(
        edulint.get_config_many([path], options + ["language-file=" + os.path.join(d, "lang.toml")])
    )
    out = []
    key = lambda p: (str(p.source), p.line, p.column, p.code)  # noqa: E731
    a, b = sorted(plain, key=lambda p: (key(p), p.text)), sorted(translated, key=lambda p: (key(p), p.text))
    if sorted(map(key, a)) != sorted(map(key, b)):
        out.append((name, "translations change which problems are reported", ""))
        return len(plain), set(), out
    by_key: Dict[Any, List[Any]] = {}
    for p in b:
        by_key.setdefault(key(p), []).append(p.text)
    for p in a:
        msg = next((m[p.code][1] for m in catalogue_.values() if p.code in m), None)
        texts = by_key[key(p)]
        if msg is None:
            wanted = [p.text]
        else:
            lits, convs = parts_of(msg)
            text = p.text.replace("single-character variable ", "").replace(", choose a more descriptive name", "") if p.code == "C0104" else p.text
            wanted = ["T" + "".join(f"⟦{i}:{e}⟧" for i, e in enumerate(w)) for w in decompositions(text, lits)]
            if not convs:
                wanted = ["T"]
        if not any(t in wanted for t in texts):
            out.append((name, f"line {p.line}: {p.code} {p.text!r} is shown as {texts}", wanted[:2]))
    shutil.rmtree(d, ignore_errors=True)
    return len(plain), {p.code for p in plain}, out


def examples():
    """pycodestyle's own examples: {code: program}"""
    import inspect

    import pycodestyle

    for name, fn in sorted(vars(pycodestyle).items()):
        if inspect.isfunction(fn) and fn.__doc__:
            for m in re.finditer(r"^\s*([EW]\d\d\d): (.*)$", fn.__doc__, re.MULTILINE):
                code, text = m.groups()
                yield code, text.replace("\\n", "\n").replace("\\t", "\t").replace("\\s", " ") + "\n"


# messages of pycodestyle with a placeholder: what the users have to be able to use of them
STYLE = {
    "E111": r"indentation is not a multiple of (\d+)",
    "E201": r"whitespace after '(.)'",
    "E202": r"whitespace before '(.)'",
    "E203": r"whitespace before '(.)'",
    "E211": r"whitespace before '(.)'",
    "E231": r"missing whitespace after ('.')",
    "E241": r"multiple spaces after '(.)'",
    "E242": r"tab after '(.)'",
    "E301": r"expected (\d+) blank line, found 0",
    "E302": r"expected (\d+) blank lines, found (\d+)",
    "E303": r"too many blank lines \((\d+)\)",
    "E305": r"expected (\d+) blank lines after class or function definition, found (\d+)",
    "E306": r"expected (\d+) blank line before a nested definition, found 0",
    "E501": r"line too long \((\d+) > (\d+) characters\)",
    "E711": r"comparison to (\w+) should be 'if cond is (.*):'",
    "E712": r"comparison to (\w+) should be 'if(.*) cond:'",
    "E741": r"ambiguous variable name '(.)'",
    "E742": r"ambiguous class definition '(.)'",
    "E743": r"ambiguous function definition '(.)'",
    "W605": r"invalid escape sequence '\\(.)'",
    "W505": r"doc line too long \((\d+) > (\d+) characters\)",
}


def style(job):
    import edulint

    code, text = job
    d = common.fresh_dir("c11s")
    path = common.write(os.path.join(d, "f.py"), text)
    options = ["config-file=empty", "flake8=--ignore=", f"flake8=--select={code}", "flake8=--max-doc-length=20"]
    groups = re.compile(STYLE[code]).groups if code in STYLE else 0
    common.write(os.path.join(d, "lang.toml"), f'{code} = "{template(groups)}"\n')
    try:
        plain = edulint.lint_many(edulint.get_config_many([path], options))
    except edulint.linting.linting.EduLintLinterFailedException:
        return 0, set(), []  # not a matter of translations: C12
    translated = edulint.lint_many(
        edulint.get_config_many([path], options + ["language-file=" + os.path.join(d, "lang.toml")])
    )
    shutil.rmtree(d, ignore_errors=True)
    out = []
    if len(plain) != len(translated):
        return len(plain), set(), [(code, "different problems", "")]
    for p, t in zip(plain, translated):
        if p.code != code:
            continue  # a syntax error of the example
        if code in STYLE:
            m = re.fullmatch(STYLE[code], p.text)
            want = "T" + "".join(f"⟦{i}:{e}⟧" for i, e in enumerate(m.groups())) if m else None
        else:
            want = "T"
        if want is not None and t.text != want:
            out.append((code, f"{p.text!r} is shown as {t.text!r}", want))
    return len(plain), {p.code for p in plain}, out


def run(check: common.Check) -> None:
    cat = catalogue()
    msgs = [(s, code, sym, msg) for s, m in cat.items() for code, (sym, msg) in m.items()]
    check.outcome("messages", len(msgs))
    check.outcome("messages with extracts", sum(1 for m in msgs if parts_of(m[3])[1]))
    jobs = [
        (kind, ch) for kind in ("plain", "orders", "words", "bad") for ch in common.chunks(msgs, 25)
    ]
    for kind, n, distinct, out in common.pmap(worker, jobs):
        check.add(evaluations=n, distinct_nontrivial=distinct)
        check.outcome(kind, n)
        for case, got, want in out:
            check.violation(
                common.digest(case), f"{case[3]} {case[4]!r} ({case[:3]}) is shown as {got!r}, expected {want}", [case, got, want]
            )
    codes: set = set()
    for n, seen, out in common.pmap(real, [(name, text, cat) for name, text in PROGRAMS.items()]):
        check.add(evaluations=n)
        codes |= seen
        for case in out:
            check.violation(common.digest(case[:2]), f"program {case[0]!r}: {case[1]}, expected {case[2]}", case)
    for n, seen, out in common.pmap(style, sorted(set(examples()))):
        check.add(evaluations=n)
        codes |= seen
        for case in out:
            check.violation(common.digest(case[:2]), f"{case[0]}: {case[1]}, expected {case[2]}", case)
    check.outcome("codes reported by real programs", len(codes))
    check.add(distinct_nontrivial=len(codes))
    check.rule = (
        "every message defined by the linters x every combination of arguments (two positions in full, more "
        "with a smaller alphabet) x translation by id or symbol, from a configuration or a language file; "
        "every order of extracts; every translated word and position; unusable translations; programs linted "
        "for real. distinct_nontrivial counts distinct shown texts"
    )
    check.sample("message", msgs[0])
    check.sample("message", msgs[-1])
