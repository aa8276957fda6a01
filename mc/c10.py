"""C10: what the linters report is what the user gets, but for the documented overrides and options.

The reference runs pylint and flake8 directly on the same files with the same arguments, and applies the
table of overrides and the documented meaning of the options. Programs are all pairs of statements sharing
a line, on neighbouring lines, or on the same line of different files, under every combination of options.
Part 2 attributes problems to what enabled them."""
from __future__ import annotations

import builtins
import io
import itertools
import json
import os
import re
import shutil
import string
import sys
from collections import Counter
from typing import Any, Dict, List, Optional, Tuple

from mc import common

LEVEL = "exploration"

# overridden: overriders on the same line of the same file
OVERRIDES = {
    "C0104": {"R6307", "R6609", "F841", "W0613"},
    "C0103": {"R6307", "R6609", "F841", "W0613"},
    "E225": {"R6609"},
    "R1705": {"R1703", "R6201"},
    "R6610": {"R6608"},
    "W0107": {"W0101"},
    "C0201": {"C0206"},
    "R6216": {"R6211", "R6212", "R6214", "R6215"},
    "R6213": {"R6216"},
    "R6221": {"R6222"},
    "R6218": {"R6222"},
}

SIMPLE = [
    "x=x+1", "x = x * 2", "i = 5", "foo = x", "A = 1", "pass", "return x", "y = [x] * 1", "y = [[]] * x",
    "x == True", "y = x == False", "y = not(x)", "y = x * x * x", "y = x * x * x * x", "y = x.a * x.a * x.a * x.a",
    "sum = x", "import os", "import ib111", "from ib111 import print_all as pr", "y = x + x + x", "print(x)", "z = x if x else None",
    "y = x > 3 and x > 5", "y = x == 1 or x == 2", "y = (x >= 2 and x != 2)", "y = -x if x < 0 else x", "pass ; pass",
]
COMPOUND = [
    "for k in x.keys():\n        print(x[k])",
    "for k in x.keys():\n        print(k)",
    "for i in range(len(x)):\n        print(x[i])",
    "for foo in range(len(x)):\n        print(x[foo])",
    "for i, l in enumerate(x):\n        print(i)",
    "if x:\n        return True\n    else:\n        return False",
    "if x > 3:\n        return x\n    else:\n        return 2",
    "if x:\n        y = True\n    else:\n        y = False",
    "if not(x):\n        return 1",
    "if x > 0:\n        return 1\n    elif x <= 0:\n        return 2",
    "if x > 0:\n        return 1\n    elif x > 2:\n        return 2\n    elif x > 1:\n        return 3",
    "if x > 0 and x > 1:\n        return 1",
    "if x < y:\n        x = y",
    "while x:\n        return 1\n        pass",
    "raise ValueError(x)\n    pass",
    "if x == True:\n        pass",
    "if x > 1 and x != 1:\n        return 1",
    "if x > 1 or x == 1:\n        return 1",
    "if x >= y and x <= y:\n        return 1",
    "if x > 0 and x > 0:\n        return 1",
    "if x > y:\n        y = x\n    x=x+1",
]
ARGS = ["x", "x, foo", "x, l, sum"]
ENABLED = (
    "C0104,C0103,R6307,R6609,W0613,R1705,R1703,R6201,R6610,R6608,W0107,W0101,C0201,C0206,R6216,R6211,R6212,"
    "R6213,R6214,R6215,R6221,R6222,R6218,R6607,C0325,W0622,W0621,R1714,C0411,R6101,W0104"
)

OPTIONS: List[List[str]] = [
    list(o)
    for o in itertools.product(
        ["", "allowed-onechar-names=i", "allowed-onechar-names=xyzk", "allowed-onechar-names="],
        ["", "disallowed-builtin-names=sum", "disallowed-builtin-names=len,id"],
        ["", "set-groups=enhancement", "set-groups=complexity", "set-groups=complexity,enhancement"],
    )
]


def raw(files: List[str], pylint_args: List[str], flake8_args: List[str]) -> List[Tuple[Any, ...]]:
    from flake8.main.application import Application
    from pylint.lint import Run
    from pylint.reporters.json_reporter import JSON2Reporter

    out = io.StringIO()
    Run(["--recursive=y"] + pylint_args + files, reporter=JSON2Reporter(out), exit=False)
    res = [
        ("pylint", m["path"], m["line"], m["column"], m["messageId"], m["message"])
        for m in json.loads(out.getvalue())["messages"]
    ]
    stdout, sys.stdout = sys.stdout, io.StringIO()
    try:
        try:
            Application()._run(["--format=json"] + flake8_args + files)
        except SystemExit:
            pass
        text = sys.stdout.getvalue()
    finally:
        sys.stdout = stdout
    for name, problems in json.loads(text).items():
        for p in problems:
            res.append(("flake8", name, p["line_number"], p["column_number"], p["code"], p["text"]))
    return res


MAYBE = object()


def tweak(p: Tuple[Any, ...], options: Dict[str, str]) -> Any:
    """the text shown, None if the problem is not to be reported, MAYBE if that is not determined"""
    source, _f, _l, _c, code, text = p
    if source == "pylint" and code == "C0104":
        m = re.fullmatch(r'Disallowed name "(.*)"', text)
        name = m.group(1)
        if len(name) == 1:
            if name in (options.get("allowed-onechar-names") or ""):
                return None
            return f'Disallowed single-character variable name "{name}", choose a more descriptive name'
    if source == "flake8" and code == "F401":
        return None if re.match("'ib111", text) else text
    if source == "pylint" and code == "R6607":
        groups = (options.get("set-groups") or "").split(",")
        if "enhancement" in groups or groups != [""]:
            return text
        return text if re.search(r" in [^.]*\*[^.]*\*", text) else (MAYBE if "." in text[:-1] else None)
    if source == "pylint" and code == "C0325":
        return None if "'not'" in text else text
    if source == "pylint" and code == "W0622":
        allowed = options.get("disallowed-builtin-names") or ""
        name = re.fullmatch(r"Redefining built-in '(.*)'", text).group(1)
        return text if not allowed or name in allowed.split(",") else None
    if source == "flake8" and code == "E712":
        m = re.fullmatch(r"(comparison to \w+ should be )'if cond is .*?:' or ('if .*')", text)
        return m.group(1) + m.group(2)
    return text


def expected(problems: List[Tuple[Any, ...]], options: Dict[str, str]):
    on_line: Dict[Any, set] = {}
    for p in problems:
        on_line.setdefault((p[1], p[2]), set()).add(p[4])
    want, maybe = Counter(), Counter()
    dropped = Counter()
    for p in problems:
        by = OVERRIDES.get(p[4], set()) & on_line[(p[1], p[2])]
        if by:
            dropped["overridden " + p[4]] += 1
            continue
        text = tweak(p, options)
        if text is None:
            dropped["by option " + p[4]] += 1
        elif text is MAYBE:
            maybe[p] += 1
        else:
            want[p[:5] + (text,)] += 1
    return want, maybe, dropped


def programs() -> List[str]:
    res = []
    for a, b in itertools.product(SIMPLE, repeat=2):
        res.append(f"    {a}; {b}\n")
    for a, b in itertools.product(SIMPLE + COMPOUND, repeat=2):
        if a in COMPOUND or b in COMPOUND:
            res.append(f"    {a}\n    {b}\n")
    return res


def case(job):
    import edulint

    options, bodies = job
    d = common.fresh_dir("c10")
    os.chdir(d)
    files = []
    per = 60
    for k, ch in enumerate(common.chunks(bodies, per)):
        lines = "import sys\n\n\n"
        for i, body in enumerate(ch):
            lines += f"def fun{i}({ARGS[(i + k) % 3]}):\n{body}\n\n"
        name = f"m{k}.py"
        common.write(name, lines)
        files.append(name)
    opts = ["config-file=empty", f"pylint=--enable={ENABLED}", "pylint=--good-names=x,d", "flake8=--ignore=", "flake8=--select=E,F,W"]
    opts += [o for o in options if o]
    config = edulint.get_config_many(files, opts)
    ((_files, iconfig, _tr),) = config
    by_name = {a.option.to_name(): a.val for a in iconfig.config}
    problems = raw(files, list(by_name["pylint"]), list(by_name["flake8"]))
    chosen = dict(o.split("=", 1) for o in options if o)
    want, maybe, dropped = expected(problems, chosen)
    got = Counter(
        (str(p.source), p.path, p.line, p.column, p.code, p.text) for p in edulint.lint_many(config)
    )
    out = []
    for p in (want - got).keys():
        out.append(("missing", p, options))
    for p in ((got - want) - maybe).keys():
        out.append(("not expected", p, options))
    texts = {}
    for name in files:
        with open(name, encoding="utf-8") as f:
            texts[name] = f.read().split("\n")
    out = [(what, p, o, texts[p[1]][p[2] - 1]) for what, p, o in out]
    os.chdir("/")
    shutil.rmtree(d, ignore_errors=True)
    return len(bodies), len(problems), dropped, out


def builtin_names() -> List[str]:
    return [n for n in dir(builtins) if n.isidentifier() and not n.startswith("_") and n not in ("None", "True", "False")]


def names_case(job):
    """every one-character name, every built-in name"""
    import edulint

    kind, value = job
    d = common.fresh_dir("c10n")
    path = os.path.join(d, "module.py")
    out = []
    if kind == "onechar":
        letters = string.ascii_lowercase
        common.write(path, "".join(f"def fun{i}():\n    {c} = 1\n    return {c}\n" for i, c in enumerate(letters)))
        opts = ["config-file=empty", f"allowed-onechar-names={value}"]
        got = {letters[(p.line - 1) // 3] for p in edulint.lint_many(edulint.get_config_many([path], opts)) if p.code == "C0104"}
        want = {c for c in letters if c not in value}
    else:
        names = builtin_names()
        common.write(path, "".join(f"def fun{i}({n}):\n    return {n}\n" for i, n in enumerate(names)))
        opts = ["config-file=empty", "pylint=--enable=redefined-builtin"]
        if value is not None:
            opts.append(f"disallowed-builtin-names={value}")
        got = {names[(p.line - 1) // 2] for p in edulint.lint_many(edulint.get_config_many([path], opts)) if p.code == "W0622"}
        want = {n for n in names if not value or n in value.split(",")}
        if not value:
            want &= got | {"sum", "len", "list", "id"}
    shutil.rmtree(d, ignore_errors=True)
    if got != want:
        out.append((kind, value, {"missing": sorted(want - got), "not expected": sorted(got - want)}))
    return 1, out


# --- part 2: what enabled a problem

CODES = [("pylint", "W0107", "unnecessary-pass"), ("pylint", "R6609", "use-augmented-assign"), ("flake8", "E711", None)]
SOURCES = ["base", "top", "named", "group", "unused group", "option", "infile", "cmd", "all"]


def enabler_case(job):
    import edulint

    out = []
    n = 0
    for (linter, code, symbol), how, source, noise, apply in job:
        ident = symbol if how == "symbol" else code
        d = common.fresh_dir("c10e")
        key = "enable" if linter == "pylint" else how if how in ("select", "extend-select") else "extend-select"
        other = "W0702" if linter == "pylint" else "E713"
        ids = {"only": ident, "first": f"{ident},{other}", "last": f"{other},{ident}"}[noise]
        tables: Dict[str, List[str]] = {"top": [], "base": []}
        top = ['config-file = "base.toml"']
        base: List[str] = []
        infile, cmd = [], []
        want: Optional[str] = None
        arg = f"{linter}=--{key}={ids}"
        if source == "base":
            tables["base"].append(f'[{linter}]\n{key} = "{ids}"')
            want = "base"
        elif source == "top":
            tables["top"].append(f'[{linter}]\n{key} = "{ids}"')
            want = "top"
        elif source == "named":
            top.append('default-enabler-name = "the course"')
            tables["top"].append(f'[{linter}]\n{key} = "{ids}"')
            want = "the course"
        elif source in ("group", "unused group"):
            # a group of the inherited or of this configuration; another one has the same check
            tables["base" if apply else "top"].append(f'[translations.g.{linter}]\n{key} = "{ids}"')
            want = "g"
            if source == "unused group":
                tables["top"].append(f'[translations.h.{linter}]\n{key} = "{ids}"')
            (cmd if apply else infile).append("set-groups=g")
        elif source == "option":
            tables["top"].append(f'[translations.no-flake8.{linter}]\n{key} = "{ids}"')
            tables["top"].append(f'[translations.disallowed-builtin-names.{linter}]\n{key} = "{ids}"')
            infile.append("disallowed-builtin-names=sum")
            want = "disallowed-builtin-names"
        elif source == "infile":
            infile.append(arg)
            want = "in-file"
        elif source == "cmd":
            cmd.append(arg)
            want = "cmd"
        elif source == "all":
            tables["top"].append(f'[translations.h.{linter}]\n{key} = "{ids}"')
            cmd.append("pylint=--enable=all" if linter == "pylint" else "flake8=--extend-select=E")
            want = None
        # unrelated requests elsewhere
        tables["base"].append('[translations.n.pylint]\nenable = "W0104"')
        if source != "infile":
            infile.append("pylint=--enable=W0109")
        if source != "cmd":
            cmd.append("pylint=--enable=W0106")
        common.write(os.path.join(d, "base.toml"), "\n".join(base + tables["base"]) + "\n")
        common.write(os.path.join(d, "top.toml"), "\n".join(top + tables["top"]) + "\n")
        path = common.write(
            os.path.join(d, "f.py"),
            "".join(f"# edulint: {a}\n" for a in infile) + "def fun(x):\n    x = x + 1\n    pass\n    return x == None\n",
        )
        opts = ["config-file=" + os.path.join(d, "top.toml"), "flake8=--ignore="] + cmd
        problems = [p for p in edulint.lint_many(edulint.get_config_many([path], opts)) if p.code == code]
        n += 1
        shutil.rmtree(d, ignore_errors=True)
        case_ = [code, how, source, noise, apply]
        if len(problems) != 1:
            out.append((case_, f"{code} reported {len(problems)} times"))
        elif problems[0].enabled_by != want:
            out.append((case_, f"attributed to {problems[0].enabled_by!r} instead of {want!r}"))
    return n, out


def run(check: common.Check) -> None:
    bodies = programs()
    options = OPTIONS if common.THOROUGH else OPTIONS[::5] + [OPTIONS[-1]]
    jobs = []
    for o in options:
        size = 360
        jobs += [(o, ch) for ch in common.chunks(bodies, size)]
    kinds: Counter = Counter()
    for n, problems, dropped, out in common.pmap(case, jobs):
        check.add(evaluations=n, distinct_nontrivial=n)
        check.outcome("problems the linters reported", problems)
        kinds += dropped
        for what, p, o, line in out:
            check.violation(
                common.digest([what, p[4], o, line.strip()]), f"{what}: {p[4]} {p[5]!r} for {line.strip()!r} with {o}", [what, p, o, line]
            )
    for k, v in kinds.items():
        check.outcome(k, v)
    subsets = ["".join(s) for k in range(3) for s in itertools.combinations("aijlxz", k)] + [string.ascii_lowercase, "ABC"]
    cases = [("onechar", s) for s in subsets]
    names = builtin_names()
    cases += [("builtin", v) for v in [None, "", "nosuch", "sum,len", "list,dict,id,type"]]
    # every name that is a part of another one or has one as its part, the rest in pairs
    parts = [n for n in names if any(n != m and (n in m or m in n) for m in names)]
    cases += [("builtin", n) for n in (names if common.THOROUGH else parts)]
    cases += [("builtin", f"{a},{b}") for a, b in zip(names, names[1:])][:: 1 if common.THOROUGH else 4]
    for n, out in common.pmap(names_case, cases):
        check.add(evaluations=n)
        for kind, value, diff in out:
            check.violation(common.digest([kind, value]), f"{kind} names with {value!r}: {diff}", [kind, value, diff])
    enablers = [
        (c, how, source, noise, apply)
        for c in CODES
        for how in (("code", "symbol") if c[0] == "pylint" else ("select", "extend-select"))
        for source in SOURCES
        for noise in ("only", "first", "last")
        for apply in (False, True)
        if not (source == "all" and how == "select")
    ]
    for n, out in common.pmap(enabler_case, list(common.chunks(enablers, 20))):
        check.add(evaluations=n, distinct_nontrivial=n)
        for case_, problem in out:
            check.violation(common.digest(case_), f"{case_}: {problem}", [case_, problem])
    check.rule = (
        "all ordered pairs of statements from an alphabet sharing a line or on neighbouring lines (and, as "
        "modules are linted together, on the same line of different files) x combinations of the options; all "
        "one-character and built-in names x sets of allowed ones; every source of enabling x spelling. "
        "distinct_nontrivial counts different programs with options, and enablers"
    )
    check.sample("program", bodies[5])
    check.sample("enabler", enablers[7])
