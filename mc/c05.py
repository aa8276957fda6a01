"""C05: in-file configuration that is to be ignored has no effect, or is reported.

Part 1 enumerates comments (keywords, spacings, arguments, surrounding text, placements) and lints every
program with and without each of them: a comment the real linters obey must be reported, and only for the
linters asked for. Part 2 enumerates in-file options under every way of telling edulint to ignore them."""
from __future__ import annotations

import itertools
import os
import re
import shutil
from collections import Counter
from typing import Any, Dict, List, Optional, Tuple

from mc import common

LEVEL = "exploration"

# --- part 1: comments for pylint and flake8

NOQA = [
    "noqa", "NOQA", "NoQa", "noqa:E711", "noqa: E711", "noqa: E711,E712", "noqa:E711 W291", "noqa : E711",
    "noqa: e711", "noqa because", "noqa;", "noqa:", "noqa: E7", "noqa: W605", "nonoqa", "noqa-ish", "no qa",
]
FLAKE8_FILE = [
    f"{k}{sep}{ws}noqa{tail}"
    for k in ("flake8", "FLAKE8", "Flake8")
    for sep in (":", "=")
    for ws in ("", " ", "  ", "\t")
    for tail in ("", ": E711", ":E711,E712", " and more")
]
PRAGMAS = [
    f"pylint:{ws}{key}{eq}{arg}{tail}"
    for ws in ("", " ", "\t", "  ")
    for key in ("disable", "enable", "disable-next", "disable-msg", "enable-msg")
    for eq in ("=", " = ")
    for arg in ("W0107", "unnecessary-pass", "all", "C0116,W0107", "no-self-argument, W0107")
    for tail in ("", " because", "; why", " # why", " enable=C0103")
] + [
    f"pylint:{ws}{key}" for ws in ("", " ", "\t")
    for key in ("skip-file", "disable-all", "foo disable=W0107", "disable=W0107 disable=C0116", "SKIP-FILE",
                "disable W0107", "disable", "disabled=W0107", "skip-file,", "skip-files", "disable=nosuch")
] + ["Pylint: disable=W0107", "PYLINT: disable=all", "pylint disable=W0107", "pylint : disable=W0107",
     "pylint=disable=W0107", "pylint:disable-next=W0107"]
BEFORE = ["# ", "#", "#  ", "#\t", "## ", "#: ", "# text ", "# text # ", "# text; ", "#text,", "# type: ignore # ", "#!"]

# placement -> the program with C for the comment
PLACES = {
    "after the statement": 'def f(x):\n    """Doc."""\n    pass  C\n    return x == None\n',
    "after the comparison": 'def f(x):\n    """Doc."""\n    pass\n    return x == None  C\n',
    "first line": 'C\ndef f(x):\n    """Doc."""\n    pass\n    return x == None\n',
    "own line in body": 'def f(x):\n    """Doc."""\n    C\n    pass\n    return x == None\n',
    "last line": 'def f(x):\n    """Doc."""\n    pass\n    return x == None\n    C\n',
    "after def": 'def f(x):  C\n    """Doc."""\n    pass\n    return x == None\n\n\ndef g(l):\n    pass\n',
    "in brackets": 'def f(x):\n    """Doc."""\n    pass\n    return (x  C\n            == None)\n',
    "after multiline string": 'def f(x):\n    """Doc."""\n    y = """\n    """ + str(x == None)  C\n    pass\n    return y\n',
    "in multiline string": 'def f(x):\n    """Doc."""\n    y = """\n    C\n    """ + str(x == None)\n    pass\n    return y\n',
    "three comments": 'def f(x):\n    """Doc."""\n    pass  C\n    return x == None  C\n\n\ndef g(x):\n    pass  C\n    return x == None  C\n',
    "import": "import sys  C\nimport os\n\n\ndef f(x):\n    pass\n    return x == None\n",
}


def neutral(comment: str) -> str:
    return "#" + "." * (len(comment.expandtabs(1)) - 1)


def lint_dir(files: Dict[str, str], options: List[str], extra: Optional[Dict[str, str]] = None):
    """{name: problems} for files linted together from a fresh directory"""
    import edulint

    root = common.fresh_dir("c05")
    for name, text in {**(extra or {}), **files}.items():
        common.write(os.path.join(root, name), text.replace("@", root))
    res = edulint.lint_many(
        edulint.get_config_many(
            [os.path.join(root, n) for n in files], [o.replace("@", root) for o in options]
        )
    )
    got: Dict[str, List[Any]] = {n: [] for n in files}
    for p in res:
        got[os.path.basename(p.path)].append(p)
    shutil.rmtree(root, ignore_errors=True)
    return got


def key(p: Any) -> Tuple[Any, ...]:
    return (str(p.source), p.line, p.column, p.code, p.text, p.enabled_by)


EVERY = (
    "noqa", "noqa: E711", "flake8: noqa", "flake8=noqa", "pylint: disable=W0107", "pylint: skip-file",
    "pylint: enable=C0116", "pylint:disable-next=W0107",
)
MAIN = ("after the statement", "after the comparison", "first line", "own line in body")


# comments for both linters on one line
BOTH = [
    f"{a}{sep}{b}"
    for a, b in itertools.permutations(EVERY, 2)
    if a.startswith("pylint") != b.startswith("pylint")
    for sep in (" # ", "  # ", " #", "; # ")
]


def comments():
    for place in PLACES:
        for body in BOTH:
            if common.THOROUGH or place in MAIN + ("three comments",) and " # " in body:
                yield place, "# " + body
    for place in PLACES:
        for before in BEFORE:
            for body in NOQA + FLAKE8_FILE + PRAGMAS:
                if not common.THOROUGH:
                    # all bodies after the plain marker, all markers with the plain bodies
                    if before not in ("# ", "# text ") and body not in EVERY:
                        continue
                    if body in EVERY and not body.startswith("pylint:") and place not in MAIN and before != "# ":
                        continue
                    if body in PRAGMAS and place not in MAIN and body not in EVERY:
                        continue
                    if body in FLAKE8_FILE and place not in MAIN and body not in EVERY:
                        continue
                    if body in PRAGMAS and PRAGMAS.index(body) % 2 != (before == "# ") and body.endswith((" because", "why", "C0103")):
                        continue
                yield place, before + body


LINTERS = ("pylint", "flake8")
WORDS = {"flake8": "noqa", "pylint": "pylint"}
LIGHT = ["config-file=empty", "pylint=--disable=all", "pylint=--enable=W0107,C0103", "flake8=--select=E711,F401"]


def part1(job: List[Tuple[str, str]]):
    with_, without = {}, {}
    for i, (place, comment) in enumerate(job):
        with_[f"m{i:03d}.py"] = fill(place, comment)
        without[f"m{i:03d}.py"] = fill(place, neutral(comment))
    plain = lint_dir(with_, LIGHT)
    base = lint_dir(without, LIGHT)
    told = {
        asked: lint_dir(with_, LIGHT + [f"ignore-infile-config-for={asked}"])
        for asked in (("pylint", "flake8", "all", "flake8,pylint") if common.THOROUGH else ("pylint", "flake8", "all"))
    }
    bad = []
    stats: Counter = Counter()
    for i, (place, comment) in enumerate(job):
        n = f"m{i:03d}.py"
        lines = [k for k, t in enumerate(fill(place, comment).splitlines(), 1) if comment in t]
        obeyed = set()
        at = set()  # (linter, line of a comment with an effect there)
        for linter in LINTERS:
            a = Counter(key(p) for p in plain[n] if str(p.source) == linter)
            b = Counter(key(p) for p in base[n] if str(p.source) == linter)
            a, b = [Counter({k: v for k, v in c.items() if k[3] not in COSMETIC}) for c in (a, b)]
            if a != b:
                obeyed.add(linter)
                changed = {k[1] for k in (a - b) + (b - a)}
                at |= {(linter, k) for k in lines if len(lines) == 1 or k in changed}
        stats["obeyed by " + (", ".join(sorted(obeyed)) or "none")] += 1
        for asked, got in told.items():
            want = {"pylint", "flake8"} if asked == "all" else set(asked.split(","))
            reported = [p for p in got[n] if p.code == "EDL001"]
            for linter, line in sorted(at):
                if linter in want and not any(p.line == line and WORDS[linter] in p.text.lower() for p in reported):
                    bad.append((place, comment, asked, f"obeyed by {linter} on line {line} but not reported"))
            for p in reported:
                text = fill(place, comment).splitlines()[p.line - 1]
                if not any(WORDS[w] in text.lower() and "#" in text for w in want):
                    bad.append((place, comment, asked, f"reported {p.text!r} on line {text!r}"))
                if str(p.source) != "edulint" or p.enabled_by != "cmd" or text[p.column : p.column + 1] != "#":
                    bad.append((place, comment, asked, f"malformed report {p!r}"))
            if len({(p.line, p.column, p.text) for p in reported}) != len(reported):
                bad.append((place, comment, asked, f"reported twice: {reported}"))
            # nothing else changes
            rest = Counter(key(p) for p in got[n] if p.code != "EDL001")
            if rest != Counter(key(p) for p in plain[n]):
                bad.append((place, comment, asked, "the other problems changed"))
        if any(p.code == "EDL001" for p in plain[n]):
            bad.append((place, comment, "nothing", "reported without being asked"))
    return stats, bad


# what the comment's own text, not its effect, may change
COSMETIC = {"E262", "E265", "E266", "E261", "E501", "W0511", "E101", "W191", "C0301", "E116", "E114", "E115"}


def fill(place: str, comment: str) -> str:
    return re.sub(r"\bC\b", lambda _m: comment, PLACES[place])


# --- part 2: in-file options for edulint itself

INFILE = [
    "pylint=--disable=all", "pylint=--enable=C0116", "flake8=--extend-ignore=E711", "no-flake8",
    "config-file=empty", "config-file=nosuch.toml", "config-file=@/other.toml", "language-file=@/lang.toml",
    "set-groups=enhancement", "allowed-onechar-names=l", "disallowed-builtin-names=len",
    "ignore-infile-config-for=", "ignore-infile-config-for=flake8", "bogus", 'pylint="--enable=C0116',
    "export-groups=x", "PYLINT=--disable=W0107 no-flake8",
]
HOW = {
    **{f"command line: {w}": ([f"ignore-infile-config-for={w}"], None) for w in ("edulint", "all", "pylint,edulint")},
    "command line after more": (["ignore-infile-config-for=flake8", "ignore-infile-config-for=all"], None),
    **{f"selected configuration: {w}": ([f"config-file=@/ign-{w}.toml"], None) for w in ("edulint", "all")},
    **{f"implicit configuration: {w}": ([], f"ign-{w}.toml") for w in ("edulint", "all")},
    "command line over implicit": (["ignore-infile-config-for=all"], "other.toml"),
    "in-file: all": (None, None),
    "in-file over implicit": (None, "other.toml"),
}
PAIRED = ("command line: all", "selected configuration: edulint", "in-file: all")
SUPPORT = {
    "ign-edulint.toml": 'config-file = "default"\nignore-infile-config-for = "edulint"\npylint = "--enable=C0114"\n',
    "ign-all.toml": 'config-file = "default"\nignore-infile-config-for = ["all"]\npylint = "--enable=C0114"\n',
    "other.toml": 'flake8 = "--extend-ignore=E741"\n[pylint]\ndisable = "all"\nenable = ["C0103", "W0107"]\n[language-translations]\nW0107 = "other"\n',
    "lang.toml": 'W0107 = "translated"\nE711 = "translated"\n',
}
CODE = 'def f(x, map):\n    """Doc."""\n    l = x == None  # noqa: W605\n    pass\n    return l\n\n\nfoo = 1\nprint(foo)\n'
LAYOUT = ("{0}{code}", "{code}{0}", "{head}\n\n{0}{rest}")


def program(opts: Tuple[str, ...], layout: str, neuter: bool, infile: bool) -> str:
    lines = "".join(f"# {'odulint' if neuter else 'edulint'}: {o}\n" for o in opts)
    head, rest = CODE.split("\n\n\n")
    text = layout.format(lines, code=CODE, head=head, rest="\n\n" + rest)
    if infile:
        text = "# edulint: ignore-infile-config-for=all\n" + text
    return text


def part2(how: str):
    options, implicit = HOW[how]
    infile = options is None
    support = dict(SUPPORT)
    if implicit:
        support["edulint.toml"] = SUPPORT[implicit]
    combos = [(o,) for o in INFILE]
    if common.THOROUGH or how in PAIRED:
        combos += list(itertools.permutations(INFILE, 2))
    bad = []
    n = 0
    if how.startswith("implicit"):  # a configuration named in the file governs it instead of the implicit one
        combos = [c for c in combos if not any(o.startswith("config-file") for o in c)]
    todo = [(c, lay) for c in combos for lay in LAYOUT if len(c) == 1 or lay == LAYOUT[0] or common.THOROUGH]
    if infile:
        todo = [(c, lay) for c, lay in todo if not any(o.startswith("ignore-infile") for o in c)]
    for job in common.chunks(todo, 100):
        texts = [{f"m{i:03d}.py": program(c, lay, neuter, infile) for i, (c, lay) in enumerate(job)} for neuter in (False, True)]
        got, want = [lint_dir(t, options or [], support) for t in texts]
        for i, (c, lay) in enumerate(job):
            n += 1
            a, b = [[key(p) for p in g[f"m{i:03d}.py"] if p.code not in COSMETIC] for g in (got, want)]
            if a != b:
                bad.append((how, c, lay, f"problems {a[:3]} instead of {b[:3]}"))
            if not b:
                bad.append((how, c, lay, "nothing reported at all"))
    return n, bad


def effects(_: Any):
    """with nothing ignored the in-file options do have an effect"""
    texts = [{f"m{i:03d}.py": program((o,), LAYOUT[0], neuter, False) for i, o in enumerate(INFILE)} for neuter in (False, True)]
    got, want = [lint_dir(t, [], SUPPORT) for t in texts]
    return [o for i, o in enumerate(INFILE) if list(map(key, got[f"m{i:03d}.py"])) != list(map(key, want[f"m{i:03d}.py"]))]


def run(check: common.Check) -> None:
    check.rule = "a comment is non-trivial when a linter obeys it, an in-file option when it has an effect unless ignored"
    todo = list(comments())
    for stats, bad in common.pmap(part1, list(common.chunks(todo, 60))):
        for k, c in stats.items():
            check.outcome(k, c)
            check.add(evaluations=c, distinct_nontrivial=0 if k.endswith("none") else c)
        for b in bad:
            check.violation("comment|" + common.digest(b[:3]), f"{b[0]}: {b[1]!r}, asked for {b[2]}: {b[3]}", b)
    live = next(common.pmap(effects, [0]))
    check.notes["in-file options with an effect"] = live
    for n, bad in common.pmap(part2, list(HOW)):
        check.add(evaluations=n, distinct_nontrivial=n)
        check.outcome("in-file options", n)
        for b in bad:
            check.violation("option|" + common.digest(b[:3]), f"{b[0]}: {b[1]} in {b[2]!r}: {b[3]}", b)
    check.sample("comment", todo[0])
    check.sample("comment", todo[-1])
