"""C06: linting many paths at once = linting every .py file below them alone.

Enumerates directory layouts (packages, plain and nested directories, hidden and oddly named entries,
non-Python files), in-file configurations of their files, and ways of naming them on the command line;
the reference is the result of linting each file alone."""
from __future__ import annotations

import itertools
import os
import shutil
from collections import Counter
from typing import Any, Dict, List, Tuple

from mc import common

LEVEL = "exploration"

BODY = '''def f(x):
    """Doc."""
    if x == None:
        return True
    else:
        return False


def g():
    """Doc."""
    pass
'''
CONF = {
    "": "",
    "dis": "# edulint: pylint=--disable=W0107\n",
    "en": "# edulint: pylint=--enable=missing-module-docstring\n",
    "empty": "# edulint: config-file=empty flake8=--extend-ignore=E999\n",
    "noflake": "# edulint: no-flake8\n",
}
# configurations that only differ in how messages are translated
LANG_CONF = {
    "L": "# edulint: language-file=@/lang.toml\n",
    "L1": "# edulint: config-file=@/one.toml language-file=@/lang.toml\n",
    "L2": "# edulint: config-file=@/two.toml language-file=@/lang.toml\n",
    "M1": "# edulint: config-file=@/one.toml language-file=@/mang.toml\n",
    "1": "# edulint: config-file=@/one.toml\n",
    "2": "# edulint: config-file=@/two.toml\n",
    "3": "# edulint: config-file=@/three.toml\n",
    "": "",
}
LANG_FILES = {
    "one.toml": 'config-file = "default"\n[language-translations]\nW0107 = "one"\nR6201 = "one"\n',
    "two.toml": 'config-file = "default"\n[language-translations]\nW0107 = "two"\nE711 = "two"\n',
    "three.toml": 'config-file = "one.toml"\nlanguage-file = "mang.toml"\n',
    "lang.toml": 'W0107 = "lang"\n',
    "mang.toml": 'E711 = "mang"\nW0107 = "mang"\n',
}
CONF.update({"lang" + k: v for k, v in LANG_CONF.items()})
OPTIONS = {
    "default": [],
    "ignore-infile": ["ignore-infile-config-for=all"],
    "selected": ["config-file=empty", "pylint=--enable=W0107,R6201"],
}


def build(root: str, tree: Dict[str, str]) -> None:
    for rel, conf in tree.items():
        path = os.path.join(root, rel)
        if conf == "link to nothing":
            os.makedirs(os.path.dirname(path), exist_ok=True)
            os.symlink("/nonexistent/target", path)
        elif conf is None:
            os.makedirs(path, exist_ok=True)
        else:
            common.write(path, CONF[conf].replace("@", root) + BODY)
    if any(c and c.startswith("lang") for c in tree.values()):
        for name, text in LANG_FILES.items():
            common.write(os.path.join(root, name), text)


def key(p: Any) -> Tuple[Any, ...]:
    return (
        str(p.source), p.line, p.column, p.code, p.text, p.symbol, p.end_line, p.end_column, p.enabled_by,
    )


ALONE: Dict[Any, Any] = {}


def alone(root: str, rel: str, tree: Dict[str, str], opt: str) -> Counter:
    """A file's own problems. They may depend on the package it is in (relative names), so the cache
    key holds everything that surrounds it."""
    import edulint

    init = tuple(
        os.path.join(d, "__init__.py") in tree for d in (os.path.dirname(rel), os.path.dirname(os.path.dirname(rel)))
    )
    k = (rel, tree[rel], opt, init)
    if k not in ALONE:
        res = edulint.check_code([os.path.join(root, rel)], OPTIONS[opt])
        assert res is not None, rel
        ALONE[k] = Counter(key(p) for p in res[1])
    return ALONE[k]


def worker(job):
    import edulint

    bad = []
    n = 0
    sizes: Counter = Counter()
    for tree, args, cwd, opt in job:
        n += 1
        root = common.fresh_dir("c06")
        build(root, tree)
        os.makedirs(os.path.join(root, cwd), exist_ok=True)
        os.chdir(os.path.join(root, cwd))
        real_args = []
        for a in args:
            p = root + "/" + a
            real_args.append(p if opt == "default" and cwd == "" else os.path.relpath(root) + "/" + a)
        selected = set()
        for a in args:
            full = os.path.normpath(os.path.join(root, a))
            for rel in tree:
                p = os.path.join(root, rel)
                if rel.endswith(".py") and tree[rel] != "link to nothing" and (p == full or p.startswith(full + os.sep)):
                    selected.add(rel)
        want: Counter = Counter()
        for rel in selected:
            for k, c in alone(root, rel, tree, opt).items():
                want[(rel,) + k] += c
        problem = None
        try:
            res = edulint.check_code(real_args, OPTIONS[opt])
        except BaseException as e:  # noqa: BLE001
            problem = f"raised {e!r}"
        else:
            if res is None:
                problem = "failed"
            else:
                got = Counter((os.path.relpath(os.path.abspath(p.path), root),) + key(p) for p in res[1])
                sizes[len(selected)] += 1
                if got != want:
                    miss = sorted({(k[0], k[4]) for k in want - got})
                    extra = sorted({(k[0], k[4]) for k in got - want})
                    problem = f"missing {miss[:3]}, extra {extra[:3]}"
                order = [os.path.abspath(p.path) for p in res[1]]
                runs = [g for g, _ in itertools.groupby(order)]
                if problem is None and len(runs) != len(set(runs)):
                    problem = f"problems of a file are not together: {runs}"
                if problem is None:
                    named = [os.path.normpath(os.path.join(root, a)) for a in args]
                    ranks = [
                        (
                            next(
                                i for i, n in enumerate(named)
                                if os.path.abspath(p.path) == n or os.path.abspath(p.path).startswith(n + os.sep)
                            ),
                            p.path, p.line, p.column,
                        )
                        for p in res[1]
                    ]
                    if ranks != sorted(ranks):
                        problem = f"problems are out of order: {ranks}"
        if problem:
            bad.append((tree, args, cwd, opt, problem))
        os.chdir("/")
        shutil.rmtree(root, ignore_errors=True)
    return n, sizes, bad


def cases():
    confs = [c for c in CONF if not c.startswith("lang")]
    # 1. every directory shape, all files alike and with every single deviating configuration
    slots = [
        "d/__init__.py", "d/a.py", "d/s/__init__.py", "d/s/b.py", "d/s/t/c.py", "d/notes.txt",
        "d/.hid/h.py", "d/with space/e.py",
    ]
    for r in range(1, len(slots) + 1):
        for subset in itertools.combinations(slots, r):
            if r > 4 and not common.THOROUGH:
                continue
            tree = {s: "" for s in subset}
            py = [s for s in subset if s.endswith(".py")]
            yield tree, ["d"], "", "default"
            if r <= 3 or common.THOROUGH:
                yield tree, ["d"], "", "ignore-infile"
                yield tree, ["d"], "d", "selected"
            if r <= 3 or common.THOROUGH:
                for s in py:
                    yield {**tree, s: "dis"}, ["d"], "", "default"
    # 2. every assignment of configurations to three files, in every order of naming them
    files = ["d/a.py", "d/s/b.py", "c.py"]
    for cs in itertools.product(confs, repeat=3):
        tree = dict(zip(files, cs))
        for args in (["d", "c.py"], ["c.py", "d"], ["."], ["d/s", "c.py", "d/a.py"], ["c.py", "d/s/b.py"]):
            for cwd in ("", "d", "other") if common.THOROUGH else ("", "d"):
                yield tree, args, cwd, "default"
        yield tree, ["d", "c.py"], "d/s", "selected"
        yield tree, ["c.py", "d"], "d", "ignore-infile"
    # 3. files of one name, names that look like something else
    odd = ["d/x/util.py", "d/y/util.py", "d/os.py", "d/command line.py", "d/edulint.py", "d/\u017e.py", "d/a.b.py", "d/setup.py", "d/test-1.py", "d/__main__.py", "d/configuration file/f.py", "d/CVS/f.py", "d/__pycache__/f.py", "d/build/f.py", "d/.git/f.py", "d/venv/f.py", "d/node.egg/f.py", "d/x.py/f.py", "d/.#lock.py"]
    for a, b in itertools.combinations(odd, 2):
        for conf in ("", "dis") if common.THOROUGH else ("dis",):
            tree = {a: "", b: conf}
            yield tree, ["d"], "", "default"
            yield tree, [b, a], "", "default"
            yield tree, ["d"], "", "ignore-infile"
            yield tree, ["d"], "", "selected"


    for tree in (
        {"d/a.py": "", "d/broken.py": "link to nothing"},
        {"d/.#a.py": "link to nothing", "d/a.py": "dis", "d/s/b.py": ""},
        {"d/broken.py": "link to nothing"},
    ):
        for opt in OPTIONS:
            yield tree, ["d"], "", opt
    # 4. paths that overlap or are named twice, and odd spellings of a path
    tree = {"d/a.py": "", "d/s/b.py": "dis", "c.py": ""}
    spellings = ["d", "d/", "d/.", "./d", "d/s/..", "d/a.py", "d//a.py", "d/s/../a.py", "c.py", "d/s", "."]
    for args in itertools.chain(
        itertools.product(spellings, repeat=1),
        itertools.product(spellings, repeat=2),
    ):
        for i, cwd in enumerate(("", "d", "d/s", "other")):
            for j, opt in enumerate(OPTIONS):
                if common.THOROUGH or (i + len(args[0]) + len(args[-1])) % 3 == j:
                    yield tree, list(args), cwd, opt
    # 5. files whose messages are translated differently
    for cs in itertools.product(LANG_CONF, repeat=3):
        yield dict(zip(files, ("lang" + c for c in cs))), ["d", "c.py"], "", "default"


def run(check: common.Check) -> None:
    todo = list(cases())
    sizes: Counter = Counter()
    for n, s, bad in common.pmap(worker, list(common.chunks(todo, 40))):
        check.add(evaluations=n)
        sizes += s
        for b in bad:
            check.violation(common.digest(b[:4]), f"tree {b[0]} args {b[1]} cwd {b[2]!r} {b[3]}: {b[4]}", b)
    check.add(distinct_nontrivial=sum(c for k, c in sizes.items() if k > 1))
    for k, c in sorted(sizes.items()):
        check.outcome(f"{k} files", c)
    check.rule = "all layouts and namings within the alphabet; non-trivial: more than one file is linted"
    check.sample("layout", todo[0])
    check.sample("layout", todo[len(todo) // 2])
