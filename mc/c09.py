"""C09: what the command line prints and how it exits.

Enumerates selections of paths x options x output formats x ways of writing the options; the reference
renders what the package API returns. Further parts: explain, version, usage errors, and a fault injected
into every write to the standard output."""
from __future__ import annotations

import errno
import io
import itertools
import json
import os
import shutil
import subprocess
import sys
from collections import Counter
from typing import Any, Dict, List, Optional, Tuple

from mc import common

LEVEL = "exploration"

QUIET = ["--disable-version-check", "--disable-explanations-update"]
FILES: Dict[str, bytes] = {
    "clean.py": b'"""Doc."""\n',
    "one.py": b'def f(x):\n    """Doc."""\n    pass\n',
    "two.py": b"def f(x):\n    return x == None if x == None else (x==True)\n\n\ndef g(l):\n    l = 1; pass\n",
    "uni.py": 'def f(x):\n    return x == "{0} \u017e \\" \'" or x == "%s \u65e5"\n\n\n\u017elu\u0165 = 1\n'.encode(),
    "syn.py": b"def f(:\n",
    "lat.py": '# -*- coding: latin-1 -*-\nx = "\xe9"\n'.encode("latin-1"),
    "sub/in.py": b'# edulint: pylint=--enable=C0114\ndef f(x):\n    pass\n',
    "sub/deep/one.py": b'def f(x):\n    """Doc."""\n    pass\n',
    "o d/n m.py": b'def f(x):\n    pass\n',
    "dir.py/x.py": b'def f(x):\n    pass\n',
    "note.txt": b"def f(x):\n    pass\n",
    "noconf.py": b"# edulint: config-file=nosuch.toml\ndef f(x):\n    pass\n",
    "badconf.py": b"# edulint: config-file=bad.toml\ndef f(x):\n    pass\n",
    "bad.toml": b"this is = = not toml",
    "lang.toml": '[language-translations]\nR6201 = "\u017elu\u0165 {0}\\nmore"\nC0116 = "{not a field"\n'.encode(),
}
PATHS = [
    "clean.py", "one.py", "two.py", "uni.py", "syn.py", "lat.py", "sub", "sub/in.py", "o d", "o d/n m.py",
    "dir.py", "note.txt", "noconf.py", "badconf.py", "missing.py",
]
OPTIONS: Dict[str, List[str]] = {
    "none": [],
    "all": ["pylint=--enable=all", "flake8=--extend-select=D"],
    "rejected by pylint": ["pylint=--max-args=foo"],
    "failing flake8": ["flake8=--config=@/nosuch"],
    "printing flake8": ["flake8=-q"],
    "reports": ["pylint=--reports=y", "pylint=--score=y"],
    "unknown": ["nosuch=1", "no-flake8=1", "pylint"],
    "unbalanced": ['pylint="--enable=C0114', "no-flake8"],
    "missing config": ["config-file=@/nosuch.toml"],
    "ignore": ["ignore-infile-config-for=all", "pylint=--enable=C0114"],
}
MANY = ("none", "all", "ignore")


def build() -> str:
    root = common.fresh_dir("c09")
    for rel, data in FILES.items():
        path = os.path.join(root, rel)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as f:
            f.write(data)
    return root


class FailingOut(io.StringIO):
    def __init__(self, at: int):
        super().__init__()
        self.left = at

    def write(self, s: str) -> int:
        if self.left == 0:
            raise OSError(errno.ENOSPC, "No space left on device")
        self.left -= 1
        return super().write(s)


def cli(argv: List[str], out: Optional[io.StringIO] = None) -> Tuple[int, str, str]:
    """main() as the console script runs it: (exit status, stdout, stderr)"""
    import edulint.edulint as mod
    from loguru import logger

    out = out or io.StringIO()
    err = io.StringIO()
    saved = sys.argv, sys.stdout, sys.stderr
    sys.argv, sys.stdout, sys.stderr = ["edulint"] + argv, out, err
    try:
        try:
            rc: Any = mod.main()
        except SystemExit as e:
            rc = e.code
    finally:
        sys.argv, sys.stdout, sys.stderr = saved
        logger.remove()
    return (0 if rc is None else rc if isinstance(rc, int) else 1), out.getvalue(), err.getvalue()


def wrote(p: Any) -> str:
    enabler = "" if p.enabled_by is None else f" [{p.enabled_by}]"
    return f"{p.path}:{p.line}:{p.column}: {p.code} {p.text}{enabler}\n"


FIELDS = ["source", "enabled_by", "path", "line", "column", "code", "text", "end_line", "end_column", "symbol"]


def as_dict(p: Any) -> Dict[str, Any]:
    return {f: (str(p.source) if f == "source" else getattr(p, f)) for f in FIELDS}


def unusable(paths: List[str], opt: str, root: str) -> bool:
    """whether some file cannot be linted for its configuration"""
    files = set()
    for p in paths:
        full = os.path.join(root, p)
        if os.path.isdir(full):
            files |= {rel for rel in FILES if (p == "." or rel.startswith(p + "/")) and rel.endswith(".py")}
        elif p.endswith(".py"):
            files.add(p)
    if opt == "missing config":
        return bool(files)
    if opt == "ignore":
        return False
    return bool(files & {"noconf.py", "badconf.py"})


def compare(root: str, paths: List[str], opt: str, as_json: bool, style: int) -> Optional[str]:
    import edulint

    options = [o.replace("@/", root + "/") for o in OPTIONS[opt]]
    argv: List[str] = ["check"] + QUIET
    flat: List[str] = []
    if style == 0:
        for o in options:
            flat += ["-o", o]
    elif style == 1:
        flat = [f"--option={o}" for o in options]
    else:
        flat = ["-o", " ".join(o if o.count('"') % 2 else f'"{o}"' for o in options)] if options else []
    argv += flat + (["--json"] if as_json else []) + paths
    if style == 2:
        argv = ["check"] + paths + argv[1:][: len(argv) - 1 - len(paths)]
    ref = edulint.check_code(
        list(paths), [f'"{o}"' if o.count('"') % 2 == 0 else o for o in options]
    )
    rc, out, err = cli(argv)
    if ref is None:
        if rc != 2:
            return f"linting failed but the exit status is {rc}"
        if out != "":
            return f"linting failed but {out[:80]!r} was printed"
        return None if err.strip() else "linting failed silently"
    configs, problems = ref
    want_rc = 2 if unusable(paths, opt, root) else 1 if problems else 0
    if rc != want_rc:
        return f"exit status {rc} instead of {want_rc} with {len(problems)} problems"
    if want_rc == 2 and not err.strip():
        return "a file was left out silently"
    if as_json:
        try:
            doc = json.loads(out)
        except ValueError as e:
            return f"not a JSON document: {e}: {out[:100]!r}"
        if sorted(doc) != ["configs", "problems"]:
            return f"JSON keys {sorted(doc)}"
        want_configs = [
            {a.option.to_name(): list(a.val) if isinstance(a.val, tuple) else a.val for a in c.config}
            for _files, c, _t in configs
        ]
        if doc["configs"] != want_configs:
            return f"JSON configs {doc['configs']} instead of {want_configs}"
        if doc["problems"] != [as_dict(p) for p in problems]:
            return f"JSON problems {doc['problems'][:2]} instead of {[as_dict(p) for p in problems][:2]}"
        back = edulint.Problem.schema().loads(json.dumps(doc["problems"]), many=True)
        if back != problems:
            return f"problems read back from JSON differ: {back[:2]}"
        return None
    single = len(paths) == 1 and not os.path.isdir(os.path.join(root, paths[0]))
    want = ""
    last = None
    for p in problems:
        if not single and p.path != last:
            want += f"****************** {os.path.basename(p.path)}\n"
            last = p.path
        want += wrote(p)
    if out != want:
        return f"printed {out[:200]!r} instead of {want[:200]!r}"
    return None


def worker(job: List[Tuple[List[str], str, bool, int]]):
    root = build()
    os.chdir(root)
    bad = []
    kinds: Counter = Counter()
    for paths, opt, as_json, style in job:
        real = [os.path.join(root, p) if style == 1 else p for p in paths]
        try:
            problem = compare(root, real if style != 1 else paths, opt, as_json, style)
        except Exception as e:  # noqa: BLE001
            problem = f"raised {e!r}"
        kinds["json" if as_json else "text"] += 1
        if problem:
            bad.append(((paths, opt, as_json, style), problem))
    os.chdir("/")
    shutil.rmtree(root, ignore_errors=True)
    return kinds, bad


def cases():
    triples = [
        ("one.py", "sub", "two.py"), ("two.py", "one.py", "two.py"), ("sub", ".", "clean.py"),
        ("clean.py", "noconf.py", "one.py"), ("note.txt", "clean.py", "lat.py"),
    ]
    selections = [(p,) for p in PATHS + ["."]] + list(itertools.permutations(PATHS, 2)) + triples
    for sel in selections:
        for k, opt in enumerate(OPTIONS):
            if len(sel) == 2 and not common.THOROUGH and opt not in MANY:
                if (PATHS.index(sel[0]) + PATHS.index(sel[1]) + k) % 7:
                    continue
            for as_json in (False, True):
                if len(sel) == 2 and not common.THOROUGH and (PATHS.index(sel[0]) < PATHS.index(sel[1])) == as_json:
                    continue
                for style in range(3) if len(sel) == 1 or common.THOROUGH else (0,):
                    if style == 2 and opt == "unbalanced":
                        continue  # one option string is ignored as a whole
                    yield list(sel), opt, as_json, style
    for sel in (["uni.py"], ["uni.py", "one.py"], ["."]):
        OPTIONS["translated"] = ["language-file=@/lang.toml"]
        for as_json in (False, True):
            yield sel, "translated", as_json, 0


# --- faults while printing


def faults(_: Any):
    root = build()
    os.chdir(root)
    bad = []
    n = 0
    runs = [
        ["check"] + QUIET + ["two.py"], ["check"] + QUIET + ["."], ["check"] + QUIET + ["--json", "two.py"],
        ["check"] + QUIET + ["--json", "clean.py"],
        ["explain"] + QUIET + ["W0107", "R6201"], ["explain", "--json"] + QUIET + ["W0107"], ["version"] + QUIET,
    ]
    for argv in runs:
        whole = FailingOut(-1)
        cli(argv, whole)
        writes = -1 - whole.left
        for at in range(writes):
            n += 1
            try:
                rc, out, _err = cli(argv, FailingOut(at))
            except OSError:
                continue  # the interpreter exits with 1
            if rc == 0:
                bad.append((argv, at, f"write {at} to the standard output failed but the exit status is 0"))
    os.chdir("/")
    shutil.rmtree(root, ignore_errors=True)
    return n, bad


# --- explain, version, usage


def explain(_: Any):
    import tomllib

    with open(os.path.join(common.REPO, "edulint", "explanations.toml"), "rb") as f:
        packaged = tomllib.load(f)
    bad = []
    n = 0

    def text(ids: List[str]) -> str:
        known = [(i, packaged[i]) for i in dict.fromkeys(ids) if i in packaged]
        res = ""
        for k, (i, e) in enumerate(known):
            if len(known) > 1:
                res += ("\n\n" if k else "") + f"## {i}\n"
            if e.get("why", "").strip():
                res += "### Why is it a problem?\n" + e["why"].strip() + "\n\n"
            if e.get("examples", "").strip():
                res += "### How to solve it?\n" + e["examples"].strip() + "\n"
        return res

    every = list(packaged)
    some = every[:: max(1, len(every) // 25)] + ["NOSUCH", "w0107"]
    queries = [[i] for i in every + ["NOSUCH", "w0107"]]
    queries += [list(p) for p in itertools.permutations(some, 2)]
    queries += [["all"], ["ALL"], ["W0107", "All"], ["W0107", "W0107"]]
    for ids in queries:
        wanted = every if any(i.lower() == "all" for i in ids) else ids
        for as_json in (False, True):
            n += 1
            rc, out, err = cli(["explain"] + QUIET + (["--json"] if as_json else []) + ids)
            if rc != 0:
                bad.append((ids, as_json, f"exit status {rc}"))
            elif as_json:
                if json.loads(out) != {"explanations": {i: packaged[i] for i in wanted if i in packaged}}:
                    bad.append((ids, as_json, f"printed {out[:200]}"))
            elif out != text(wanted):
                bad.append((ids, as_json, f"printed {out[:200]!r} instead of {text(wanted)[:200]!r}"))
            missing = [i for i in wanted if i not in packaged]
            if any(i not in err for i in missing) or (not missing and err.strip()):
                bad.append((ids, as_json, f"on stderr: {err[:200]!r}"))
    import edulint

    for argv, want_rc, want_out in (
        (["version"] + QUIET, 0, f"edulint version {edulint.version}\n"),
        ([], 2, ""), (["nosuch"], 2, ""), (["check"], 2, ""), (["explain"], 2, ""),
        (["check", "-o"], 2, ""), (["check", "--nosuch", "x.py"], 2, ""),
    ):
        n += 1
        rc, out, _err = cli(argv)
        if rc != want_rc or out != want_out:
            bad.append((argv, None, f"exit status {rc}, printed {out[:100]!r}"))
    return n, bad


def processes(_: Any):
    """the same through real processes"""
    root = build()
    n, bad = 0, []
    for argv in (
        ["one.py"], ["clean.py"], ["missing.py"], ["noconf.py"], ["syn.py"], ["--json", "uni.py", "sub"],
        ["-o", "pylint=--max-args=foo", "one.py"], ["-o", "flake8=-q", "one.py"], ["lat.py", "."],
    ):
        n += 1
        full = ["check"] + QUIET + argv
        proc = subprocess.run(
            [common.PYTHON, "-m", "edulint"] + full, cwd=root, capture_output=True,
            env=common.child_env(PYTHONIOENCODING="utf-8"),
        )
        os.chdir(root)
        rc, out, _err = cli(full)
        if (proc.returncode, proc.stdout.decode()) != (rc, out):
            bad.append((full, None, f"process: {proc.returncode} {proc.stdout[:200]!r}, in-process: {rc} {out[:200]!r}"))
    os.chdir("/")
    shutil.rmtree(root, ignore_errors=True)
    return n, bad


def part(which: int):
    return (faults, explain, processes)[which](None)


def run(check: common.Check) -> None:
    check.rule = "every run of main() differs in its arguments or injected fault; all are non-trivial"
    todo = list(cases())
    for kinds, bad in common.pmap(worker, list(common.chunks(todo, 40))):
        for k, c in kinds.items():
            check.outcome(k, c)
            check.add(evaluations=c, distinct_nontrivial=c)
        for case, problem in bad:
            check.violation("check|" + common.digest(case), f"check {case}: {problem}", case)
    for n, bad in common.pmap(part, [0, 1, 2]):
        check.add(evaluations=n, distinct_nontrivial=n)
        for b in bad:
            check.violation("part|" + common.digest(b[:2]), f"{b[0]} {b[1]}: {b[2]}", b)
    check.sample("run", todo[0])
    check.sample("run", todo[len(todo) // 2])
