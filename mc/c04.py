"""C04: an unusable entry of a configuration is reported and changes nothing else.

Part 1 puts every kind of TOML value at every place of a configuration file (and of a language file), next
to valid entries of every kind; the resolved configuration has to be the one with the entry written in its
plain form, or left out when it is unusable, in which case it has to be reported. Pairs of unusable entries
follow. Part 2 enumerates sequences of in-file lines and command-line options, usable and not."""
from __future__ import annotations

import datetime
import enum
import itertools
import os
import shutil
from typing import Any, Dict, List, Optional, Tuple

from mc import common

LEVEL = "exploration"

# --- a TOML writer


def toml(val: Any) -> str:
    if isinstance(val, bool):
        return "true" if val else "false"
    if isinstance(val, str):
        return '"' + val.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'
    if isinstance(val, (datetime.datetime, datetime.date)):
        return val.isoformat()
    if isinstance(val, (int, float)):
        return repr(val)
    if isinstance(val, list):
        return "[" + ", ".join(toml(v) for v in val) + "]"
    if isinstance(val, dict):
        return "{" + ", ".join(f'"{k}" = {toml(v)}' for k, v in val.items()) + "}"
    raise TypeError(val)


def render(doc: Dict[str, Any]) -> str:
    return "".join(f'"{k}" = {toml(v)}\n' for k, v in doc.items())


VALUES: Dict[str, Any] = {
    "string": "v1",
    "empty string": "",
    "commas": "v1,v2",
    "non-ascii": "č, ☃",
    "integer": 7,
    "negative": -7,
    "float": 1.5,
    "true": True,
    "false": False,
    "date": datetime.date(2024, 1, 2),
    "datetime": datetime.datetime(2024, 1, 2, 3, 4, 5),
    "empty list": [],
    "list": ["v1", "v2"],
    "one-element list": ["v1"],
    "list of integers": [1, 2],
    "mixed list": ["v1", 2],
    "list with a float": ["v1", 1.5],
    "list with a date": [datetime.date(2024, 1, 2)],
    "nested list": [["v1"]],
    "list with a list": ["v1", ["v2"]],
    "list of tables": [{"v1": "v2"}],
    "empty table": {},
    "table": {"enable": "v1"},
    "table of lists": {"enable": ["v1", "v2"], "max-args": 3},
    "table with a float": {"enable": "v1", "k": 1.5},
    "table with a table": {"enable": "v1", "k": {"l": "m"}},
    "table with a nested list": {"enable": "v1", "k": [["l"]]},
    "table of tables": {"1": {"v1": "v2"}},
    "deep table": {"v1": {"1": {"v2": "v3"}}},
}



class Plain(enum.Enum):
    BAD = 1
    EITHER = 2  # not determined by the documentation


BAD, EITHER = Plain.BAD, Plain.EITHER


def plain_scalar(val: Any) -> Any:
    if isinstance(val, bool):
        return EITHER
    if isinstance(val, str):
        return val
    if isinstance(val, int):
        return str(val)
    if isinstance(val, list):
        if all(isinstance(v, (str, int)) for v in val):
            return ",".join(map(str, val))
        return BAD
    return BAD


def plain_linter(val: Any) -> Any:
    """The plain form of a linter's arguments: a string, or a table of strings; unusable members left out."""
    if isinstance(val, dict):
        return {k: p for k, v in val.items() if (p := plain_scalar(v)) is not BAD}
    return plain_scalar(val)


def partly_bad(val: Any) -> bool:
    return isinstance(val, dict) and any(plain_scalar(v) is BAD for v in val.values())


# --- part 1

CONTROL: Dict[str, Any] = {
    "config-file": "base.toml",
    "allowed-onechar-names": "ijk",
    "disallowed-builtin-names": "sum,len",
    "ignore-infile-config-for": "pylint",
    "export-groups": "e1,e2",
    "set-groups": "good",
    "language-file": "lang.toml",
    "default-enabler-name": "course",
    "pylint": {"enable": "W0107,W0702", "max-args": "4"},
    "flake8": {"extend-select": "E711"},
    "translations": {
        "good": {"pylint": {"enable": "C0103"}, "flake8": {"select": "E712"}},
        "other": {"pylint": "--enable=C0104"},
    },
    "language-translations": {
        "W0107": "pass {}",
        "R6502": "{} lines {}",
        "translated_extracts": {"R6502": {"2": {"before": "nad", "after": "pod"}}},
    },
}
BASE = {"pylint": {"enable": "W0101"}, "language-translations": {"W0101": "base"}}
LANG: Dict[str, Any] = {
    "E711": "nothing {}",
    "translated_extracts": {"E711": {"1": {"None": "nic"}}},
}


def put(doc: Dict[str, Any], path: Tuple[str, ...], val: Any, first: bool = False) -> Dict[str, Any]:
    """doc with val at path, tables on the way copied; the entry is the last or the first one of its table"""
    rest = {k: v for k, v in doc.items() if k != path[0]}
    if len(path) > 1:
        val = put(doc.get(path[0], {}), path[1:], val, first)
    if val is BAD:
        return rest
    return {path[0]: val, **rest} if first else {**rest, path[0]: val}


def places() -> List[Tuple[str, Tuple[str, ...], Any]]:
    """(document, path, function giving the plain form of a value there)"""

    def unknown(_v: Any) -> Any:
        return BAD

    def replaceable(v: Any) -> Any:
        return plain_scalar(v)

    def no_val(v: Any) -> Any:
        return EITHER if v in ("", []) or isinstance(v, bool) else BAD

    def config(v: Any) -> Any:
        return v if isinstance(v, str) else BAD

    def language(v: Any) -> Any:
        return v if isinstance(v, str) else EITHER if plain_scalar(v) is not BAD else BAD

    def enabler(v: Any) -> Any:
        return v if isinstance(v, str) else BAD

    def group(v: Any) -> Any:
        if not isinstance(v, dict):
            return BAD
        return {}  # no linter among the values' keys

    def groups(v: Any) -> Any:
        return {} if isinstance(v, dict) else BAD

    def translation(v: Any) -> Any:
        return v if isinstance(v, str) else BAD

    def lang(v: Any) -> Any:
        if not isinstance(v, dict):
            return BAD
        return {k: t for k, t in v.items() if isinstance(t, str)}

    def word(v: Any) -> Any:
        return v if isinstance(v, str) else BAD

    def mapping(v: Any) -> Any:
        if not isinstance(v, dict):
            return BAD
        return {k: t for k, t in v.items() if isinstance(t, str)}

    def orders(v: Any) -> Any:
        if not isinstance(v, dict):
            return BAD
        return {
            k: mapping(t) for k, t in v.items() if k.isdecimal() and isinstance(t, dict)
        }

    def extracts(v: Any) -> Any:
        if not isinstance(v, dict):
            return BAD
        return {}  # of other messages

    res: List[Tuple[str, Tuple[str, ...], Any]] = []
    for name in (
        "allowed-onechar-names", "disallowed-builtin-names", "ignore-infile-config-for", "export-groups",
        "set-groups",
    ):
        res.append(("top", (name,), replaceable))
        res.append(("base", (name,), replaceable))
    res.append(("top", ("SET-Groups",), replaceable))
    res.append(("top", ("no-flake8",), no_val))
    res.append(("top", ("config-file",), config))
    res.append(("top", ("language-file",), language))
    res.append(("top", ("default-enabler-name",), enabler))
    for linter in ("pylint", "flake8"):
        res.append(("top", (linter,), plain_linter))
        res.append(("base", (linter,), plain_linter))
        res.append(("top", (linter, "some-key"), plain_scalar))
        for name in ("good", "new"):
            res.append(("top", ("translations", name, linter), plain_linter))
            res.append(("top", ("translations", name, linter, "some-key"), plain_scalar))
    for name in ("nosuch", "Translation", "config_file", "edulint", "", "pylint ", "--enable"):
        res.append(("top", (name,), unknown))
    for name in ("nosuch", "edulint", "", "good"):
        res.append(("top", ("translations", "good", name), unknown))
        res.append(("top", ("translations", "new", name), unknown))
    res.append(("top", ("translations",), groups))
    res.append(("top", ("translations", "good"), group))
    res.append(("top", ("translations", "new"), group))
    res.append(("top", ("translations", "set-groups"), group))
    res.append(("top", ("language-translations",), lang))
    for doc, path in (("top", ("language-translations",)), ("lang", ())):
        for code in ("W0107", "unnecessary-pass", "E712", "nosuch", ""):
            res.append((doc, path + (code,), translation))
        tr = path + ("translated_extracts",)
        res.append((doc, tr, extracts))
        res.append((doc, tr + ("R6502" if path else "E711",), orders))
        res.append((doc, tr + ("R6502" if path else "E711", "1"), mapping))
        res.append((doc, tr + ("R6502" if path else "E711", "1", "w"), word))
        res.append((doc, tr + ("R6502" if path else "E711", "2"), mapping))
        res.append((doc, tr + ("nosuch",), orders))
    return res


DOCS = {"top": CONTROL, "base": BASE, "lang": LANG}


MESSAGES = [
    ("W0101", "unreachable", "Unreachable code"),
    ("W0107", "unnecessary-pass", "Unnecessary pass statement"),
    ("E712", None, "comparison to True should be 'if cond:'"),
    ("nosuch", None, "whatever"),
    ("", "", "whatever"),
] + [
    ("R6502", "identical-if-branches-part", f"Identical code inside all if's branches, move {x} lines {y} the if.")
    for x in ("2", "v1", "enable", "w", "1") for y in ("before", "v1", "enable")
] + [("E711", None, f"comparison to {x} should be 'if cond is {y}:'") for x in ("None", "w", "enable") for y in ("None", "v1")]


def texts(translations: Any) -> List[str]:
    """what the user gets to read"""
    from edulint.linters import Linter
    from edulint.linting.linting import translate
    from edulint.linting.problem import Problem

    return [
        translate(translations, Problem(Linter.PYLINT, None, "f.py", 1, 0, code, text, symbol=symbol)).text
        for code, symbol, text in MESSAGES
    ]


def resolve(d: str, docs: Dict[str, Dict[str, Any]]):
    from edulint.config.config import get_config_many

    for name, doc in docs.items():
        common.write(os.path.join(d, name + ".toml"), render(doc))
    with common.LogCapture("WARNING") as log:
        try:
            res = get_config_many([os.path.join(d, "f.py")], ["config-file=" + os.path.join(d, "top.toml")])
        except Exception as e:  # noqa: BLE001
            return {"raised": repr(e)}, log.records
    if len(res) != 1:
        return {"configurations": len(res)}, log.records
    got: Dict[str, Any] = {a.option.to_name(): a.val for a in res[0][1].config}
    got["enablers"] = dict(res[0][1].enablers)
    try:
        got["messages"] = texts(res[0][2])
    except Exception as e:  # noqa: BLE001
        return {"raised": repr(e)}, log.records
    return got, log.records


def diff(got: Dict[str, Any], want: Dict[str, Any]) -> Dict[str, Any]:
    return {
        k: {"got": got.get(k), "want": want.get(k)}
        for k in sorted(set(got) | set(want))
        if got.get(k) != want.get(k)
    }


def reportable(doc: str, path: Tuple[str, ...], val: Any, canon: Any) -> bool:
    """whether some part of the value has no effect and so has to be reported"""
    if canon is BAD:
        return True
    return partly_bad(val) and canon is not EITHER and path[-1] in ("pylint", "flake8")


def case1(job):
    d = common.fresh_dir("c04")
    common.write(os.path.join(d, "f.py"), "x = 1\n")
    out = []
    n = 0
    seen = set()
    for entries, first in job:
        with_ = dict(DOCS)
        without = dict(DOCS)
        report = False
        skip = False
        for doc, path, val, canon in entries:
            with_[doc] = put(with_[doc], path, val, first)
            without[doc] = put(without[doc], path, canon if canon is not EITHER else BAD, first)
            if canon is EITHER:
                skip = True
            report = report or reportable(doc, path, val, canon)
        got, log = resolve(d, with_)
        n += 1
        problem: Any = None
        if "raised" in got:
            problem = got
        elif skip:
            continue
        else:
            want, plain_log = resolve(d, without)
            problem = diff(got, want)
            if not problem and report and len(log) <= len(plain_log):
                problem = "the unusable value is not reported"
        seen.add(common.digest(got))
        if problem:
            out.append(([(doc, path, val) for doc, path, val, _c in entries], first, problem))
    shutil.rmtree(d, ignore_errors=True)
    return n, seen, out


# --- part 2: in-file lines and command line options

# (line, the options it gives)
LINES: List[Tuple[str, List[str]]] = [
    ("# edulint: pylint=--enable=W0107", ["pylint=--enable=W0107"]),
    ("# edulint: allowed-onechar-names=ij disallowed-builtin-names=sum", ["allowed-onechar-names=ij", "disallowed-builtin-names=sum"]),
    ("#edulint:flake8=--select=E711", ["flake8=--select=E711"]),
    ("    ## EduLint:   no-flake8   set-groups=enhancement", ["no-flake8", "set-groups=enhancement"]),
    ('# edulint: "pylint=--good-names=a b" allowed-onechar-names="x y"', ["pylint=--good-names=a b", "allowed-onechar-names=x y"]),
    ("# edulint: allowed-onechar-names='ab pylint=--enable=W0101", []),
    ('# edulint: pylint="--enable=W0101', []),
    ("# edulint: pylint=--enable=W0101\\", []),
    ("# edulint: bogus=1 allowed-onechar-names=uv", ["allowed-onechar-names=uv"]),
    ("# edulint: =x = no-flake8=yes pylint flake8", []),
    ("# edulint:", []),
    ("# edulint: '' \"\"", []),
    ("# edulint pylint=--enable=W0102", []),
    ("# not edulint: pylint=--enable=W0102", []),
    ("x = 1  # edulint: pylint=--enable=W0102", []),
    ("edulint: pylint=--enable=W0102", []),
    ("# edulint: flake8=--max-line-length=č", ["flake8=--max-line-length=č"]),
    ("#\t#edulint:\tpylint=--max-args=3\t", ["pylint=--max-args=3"]),
]
CMD: List[Tuple[str, List[str]]] = [
    ("pylint=--enable=W0108", ["pylint=--enable=W0108"]),
    ("allowed-onechar-names=xy no-flake8", ["allowed-onechar-names=xy", "no-flake8"]),
    ("'pylint=--good-names=c d'", ["pylint=--good-names=c d"]),
    ("pylint='--enable=W0109 flake8=--select=E1", []),
    ("bogus", []),
    ("", []),
    ("=", []),
    ("disallowed-builtin-names", []),
    ("Set-Groups=python-specific bogus=2 SET-GROUPS=complexity", ["set-groups=python-specific", "set-groups=complexity"]),
]


def plain_options(infile: List[str], cmd: List[str]):
    from edulint.config.config import get_config_many

    common.write("plain.py", "".join(f"# edulint: '{o}'\n" for o in infile) + "x = 1\n")
    return get_config_many(["plain.py"], cmd)


def case2(job):
    from edulint.config.config import get_cmd_args, get_config_many

    d = common.fresh_dir("c04o")
    os.chdir(d)
    out = []
    n = 0
    seen = set()
    for lines, cmd, newline in job:
        text = newline.join([l for l, _o in lines] + ["x = 1", ""])
        with open("f.py", "w", encoding="utf-8", newline="") as f:
            f.write(text)
        n += 1
        try:
            res = get_config_many(["f.py"], get_cmd_args([c for c, _o in cmd]))
        except Exception as e:  # noqa: BLE001
            out.append(((lines, cmd, newline), f"raised {e!r}"))
            continue
        want = plain_options([o for _l, os_ in lines for o in os_], [o for _c, os_ in cmd for o in os_])
        got_, want_ = [
            {a.option.to_name(): a.val for a in r[0][1].config} if len(r) == 1 else {"configurations": len(r)}
            for r in (res, want)
        ]
        problem = diff(got_, want_)
        seen.add(common.digest(got_))
        if problem:
            out.append(((lines, cmd, newline), problem))
    os.chdir("/")
    shutil.rmtree(d, ignore_errors=True)
    return n, seen, out


def run(check: common.Check) -> None:
    singles = []
    for doc, path, plain in places():
        for kind, val in VALUES.items():
            if path and path[-1] == "config-file" and kind not in ("string", "empty string", "commas", "non-ascii"):
                pass
            elif path and path[-1] == "config-file":
                continue  # names of other configurations: C03
            canon = plain(val)
            if isinstance(canon, dict):
                # booleans in a table are passed on
                canon = {k: ("True" if v is EITHER else v) for k, v in canon.items()}
            singles.append([(doc, path, val, canon)])
    # other spellings of the name of the inherited configuration
    for name in ("config", "CONFIG", "Config-File"):
        new = put(CONTROL, ("config-file",), BAD)
        d = common.fresh_dir("c04n")
        common.write(os.path.join(d, "f.py"), "x = 1\n")
        got, _ = resolve(d, {**DOCS, "top": {name: "base.toml", **new}})
        want, _ = resolve(d, DOCS)
        check.add(evaluations=1, distinct_nontrivial=1)
        if diff(got, want):
            check.violation("name-" + name, f"{name} = 'base.toml' in a configuration file: {diff(got, want)}", name)
    bad = [
        s for s in singles
        if s[0][3] is BAD and (common.THOROUGH or s[0][2] in (1.5, [["v1"]], {}, "v1") or s[0][2] == {"enable": "v1"})
    ]
    pairs = []
    for a, b in itertools.combinations(bad, 2):
        pa, pb = (a[0][0],) + a[0][1], (b[0][0],) + b[0][1]
        if pa[: len(pb)] == pb or pb[: len(pa)] == pa:
            continue
        pairs.append(a + b)
    if not common.THOROUGH:
        # every pair of places, with the kinds of values cycling
        by_places: Dict[Any, List[Any]] = {}
        for p in pairs:
            by_places.setdefault(common.digest([p[0][:2], p[1][:2]]), []).append(p)
        pairs = [ps[i % len(ps)] for i, ps in enumerate(by_places.values())]
    seen: set = set()
    todo = [(e, first) for e in singles for first in (False, True)]
    todo += [(e, False) for e in pairs]
    jobs = list(common.chunks(todo, 60))
    for n, dist, out in common.pmap(case1, jobs):
        check.add(evaluations=n)
        seen |= dist
        for entries, first, problem in out:
            what = "; ".join(f"{doc}.toml {'.'.join(path)} = {toml(val)}" for doc, path, val in entries)
            what += " (first in the table)" if first else ""
            check.violation(common.digest(what), f"{what}: {str(problem)[:400]}", [what, problem])
    check.outcome("single entries", len(singles))
    check.outcome("pairs of unusable entries", len(pairs))

    seqs: List[Any] = []
    for k in range(3):
        for lines in itertools.product(LINES, repeat=k):
            for newline in ("\n", "\r\n"):
                seqs.append((lines, (), newline))
    for lines in itertools.chain([()], ((l,) for l in LINES)):
        for k in (1, 2):
            for cmd in itertools.product(CMD, repeat=k):
                seqs.append((lines, cmd, "\n"))
    if common.THOROUGH:
        for lines in itertools.product(LINES, repeat=3):
            seqs.append((lines, (), "\n"))
        for cmd in itertools.product(CMD, repeat=3):
            seqs.append(((), cmd, "\n"))
    for n, dist, out in common.pmap(case2, list(common.chunks(seqs, 100))):
        check.add(evaluations=n)
        seen |= dist
        for (lines, cmd, newline), problem in out:
            what = f"lines {[l for l, _o in lines]} ({newline!r}), options {[c for c, _o in cmd]}"
            check.violation(common.digest(what), f"{what}: {str(problem)[:400]}", [what, problem])
    check.outcome("sequences of lines and options", len(seqs))
    check.add(distinct_nontrivial=len(seen))
    check.rule = (
        "every kind of TOML value at every place of a configuration file, an inherited one and a language "
        "file, next to valid entries of every kind; pairs of unusable entries at every two places; every "
        "sequence of in-file lines and command line options of length <= 2 (3 thorough) from alphabets with "
        "malformed members. The reference is the same configuration with the entry in plain form or left "
        "out. distinct_nontrivial counts distinct resolved configurations"
    )
    for s in singles[:: max(1, len(singles) // 8)][:8]:
        check.sample("entry", [s[0][0], ".".join(s[0][1]), toml(s[0][2]), "unusable" if s[0][3] is BAD else "usable"], 8)
