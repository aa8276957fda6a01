"""C24: what is reported does not depend on layout, names, or on what else is in the file.

Programs of all families of C17 to C22 are rewritten without touching what they do: blank lines, comments, other
indentation, redundant parentheses, line breaks, quotes, other names, enclosing functions and classes, other
neighbours. The same problems, at the corresponding places, must be reported."""
from __future__ import annotations

import ast
import bisect
import builtins
import io
import itertools
import keyword
import os
import re
import tokenize
from typing import Any, Callable, Dict, List, NamedTuple, Optional, Sequence, Set, Tuple

from mc import c23, common, corpus, prog

LEVEL = "exploration"

LAYOUT = {
    tokenize.NL, tokenize.COMMENT, tokenize.NEWLINE, tokenize.INDENT, tokenize.DEDENT, tokenize.ENDMARKER, tokenize.ENCODING
}
BUILTINS = set(dir(builtins)) | {"self", "cls", "_"}


def tokens(text: str) -> List[tokenize.TokenInfo]:
    return [t for t in tokenize.generate_tokens(io.StringIO(text).readline) if t.type not in LAYOUT]


class Variant(NamedTuple):
    text: str
    before: Dict[int, int] = {}  # parentheses inserted before a token
    after: Dict[int, int] = {}
    skipped: int = 0  # tokens added at the beginning
    added: int = 0  # and at the end


def code_lines(text: str) -> Dict[int, str]:
    """First lines of simple statements and headers: the lines at which nothing is open."""
    result = {}
    fresh = True
    for t in tokenize.generate_tokens(io.StringIO(text).readline):
        if t.type == tokenize.NEWLINE:
            fresh = True
        elif t.type not in LAYOUT and fresh:
            result[t.start[0]] = t.line
            fresh = False
    return result


# -- rewritings


def blank_lines(text: str) -> Optional[Variant]:
    starts = code_lines(text)
    out = []
    for i, line in enumerate(text.splitlines(), 1):
        if i in starts and i % 2:
            out.append("")
        out.append(line)
    return Variant("\n".join(out) + "\n")


def comments(text: str) -> Optional[Variant]:
    starts = code_lines(text)
    out = []
    for i, line in enumerate(text.splitlines(), 1):
        if i in starts:
            out.append(line[: len(line) - len(line.lstrip())] + "# a note: if x: return True")
            line += "  # and another"
        out.append(line)
    return Variant("\n".join(out) + "\n")


def strange_comments(text: str) -> Optional[Variant]:
    """Comments that are not aligned with the code, and trailing blanks."""
    starts = code_lines(text)
    out = []
    for i, line in enumerate(text.splitlines(), 1):
        if i in starts:
            out += ["# a note", " " * 11 + "# x = 1", ""]
            line += "   "
        out.append(line)
    return Variant("\n".join(out) + "\n")


def indented(by: str) -> Callable[[str], Optional[Variant]]:
    def change(text: str) -> Optional[Variant]:
        levels: List[str] = []
        new: Dict[int, Tuple[int, str]] = {}
        for t in tokenize.generate_tokens(io.StringIO(text).readline):
            if t.type == tokenize.INDENT:
                levels.append(t.string)
            elif t.type == tokenize.DEDENT:
                levels.pop()
            elif t.type not in LAYOUT:
                new.setdefault(t.start[0], (len(levels[-1]) if levels else 0, by * len(levels)))
        out = []
        for i, line in enumerate(text.splitlines(), 1):
            if i in new:
                line = new[i][1] + line[new[i][0] :]
            out.append(line)
        return Variant("\n".join(out) + "\n")

    return change


def spaced(text: str) -> Optional[Variant]:
    """Two blanks wherever one separates tokens, and blanks within brackets."""
    lines = text.splitlines()
    last: Dict[int, int] = {}
    edits: List[Tuple[int, int]] = []
    depth = 0
    for t in tokens(text):
        if t.type == tokenize.FSTRING_START:
            depth += 1
        if not depth and t.start[0] in last and (last[t.start[0]] < t.start[1] or t.string in ")]}"):
            edits.append(t.start)
        if t.type == tokenize.FSTRING_END:
            depth -= 1
        last[t.start[0]] = t.end[1]
    for line, col in reversed(edits):
        lines[line - 1] = lines[line - 1][:col] + " " + lines[line - 1][col:]
    return Variant("\n".join(lines) + "\n")


def broken_lines(text: str) -> Optional[Variant]:
    """A new line after every opening bracket and every comma within brackets."""
    edits: List[Tuple[int, int]] = []
    depth = strings = 0
    for t in tokens(text):
        if t.type == tokenize.FSTRING_START:
            strings += 1
        if t.type == tokenize.FSTRING_END:
            strings -= 1
        if strings:
            continue
        if t.string in ("(", "[", "{"):
            depth += 1
        elif t.string in (")", "]", "}"):
            depth -= 1
        if depth and t.string in ("(", "[", "{", ","):
            edits.append(t.end)
    if not edits:
        return None
    lines = text.splitlines()
    for line, col in reversed(edits):
        lines[line - 1] = lines[line - 1][:col] + "\n            " + lines[line - 1][col:].lstrip(" ")
    return Variant("\n".join(lines) + "\n")


def continued(text: str) -> Optional[Variant]:
    """Backslashes before binary operators."""
    lines = text.splitlines()
    edits = []
    previous = None
    strings = 0
    for t in tokens(text):
        strings += (t.type == tokenize.FSTRING_START) - (t.type == tokenize.FSTRING_END)
        if (
            not strings and previous is not None and previous.end[0] == t.start[0] and previous.end[1] < t.start[1]
            and t.string in ("+", "-", "*", "//", "%", "<", ">", "<=", ">=", "==", "!=", "and", "or", "=", "+=")
        ):
            edits.append(t.start)
        previous = t
    if not edits:
        return None
    for line, col in reversed(edits):
        lines[line - 1] = lines[line - 1][:col] + "\\\n        " + lines[line - 1][col:]
    return Variant("\n".join(lines) + "\n")


def quotes(text: str) -> Optional[Variant]:
    out = list(text)
    changed = False
    offsets = [0]
    for line in text.splitlines(True):
        offsets.append(offsets[-1] + len(line))
    for t in tokens(text):
        if t.type == tokenize.STRING and re.fullmatch(r"b?'[^'\"\\]*'", t.string):
            i, j = offsets[t.start[0] - 1] + t.start[1], offsets[t.end[0] - 1] + t.end[1]
            out[text.index("'", i)] = out[j - 1] = '"'
            changed = True
    return Variant("".join(out)) if changed else None


def bytes_to_characters(line: str, offset: int) -> int:
    return len(line.encode()[:offset].decode())


def parenthesized(which: Callable[[ast.AST], bool]) -> Callable[[str], Optional[Variant]]:
    def change(text: str) -> Optional[Variant]:
        tree = ast.parse(text)
        toks = tokens(text)
        start_of = {t.start: i for i, t in enumerate(toks)}
        end_of = {t.end: i for i, t in enumerate(toks)}
        before: Dict[int, int] = {}
        after: Dict[int, int] = {}
        banned: Set[ast.AST] = set()
        for node in ast.walk(tree):
            if isinstance(node, (ast.JoinedStr, ast.MatchValue, ast.MatchClass, ast.MatchMapping)):
                banned.update(ast.walk(node))
            elif isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
                banned.add(node.value)
            elif isinstance(node, (ast.AnnAssign, ast.arg)) and node.annotation is not None:
                banned.update(ast.walk(node.annotation))
        for node in ast.walk(tree):
            if (
                not isinstance(node, ast.expr) or node in banned or not isinstance(getattr(node, "ctx", ast.Load()), ast.Load)
                or isinstance(node, (ast.Tuple, ast.GeneratorExp, ast.Starred, ast.Slice, ast.JoinedStr, ast.Yield, ast.YieldFrom))
                or not which(node)
            ):
                continue
            i = start_of[(node.lineno, node.col_offset)]
            j = end_of[(node.end_lineno, node.end_col_offset)]
            before[i] = before.get(i, 0) + 1
            after[j] = after.get(j, 0) + 1
        if not before:
            return None
        lines = text.splitlines()
        edits = [(toks[i].start, 0, "(" * n) for i, n in before.items()]
        edits += [(toks[j].end, 1, ")" * n) for j, n in after.items()]
        for (line, col), _, what in sorted(edits, reverse=True):
            # keywords need no blank before a parenthesis
            lines[line - 1] = lines[line - 1][:col] + what + lines[line - 1][col:]
        return Variant("\n".join(lines) + "\n", before, after)

    return change


def renamed(text: str) -> Optional[Variant]:
    if "import" in text:
        return None
    toks = tokens(text)
    lines = text.splitlines()
    edits = []
    calls: List[bool] = []
    previous: Optional[tokenize.TokenInfo] = None
    for i, t in enumerate(toks):
        following = toks[i + 1].string if i + 1 < len(toks) else ""
        if t.string in ("(", "[", "{"):
            calls.append(
                t.string == "(" and previous is not None
                and (previous.type == tokenize.NAME and not keyword.iskeyword(previous.string) or previous.string in (")", "]"))
            )
        elif t.string in (")", "]", "}") and calls:
            calls.pop()
        elif (
            t.type == tokenize.NAME and not keyword.iskeyword(t.string) and t.string not in BUILTINS
            and not (previous is not None and previous.string == ".") and not t.string.startswith("__")
            and not (calls and calls[-1] and following == "=" and "def " not in t.line and "class " not in t.line)
            and not (t.string in ("match", "case", "type") and t.line.lstrip().startswith(t.string))
            and t.string not in ("metaclass",)
        ):
            edits.append(t)
        previous = t
    for t in reversed(edits):
        line, col = t.end
        lines[line - 1] = lines[line - 1][:col] + ("_Q" if t.string.isupper() else "_q") + lines[line - 1][col:]
    return Variant("\n".join(lines) + "\n")


def nested(header: str, by: int) -> Callable[[str], Optional[Variant]]:
    def change(text: str) -> Optional[Variant]:
        if re.search(r"\bglobal\b|^[^ \n](?<!d)(?<!a)(?<!@)", text) or not re.match(r"(async )?def ", text):
            return None
        return Variant(header + "".join("    " * by + x if x.strip() else x for x in text.splitlines(True)), skipped=len(tokens(header + "    " * by + "pass\n")) - 1)

    return change


def documented(text: str) -> Optional[Variant]:
    """A docstring in every function."""
    tree = ast.parse(text)
    toks = tokens(text)
    lines = text.splitlines()
    at = {t.start: i for i, t in enumerate(toks)}
    before = {}
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)) and not ast.get_docstring(node):
            first = node.body[0]
            line, col = first.lineno, first.col_offset
            if isinstance(first, DECORATED) and first.decorator_list:
                line = first.decorator_list[0].lineno
            if not lines[line - 1][:col].strip():
                before[line] = at[(line, col)]
    for line in sorted(before, reverse=True):
        text_line = lines[line - 1]
        blank = text_line[: len(text_line) - len(text_line.lstrip())]
        lines.insert(line - 1, blank + '"""Does as it is told."""')
    return Variant("\n".join(lines) + "\n", {k: 1 for k in before.values()}) if before else None


DECORATED = (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)


def numbers(text: str) -> Optional[Variant]:
    """Whole numbers in base 16."""
    lines = text.splitlines()
    edits = [t for t in tokens(text) if t.type == tokenize.NUMBER and t.string.isdigit()]
    for t in reversed(edits):
        line, col = t.start
        lines[line - 1] = lines[line - 1][:col] + hex(int(t.string)) + lines[line - 1][t.end[1] :]
    return Variant("\n".join(lines) + "\n") if edits else None


# in these, statements may take more lines
LINES = ("blank lines", "comments", "strange comments", "line breaks", "backslashes", "docstrings")

REWRITINGS: Dict[str, Callable[[str], Optional[Variant]]] = {
    "blank lines": blank_lines,
    "comments": comments,
    "strange comments": strange_comments,
    "indentation of 2": indented("  "),
    "indentation of 8": indented(" " * 8),
    "tabs": indented("\t"),
    "spaces": spaced,
    "line breaks": broken_lines,
    "backslashes": continued,
    "quotes": quotes,
    "names": renamed,
    "docstrings": documented,
    "numbers": numbers,
    "parentheses of comparisons": parenthesized(lambda n: isinstance(n, (ast.Compare, ast.BoolOp))),
    "parentheses of arithmetic": parenthesized(lambda n: isinstance(n, (ast.BinOp, ast.UnaryOp))),
    "parentheses of names": parenthesized(lambda n: isinstance(n, ast.Name)),
    "parentheses of constants": parenthesized(lambda n: isinstance(n, ast.Constant)),
    "parentheses of calls": parenthesized(lambda n: isinstance(n, (ast.Call, ast.Subscript, ast.Attribute))),
    "parentheses of everything": parenthesized(lambda n: True),
    "in a function": nested("def outer():\n", 1),
    "in a class": nested("class Outer:\n", 1),
    "in a method": nested("class Outer:\n    def outer(self):\n", 2),
}


# -- comparing

Fact = Tuple[Any, ...]


def places(text: str) -> Tuple[Dict[Tuple[int, int], int], Dict[int, int], Dict[int, int]]:
    """Per position, the token starting there; per line, its first token, and the first one of the logical line."""
    starts: Dict[Tuple[int, int], int] = {}
    first: Dict[int, int] = {}
    logical: Dict[int, int] = {}
    n, begin = 0, None
    for t in tokenize.generate_tokens(io.StringIO(text).readline):
        if t.type == tokenize.NEWLINE:
            begin = None
        if t.type in LAYOUT:
            continue
        begin = n if begin is None else begin
        starts[t.start] = n
        first.setdefault(t.start[0], n)
        for line in range(t.start[0], t.end[0] + 1):
            logical.setdefault(line, begin)
        n += 1
    return starts, first, logical


def original_tokens(v: Variant, n: int) -> List[Optional[int]]:
    """The original token of each token of the variant; none for added ones before which, or after which, it stands."""
    result: List[Optional[int]] = [None] * v.skipped
    for k in range(n):
        result += [None] * v.before.get(k, 0) + [k] + [None] * v.after.get(k, 0)
    return result


def with_lines(text: str, change: Callable[[int], str]) -> str:
    """A message with the numbers of lines in it changed."""

    def changed(m: "re.Match[str]") -> str:
        return re.sub(r"\d+", lambda n: change(int(n.group())), m.group())

    return re.sub(r"\blines? \d+(-\d+)?(, \d+(-\d+)?)*", changed, text)


def facts(problems: List[Tuple[str, str, int, int]], v: Variant, n: int, name: str = "") -> List[Fact]:
    """What is reported, in terms of tokens of the original."""
    starts, first, logical = places(v.text)
    origin = original_tokens(v, n)

    def place(at: Optional[int]) -> Optional[int]:
        while at is not None and at < len(origin) and origin[at] is None:
            at += 1
        return origin[at] if at is not None and at < len(origin) else None

    result = []
    for code, text, line, col in problems:
        if name == "names":
            text = re.sub(r"\b(\w+?)_[qQ]\b", r"\1", text)
        text = with_lines(text, lambda k: f"<{place(logical.get(k))}>")
        text = re.sub(r"(<\w+>)-\1", r"\1", text)
        at = starts.get((line, col))
        if code == "R6701":
            result.append((code, text))
        elif at is None:
            result.append((code, text, "line", place(first.get(line))))
        else:
            result.append((code, text, "token", place(at)))
    return sorted(result, key=str)


def packed(texts: Sequence[str], opts: Sequence[str]) -> Optional[List[List[Tuple[str, str, int, int]]]]:
    problems, starts = prog.lint_packed(texts, opts, "")
    if any(p.code in prog.FAILED for p in problems):
        return None
    result: List[List[Tuple[str, str, int, int]]] = [[] for _ in texts]
    for p in problems:
        i = bisect.bisect_right(starts, p.line) - 1
        offset = starts[i] - 1
        # lines are told as those of the file
        text = with_lines(p.text, lambda k: str(max(k - offset, 0)))
        result[i].append((p.code, text, p.line - offset, p.column))
    return result


FILES: Dict[str, Callable[[str], Tuple[bytes, int]]] = {
    "as it is": lambda t: (t.encode(), 0),
    "CRLF": lambda t: (t.replace("\n", "\r\n").encode(), 0),
    "byte order mark": lambda t: (b"\xef\xbb\xbf" + t.encode(), 0),
    "no final new line": lambda t: (t.rstrip("\n").encode(), 0),
    "blanks at the end": lambda t: (t.encode() + b"\n    \n\t\n", 0),
    "form feeds": lambda t: (t.replace("\n\n\n", "\n\x0c\n\n").encode(), 0),
    "coding": lambda t: (b"#!/usr/bin/python3\n# -*- coding: latin-1 -*-\n" + t.encode(), 2),
    "description": lambda t: (b"# \xc4\x8de\xc5\xa1tina \xf0\x9f\x98\x80\n\n\n" + t.encode(), 3),
    "disabled pylint message": lambda t: (b"# pylint: disable=missing-docstring\n" + t.encode(), 1),
}


def of_file(data: bytes, opts: Sequence[str], shift: int) -> Set[Tuple[str, str, int, int]]:
    import edulint

    folder = common.fresh_dir("p")
    path = os.path.join(folder, "m.py")
    with open(path, "wb") as f:
        f.write(data)
    problems = edulint.lint_many(edulint.get_config_many([path], list(opts)))
    os.remove(path)
    os.rmdir(folder)
    return {
        (p.code, with_lines(p.text, lambda k: str(k - shift)), 0 if p.code == "R6701" else p.line - shift, p.column)
        for p in problems
    }


def run(check: common.Check) -> None:
    check.rule = (
        "programs of the families of C17 to C22 x rewritings of layout, names and surroundings; evaluations counts programs "
        "and variants linted, distinct_nontrivial rewritten variants of programs something is reported in, facts_compared the facts they had to report"
    )
    codes = sorted({*prog.OWN, *c23.duplication()})
    opts = prog.options(codes)
    programs = corpus.representatives(*((2000, 12) if common.THOROUGH else (300, 5)), codes)
    groups = [g for _, same in itertools.groupby(programs, key=lambda p: p.family) for g in corpus.packed(list(same), 20)]

    def worker(group: List[corpus.Program]) -> Tuple[str, Dict[str, int], int, int, int, List[Tuple[str, str]]]:
        bad: List[Tuple[str, str]] = []
        texts = [p.text for p in group]
        sizes = [len(tokens(t)) for t in texts]
        found = packed(texts, opts)
        if found is None:
            return group[0].family, {}, len(texts), 0, 0, [("failed", f"linting failed:\n{texts}")]
        originals = [facts(f, Variant(t), n) for f, t, n in zip(found, texts, sizes)]
        seen: Dict[str, int] = {}
        for fs in originals:
            for f in fs:
                seen[f[0]] = seen.get(f[0], 0) + 1
        runs, told, compared = len(texts), 0, 0
        for name, rewriting in REWRITINGS.items():
            variants = [rewriting(t) for t in texts]
            for t, v in zip(texts, variants):
                if v is not None:
                    tree = ast.parse(v.text)
                    if not name.startswith(("in ", "names", "docstrings")):
                        assert ast.dump(tree) == ast.dump(ast.parse(t)), (name, t, v.text)
            used = [v or Variant(t) for t, v in zip(texts, variants)]
            again = packed([v.text for v in used], opts)
            runs += len(texts)
            if again is None:
                bad.append((name, "linting failed:\n" + "\n".join(v.text for v in used)))
                continue
            for t, n, v, fs, gs in zip(texts, sizes, used, originals, again):
                new = facts(gs, v, n, name)
                compared += len(fs)
                told += bool(fs) and v.text != t
                old = fs
                if name.startswith("in "):
                    old, new = ([f for f in x if f[0] not in BETWEEN] for x in (fs, new))
                if name in LINES:
                    old, new = ([(f[0], re.sub(r"\d+ lines", "N lines", f[1]), *f[2:]) for f in x] for x in (old, new))
                if old != new:
                    gone = [f for f in old if f not in new]
                    come = [f for f in new if f not in old]
                    bad.append((name, f"{name}: {gone} became {come} for\n{t}\nwhen written as\n{v.text}"))
        whole = "\n\n\n".join(t.rstrip("\n") for t in texts)
        reference = None
        for name, change in FILES.items():
            data, shift = change(whole + "\n")
            now = of_file(data, opts, shift)
            runs += 1
            if reference is None:
                reference = now
            elif now != reference:
                bad.append((name, f"{name}: {sorted(reference - now)} became {sorted(now - reference)} for\n{whole}"))
        if not group[0].module:
            for name, order in (("alone", None), ("other order", list(reversed(range(len(texts)))))):
                if order is None:
                    others = [x for t in texts for x in packed([t], opts) or [[]]]
                else:
                    shuffled = packed([texts[i] for i in order], opts) or [[] for _ in texts]
                    others = [shuffled[order.index(i)] for i in range(len(texts))]
                runs += len(texts)
                for t, n, fs, gs in zip(texts, sizes, originals, others):
                    if "global " in t:
                        continue
                    old, new = (
                        [f for f in x if f[0] not in BETWEEN] for x in (fs, facts(gs, Variant(t), n))
                    )
                    if old != new:
                        bad.append((name, f"{name}: {[f for f in old if f not in new]} became {[f for f in new if f not in old]} for\n{t}"))
        return group[0].family, seen, runs, told, compared, bad

    for family, seen, runs, told, compared, bad in common.pmap(worker, groups):
        check.add(evaluations=runs, distinct_nontrivial=told, facts_compared=compared)
        for c, k in seen.items():
            check.outcome(c, k)
        for name, what in bad:
            check.violation(f"{name}-{common.digest([family, what])}", what, {"wrong": what})
    check.add(programs=len(programs))
    check.notes["rewritings"] = [*REWRITINGS, *FILES, "alone", "other order"]
    check.sample("a program", programs[len(programs) // 2].text)


# kinds that are about several functions of a file
BETWEEN = ("R6551", "R6554", "R6701", "E9992")
