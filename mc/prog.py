"""Small programs: many of them linted in one file, each then judged by executing it.

A case is a piece of source text (usually one function). Cases are packed into files, each file is
linted once with edulint's own checkers, and every problem is handed back with the case its line
falls in, as (code, text, line within the case, column, end column)."""
from __future__ import annotations

import ast
import bisect
import os
from typing import Any, Callable, Dict, Iterator, List, Optional, Sequence, Tuple

from mc import common

Found = Tuple[str, str, int, int, Optional[int]]

FAILED = ("F0002", "E0002")  # a checker failed

OWN = (
    [f"R62{i:02}" for i in range(1, 25)]
    + [f"R63{i:02}" for i in range(1, 11)]
    + ["R6401"]
    + [f"R66{i:02}" for i in range(1, 20)]
    + ["R6701", "R6702", "E9984", "E9988", "E9992", "E9996"]
)


def options(codes: Sequence[str]) -> List[str]:
    return ["config-file=empty", "pylint=--enable=" + ",".join([*codes, *FAILED])]


def lint_text(text: str, opts: Sequence[str]) -> List[Any]:
    import edulint

    folder = common.fresh_dir("p")
    path = common.write(os.path.join(folder, "m.py"), text)
    problems = edulint.lint_many(edulint.get_config_many([path], list(opts)))
    os.remove(path)
    os.rmdir(folder)
    return problems


def lint_batch(texts: Sequence[str], opts: Sequence[str], header: str = "") -> List[List[Found]]:
    problems, starts = lint_packed(texts, opts, header)
    if any(p.code in FAILED for p in problems):
        if len(texts) == 1:
            return [[(p.code, p.text, 0, 0, None) for p in problems if p.code in FAILED]]
        half = len(texts) // 2
        return lint_batch(texts[:half], opts, header) + lint_batch(texts[half:], opts, header)
    result: List[List[Found]] = [[] for _ in texts]
    for p in problems:
        i = bisect.bisect_right(starts, p.line) - 1
        if i >= 0:
            result[i].append((p.code, p.text, p.line - starts[i], p.column, p.end_column))
    return result


def lint_packed(texts: Sequence[str], opts: Sequence[str], header: str) -> Tuple[List[Any], List[int]]:
    starts = []
    lines = header.splitlines()
    for text in texts:
        starts.append(len(lines) + 1)
        lines += text.splitlines() + ["", ""]
    return lint_text("\n".join(lines) + "\n", opts), starts


def explore(
    cases: Sequence[Any],
    text: Callable[[int, Any], str],
    judge: Callable[[Any, str, List[Found]], Tuple[int, List[Tuple[Any, str]]]],
    opts: Sequence[str],
    size: int = 60,
    header: str = "",
    always: bool = False,
) -> Iterator[Tuple[Any, str, List[Found], int, List[Tuple[Any, str]]]]:
    """Lints the texts of all cases and judges what was found in each. The judge returns the number of
    executions it compared and the wrong claims. Cases nothing was found in are judged only if asked to."""

    def worker(chunk: List[Tuple[int, Any]]) -> List[Any]:
        texts = [text(i, c) for i, c in chunk]
        found = lint_batch(texts, opts, header)
        out = []
        for (i, _c), t, f in zip(chunk, texts, found):
            if f and f[0][0] in FAILED:
                out.append((i, t, [], 1, [("failed", f"linting failed: {f[0][1][:300]}")]))
            elif f or always:
                try:
                    n, bad = judge(_c, t, f)
                except BaseException as e:  # noqa: BLE001
                    raise RuntimeError(f"judging failed with {e!r}:\n{t}") from e
                out.append((i, t, f, n, bad))
        return out

    numbered = list(enumerate(cases))
    for out in common.pmap(worker, list(common.chunks(numbered, size))):
        for i, t, f, n, bad in out:
            yield cases[i], t, f, n, bad


def run_family(
    check: common.Check,
    name: str,
    cases: Sequence[Any],
    text: Callable[[int, Any], str],
    judge: Callable[..., Tuple[int, List[Tuple[Any, str]]]],
    codes: Sequence[str],
    size: int = 60,
    header: str = "",
    always: bool = False,
) -> Dict[str, int]:
    """Explores a family of programs and records it in the check."""
    if name not in os.environ.get("MC_FAMILIES", name).split(","):
        return {}
    seen: Dict[str, int] = {}
    executions = 0
    for case, t, found, n, bad in explore(cases, text, judge, options(codes), size, header, always):
        executions += n
        for f in found:
            seen[f[0]] = seen.get(f[0], 0) + 1
            check.outcome(f[0])
            check.sample(f[0], {"family": name, "program": t, "says": f[1]}, 1)
        for key, what in bad:
            check.violation(
                f"{name}-{common.digest([case, key])}", f"{name}: {what}\n{t}", {"program": t, "wrong": what}
            )
    check.add(evaluations=executions + len(cases), distinct_nontrivial=sum(seen.values()), programs=len(cases))
    check.notes.setdefault("families", {})[name] = {"programs": len(cases), "claims": seen}
    return seen


def clone(node: Any) -> Any:
    """A copy of a syntax tree. (Not deepcopy: linters hang whole modules on the shared ast.Load().)"""
    if isinstance(node, list):
        return [clone(n) for n in node]
    if not isinstance(node, ast.AST) or isinstance(node, ast.expr_context):
        return node
    new = type(node)(**{k: clone(v) for k, v in ast.iter_fields(node)})
    for a in node._attributes:
        if hasattr(node, a):
            setattr(new, a, getattr(node, a))
    return new


# -- expressions

SAFE = {"abs": abs, "min": min, "max": max, "range": range, "len": len, "str": str, "ord": ord, "int": int}


def compiled(expr: str) -> Optional[Any]:
    try:
        return compile(expr.strip(), "<expr>", "eval")
    except SyntaxError:
        return None


def value(code: Any, env: Dict[str, Any]) -> Any:
    """The value, or the type of the exception."""
    g = dict(SAFE)
    g.update(env)
    try:
        return eval(code, {"__builtins__": {}}, g)
    except Exception as e:  # noqa: BLE001
        return type(e)


def normal(expr: str) -> str:
    return ast.unparse(ast.parse(expr.strip(), mode="eval"))


def subexpressions(source: str, line: int, column: int) -> List[ast.expr]:
    """Expressions of the source that start at a position (line from 0, column from 0)."""
    return [
        n
        for n in ast.walk(ast.parse(source))
        if isinstance(n, ast.expr) and n.lineno == line + 1 and n.col_offset == column
    ]
