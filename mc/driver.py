"""Runs the real linting pipeline (configuration resolution, linters, post-processing) in-process."""
from __future__ import annotations

import os
import shutil
from typing import Any, Dict, List, Optional, Sequence, Tuple

from mc import common

EDULINT_ONLY = ["config-file=empty", "no-flake8", "pylint=--disable=all"]


def lint_paths(paths: List[str], options: List[str]):
    import edulint

    return edulint.lint_many(edulint.get_config_many(paths, options))


def lint_sources(
    sources: Sequence[str], codes: Optional[List[str]] = None, options: Optional[List[str]] = None
) -> List[List[Any]]:
    """Lint each source as a module of its own, all in one call; returns the problems per source."""
    if options is None:
        options = EDULINT_ONLY + [f"pylint=--enable={','.join(codes)}"]
    d = common.fresh_dir("lint")
    try:
        width = len(str(len(sources)))
        names = {}
        paths = []
        for i, src in enumerate(sources):
            path = os.path.join(d, f"m{i:0{width}d}.py")
            common.write(path, src)
            names[path] = i
            paths.append(path)
        result: List[List[Any]] = [[] for _ in sources]
        for p in lint_paths(paths, options):
            result[names[p.path]].append(p)
        return result
    finally:
        shutil.rmtree(d, ignore_errors=True)


def lint_functions(
    functions: Sequence[str],
    codes: List[str],
    per_module: int = 30,
    header: str = "",
    options: Optional[List[str]] = None,
) -> List[List[Tuple[int, Any]]]:
    """Lint many single-function programs, ``per_module`` of them to a module. Each program is a text
    in which the function's name is written ``FUNC``. Returns, per function, the problems with their
    line relative to the function's first line (1-based)."""
    sources = []
    spans: List[List[Tuple[int, int, int]]] = []
    for start in range(0, len(functions), per_module):
        lines = header.splitlines()
        span = []
        for k, fn in enumerate(functions[start : start + per_module]):
            body = fn.replace("FUNC", f"fun{k}").rstrip("\n").split("\n")
            span.append((len(lines) + 1, len(lines) + len(body), start + k))
            lines.extend(body)
            lines.append("")
            lines.append("")
        sources.append("\n".join(lines) + "\n")
        spans.append(span)
    result: List[List[Tuple[int, Any]]] = [[] for _ in functions]
    for mod, problems in enumerate(lint_sources(sources, codes, options)):
        for p in problems:
            for lo, hi, idx in spans[mod]:
                if lo <= p.line <= hi:
                    result[idx].append((p.line - lo + 1, p))
                    break
            else:
                # outside of any function (module-level message)
                for _lo, _hi, idx in spans[mod][:1]:
                    result[idx].append((-p.line, p))
    return result
