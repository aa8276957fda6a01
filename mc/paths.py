"""Every run of a small program whose conditions are opaque.

The program calls ``c()`` for the value of a condition and ``p(k)`` to be seen passing. All sequences
of answers of ``c()`` are explored, depth first, up to a number of answers per run; a run that asks
for more is cut. So the runs explored are all paths through the program up to that depth."""
from __future__ import annotations

from typing import Any, Dict, List, Tuple


class Cut(BaseException):
    """A run that exceeds its bounds."""


Run = Tuple[Tuple[bool, ...], Tuple[Any, ...], Any]


def runs(source: str, depth: int = 6, steps: int = 60, entry: str = "f", extra: Dict[str, Any] = {}) -> List[Run]:
    """(answers, trace, outcome) of each run; the outcome is ("cut",) for a run that was cut."""
    code = compile(source, "<program>", "exec")
    out: List[Run] = []
    prefix: List[bool] = []
    while True:
        answers: List[bool] = []
        trace: List[Any] = []

        def c(*_a: Any) -> bool:
            k = len(answers)
            if k >= depth:
                raise Cut
            answers.append(prefix[k] if k < len(prefix) else False)
            trace.append("?")
            if len(trace) > steps:
                raise Cut
            return answers[-1]

        def p(k: Any = None, v: Any = None) -> Any:
            trace.append(k)
            if len(trace) > steps:
                raise Cut
            return v

        left = [steps]

        def tick() -> None:
            left[0] -= 1
            if left[0] < 0:
                raise Cut

        env: Dict[str, Any] = {"c": c, "p": p, "_tick": tick, **extra}
        exec(code, env)
        try:
            outcome: Any = ("value", env[entry]())
        except Cut:
            outcome = ("cut",)
        except Exception as e:  # noqa: BLE001
            outcome = ("raises", type(e).__name__)
        out.append((tuple(answers), tuple(trace), outcome))
        while answers and answers[-1]:
            answers.pop()
        if not answers:
            return out
        answers[-1] = True
        prefix = answers


def bodies(
    size: int, leaves: List[str], shapes: Dict[str, int], memo: Dict[Any, Any] = {}
) -> List[Tuple[str, ...]]:
    """All statement lists of a size: leaves and shapes (compound statements with a number of blocks,
    written with {0}, {1}...) count one each. Statements are texts; blocks are indented."""
    key = (size, tuple(leaves), tuple(shapes))
    if key in memo:
        return memo[key]
    out: List[Tuple[str, ...]] = []
    if size == 0:
        out = [()]
    else:
        for used in range(1, size + 1):
            for first in statements(used, leaves, shapes, memo):
                out += [(first,) + rest for rest in bodies(size - used, leaves, shapes, memo)]
    memo[key] = out
    return out


def statements(size: int, leaves: List[str], shapes: Dict[str, int], memo: Dict[Any, Any]) -> List[str]:
    if size == 1:
        return list(leaves)
    out = []
    for shape, blocks in shapes.items():
        for split in splits(size - 1, blocks):
            for parts in product([bodies(n, leaves, shapes, memo) for n in split]):
                out.append(shape.format(*(indent("\n".join(b)) for b in parts)))
    return out


def splits(total: int, parts: int) -> List[Tuple[int, ...]]:
    if parts == 1:
        return [(total,)] if total else []
    return [(k,) + r for k in range(1, total) for r in splits(total - k, parts - 1)]


def product(lists: List[List[Any]]) -> List[Tuple[Any, ...]]:
    out: List[Tuple[Any, ...]] = [()]
    for options in lists:
        out = [o + (x,) for o in out for x in options]
    return out


def indent(text: str, by: int = 4) -> str:
    return "".join(" " * by + line + "\n" for line in text.split("\n") if line.strip()).rstrip("\n")


def numbered(source: str) -> str:
    """Gives every p() its own number."""
    out = []
    k = 0
    while "p()" in source:
        before, source = source.split("p()", 1)
        out.append(before + f"p({k})")
        k += 1
    return "".join(out) + source


