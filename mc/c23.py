"""C23: what is reported of one kind does not depend on which other kinds are enabled.

Programs of all families of C17 to C22 are linted with all of edulint's own checks enabled, with each alone, with all
pairs, and with all but one; what is reported of a kind must be the same each time, but for the documented overrides and
for kinds of which only the best is suggested."""
from __future__ import annotations

import itertools
from typing import Any, Dict, List, Sequence, Set, Tuple

from mc import common, corpus, prog

LEVEL = "exploration"

Fact = Tuple[str, str, int, int, Any, Any]


def duplication() -> List[str]:
    from edulint.linting.checkers.duplication.checker import NoDuplicateCode

    return sorted(NoDuplicateCode.msgs)


def lint(text: str, codes: Sequence[str]) -> Set[Fact]:
    return {
        (p.code, p.text, p.line, p.column, p.end_line, p.end_column) for p in prog.lint_text(text, prog.options(codes))
    }


def overriding() -> Dict[str, Set[str]]:
    """Per kind, the kinds that may hide it: those of the documented table."""
    from edulint.linting.overrides import get_overriders

    return {k: set(v) for k, v in get_overriders().items()}


def hides(other: Fact, fact: Fact, hidden_by: Dict[str, Set[str]], duplicates: Set[str]) -> bool:
    """Whether one problem may hide another: by the table, or being a better suggestion for the same repeated code."""
    if fact[0] in duplicates and other[0] in duplicates:
        return other[2] <= (fact[4] or fact[2]) and fact[2] <= (other[4] or other[2])
    return other[0] in hidden_by.get(fact[0], ()) and other[2] == fact[2]


def run(check: common.Check) -> None:
    check.rule = (
        "programs of the families of C17 to C22, linted with all of edulint's checks, with those of pylint besides, and with "
        "each alone; one program for each kind with all pairs of kinds and with all but one; evaluations counts lint runs, "
        "distinct_nontrivial pairs of a program file and a kind reported in it"
    )
    duplicates = set(duplication())
    everything = sorted({*prog.OWN, *duplicates})
    hidden_by = overriding()

    def compare(
        text: str, ours: Sequence[str], alone: Set[Fact], among: Set[Fact], both: bool = False
    ) -> List[str]:
        bad = []
        a, b = ({f for f in fs if f[0] in ours} for fs in (alone, among))
        for f in sorted(b - a, key=str):
            if both and any(hides(g, f, hidden_by, duplicates) for g in alone):
                continue
            bad.append(f"{f[0]} {f[1]!r} at {f[2:]} is reported only with others enabled")
        for f in sorted(a - b, key=str):
            if not any(hides(g, f, hidden_by, duplicates) for g in among):
                bad.append(f"{f[0]} {f[1]!r} at {f[2:]} is lost with others enabled")
        return [f"{x}\n{text}" for x in bad]

    def alone(programs: List[corpus.Program]) -> Tuple[str, int, List[str], Dict[str, str], List[str]]:
        texts = [p.text for p in programs]
        text = "\n\n\n".join(texts)
        among = lint(text, everything)
        present = sorted({f[0] for f in among if f[0] in everything})
        absent = [c for c in everything if c not in present]
        first: Dict[str, str] = {}
        for c in present:
            line = min(f[2] for f in among if f[0] == c)
            at = 1
            for t in texts:
                at += len(t.splitlines()) + 2
                if line < at:
                    first[c] = t
                    break
        bad = compare(text, everything, among, lint(text, ["C", "R", "W", "E", *everything]))
        runs = 2
        for ours in [[c] for c in present] + ([[c] for c in absent] if common.THOROUGH else [absent]):
            runs += 1
            bad += compare(text, ours, lint(text, ours), among)
        return programs[0].family, runs, present, first, bad

    chosen: Dict[str, str] = {}
    programs = corpus.representatives(*((2000, 8) if common.THOROUGH else (300, 3)), everything)
    files = [
        group for _, same in itertools.groupby(programs, key=lambda p: p.family) for group in corpus.packed(list(same), 30)
    ]
    for family, runs, present, first, bad in common.pmap(alone, files):
        check.add(evaluations=runs, distinct_nontrivial=len(present))
        for c in present:
            check.outcome(c)
        for c, t in first.items():
            chosen[c] = min(chosen.get(c, t), t, key=lambda x: (len(x), x))
        for b in bad:
            check.violation(f"{family}-{common.digest(b)}", b, {"wrong": b})

    # one program for each kind: pairs of programs with pairs of kinds, all programs with all kinds but one
    def some(arg: Tuple[str, List[str], List[str]]) -> Tuple[int, List[str]]:
        text, ours, enabled = arg
        found = lint(text, enabled)
        bad = []
        for c in ours:
            bad += compare(text, [c], lint(text, [c]), found)
        return 1 + len(ours), bad

    cases = []
    for a, b in itertools.combinations(sorted(chosen), 2):
        cases.append((f"{chosen[a]}\n\n{chosen[b]}", [a, b], [a, b]))
    full = "\n\n\n".join(dict.fromkeys(chosen[c] for c in sorted(chosen))) + "\n"
    for c in sorted(chosen):
        cases.append((full, [], [x for x in everything if x != c]))
    whole = lint(full, everything)

    def one(arg: Tuple[str, List[str], List[str]]) -> Tuple[int, List[str]]:
        text, ours, enabled = arg
        if ours:
            return some(arg)
        return 1, compare(text, enabled, lint(text, enabled), whole, True)

    for runs, bad in common.pmap(one, cases):
        check.add(evaluations=runs)
        for b in bad:
            check.violation(f"sets-{common.digest(b)}", b, {"wrong": b})
    check.notes["programs"] = len(programs)
    check.notes["kinds reported"] = len(chosen)
    check.notes["kinds never reported"] = [c for c in everything if c not in chosen]
    check.notes["sets of kinds"] = len(cases)
    check.sample("a program for each kind", full[:3000])
