"""C02: which messages are enabled after any sequence of enable/disable arguments, and that every
other linter argument reaches the linter unchanged."""
from __future__ import annotations

import itertools
import os

from mc import common, driver

LEVEL = "exploration"

# one line each: pylint W0107 (unnecessary-pass), edulint R6201, pylint W0104
PROGRAM = '''def f(x):
    """Doc."""
    pass


def g(x):
    if x > 3:
        return True
    else:
        return False


1 == 2
'''
SYMBOLS = {
    "W0107": "unnecessary-pass",
    "R6201": "simplifiable-if-return",
    "W0104": "pointless-statement",
}
UNIVERSE = tuple(SYMBOLS)

TOKENS = [
    ("dis-all", "disable", "all"),
    ("en-all", "enable", "all"),
    ("en-a", "enable", "W0107"),
    ("dis-a", "disable", "unnecessary-pass"),
    ("en-b", "enable", "simplifiable-if-return"),
    ("dis-b", "disable", "R6201"),
    ("en-ab", "enable", "unnecessary-pass,R6201"),
    ("dis-ac", "disable", "W0107,pointless-statement"),
    ("en-c", "enable", "W0104"),
    ("noop", "enable", "noop"),
]
OTHER = [
    "--good-names=Foo,bar",
    "--variable-rgx=^[A-Z]+$",
    "--load-plugins=edulint.linting.checkers.Basic_Checker",
    "--Max-Args=ENABLE=All",
    "--disable-msg-like=Disable",
    "--enable-all-extensions",
    "-e",
    "--bad-names-rgxs=--enable=X",
]


def fold(seq):
    enabled = set()  # the empty configuration disables everything
    for _n, verb, val in seq:
        for v in val.split(","):
            if v == "all":
                ids = set(UNIVERSE)
            else:
                ids = {c for c, s in SYMBOLS.items() if v in (c, s)}
            enabled = enabled | ids if verb == "enable" else enabled - ids
    return enabled


def lint_worker(seqs):
    d = common.fresh_dir("c02")
    path = common.write(os.path.join(d, "prog.py"), PROGRAM)
    bad = []
    seen = set()
    for seq, split in seqs:
        toks = [f"pylint=--{verb}={val}" for _n, verb, val in seq]
        infile, cmd = toks[:split], toks[split:]
        text = PROGRAM + "".join(f"# edulint: {t}\n" for t in infile)
        common.write(path, text)
        problems = driver.lint_paths([path], ["config-file=empty", "no-flake8"] + cmd)
        got = {p.code for p in problems} & set(UNIVERSE)
        want = fold(seq)
        seen.add(tuple(sorted(got)))
        if got != want:
            bad.append(([t[0] for t in seq], split, sorted(got), sorted(want)))
    return len(seqs), seen, bad


def args_worker(seqs):
    from edulint.config.config import get_config_many
    from edulint.options import Option

    d = common.fresh_dir("c02a")
    path = common.write(os.path.join(d, "prog.py"), "x = 1\n")
    bad = []
    for opt, seq in seqs:
        ((_f, base, _t),) = get_config_many([path], ["config-file=empty"])
        ((_f, conf, _t),) = get_config_many(
            [path], ["config-file=empty"] + [f"{opt}={a}" for a in seq]
        )

        def others(args):
            if opt == "flake8":
                return list(args)
            return [a for a in args if not a.startswith(("--enable=", "--disable="))]

        o = Option.from_name(opt)
        want = others(base[o]) + others(seq)
        got = others(conf[o])
        if got != want:
            bad.append((opt, list(seq), got[len(others(base[o])) :], others(seq)))
    return len(seqs), bad


def run(check: common.Check) -> None:
    depth = 5 if common.THOROUGH else 4
    small = TOKENS[:6] + [TOKENS[6], TOKENS[9]]
    seqs = []
    for n in range(0, depth + 1):
        toks = TOKENS if n <= 3 else small
        for seq in itertools.product(toks, repeat=n):
            # one split point between in-file and CLI per sequence, cycling through all positions
            if n <= 2:
                seqs.extend((seq, k) for k in range(n + 1))
            else:
                seqs.append((seq, len(seqs) % (n + 1)))
    patterns = set()
    for n, seen, bad in common.pmap(lint_worker, list(common.chunks(seqs, 120))):
        check.add(evaluations=n)
        patterns |= seen
        for names, split, got, want in bad:
            check.violation(
                f"seq-{'/'.join(names)}@{split}",
                f"pylint args {names} (first {split} in-file): enabled {got}, expected {want}",
                {"seq": names, "in-file": split, "got": got, "want": want},
            )
    for p in sorted(patterns):
        check.outcome("enabled:" + ",".join(p))

    toks = [f"--{v}={val}" for _n, v, val in (TOKENS[0], TOKENS[1], TOKENS[2], TOKENS[3])]
    aseqs = []
    for n in range(1, 4 if not common.THOROUGH else 5):
        for seq in itertools.product(OTHER + toks, repeat=n):
            if any(a in OTHER for a in seq):
                aseqs.append(("pylint", seq))
                if n < 3:
                    aseqs.append(("flake8", seq))
    for n, bad in common.pmap(args_worker, list(common.chunks(aseqs, 200))):
        check.add(evaluations=n)
        for opt, seq, got, want in bad:
            check.violation(
                f"args-{opt}-{'/'.join(seq)}",
                f"{opt} arguments {seq} reach the linter as {got}, expected {want}",
                {"option": opt, "args": seq, "got": got, "want": want},
            )
    check.add(distinct_nontrivial=len(seqs) + len(aseqs))
    check.rule = (
        "all sequences of enable/disable arguments (individual, list, all, noop; by id and by symbol)"
        " up to the length bound, linted for real and compared with a last-one-wins fold; all "
        "sequences of case-sensitive other arguments mixed with them, compared verbatim; every "
        "sequence is distinct, and distinct outcomes are listed under outcomes"
    )
    check.sample("enable/disable", [t[0] for t in seqs[len(seqs) // 2][0]])
    check.sample("verbatim", aseqs[len(aseqs) // 2])
