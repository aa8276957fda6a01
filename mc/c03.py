"""C03: which configuration file governs a linted file, and what it inherits.

Enumerates directory trees (implicit config files at every level), in-file and CLI selections of every
path kind, working directories and path spellings; and every inheritance graph over three config files
in different directories (including missing targets, packaged ones, self-loops and cycles)."""
from __future__ import annotations

import itertools
import os
import shutil

from mc import common

LEVEL = "exploration"

IMPLICIT = [None, "edulint.toml", ".edulint.toml"]
INFILE = [None, "packaged", "rel-here", "rel-up", "rel-sub", "abs", "missing", "missing-packaged"]
CLI = [None, "packaged", "rel-cwd", "abs", "missing"]
LEVELS = ("", "p", "p/q")


def cfg(marker: str) -> str:
    return f'allowed-onechar-names = "{marker}"\n[pylint]\nmax-args = "{marker}"\n'


def marker_of(conf):
    from edulint.options import Option

    return conf[Option.ALLOWED_ONECHAR_NAMES]


def tree_worker(job):
    from edulint.config.config import get_config_many

    root = common.fresh_dir("c03")
    os.makedirs(os.path.join(root, "p/q/sub"))
    os.makedirs(os.path.join(root, "other"))
    common.write(os.path.join(root, "p/q/here.toml"), cfg("here"))
    common.write(os.path.join(root, "p/up.toml"), cfg("up"))
    common.write(os.path.join(root, "p/q/sub/sub.toml"), cfg("sub"))
    common.write(os.path.join(root, "abs.toml"), cfg("abs"))
    for cwd in ("", "p", "other"):
        common.write(os.path.join(root, cwd, "cli.toml"), cfg("cli-" + (cwd or "root")))
    path = os.path.join(root, "p/q/f.py")
    bad = []
    seen = set()
    n = 0
    for impl, infile, cli, cwd, spelling in job:
        n += 1
        for lvl, name in zip(LEVELS, impl):
            for nm in IMPLICIT[1:]:
                p = os.path.join(root, lvl, nm)
                if nm == name:
                    common.write(p, cfg("impl-" + (lvl or "root")))
                elif os.path.exists(p):
                    os.unlink(p)
        infile_val = {
            None: None,
            "packaged": "empty",
            "rel-here": "here.toml",
            "rel-up": "../up.toml",
            "rel-sub": "sub/sub.toml",
            "abs": os.path.join(root, "abs.toml"),
            "missing": "gone.toml",
            "missing-packaged": "gone",
        }[infile]
        cli_val = {
            None: None,
            "packaged": "empty",
            "rel-cwd": "cli.toml",
            "abs": os.path.join(root, "abs.toml"),
            "missing": "gone.toml",
        }[cli]
        common.write(
            path, "x = 1\n" + (f"# edulint: config-file={infile_val}\n" if infile_val else "")
        )
        os.chdir(os.path.join(root, cwd))
        arg = path if spelling == "abs" else os.path.relpath(path)
        if spelling == "parent-dir":
            arg = os.path.dirname(arg)
        with common.LogCapture("ERROR") as log:
            try:
                res = get_config_many([arg], [f"config-file={cli_val}"] if cli_val else [])
            except Exception as e:  # noqa: BLE001
                bad.append((impl, infile, cli, cwd, spelling, f"raised {e!r}", "a configuration"))
                continue
        if cli is not None:
            want = {"packaged": None, "rel-cwd": "cli-" + (cwd or "root"), "abs": "abs"}.get(
                cli, "!"
            )
        elif infile is not None:
            want = {
                "packaged": None,
                "rel-here": "here",
                "rel-up": "up",
                "rel-sub": "sub",
                "abs": "abs",
            }.get(infile, "!")
        else:
            want = None
            for lvl, name in zip(LEVELS, impl):
                if name:
                    want = "impl-" + (lvl or "root")
        if len(res) == 0:
            got = "!" if log.records else "silently dropped"
        else:
            got = marker_of(res[0][1])
        default = cli is None and infile is None and not any(impl)
        if want is None and got is None:
            from edulint.options import Option

            has_default = any("simplifiable-if-return" in a for a in res[0][1][Option.PYLINT])
            if has_default != default:
                got = "default" if has_default else "empty"
                want = "default" if default else "empty"
        seen.add(str(got))
        if got != want:
            bad.append((impl, infile, cli, cwd, spelling, got, want))
    shutil.rmtree(root, ignore_errors=True)
    return n, seen, bad


PLACES = {"A": "a.toml", "B": "d/b.toml", "C": "d/e/c.toml"}


def chain_worker(job):
    from edulint.config.config import get_config_many
    from edulint.options import Option

    root = common.fresh_dir("c03c")
    os.makedirs(os.path.join(root, "d/e"))
    os.chdir(root)
    path = common.write(os.path.join(root, "f.py"), "x = 1\n")
    bad = []
    seen = set()
    n = 0
    for targets, start, how in job:
        n += 1
        for name, target in zip("ABC", targets):
            file = os.path.join(root, PLACES[name])
            if target is None:
                line = ""
            elif target in PLACES:
                line = f'config-file = "{os.path.relpath(os.path.join(root, PLACES[target]), os.path.dirname(file))}"\n'
            elif target == "abs-C":
                line = f'config-file = "{os.path.join(root, PLACES["C"])}"\n'
            elif target == "missing":
                line = 'config-file = "gone.toml"\n'
            elif target == "invalid":
                line = 'config-file = "%s"\n' % os.path.join(root, "invalid.toml")
            else:
                line = f'config-file = "{target}"\n'
            common.write(
                file,
                f'pylint = "--own={name}"\n' + line
                + f'[translations.g.pylint]\nenable = "{name}"\n'
                + f'[language-translations]\nW0107 = "{name}"\nX{name} = "own"\n',
            )
        common.write(os.path.join(root, "invalid.toml"), "this is not toml\n")
        # reference
        order = []
        cur = start
        fails = False
        while cur is not None:
            if cur in order or cur in ("missing", "invalid"):
                fails = True
                break
            order.append(cur)
            if cur in ("empty", "default"):
                break
            nxt = targets["ABC".index(cur)]
            cur = "C" if nxt == "abs-C" else nxt
        want = None if fails else [f"--own={c}" for c in reversed(order) if c in PLACES]
        opts = ["set-groups=g"]
        if how == "cmd":
            common.write(path, "x = 1\n")
            opts.append("config-file=" + PLACES[start])
        else:
            common.write(path, f"# edulint: config-file={PLACES[start]}\n")
        with common.LogCapture("ERROR") as log:
            try:
                res = get_config_many([path], opts)
            except RecursionError as e:
                res = [repr(e)]
            except Exception as e:  # noqa: BLE001
                res = [repr(e)]
        problem = None
        if res and isinstance(res[0], str):
            problem = "raised " + res[0]
        elif want is None:
            if res:
                problem = "resolved although a referenced file is missing, invalid or cyclic"
            elif not log.records:
                problem = "dropped without any error message"
        elif not res:
            problem = "not resolved: " + "; ".join(log.records)[:200]
        else:
            pyl = list(res[0][1][Option.PYLINT])
            got = [a for a in pyl if a.startswith("--own=")]
            seen.add(tuple(got))
            top = next(c for c in order if c in PLACES)
            default = any("simplifiable-if-return" in a for a in pyl)
            tr = res[0][2]
            if got != want:
                problem = f"inherited {got}, expected {want}"
            elif default != ("default" in order):
                problem = f"default checks {'present' if default else 'absent'}"
            elif f"--enable={top}" not in pyl or any(
                f"--enable={c}" in pyl for c in order if c in PLACES and c != top
            ):
                problem = "group definition of the inheriting file does not replace the inherited one"
            elif tr["W0107"].translation != top or {k for k in tr if k.startswith("X")} != {
                f"X{c}" for c in order if c in PLACES
            }:
                problem = f"translations {sorted(tr)} / W0107={tr['W0107'].translation}"
        if problem:
            bad.append((targets, start, how, problem))
    shutil.rmtree(root, ignore_errors=True)
    return n, seen, bad


def run(check: common.Check) -> None:
    spellings = ["abs", "rel", "parent-dir"]
    cwds = ["", "p", "other"]
    cases = []
    for impl in itertools.product(IMPLICIT, repeat=3):
        for infile in INFILE:
            for cli in CLI:
                if common.THOROUGH:
                    combos = itertools.product(cwds, spellings)
                else:
                    combos = [
                        (cwds[(len(cases) // 2) % 3], spellings[len(cases) % 3]),
                        (cwds[(len(cases) // 2 + 1) % 3], spellings[(len(cases) + 1) % 3]),
                    ]
                for cwd, sp in combos:
                    cases.append((impl, infile, cli, cwd, sp))
    seen = set()
    for n, s, bad in common.pmap(tree_worker, list(common.chunks(cases, 150))):
        check.add(evaluations=n)
        seen |= s
        for b in bad:
            check.violation(
                common.digest(b[:5]),
                f"implicit configs {b[0]}, in-file {b[1]}, CLI {b[2]}, cwd {b[3]!r}, path {b[4]}: "
                f"governed by {b[5]!r}, expected {b[6]!r}",
                b,
            )
    for s in sorted(seen):
        check.outcome("governed by " + s)
    targets = [None, "A", "B", "C", "abs-C", "empty", "default", "missing", "invalid"]
    ccases = []
    for t in itertools.product(targets, repeat=3):
        for start in "ABC":
            for how in ("cmd", "infile"):
                if how == "infile" and not common.THOROUGH and (len(ccases) // 2) % 2:
                    continue
                ccases.append((t, start, how))
    seen2 = set()
    for n, s, bad in common.pmap(chain_worker, list(common.chunks(ccases, 150))):
        check.add(evaluations=n)
        seen2 |= s
        for b in bad:
            check.violation(
                common.digest(b[:3]), f"inheritance A,B,C -> {b[0]}, start {b[1]} ({b[2]}): {b[3]}", b
            )
    check.add(distinct_nontrivial=len(cases) + len(ccases))
    check.notes["distinct_inheritance_outcomes"] = len(seen2)
    check.rule = (
        "all trees over three levels with an implicit config file of either name or none, times all "
        "in-file and CLI selections, with working directories and path spellings; all inheritance "
        "graphs over three files; each case is a distinct tree/graph"
    )
    check.sample("tree", cases[len(cases) // 2])
    check.sample("inheritance", ccases[len(ccases) // 2])
