"""C01: option precedence and accumulation across base config, config file, in-file and CLI.

Every sequence of option occurrences up to a length bound, distributed over the four sources in every
way, is written out as real files and resolved by the real code; the result is compared with a
reference that folds the occurrences one by one."""
from __future__ import annotations

import itertools
import os
from typing import Any, Dict, List, Optional, Tuple

from mc import common

LEVEL = "exploration"

SOURCES = ("base", "top", "infile", "cmd")

# (name, key, template, usable in a config file)
TOKENS = [
    ("A", "allowed-onechar-names", "a{i}", True),
    ("D", "disallowed-builtin-names", "x{i},y", True),
    ("N", "no-flake8", None, False),
    ("I", "ignore-infile-config-for", "pylint", True),
    ("E", "export-groups", "e{i},f", True),
    ("S1", "set-groups", "g1", True),
    ("S2", "set-groups", "g2,g1", True),
    ("SU", "set-groups", "nosuch{i}", True),
    ("P", "pylint", "--max-args={i}", True),
    ("F", "flake8", "--max-line-length={i}", True),
    ("U", "bogus{i}", "1", True),  # unknown option: no effect
    ("X", "pylint", None, False),  # argument missing: no effect
    ("Y", "no-flake8", "x{i}", False),  # superfluous argument: no effect
    ("C", "AllOwed-OneChar-Names", "C{i}", True),  # names are case-insensitive
]
BY_NAME = {t[0]: t for t in TOKENS}

GROUPS = {
    "base": {"g1": {"pylint": {"max-locals": "9"}}, "g2": {"pylint": {"max-branches": "2"}}},
    # overrides g1 wholly
    "top": {"g1": {"pylint": {"max-locals": "1"}, "flake8": {"max-doc-length": "1"}}},
}
ONECHAR_SET = None  # filled in from the packaged empty configuration


def expected(occ: List[Tuple[str, str, Optional[str]]], baseline: Dict[str, Any]) -> Dict[str, Any]:
    """occ: (source, option name, value) in increasing precedence."""
    groups: Dict[str, List[Tuple[str, str]]] = {}
    for src in ("base", "top"):
        for g, to in GROUPS[src].items():
            groups[g] = [
                (linter, f"--{k}={v}") for linter, args in to.items() for k, v in args.items()
            ]
    result = {
        k: (list(v) if isinstance(v, (list, tuple)) else v) for k, v in baseline.items()
    }
    valid = []
    for _src, name, val in occ:
        name = name.lower()
        if name not in baseline:
            continue
        if (val is None) != (name == "no-flake8"):
            continue
        valid.append((name, val))
    last = {name: i for i, (name, _v) in enumerate(valid)}
    for i, (name, val) in enumerate(valid):
        if name in ("pylint", "flake8"):
            result[name].append(val)
            continue
        if last[name] != i:
            continue  # replaced by a later occurrence
        if name == "no-flake8":
            result[name] = True
        elif name == "allowed-onechar-names":
            result[name] = val
            result["pylint"].extend(ONECHAR_SET)
        else:
            result[name] = val.split(",")
        if name == "set-groups":
            for g in val.split(","):
                for linter, arg in groups.get(g, []):
                    result[linter].append(arg)
    return result


def toml_val(val: str, form: int) -> str:
    if form == 1 and "," in val:
        return "[" + ", ".join(f'"{v}"' for v in val.split(",")) + "]"
    return f'"{val}"'


def render_file(src: str, toks: List[Tuple[str, Optional[str]]], form: int) -> str:
    lines = []
    tables = []
    for key, val in toks:
        if key in ("pylint", "flake8") and form == 1:
            k, v = val[2:].split("=")
            tables.append(f"[{key}]\n{k} = {v}")
        else:
            lines.append(f"{key} = {toml_val(val, form)}")
    if src == "top":
        lines.insert(0, 'config-file = "base.toml"')
    for g, to in GROUPS[src].items():
        for linter, args in to.items():
            tables.append(f"[translations.{g}.{linter}]")
            tables.extend(f'{k} = "{v}"' for k, v in args.items())
    return "\n".join(lines + tables) + "\n"


def distributions(n: int):
    """All ways of cutting a sequence of n occurrences into the four sources."""
    for cuts in itertools.combinations_with_replacement(range(n + 1), 3):
        yield (0,) + cuts + (n,)


def scenarios(max_len: int, names: List[str]):
    for n in range(max_len + 1):
        for seq in itertools.product(names, repeat=n):
            for cut in distributions(n):
                parts = [seq[cut[i] : cut[i + 1]] for i in range(4)]
                ok = True
                for part in parts[:2]:
                    keys = [BY_NAME[t][1] for t in part]
                    if len({k.lower() for k in keys}) != len(keys) or not all(
                        BY_NAME[t][3] for t in part
                    ):
                        ok = False
                if ok:
                    yield parts


def observe(d: str, parts, select: str, form: int, path: str):
    from edulint.config.config import get_config_many

    occ = []
    i = 0
    per_source: Dict[str, List[Tuple[str, Optional[str]]]] = {}
    for src, part in zip(SOURCES, parts):
        per_source[src] = []
        for t in part:
            i += 1
            _n, key, tmpl, _f = BY_NAME[t]
            val = tmpl.format(i=i) if tmpl is not None else None
            key = key.format(i=i)
            per_source[src].append((key, val))
        if src in ("base", "top") and form == 1:
            # TOML tables can only follow the plain keys
            per_source[src].sort(key=lambda kv: kv[0] in ("pylint", "flake8"))
        occ.extend((src, key, val) for key, val in per_source[src])

    common.write(os.path.join(d, "base.toml"), render_file("base", per_source["base"], form))
    common.write(os.path.join(d, "top.toml"), render_file("top", per_source["top"], form))

    def arg(key: str, val: Optional[str]) -> str:
        return key if val is None else f"{key}={val}"

    infile = [arg(*kv) for kv in per_source["infile"]]
    cmd = [arg(*kv) for kv in per_source["cmd"]]
    if select == "infile":
        infile = ["config-file=../top.toml"] + infile
    else:
        cmd = cmd + ["config=top.toml" if form else "config-file=top.toml"]
    if form == 1:
        text = "".join(f"# edulint: {a}\nx = 1\n" for a in infile)
    else:
        text = "x = 1\n" + ("# edulint: " + " ".join(infile) + "\n" if infile else "")
    common.write(path, text)
    res = get_config_many([path], cmd)
    if len(res) != 1 or res[0][0] != [path]:
        return occ, {"!": f"got {len(res)} configurations: {[r[0] for r in res]}"}
    got = {
        a.option.to_name(): (list(a.val) if isinstance(a.val, tuple) else a.val)
        for a in res[0][1].config
    }
    return occ, got


def worker(job):
    chunk, = (job,)
    d = common.fresh_dir("c01")
    os.chdir(d)
    baseline = job["baseline"]
    global ONECHAR_SET
    ONECHAR_SET = job["onechar"]
    out = []
    distinct = set()
    n = 0
    for parts in job["parts"]:
        for select, form in job["variants"]:
            path = os.path.join(d, "sub", "f.py") if form else "sub/f.py"
            n += 1
            occ, got = observe(d, parts, select, form, path)
            want = expected(occ, baseline)
            got_cmp = {k: v for k, v in got.items() if k != "config-file"}
            want_cmp = {k: v for k, v in want.items() if k != "config-file"}
            distinct.add(common.digest(got_cmp))
            if got_cmp != want_cmp:
                diff = {
                    k: {"got": got_cmp.get(k), "want": want_cmp.get(k)}
                    for k in set(got_cmp) | set(want_cmp)
                    if got_cmp.get(k) != want_cmp.get(k)
                }
                out.append(
                    {
                        "key": common.digest([parts, select, form]),
                        "sources": dict(zip(SOURCES, parts)),
                        "select": select,
                        "form": form,
                        "occurrences": occ,
                        "diff": diff,
                    }
                )
    return n, distinct, out


def run(check: common.Check) -> None:
    from edulint.config.config import get_config_many
    import tomli

    d = common.fresh_dir("c01b")
    os.chdir(d)
    with open(os.path.join(common.REPO, "edulint/config/files/empty.toml"), "rb") as f:
        empty = tomli.load(f)
    onechar = [
        f"--{k}={','.join(v) if isinstance(v, list) else v}"
        for k, v in empty["translations"]["allowed-onechar-names"]["pylint"].items()
    ]
    common.write("f.py", "x = 1\n")
    ((_, base, _),) = get_config_many(["f.py"], ["config-file=empty"])
    baseline = {
        a.option.to_name(): (list(a.val) if isinstance(a.val, tuple) else a.val)
        for a in base.config
    }
    # the documented defaults, so that the baseline itself is not taken on trust
    documented = {
        "allowed-onechar-names": None,
        "disallowed-builtin-names": [],
        "no-flake8": False,
        "ignore-infile-config-for": [],
        "export-groups": ["python-specific", "enhancement", "complexity"],
        "set-groups": [],
        "language-file": None,
    }
    for k, v in documented.items():
        if baseline.get(k) != v:
            check.violation(f"default-{k}", f"default of {k} is {baseline.get(k)!r}, documented {v!r}", k)

    names = [t[0] for t in TOKENS]
    plan = []
    variants = [("infile", 0), ("cmd", 1), ("infile", 1), ("cmd", 0)]
    if common.THOROUGH:
        plan.append((list(scenarios(3, names)), variants))
        core = ["A", "S1", "S2", "P", "F", "D", "E", "I", "N"]
        plan.append(([p for p in scenarios(4, core) if sum(map(len, p)) == 4], variants))
    else:
        plan.append((list(scenarios(2, names)), variants))
        plan.append(
            ([p for p in scenarios(3, names) if sum(map(len, p)) == 3], [("infile", 0), ("cmd", 1)])
        )
    jobs = []
    total = 0
    for parts, vs in plan:
        total += len(parts)
        for ch in common.chunks(parts, 200):
            jobs.append({"parts": ch, "variants": vs, "baseline": baseline, "onechar": onechar})
    distinct = set()
    for n, dist, out in common.pmap(worker, jobs):
        check.add(evaluations=n)
        distinct |= dist
        for o in out:
            check.violation(
                o["key"],
                f"options {o['sources']} (config selected {o['select']}): {o['diff']}",
                o,
            )
    check.add(distinct_nontrivial=len(distinct))
    check.rule = (
        "every sequence of option occurrences of length <= bound from a "
        f"{len(TOKENS)}-token alphabet, cut in every way into base config, config file, in-file "
        "comments and CLI, in two textual forms and with the config file selected in-file or on the "
        "CLI; distinct_nontrivial counts distinct resolved configurations"
    )
    check.notes["occurrence_sequences"] = total
    for parts in plan[-1][0][:: max(1, len(plan[-1][0]) // 4)][:4]:
        check.sample("distribution", dict(zip(SOURCES, parts)), 4)
