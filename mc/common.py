"""Shared machinery of the checks: environment, scratch space, evidence, known findings, parallel
enumeration."""
from __future__ import annotations

import hashlib
import json
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
from typing import Any, Callable, Dict, Iterable, Iterator, List, Optional

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("EDULINT_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
THOROUGH = TIER == "thorough"
JOBS = max(1, min(8, os.cpu_count() or 1))
PYTHON = sys.executable

SCRATCH: str = ""


class Stop(Exception):
    pass


def bootstrap() -> None:
    """Point every cache edulint, pylint and astroid may write at a scratch directory of this run,
    import edulint from REPO and silence its logger."""
    global SCRATCH
    SCRATCH = tempfile.mkdtemp(prefix="edulint-mc-")
    for var in ("XDG_DATA_HOME", "XDG_CACHE_HOME", "XDG_CONFIG_HOME", "HOME", "PYLINTHOME"):
        path = os.path.join(SCRATCH, "env", var.lower())
        os.makedirs(path)
        os.environ[var] = path
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    for var in ("PYLINTRC", "PYTHONPATH"):
        os.environ.pop(var, None)
    sys.dont_write_bytecode = True
    sys.path[:] = [p for p in sys.path if os.path.realpath(p or ".") != os.path.realpath("/repo")]
    sys.path.insert(0, REPO)
    work = os.path.join(SCRATCH, "work")
    os.makedirs(work)
    os.chdir(work)
    import edulint  # noqa: F401

    got = os.path.realpath(os.path.dirname(os.path.dirname(edulint.__file__)))
    if got != os.path.realpath(REPO):
        print(f"edulint imported from {got}, not {REPO}", file=sys.stderr)
        os._exit(3)
    quiet_logger()


def child_env(**extra: str) -> Dict[str, str]:
    env = dict(os.environ)
    env["PYTHONPATH"] = REPO
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env.update(extra)
    return env


def quiet_logger() -> None:
    from loguru import logger

    logger.remove()
    logger.disable("edulint.linting.linting")


class LogCapture:
    """Collects edulint's log records (level names and messages)."""

    def __init__(self, level: str = "WARNING"):
        self.level = level
        self.records: List[str] = []

    def __enter__(self) -> "LogCapture":
        from loguru import logger

        self._id = logger.add(
            lambda m: self.records.append(f"{m.record['level'].name}: {m.record['message']}"),
            level=self.level,
            format="{message}",
        )
        return self

    def __exit__(self, *_: Any) -> None:
        from loguru import logger

        logger.remove(self._id)


def cleanup() -> None:
    if SCRATCH and os.path.isdir(SCRATCH) and os.path.basename(SCRATCH).startswith("edulint-mc-"):
        os.chdir("/")
        shutil.rmtree(SCRATCH, ignore_errors=True)


def fresh_dir(prefix: str = "d") -> str:
    return tempfile.mkdtemp(prefix=prefix + "-", dir=os.path.join(SCRATCH, "work"))


def write(path: str, text: str) -> str:
    os.makedirs(os.path.dirname(os.path.abspath(path)), exist_ok=True)
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)
    return path


def digest(obj: Any) -> str:
    return hashlib.sha256(
        json.dumps(obj, sort_keys=True, default=str).encode("utf-8", "surrogatepass")
    ).hexdigest()[:16]


# ---------------------------------------------------------------------------------------------


def load_known(pid: str) -> List[Dict[str, Any]]:
    path = os.path.join(VERIF, "known_findings.jsonl")
    result = []
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith("#"):
                    continue
                entry = json.loads(line)
                if entry["property"] == pid and entry["status"] == "open":
                    result.append(entry)
    return result


class Check:
    def __init__(self, pid: str, level: str):
        self.pid = pid
        self.level = level
        self.start = time.time()
        self.counts: Dict[str, int] = {}
        self.rule = ""
        self.samples: List[Any] = []
        self.sample_keys: Dict[str, int] = {}
        self.assumptions: List[str] = []
        self.notes: Dict[str, Any] = {}
        self.outcomes: Dict[str, int] = {}
        self.exhaustive = True
        self.violations: List[Dict[str, Any]] = []
        self.known = load_known(pid)
        self.known_seen: Dict[str, int] = {}
        self._known_by_key = {}
        for entry in self.known:
            for key in entry["keys"]:
                self._known_by_key[key] = entry

    # -- recording
    def add(self, **kw: int) -> None:
        for k, v in kw.items():
            self.counts[k] = self.counts.get(k, 0) + v

    def outcome(self, name: str, n: int = 1) -> None:
        self.outcomes[name] = self.outcomes.get(name, 0) + n

    def sample(self, kind: str, case: Any, per_kind: int = 2) -> None:
        n = self.sample_keys.get(kind, 0)
        if n < per_kind:
            self.sample_keys[kind] = n + 1
            self.samples.append({"kind": kind, "case": case})

    def violation(self, key: str, what: str, replay: Any) -> None:
        """``key`` identifies the failing input exactly; it is what a known finding lists."""
        entry = self._known_by_key.get(key)
        if entry is not None:
            self.known_seen[entry["id"]] = self.known_seen.get(entry["id"], 0) + 1
            return
        self.violations.append({"key": key, "what": what, "replay": replay})
        if len(self.violations) <= 3 and os.environ.get("MC_VERBOSE"):
            print("  !", what, file=sys.stderr)

    # -- finishing
    def finish(self) -> int:
        cov: Dict[str, Any] = dict(self.counts)
        if self.level == "model_checking":
            for k in ("states", "transitions", "traces_validated_against_impl"):
                cov.setdefault(k, 0)
        else:
            for k in ("evaluations", "distinct_nontrivial"):
                cov.setdefault(k, 0)
        cov["rule"] = self.rule
        cov["samples"] = self.samples[:24]
        cov["outcomes"] = dict(sorted(self.outcomes.items()))
        cov["exhaustive"] = self.exhaustive
        if self.known:
            cov["known_findings_reproduced"] = dict(sorted(self.known_seen.items()))
        cov.update(self.notes)
        evidence = {
            "property": self.pid,
            "tier": TIER,
            "seed": SEED,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.start, 2),
            "violations": len(self.violations),
        }
        where = os.environ.get("MC_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(where, exist_ok=True)
        path = os.path.join(where, f"{self.pid}.json")
        with open(path + ".tmp", "w", encoding="utf-8") as f:
            json.dump(evidence, f, indent=1, default=str)
            f.write("\n")
        os.replace(path + ".tmp", path)

        for entry in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {entry['what']}")
        summary = ", ".join(f"{k}={v}" for k, v in self.counts.items())
        print(f"{self.pid} {TIER}: {summary}; {time.time() - self.start:.1f}s")
        if not self.violations:
            return 0
        replay = os.path.join(where, f"replay-{self.pid}.json")
        with open(replay, "w", encoding="utf-8") as f:
            json.dump(self.violations[:200], f, indent=1, default=str)
            f.write("\n")
        dump = os.environ.get("MC_DUMP")
        if dump:
            with open(dump, "w", encoding="utf-8") as f:
                json.dump(self.violations, f, indent=1, default=str)
        for v in self.violations[:5]:
            print(f"  {v['what']}")
        print(f"  {len(self.violations)} violating cases")
        print(f"VIOLATION property={self.pid} replay={replay}")
        return 1


# ---------------------------------------------------------------------------------------------


def chunks(items: List[Any], size: int) -> Iterator[List[Any]]:
    for i in range(0, len(items), size):
        yield items[i : i + size]


_WORKER: Optional[Callable[[Any], Any]] = None


def _init_worker() -> None:
    tempfile.tempdir = None
    # the workers use all cores already: what they run sees a machine with one
    multiprocessing.current_process()._config["daemon"] = False  # type: ignore[attr-defined]
    multiprocessing.cpu_count = lambda: 1  # type: ignore[assignment]
    os.cpu_count = lambda: 1


class Hang(Exception):
    """A batch of cases that takes seconds has run for CASE_TIMEOUT seconds."""


CASE_TIMEOUT = 1500 if THOROUGH else 300


def _on_alarm(*_: Any) -> None:
    raise Hang(f"still running after {CASE_TIMEOUT} s")


def _call(arg: Any) -> Any:
    assert _WORKER is not None
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)
    try:
        return _WORKER(arg)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def pmap(worker: Callable[[Any], Any], items: Iterable[Any], jobs: int = JOBS) -> Iterator[Any]:
    """Apply worker to every item in forked processes; results in completion order."""
    global _WORKER
    items = list(items)
    _WORKER = worker
    if jobs == 1 or len(items) <= 1:
        for it in items:
            yield _call(it)
        return
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(min(jobs, len(items)), initializer=_init_worker, maxtasksperchild=64) as pool:
        for res in pool.imap_unordered(_call, items):
            yield res
