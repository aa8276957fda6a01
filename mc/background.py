"""Runs edulint's command line in a closed world; shared by the checks of its background services."""
from __future__ import annotations

import contextlib
import importlib
import io
import os
import re
import shutil
import sys
from typing import Any, Dict, List

from mc import common, fsim

LOCAL = "4.3.1"


class Cli:
    def __init__(self, name: str) -> None:
        self.dir = common.fresh_dir(name)
        self.data = os.path.join(self.dir, "data")
        os.makedirs(self.data)
        os.environ["XDG_DATA_HOME"] = self.data
        # the installed version, told the way pip tells it
        meta = os.path.join(self.dir, "site", f"edulint-{LOCAL}.dist-info")
        common.write(
            os.path.join(meta, "METADATA"), f"Metadata-Version: 2.1\nName: edulint\nVersion: {LOCAL}\n"
        )
        sys.path.insert(0, os.path.dirname(meta))
        importlib.invalidate_caches()
        # module constants hold the data directory
        importlib.reload(sys.modules["edulint.explanations"])
        self.mod = importlib.reload(sys.modules["edulint.edulint"])
        self.world = fsim.ClosedWorld(self.data)
        self.world.threads = "sync"

    def close(self) -> None:
        sys.path.remove(os.path.join(self.dir, "site"))
        shutil.rmtree(self.dir, ignore_errors=True)

    def snapshot(self) -> Dict[str, bytes]:
        res = {}
        for base, _d, files in os.walk(self.data):
            for name in files:
                p = os.path.join(base, name)
                with open(p, "rb") as f:
                    res[os.path.relpath(p, self.data)] = f.read()
        return res

    def restore(self, snap: Dict[str, bytes]) -> None:
        shutil.rmtree(self.data)
        os.makedirs(os.path.join(self.data, "edulint"))
        for name, data in snap.items():
            p = os.path.join(self.data, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(data)

    def call(self, argv: List[str]) -> Dict[str, Any]:
        """One run of the command line: exit status, what it printed, what it logged."""
        out, err = io.StringIO(), io.StringIO()
        old = sys.argv
        sys.argv = ["edulint"] + argv
        self.world.thread_failures.clear()
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                try:
                    rc: Any = self.mod.main()
                except SystemExit as e:
                    rc = e.code
        finally:
            sys.argv = old
            from loguru import logger

            logger.remove()
        return {"rc": rc, "out": out.getvalue(), "err": err.getvalue()}


def canon_files(snap: Dict[str, bytes], names: set, now: int, clip: int) -> List[Any]:
    order: Dict[bytes, bytes] = {}

    def ren(m: Any) -> bytes:
        return b"<v" + order.setdefault(m.group(1), str(len(order)).encode()) + b">"

    def age(m: Any) -> bytes:
        return str(min(now - int(m.group()), clip)).encode()

    files: List[Any] = []
    for k in sorted(snap, key=lambda k: (k not in names, snap[k])):
        data = re.sub(rb"<v(\d+)>", ren, snap[k])
        data = re.sub(rb"(?<!\d)1\d{6}(?!\d)", age, data)
        item = (k if k in names else "leftover", data.decode("latin-1"))
        if item not in files:
            files.append(item)
    return files
