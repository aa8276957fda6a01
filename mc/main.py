"""Entry point: ``python -m mc.main C01``."""
import importlib
import os
import sys
import traceback

from mc import common


def main() -> int:
    pid = sys.argv[1]
    common.bootstrap()
    mod = importlib.import_module(f"mc.{pid.lower()}")
    check = common.Check(pid, mod.LEVEL)
    try:
        mod.run(check)
    except common.Stop:
        pass
    except Exception as e:  # noqa: BLE001
        text = traceback.format_exc()
        sys.stderr.write(text)
        if os.path.join(common.REPO, "edulint") not in text:
            return 3
        # the code under test raised where the check's reference expects an answer
        check.violation("raised-" + type(e).__name__, f"raised {e!r}", text)
    return check.finish()


if __name__ == "__main__":
    try:
        rc = main()
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
        rc = 3
    common.cleanup()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
