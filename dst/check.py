#!/usr/bin/env python3
"""check.py C01 [quick|thorough]: run one property's simulation (exit 0 held, 1 violated, 2 harness error)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import boot
boot.ensure_env()


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    boot.load()
    import warm
    warm.up()
    import importlib
    prop = importlib.import_module("props." + pid.lower())
    import runner
    return runner.check(prop, seed, tier)


if __name__ == "__main__":
    code = 2
    try:
        code = main()
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else 2
    except BaseException:
        import traceback
        traceback.print_exc()
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        boot.cleanup()
        os._exit(code)
