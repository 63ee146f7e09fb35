"""Run a property module's function in an interpreter of its own: spawned.py MODULE FUNCTION FD (pickled arguments on stdin)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import boot
boot.ensure_env()

if __name__ == "__main__":
    code = 3
    try:
        import pickle
        import traceback
        args = pickle.loads(sys.stdin.buffer.read())
        out = os.fdopen(int(sys.argv[3]), "wb")
        import importlib
        try:
            boot.load()
            import warm
            warm.up()
            res = (True, getattr(importlib.import_module("props." + sys.argv[1]), sys.argv[2])(*args))
        except Exception:
            res = (False, traceback.format_exc())
        out.write(pickle.dumps(res))
        out.close()
        code = 0
    finally:
        os._exit(code)
