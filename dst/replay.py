#!/usr/bin/env python3
"""replay.py FILE: execute the recorded scenario again (exit 1 and a VIOLATION line if it still violates)."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import boot
boot.ensure_env()


def main():
    path = sys.argv[1]
    doc = json.load(open(path))
    boot.load()
    import warm
    warm.up()
    import importlib
    prop = importlib.import_module("props." + doc["property"].lower())
    import runner
    res = runner.execute(prop, doc["scenario"])
    if res.get("error"):
        print("HARNESS ERROR\n" + res["error"])
        return 2
    for v in res["violations"]:
        print("  %s: %s" % (v["kind"], v["detail"]))
    print("digest %s (recorded %s)" % (res.get("digest"), doc.get("digest")))
    if "-v" in sys.argv:
        print("\n".join(res.get("trace", [])))
    if res["violations"]:
        print("VIOLATION property=%s replay=%s" % (doc["property"], path))
        return 1
    print("not reproduced")
    return 0


if __name__ == "__main__":
    code = 2
    try:
        code = main()
    except BaseException:
        import traceback
        traceback.print_exc()
    finally:
        sys.stdout.flush()
        boot.cleanup()
        os._exit(code)
