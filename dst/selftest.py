#!/usr/bin/env python3
"""Set-up: nothing to build; verify that the environment supports the simulator (interpreter, imports, events)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import boot
boot.ensure_env()
try:
    assert sys.version_info >= (3, 12)
    fm = boot.load()
    from sim import Sim
    s = Sim("selftest", 0)
    s.install()
    fm.Mat(3)
    s.uninstall()
    assert s.events > 10, s.events
    print("ok: fibermat from %s, %d code objects, %d steps observed" % (os.path.dirname(fm.__file__), len(boot.CODES), s.events))
finally:
    boot.cleanup()
