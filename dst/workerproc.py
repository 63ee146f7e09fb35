"""A worker process of C22 started from scratch (not forked), under a hash seed of its own: workerproc.py ROLE RFD WFD."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import boot
boot.ensure_env()

if __name__ == "__main__":
    code = 3
    try:
        boot.load()
        import warm
        warm.up()
        from props import c22
        r, w = int(sys.argv[2]), int(sys.argv[3])
        import pickle
        c22.worker(pickle.loads(c22.receive(r)), sys.argv[1], r, w)
    finally:
        os._exit(code)
