#!/usr/bin/env python3
"""print summaries: tools/show.py [-wWIDTH] [-sSTOP]... KEY-OR-SUFFIX..."""
import os, sys, time, traceback, signal
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from facts import facts_dir
from mirfacts import Facts
from summary import *
F = Facts(facts_dir())
ix = Index(F)
stop = [a[2:] for a in sys.argv[1:] if a.startswith("-s")]
w = [int(a[2:]) for a in sys.argv[1:] if a.startswith("-w")]
w = w[0] if w else 1500
try:
    from anchors import stops
    if "-S" in sys.argv:
        stop += stops()
except ImportError:
    pass
def al(*a):
    raise TimeoutError("timeout")
signal.signal(signal.SIGALRM, al)
for s in [a for a in sys.argv[1:] if not a.startswith("-")]:
    fs = ix.find(s) or [f for f in F.fns.values() if norm_path(f.path).endswith(s) and "{closure" not in f.id]
    for f in fs:
        t = time.time()
        signal.alarm(60)
        try:
            sm = summarise(F, f, stop=stop)
        except Exception as e:
            traceback.print_exc(limit=-3)
            print("FAILED", f.id, e)
            continue
        finally:
            signal.alarm(0)
        print("==", f.id, f"{time.time()-t:.2f}s steps={sm.ev.steps}")
        print(text(sm, w))
