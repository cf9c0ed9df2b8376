#!/usr/bin/env python3
"""(Re)write the reference summaries from the tree in $AQ_REPO (default /repo): tools/bless.py [PID|KEY...]
Only for reviewed trees: the references are what the checks compare against."""
import os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from facts import facts_dir
from mirfacts import Facts
from summary import *
import anchors, store, resolve
F = Facts(facts_dir())
ix = Index(F)
P = anchors.parse()
stop = anchors.stop_ids(ix)
want = sys.argv[1:]
done = set()
for pid, keys in P.items():
    for k in keys:
        k = k.lstrip("*")
        if want and pid not in want and k not in want or k in done:
            continue
        done.add(k)
        fs = ix.find(k)
        assert len(fs) == 1, (k, fs)
        s = summarise(F, fs[0], stop=stop - {fs[0].id}, keep=anchors.keep(k))
        store.save(k, s)
if not want:
    resolve.write(ix)
print(len(done), "references written")
