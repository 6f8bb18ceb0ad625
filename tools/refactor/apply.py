#!/usr/bin/env python3
"""apply.py TREE NAME...: apply behaviour-preserving edits (lists EDITS of (file, old, new) in NAME.py) to a scratch tree"""
import os, sys, runpy
tree = sys.argv[1]
here = os.path.dirname(os.path.abspath(__file__))
for n in sys.argv[2:]:
    for f, old, new in runpy.run_path(os.path.join(here, n + '.py'))['EDITS']:
        p = os.path.join(tree, f)
        s = open(p).read()
        if s.count(old) != 1:
            sys.exit("%s: %s: %d matches of %r" % (n, f, s.count(old), old[:80]))
        open(p, 'w').write(s.replace(old, new))
