#!/bin/sh
# dev/one.sh FILE NAME OUTDIR: apply a variant to a copy of the tree
exec python3 - "$@" <<'P'
import sys, os, shutil
sys.path.insert(0, '/verif/dev'); a = sys.argv[1:]; sys.argv = ['x']
import mut
for n, p, k, h in mut.parse(a[0]):
    if n == a[1]:
        shutil.rmtree(a[2], ignore_errors=True); os.makedirs(a[2])
        shutil.copytree(mut.ROOT + '/ipyparallel', a[2] + '/ipyparallel', ignore=shutil.ignore_patterns('__pycache__', 'tests', 'labextension', '*.js'))
        for f, o, w in h:
            q = a[2] + '/ipyparallel/' + f; s = open(q).read(); assert o in s; open(q, 'w').write(s.replace(o, w, 1))
P
