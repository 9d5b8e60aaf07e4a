"""Developer aid: print the effects of a function with their guards."""

import os
import sys

from . import terms as tm
from .flow import Flow
from .load import Repo
from .lower import Policy


def main():
    r = Repo(os.environ.get('IPA_ROOT', '/repo'))
    op = [a[2:].split(',') for a in sys.argv[2:] if a.startswith('-o')]
    f = r.func(sys.argv[1])
    fl = Flow(r, f, policy=Policy(opaque=op[0] if op else ()))
    G = fl.guards()
    for n in fl.order:
        for e in fl.effects(n):
            if e.kind in ('getitem', 'comp_elt') and '-a' not in sys.argv:
                continue
            if e.kind == 'call' and fl._callname(n) in ('debug', 'info'):
                continue
            g = ' & '.join(sorted(('' if p else '!') + tm.show(t)[:70] for t, p in G.get(n.id, ())))
            print(f"{n.line:5d} {e!r:.200}\n        [{g[:400]}]")
    print(len(fl.g.nodes), 'nodes; inlined', sorted({x.name for x in fl.g.inlined}))


main()
