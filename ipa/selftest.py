"""Setup-time sanity check: the analyser distinguishes tiny good and bad programs."""
import os
import tempfile
import textwrap

from . import atoms as A
from .checker import Ck
from .load import Repo

GOOD = '''
class A:
    def f(self, x):
        if x in self.seen:
            return 0
        try:
            self.seen.add(x)
        finally:
            self.log(x)
        self.helper(x)
        return 1

    def helper(self, x):
        self.out.append(x)

    def log(self, x):
        pass
'''
BAD = GOOD.replace("self.helper(x)", "if x > 3:\n            self.helper(x)")


def _run(src):
    with tempfile.TemporaryDirectory() as d:
        os.makedirs(f'{d}/ipyparallel')
        with open(f'{d}/ipyparallel/__init__.py', 'w') as fh:
            fh.write('')
        with open(f'{d}/ipyparallel/m.py', 'w') as fh:
            fh.write(textwrap.dedent(src))
        ck = Ck(Repo(d), 'T')
        fl = ck.F('m:A.f')
        ck.every('t', fl, dict(dup=A.lit('x in self.seen'), out=A.add('self.out', 'x')), lambda t: ('dup' in t) != ('out' in t), 'm')
        return bool(ck.findings)


def selftest():
    ok = _run(BAD) and not _run(GOOD)
    print('selftest', 'ok' if ok else 'FAILED')
    return 0 if ok else 1
