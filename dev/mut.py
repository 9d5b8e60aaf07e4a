"""Development aid: run checks on textual variants of the tree.

Variant files: blocks of
=== name | file | PROPERTY,... | bug or ok
<<<<
old
>>>>
new
----
(several <<<< >>>> ---- hunks allowed; optional '@file' line before a hunk changes the file)
"""
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.environ.get('MUT_ROOT', '/repo')


def parse(path):
    out = []
    cur = None
    text = open(path).read()
    for block in re.split(r'^=== ', text, flags=re.M)[1:]:
        head, _, body = block.partition('\n')
        name, file, props, kind = [x.strip() for x in head.split('|')]
        hunks = []
        f = file
        for m in re.finditer(r'(?:^@(\S+)\n)?^<<<<\n(.*?)^>>>>\n(.*?)(?:^----\n?|\Z)', body, flags=re.M | re.S):
            if m.group(1):
                f = m.group(1)
            hunks.append((f, m.group(2), m.group(3)))
        left = re.sub(r'(?:^@(\S+)\n)?^<<<<\n(.*?)^>>>>\n(.*?)(?:^----\n?|\Z)', '', body, flags=re.M | re.S)
        if left.strip():
            sys.exit(f'{name}: text outside of hunks: {left[:80]!r}')
        out.append((name, props.split(','), kind, hunks))
    return out


def run(path, only=None):
    bad = 0
    n = 0
    todo = [v for v in parse(path) if not only or (v[0] == only[1:] if only[0] == '=' else only in v[0])]
    names = [v[0] for v in todo]
    if len(set(names)) < len(names):
        sys.exit(f'duplicate names: {sorted(x for x in names if names.count(x) > 1)}')
    if len(todo) > 1:
        with ThreadPoolExecutor(int(os.environ.get('MUT_JOBS', '8'))) as ex:
            outs = list(ex.map(lambda v: subprocess.run([sys.executable, __file__, path, '=' + v[0]], capture_output=True, text=True).stdout, todo))
        for o in outs:
            lines = o.splitlines()
            bad += bool(lines) and not lines[-1].endswith(' 0 bad')
            print('\n'.join(lines[:-1]))
        print(f'{len(todo)} variants, {bad} bad')
        return
    for name, props, kind, hunks in parse(path):
        if only and (name != only[1:] if only[0] == '=' else only not in name):
            continue
        n += 1
        d = tempfile.mkdtemp(prefix='mut')
        try:
            shutil.copytree(f'{ROOT}/ipyparallel', f'{d}/ipyparallel', ignore=shutil.ignore_patterns('__pycache__', 'tests', 'labextension', '*.js'))
            for f, old, new in hunks:
                p = f'{d}/ipyparallel/{f}'
                s = open(p).read()
                if s.count(old) < 1:
                    print(f'!! {name}: hunk not found in {f}:\n{old}')
                    bad += 1
                    break
                s = s.replace(old, new, 1)
                open(p, 'w').write(s)
            else:
                for f, _, _ in hunks:
                    compile(open(f'{d}/ipyparallel/{f}').read(), f, 'exec')
                r = subprocess.run([sys.executable, '/verif/check.py'] + props, env=dict(os.environ, IPA_ROOT=d, IPA_SCRATCH='1'), capture_output=True, text=True)
                caught = set(re.findall(r'^VIOLATION property=(\S+)', r.stdout, flags=re.M))
                rules = re.findall(r'^  \[([^\]]+)\]', r.stdout, flags=re.M)
                if kind == 'bug':
                    good = r.returncode == 1 and caught
                else:
                    good = r.returncode == 0
                if not good:
                    bad += 1
                    print(f"{'MISSED' if kind == 'bug' else 'FALSE ALARM'} {name} rc={r.returncode}")
                    if kind == 'ok' or r.returncode == 2:
                        print(r.stdout[-2500:] + r.stderr[-1500:])
                else:
                    print(f'ok {kind} {name} {sorted(caught)} {sorted(set(rules))}')
        finally:
            shutil.rmtree(d)
    print(f'{n} variants, {bad} bad')


if __name__ == '__main__':
    run(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None)
