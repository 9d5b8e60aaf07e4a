"""Development aid: write /verif/seeded/<id>/ from defs*.py and confirm each in a scratch copy.

usage: build.py [-t] [ids...]     -t also runs the stable tests
"""
import difflib, glob, importlib.util, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(os.path.dirname(HERE)), 'seeded')
SCR = '/tmp/seedrepo'


def defs():
    out = {}
    for f in sorted(glob.glob(HERE + '/defs*.py')):
        spec = importlib.util.spec_from_file_location('d', f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        out.update(m.SEEDS)
    return out


def original_lines():
    base = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).split()[0]
    return base


def main():
    args = sys.argv[1:]
    tests = '-t' in args
    only = [a for a in args if a != '-t']
    base = original_lines()
    for sid, d in defs().items():
        if only and sid not in only:
            continue
        dst = os.path.join(OUT, sid)
        os.makedirs(dst, exist_ok=True)
        patch = ''
        for file, edits in d['edits'].items():
            old = new = open('/repo/' + file).read()
            for a, b in edits:
                assert new.count(a) == 1, (sid, file, new.count(a), a)
                new = new.replace(a, b)
            lines = list(difflib.unified_diff(old.splitlines(True), new.splitlines(True), 'a/' + file, 'b/' + file))
            orig = subprocess.run(['git', '-C', '/repo', 'show', f'{base}:{file}'], capture_output=True, text=True).stdout
            for l in lines:
                if l.startswith('-') and not l.startswith('---') and l[1:] not in orig.splitlines(True):
                    print('   NOTE', sid, 'touches a line of mine:', l.strip())
            patch += ''.join(lines)
        open(dst + '/patch.diff', 'w').write(patch)
        open(dst + '/demo.py', 'w').write(d['demo'])
        if 'import stub' in d['demo'] or 'from stub' in d['demo']:
            shutil.copy(HERE + '/stub.py', dst)
        open(dst + '/demo.sh', 'w').write('#!/bin/sh\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(dst + '/demo.sh', 0o755)
        json.dump(dict(property=d['property'], needs=d['needs'], what_it_breaks=d['breaks']),
                  open(dst + '/meta.json', 'w'), indent=1)
        shutil.rmtree(SCR, ignore_errors=True)
        subprocess.check_call(['cp', '-a', '/repo', SCR])
        env = dict(os.environ, PYTHONPATH=SCR)
        a = subprocess.run(['sh', dst + '/demo.sh'], cwd=SCR, env=env, capture_output=True, text=True)
        subprocess.check_call(['git', '-C', SCR, 'apply', dst + '/patch.diff'])
        b = subprocess.run(['sh', dst + '/demo.sh'], cwd=SCR, env=env, capture_output=True, text=True)
        msg = (b.stderr.strip().splitlines() or [''])[-1]
        c = subprocess.run([sys.executable, '/verif/check.py', d['property']], cwd='/verif',
                           env=dict(os.environ, IPA_ROOT=SCR), capture_output=True, text=True)
        print(sid, 'clean', a.returncode, 'patched', b.returncode, msg[:110], '| check', c.returncode, flush=True)
        if a.returncode:
            print(a.stderr[-1500:])
        if c.returncode not in (0, 1):
            print(c.stdout[-800:], c.stderr[-800:])
        shutil.rmtree(SCR)


main()
