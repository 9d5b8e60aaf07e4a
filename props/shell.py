"""Commands on another host: what is sent, what runs there, and what is answered."""

import ast
import re
import string

from ipa import terms as tm

from . import fold
from .common import add, argof, call, is_eff, lit, prop, remove
from .launch import kwargs

S = 'cluster.shellcmd:'
R = 'cluster.shellcmd_receive:'
SEND = S + 'ShellCommandSend.'
POSIX = R + 'ShellCommandReceivePosix'
BASE = R + 'ShellCommandReceiveBase'
U = fold.UNKNOWN
POP = 'any_of(subprocess.Popen(*_, **_), Popen(*_, **_))'


@prop('K01', 30)
def k01(ck):
    names = tuple(ck.names(S + 'ShellCommandSend'))
    agree(ck, names)
    protocol(ck, names)
    answers(ck, names)
    commands(ck, names)
    start(ck)
    receive(ck)
    cli(ck)


def _params(f):
    a = f.node.args
    ps = [x.arg for x in (*a.posonlyargs, *a.args)]
    ps = ps[1:] if ps[:1] == ['self'] else ps
    n = len(a.defaults)
    need = set(ps[: len(ps) - n] if n else ps) | {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
    return set(ps) | {x.arg for x in a.kwonlyargs}, need, a.kwarg is not None


def _receiver(ck, m):
    return [f for c in (POSIX, R + 'ShellCommandReceiveWindows') for f in [ck.repo.method(ck.repo.cls(c), m)] if f is not None]


def agree(ck, names):
    """Whatever is sent is understood."""
    n = 0
    c = ck.repo.cls(S + 'ShellCommandSend')
    own = ('path', 'pid', 'env', 'output_file')
    for name, f in c.methods.items():
        if not name.startswith('cmd_'):
            continue
        fl = ck.F(f, opaque=names)
        sent = fl.find(call('any_of(self._cmd_send(*_, **_), self._cmd_send(*_))'))
        ck.ok('agree', bool(sent) or any(e.kind == 'call' and fl.match('any_of(self.cmd_start(*_, **_), self.check_output(*_, **_))', e.a[0]) is not None for e in fl.all_effects()), fl, f'{name} is sent')
        ps, need, _ = _params(f)
        for e, b in sent:
            n += 1
            m = argof(e.a[0], 0, 'method')
            if m is None or m.op != 'const':
                continue
            kw = kwargs(fl, e.a[0])
            ck.ok('agree', m.a[0] == name or name.startswith(m.a[0] + '_'), e, f'{name} sends {m.a[0]}')
            got = _receiver(ck, m.a[0])
            ck.ok('agree', len(got) == 2 or m.a[0] != name, e, f'{m.a[0]} is understood on the other side')
            if any(k is None for k, v in e.a[0].a[2]) and not kw:
                continue
            rp = set(kw)
            for g in got:
                rp, rn, rest = _params(g)
                ck.ok('agree', rest or set(kw) <= rp, e, f'{m.a[0]} takes {sorted(set(kw) - rp)} on the other side')
                ck.ok('agree', rn <= set(kw), e, f'{m.a[0]} gets {sorted(rn - set(kw))} on the other side')
            for k in own:
                if k in ps and k in rp and k != 'sig':
                    ck.ok('agree', k not in kw or not any(z.op == 'comp' and z.a[4] for z in tm.subterms(kw[k])), e, f'all of the {k} of {name} is sent')
                    ck.ok('agree', k in kw and tm.mentions(kw[k], lambda z, k=k: fl.match(k, z) is not None), e, f'the {k} of {name} is sent')
            if 'cmd' in ps and 'cmd' in kw:
                ck.ok('agree', tm.mentions(kw['cmd'], lambda z: fl.match('cmd', z) is not None), e, f'the command of {name} is sent')
        if sent:
            at = dict(s=call('any_of(self._cmd_send(*_, **_), self._cmd_send(*_))'))
            for t in fl.traces(at):
                if t.end == 'return':
                    ck.ok('agree', t.count('s') == 1, fl, f'{name} is sent once', path=t.path())
    ck.ok('agree', n > 5, ck.repo.func(SEND + '_cmd_send'), 'commands are sent')
    fl = ck.F(SEND + 'cmd_kill', opaque=names)
    for sig in (9, 15):
        leaf = fold.leaves(fl, [('sig', sig), ('int(sig)', sig)])
        vals = dict(s=lambda e: (kwargs(fl, e.a[0]).get('sig') or tm.NONE) if e.kind == 'call' and fl.match('self._cmd_send(*_, **_)', e.a[0]) is not None else None)
        for t in fold.cases(fl, leaf, dict(s=call('self._cmd_send(*_, **_)')), values=vals):
            if t.end == 'return':
                for v in t.values('s'):
                    got = fold.fold(v, leaf)
                    ck.ok('kill', got is U or got == sig, fl, f'the signal {sig} is sent as {got}', path=t.path())


def _tpl(t):
    return tm.mentions(t, lambda z: z.op == 'glob' and '_shell_cmd_receive_tpl' in z.a[0])


def protocol(ck, names):
    """What is encoded here is decoded there."""
    mod = ck.repo.modules['ipyparallel.cluster.shellcmd']
    anchor = ck.repo.func(SEND + '_cmd_send')
    tpl = None
    for s in mod.tree.body:
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id == '_shell_cmd_receive_tpl' and isinstance(s.value, ast.Constant):
            tpl = s.value.value
    fl = ck.F(SEND + '_cmd_send', opaque=tuple(n for n in names if n != '_cmd_send') + ('_encode',))
    sent = [e for e in fl.all_effects() if e.kind == 'call' and e.a[0].op == 'call' and _tpl(e.a[0].a[0])]
    ck.ok('protocol', tpl is None or bool(sent), fl, 'commands are sent')
    if tpl is not None:
        try:
            want = {k for _, k, _, _ in string.Formatter().parse(tpl) if k}
            tree = ast.parse(tpl.format(**{k: {'define_receive': 'pass', 'inputs_encoded': 'X', 'method': 'm'}.get(k, 'x') for k in want}))
        except (SyntaxError, ValueError, KeyError, IndexError) as e:
            want, tree = None, None
            ck.ok('protocol', False, anchor, f'what is sent is a program ({e})')
        if tree is not None:
            for e in sent:
                kw = kwargs(fl, e.a[0])
                ck.ok('protocol', want <= set(kw), e, f'what is sent is complete, without {sorted(want - set(kw))}')
                ck.ok('protocol', 'method' in kw and fl.match('method', kw['method']) is not None, e, 'the method that was asked for is called')
                enc = kw.get('inputs_encoded')
                if enc is not None:
                    ds = [y for y in tm.subterms(enc) if y.op == 'alloc' and y.a[1] == 'dict']
                    keys = {k.a[0]: v for y in ds for x in y.a[2] if isinstance(x, tuple) for k, v in [x] if k.op == 'const'}
                    used = {x.slice.value for x in ast.walk(tree) if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Constant)}
                    ck.ok('protocol', not keys or used <= set(keys), e, f'what is sent is complete, without {sorted(used - set(keys))}')
                    if 'command_parameters' in keys:
                        ck.ok('protocol', fl.match('kwargs', keys['command_parameters']) is not None or tm.mentions(keys['command_parameters'], lambda z: fl.match('kwargs', z) is not None), e, 'a command is sent with its parameters')
            calls = [x for x in ast.walk(tree) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'm']
            ck.ok('protocol', len(calls) == 1 and any(k.arg is None for k in calls[0].keywords), anchor, 'the method is called once, with all parameters')
            text = ast.unparse(tree)
            ck.ok('protocol', ('b64decode' in text) == ('b64encode' in ast.unparse(ck.repo.func(S + '_encode').node)) and ('json.loads' in text) == ('json.dumps' in ast.unparse(ck.repo.func(S + '_encode').node)), anchor, 'what is encoded here is decoded there')
    run = fl.find(call('any_of(self._check_output(*_, **_), self._cmd_start_windows_no_breakaway(*_, **_))'))
    ck.ok('protocol', bool(run), fl, 'commands are sent')
    for e, b in fl.find(call('self._check_output(*_, **_)')):
        kw = kwargs(fl, e.a[0])
        ck.ok('protocol', 'input' in kw and _tpl(kw['input']) or 'input' in kw and kw['input'].op == 'phi', e, 'a command is sent as input')
    for send in (True, False):
        leaf = fold.leaves(fl, [('self.send_receiver_code', send), ('self.receiver_code', 'CODE'), ('self.receiver_import', 'IMPORT')])
        vals = dict(d=lambda e: kwargs(fl, e.a[0]).get('define_receive') if any(e is x for x in sent) else None)
        for t in fold.cases(fl, leaf, {}, values=vals):
            for v in t.values('d'):
                got = fold.fold(v, leaf) if v is not None else U
                ck.ok('protocol', got is U or got == ('CODE' if send else 'IMPORT'), fl, f'the receiver that is sent is {got!r} (with its code: {send})', path=t.path())
    for t in fl.traces(dict(r=call('any_of(self._check_output(*_, **_), self._cmd_start_windows_no_breakaway(*_, **_))')), retval=True):
        if t.end == 'return':
            ck.ok('protocol', t.count('r') == 1 and t.ret is not None and fl.match('any_of(self._check_output(*_, **_), self._cmd_start_windows_no_breakaway(*_, **_))', t.ret) is not None, fl, 'a command is sent once, and its output returned', path=t.path())


def answers(ck, names):
    """An answer is what was printed."""
    for name, k in (('cmd_running', 'running'), ('cmd_exists', 'exists')):
        fl = ck.F(SEND + name, opaque=names)
        for out, want in ((f'__{k}=1__\n', True), (f'__{k}=0__\n', False), (f'Hello!\n__{k}=1__\n', True), ('', 'raise'), ('Hello!', 'raise')):
            leaf = fold.leaves(fl, [('self._cmd_send(*_, **_)', out)])
            for t in fold.cases(fl, leaf, {}, exc='none'):
                if t.end == 'return':
                    got = fold.fold(t.ret, leaf) if t.ret is not None else None
                    ck.ok('answer', got is U or got is want or want != 'raise' and got == want and got is not None, fl, f'the answer {out!r} is {got!r} instead of {want}', path=t.path())
                elif t.end == 'raise':
                    ck.ok('answer', want == 'raise' or tm.mentions(t.ret, lambda z: 'Assertion' in repr(z)) if t.ret is not None else want == 'raise', fl, f'the answer {out!r} is an error', path=t.path()) if not _asserts(t) else None
    fl = ck.F(SEND + '_get_pid', opaque=names)
    fs = [s for s in ck.repo.cls(S + 'ShellCommandSend').node.body if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id == 'output_template']
    for s in fs:
        if isinstance(s.value, ast.Call) and s.value.args and isinstance(s.value.args[0], ast.Constant):
            flags = re.I if 'IGNORECASE' in ast.unparse(s.value) or 're.I' in ast.unparse(s.value) else 0
            try:
                rx = re.compile(s.value.args[0].value, flags)
            except re.error:
                continue
            for text, want in (('__remote_pid=123__\n', {'remote_pid': '123'}), ('Hi\n__remote_pid=7__\n', {'remote_pid': '7'}), ('', {}), ('123', {})):
                try:
                    got = dict(rx.findall(text))
                except (ValueError, TypeError):
                    got = None
                ck.ok('answer', got == want, fl, f'the answer {text!r} is read as {got}')
    for t in fl.traces({}, retval=True, exc='none'):
        if t.end == 'return':
            ck.ok('answer', t.ret is not None and tm.mentions(t.ret, lambda z: z is tm.const('remote_pid')), fl, 'the pid is what was answered', path=t.path())
    ck.ok('answer', any(e.kind == 'raise' for e in fl.all_effects()) or any(e.kind == 'getitem' for e in fl.all_effects()), fl, 'a process without a pid was not started')
    for name in ('cmd_start', 'cmd_start_python_module', 'cmd_start_python_code'):
        fl = ck.F(SEND + name, opaque=names)
        for t in fl.traces({}, retval=True):
            if t.end == 'return':
                ck.ok('answer', t.ret is not None and (fl.match('self._get_pid(any_of(self._cmd_send(*_, **_), self._cmd_send(*_)))', t.ret) is not None or fl.match('self.cmd_start(*_, **_)', t.ret) is not None or fl.match('int(_)', t.ret) is not None), fl, f'{name} returns the pid of the process', path=t.path())


def _asserts(t):
    return any('assert' in str(p).lower() for p in t.path())


def commands(ck, names):
    """Commands that are run through the shell are complete."""
    one = [('self.shell', ['S']), ('self.args', ['a']), ('self.python_path', 'py'), ('self._as_list(cmd)', ['c', 'd']), ('self._as_list(module_params)', ['m', 'x']), ('python_path', None)]
    for spec, want in (('check_output', ['S', 'a', 'c', 'd']), ('check_output_python_module', ['S', 'a', 'py', '-m', 'm', 'x']), ('check_output_python_code', ['S', 'a', 'py']), ('_cmd_send', ['S', 'a', 'py'])):
        fl = ck.F(SEND + spec, opaque=tuple(n for n in names if n != spec))
        leaf = fold.leaves(fl, one)
        for e, b in fl.find(call('self._check_output(*_, **_)')):
            got = fold.fold(argof(e.a[0], 0, 'cmd'), leaf)
            ck.ok('command', got is U or not isinstance(got, list) or U in got or got == want, e, f'the command is {got} instead of {want}')
            if spec == 'check_output_python_code':
                kw = kwargs(fl, e.a[0])
                ck.ok('command', 'input' in kw and fl.match('python_code', kw['input']) is not None, e, 'the code is what is run')
            if spec != '_cmd_send':
                ck.ok('command', any(k is None for k, v in e.a[0].a[2]), e, 'a command is run with all options')
        for t in fl.traces(dict(r=call('self._check_output(*_, **_)')), retval=True):
            if t.end == 'return' and spec != '_cmd_send':
                ck.ok('command', t.count('r') == 1 and t.ret is not None and fl.match('self._check_output(*_, **_)', t.ret) is not None, fl, 'the output of a command is returned', path=t.path())
    fl = ck.F(SEND + 'has_python', opaque=tuple(n for n in names if n != 'has_python'))
    for given, want in ((None, 'py'), ('other', 'other')):
        leaf = fold.leaves(fl, [('self.shell', ['S']), ('self.args', ['a']), ('self.python_path', 'py'), ('python_path', given)])
        vals = dict(c=lambda e: argof(e.a[0], 0, 'cmd') if e.kind == 'call' and fl.match('self._runs_successful(*_, **_)', e.a[0]) is not None else None)
        for t in fold.cases(fl, leaf, {}, values=vals):
            for v in t.values('c'):
                got = fold.fold(v, leaf) if v is not None else U
                ck.ok('command', got is U or not isinstance(got, list) or U in got or want in got, fl, f'the command is {got} instead of {want}', path=t.path())
    fl = ck.F(SEND + 'cmd_start_python_code', opaque=names)
    for e in fl.all_effects():
        for y in e.a:
            for z in [z for o in [y, *(o for x in tm.subterms(y) if x.op == 'phi' for _, o in fl.phi_ops.get(x, ()))] for z in tm.subterms(o)] if hasattr(y, 'op') else ():
                if z.op == 'fstr' and any(hasattr(q, 'op') and tm.mentions(q, lambda w: fl.match('python_code', w) is not None) for q in z.a[0]):
                    text = ''.join(str(q.a[0]) if hasattr(q, 'op') and q.op == 'const' else q if isinstance(q, str) else "''" for q in z.a[0])
                    ck.ok('command', 'exec(' in text or 'eval(' in text or 'run(' in text, e, 'the code is run')
    fl = ck.F(SEND + '_check_output', opaque=tuple(n for n in names if n != '_check_output'))
    CO = 'any_of(subprocess.check_output(cmd, **_), check_output(cmd, **_), subprocess.run(cmd, **_))'
    for t in fl.traces(dict(r=call(CO)), retval=True):
        if t.end == 'return':
            ck.ok('command', t.count('r') == 1 and t.ret is not None and tm.mentions(t.ret, lambda z: fl.match(CO, z) is not None), fl, 'the output of a command is returned', path=t.path())
    ck.ok('command', not [x for x in ast.walk(ck.repo.func(SEND + '_check_output').node) if isinstance(x, ast.ExceptHandler) and not any(isinstance(y, ast.Raise) for y in ast.walk(x))], fl, 'a command that fails is an error')
    for e, b in fl.find(call('subprocess.run(cmd, **_)')):
        kw = kwargs(fl, e.a[0])
        ck.ok('command', kw.get('check') is tm.const(True) or fl.find(call('_.check_returncode()')), e, 'a command that fails is an error')
    fl = ck.F(SEND + '_as_list', opaque=tuple(n for n in names if n != '_as_list'))
    for v, want in (('x', ['x']), (['x', 'y'], ['x', 'y'])):
        leaf = fold.leaves(fl, [('cmd', v)])
        for t in fold.cases(fl, leaf, {}):
            if t.end == 'return' and t.ret is not None:
                got = fold.fold(t.ret, leaf)
                ck.ok('command', got is U or got == want, fl, f'{v!r} is run as {got}', path=t.path())
    fl = ck.F(SEND + '_runs_successful', opaque=tuple(n for n in names if n != '_runs_successful'))
    RUN = call('any_of(subprocess.check_output(*_, **_), check_output(*_, **_), self._check_output(*_, **_))')
    for t in fl.traces(dict(r=RUN), exc='handled', retval=True):
        if t.end == 'return' and t.ret is not None and fl.find(RUN):
            got = t.ret.a[0] if t.ret.op == 'const' else None if not t.count('r') else True
            ck.ok('command', got is (t.count('r') == 1), fl, 'a command ran successfully exactly if it did not fail', path=t.path())


def start(ck):
    names = tuple(ck.names(POSIX)) + tuple(ck.names(BASE))
    fl = ck.F(POSIX + '.cmd_start', opaque=tuple(n for n in names if n != 'cmd_start'))
    pr = [e for e in fl.all_effects() if e.kind == 'call' and e.a[0].op == 'call' and e.a[0].a[0].op == 'glob' and e.a[0].a[0].a[0] == 'print' and tm.mentions(e.a[0], lambda z: z.op == 'const' and isinstance(z.a[0], str) and 'remote_pid' in z.a[0])]
    ck.ok('start', len(pr) >= 1, fl, 'the pid of the process is answered')
    at = dict(run=call(POP), prep=call('self._prepare_cmd_start(*_, **_)'), pr=is_eff(*pr) if pr else call('print(*_)'), wait=call(f'any_of({POP}.wait(*_, **_), {POP}.communicate(*_, **_), {POP}.wait(), {POP}.communicate())'))
    for f in (None, 'f'):
        leaf = fold.leaves(fl, [('output_file', f)])
        vals = {k: (lambda e, k=k: (kwargs(fl, e.a[0]).get(k) or tm.NONE) if e.kind == 'call' and fl.match(POP, e.a[0]) is not None else None) for k in ('stdout', 'stderr', 'stdin')}
        for t in fold.cases(fl, leaf, at, values=vals):
            if t.end != 'return':
                continue
            ck.ok('start', not t.count('wait'), fl, 'the pid of a process is answered while it runs', path=t.path())
            ck.ok('start', t.count('run') == 1 and t.count('pr') == 1 and t.before('run', 'pr'), fl, 'a process is started once, then its pid is answered', path=t.path())
            ck.ok('start', not fl.find(at['prep']) or t.before('prep', 'run'), fl, 'a process is started with the environment that was sent', path=t.path())
            for k in ('stdout', 'stderr', 'stdin'):
                for v in t.values(k):
                    if v is None:
                        continue
                    ck.ok('start.output', v is not tm.NONE, fl, f'the {k} of a process is not ours', path=t.path())
                    if f and k != 'stdin' and v.op != 'phi':
                        ck.ok('start.output', fl.match('any_of(open(output_file, *_), open(output_file), open(output_file, *_, **_))', v) is not None or v.op == 'glob' and v.a[0].endswith('STDOUT') or v.op == 'entered' or v.op == 'attr', fl, f'the {k} of a process goes to the file that was asked for', path=t.path())
    for e in pr:
        ck.ok('start', tm.mentions(e.a[0], lambda z: fl.match(POP + '.pid', z) is not None), e, 'the pid of the process is answered')
    for e, b in fl.find(call(POP)):
        kw = kwargs(fl, e.a[0])
        x = argof(e.a[0], 0, 'args')
        ck.ok('env', bool(fl.find(at['prep'])) or 'env' in kw or any(y.kind == 'add' and fl.match('os.environ', y.a[0]) is not None for y in fl.all_effects()), e, 'a process is started with the environment that was sent')
        ck.ok('start', x is not None and (fl.match('self._prepare_cmd_start(cmd, any_of(env, _))', x) is not None or tm.mentions(x, lambda z: fl.match('any_of(cmd, self._prepare_cmd_start(*_, **_))', z) is not None)), e, 'the command that was sent is run')
        ck.ok('start', kw.get('start_new_session') is tm.const(True) or 'preexec_fn' in kw or 'process_group' in kw, e, 'a process does not end with the connection')
        ck.ok('start', not (kw.get('shell') is tm.const(True)), e, 'the command that was sent is run as it is')
    for e, b in fl.find(at['prep']):
        a, b2 = argof(e.a[0], 0, 'start_cmd'), argof(e.a[0], 1, 'env')
        ck.ok('start', a is not None and b2 is not None and tm.mentions(a, lambda z: fl.match('cmd', z) is not None) and tm.mentions(b2, lambda z: fl.match('env', z) is not None), e, 'a process is started with the environment that was sent')
    fl = ck.F(BASE + '._prepare_cmd_start', opaque=tuple(n for n in names if n != '_prepare_cmd_start'))
    SET, DEL = add('os.environ', 'elem(env)', '_'), 'any_of(os.environ.pop(elem(env), *_), os.unsetenv(elem(env)))'
    ats = dict(s=SET, d=remove('os.environ', 'elem(env)'), d2=call(DEL), there=lit('elem(env) in os.environ'), gone=lit('not (elem(env) in os.environ)'))
    hs = list(fl.loops('env')) or list(fl.loops('any_of(sorted(env), list(env), env.items(), list(env.items()), sorted(env.items()))'))
    for e, b in fl.find(SET):
        got = fold.fold(e.a[2], lambda z: 5 if z.op == 'item' and fl.match('env', z.a[0]) is not None else U)
        ck.ok('env', got is U or isinstance(got, str), e, 'values of the environment are text')
        ck.ok('env', e.a[-1] != 'setdefault', e, 'the environment that was sent is set over what was there')
        ck.ok('env', tm.mentions(e.a[2], lambda z: z.op == 'item' and fl.match('env', z.a[0]) is not None) or e.a[2].op == 'phi', e, 'the environment that was sent is set')
    for h in hs[:1]:
        for v in ('x', '0', None, ''):
            leaf = lambda y, v=v: v if y.op == 'item' and fl.match('env', y.a[0]) is not None and y.a[1].op == 'elem' else U  # noqa: E731
            for t in fl.body_traces(h, ats, world=fold.literal(leaf)):
                if t.end in ('stop', 'return'):
                    ck.ok('env', t.end == 'stop' and bool(t.count('s')) == bool(v), fl, f'all of the environment is set (value: {v!r})', path=t.path())
                    ck.ok('env', bool(v) or 'gone' in t or t.count('d') + t.count('d2') >= 1, fl, f'variables without a value are unset (value: {v!r})', path=t.path())
    for env in (None, {}, {'A': 'b'}):
        for cmd, want in (('x', ['x']), (['x', 'y'], ['x', 'y'])):
            leaf = fold.leaves(fl, [('env', env), ('start_cmd', cmd), ('all(_)', True)])
            for t in fold.cases(fl, leaf, dict(s=SET)):
                if t.end == 'return' and t.ret is not None:
                    got = fold.fold(t.ret, leaf)
                    ck.ok('start', got is U or got == want, fl, f'the command {cmd!r} is run as {got}', path=t.path())


def receive(ck):
    names = tuple(ck.names(POSIX)) + tuple(ck.names(BASE))
    fl = ck.F(POSIX + '.cmd_running', opaque=tuple(n for n in names if n != 'cmd_running'))
    at = dict(k=call('os.kill(pid, 0)'), any=call('os.kill(*_)'), y=call("print('__running=1__')"), n=call("print('__running=0__')"))
    if fl.find(at['any']) and (fl.find(at['y']) or fl.find(at['n'])):
        for t in fl.traces(at, exc='handled'):
            if t.end == 'return':
                ck.ok('running', t.count('y') + t.count('n') == 1 and bool(t.count('y')) == bool(t.count('k')), fl, 'a process runs exactly if it can be signalled', path=t.path())
        ck.ok('running', len(fl.find(at['any'])) == len(fl.find(at['k'])), fl, 'asking for a process does not signal it')
    ks = 'os.kill(*_)'
    fl = ck.F(POSIX + '.cmd_kill', opaque=tuple(n for n in names if n != 'cmd_kill'))
    ck.every('kill', fl, dict(k=call('any_of(os.kill(*_), os.killpg(*_))')), lambda t: t.count('k') == 1, 'a process gets a signal')
    for sig in (9, 2, None):
        leaf = fold.leaves(fl, [('sig', sig)])
        vals = dict(s=lambda e: argof(e.a[0], 1, 'sig') if e.kind == 'call' and fl.match(ks, e.a[0]) is not None else None, p=lambda e: argof(e.a[0], 0, 'pid') if e.kind == 'call' and fl.match(ks, e.a[0]) is not None else None)
        for t in fold.cases(fl, leaf, {}, values=vals):
            if t.end == 'return':
                for v in t.values('s'):
                    got = fold.fold(v, leaf)
                    ck.ok('kill', got is U and (sig is None or tm.mentions(v, lambda z: fl.match('sig', z) is not None)) or got == sig and sig is not None or got is not None and sig is None, fl, f'the signal {sig} is sent as {got}', path=t.path())
                for v in t.values('p'):
                    ck.ok('kill', fl.match('pid', v) is not None, fl, 'the process that was named gets the signal', path=t.path())
    for name, p in (('cmd_mkdir', 'any_of(os.makedirs(path, *_, **_), _.mkdir(*_, **_))'), ('cmd_rmdir', 'shutil.rmtree(path, *_, **_)'), ('cmd_remove', 'any_of(os.remove(path), os.unlink(path), _.unlink(*_))'), ('cmd_exists', 'any_of(os.path.exists(path), os.path.lexists(path), _.exists())')):
        fl = ck.F(f'{BASE}.{name}', opaque=tuple(n for n in names if n != name))
        ck.every('files', fl, dict(x=call(p)), lambda t: t.count('x') >= 1, f'{name} does what was asked for')
        f = ck.repo.func(f'{BASE}.{name}')
        ck.ok('files', not [h for x in ast.walk(f.node) if isinstance(x, ast.Try) for h in x.handlers if not any(isinstance(y, ast.Raise) for y in ast.walk(h)) and (h.type is None or any(k in ast.unparse(h.type) for k in ('Exception', 'OSError')))], fl, f'{name} tells if it fails')
        for e, b in fl.find(call(p)):
            kw = kwargs(fl, e.a[0])
            if name == 'cmd_mkdir':
                ck.ok('files', kw.get('exist_ok') is tm.const(True), e, 'a directory that exists need not be made')
                ck.ok('files', 'makedirs' in repr(e.a[0].a[0]) or kw.get('parents') is tm.const(True), e, 'directories are made with those above')
            ck.ok('files', kw.get('missing_ok') is not tm.const(True), e, f'{name} tells if it fails')
            if name == 'cmd_rmdir':
                ck.ok('files', not (kw.get('ignore_errors') or (e.a[0].a[1][1] if len(e.a[0].a[1]) > 1 else tm.NONE)) is tm.const(True), e, f'{name} tells if it fails')
    fl = ck.F(BASE + '.cmd_exists', opaque=tuple(n for n in names if n != 'cmd_exists'))
    for have in (True, False):
        leaf = fold.leaves(fl, [('any_of(os.path.exists(path), os.path.lexists(path), _.exists())', have)])
        vals = dict(p=lambda e: e.a[0].a[1][0] if e.kind == 'call' and e.a[0].op == 'call' and e.a[0].a[1] and e.a[0].a[0].op == 'glob' and e.a[0].a[0].a[0] == 'print' else None)
        for t in fold.cases(fl, leaf, {}, values=vals):
            if t.end == 'return':
                got = [fold.fold(v, leaf) for v in t.values('p')]
                ck.ok('files', any(v is U for v in got) or got == [f'__exists={int(have)}__'], fl, f'the answer for a file is {got} (exists: {have})', path=t.path())
    fl = ck.F(R + 'ShellCommandReceive')
    ys = [e for e in fl.all_effects() if e.kind == 'yield']
    for win in (True, False):
        leaf = fold.leaves(fl, [("sys.platform.lower().startswith('win')", win), ("sys.platform.startswith('win')", win), ('sys.platform', 'win32' if win else 'linux')])
        vals = dict(y=lambda e: e.a[0] if e.kind == 'yield' else None)
        for t in fold.cases(fl, leaf, dict(y=is_eff(*ys), c=call('_.close()')), values=vals):
            if t.end == 'return':
                ck.ok('receive', t.count('y') == 1, fl, 'there is a receiver', path=t.path())
                for v in t.values('y'):
                    ck.ok('receive', v is None or v.op != 'call' or v.a[0].op != 'glob' or v.a[0].a[0].endswith('Windows' if win else 'Posix'), fl, f'the receiver is {v!r:.80} (windows: {win})', path=t.path())


def cli(ck):
    """The command line does what the receiver can do."""
    mod = ck.repo.modules.get('ipyparallel.shellcmd')
    if mod is None:
        return
    main = ck.repo.func('shellcmd:main')
    for mname in ('ipyparallel.shellcmd', 'ipyparallel.cluster.shellcmd', 'ipyparallel.cluster.shellcmd_receive'):
        m = ck.repo.modules[mname]
        pkg = mname.rsplit('.', 1)[0]
        for s in ast.walk(m.tree):
            if isinstance(s, ast.ImportFrom) and (s.level or (s.module or '').startswith('ipyparallel')):
                base = pkg if s.level == 1 else pkg.rsplit('.', 1)[0] if s.level == 2 else ''
                src = '.'.join(x for x in (base, s.module) if x)
                tgt = ck.repo.modules.get(src)
                if tgt is None:
                    continue
                top = {n.name for n in tgt.tree.body if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef))}
                for n in ast.walk(tgt.tree):
                    if isinstance(n, (ast.Import, ast.ImportFrom)):
                        top |= {(a.asname or a.name).split('.')[0] for a in n.names}
                    elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        top.add(n.id)
                for a in s.names:
                    ck.ok('import', a.name == '*' or a.name in top or f'{src}.{a.name}' in ck.repo.modules, main, f'{mname} can be imported ({a.name} is in {src})')
    parsers = {}
    for s in ast.walk(main.node):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == 'add_parser' and isinstance(s.targets[0], ast.Name) and s.value.args and isinstance(s.value.args[0], ast.Constant):
            parsers[s.targets[0].id] = (s.value.args[0].value, {})
    consts = {}
    for s in ast.walk(main.node):
        if isinstance(s, ast.Constant) and isinstance(s.value, str):
            consts[s.value] = consts.get(s.value, 0) + 1
        elif isinstance(s, ast.Attribute):
            consts['.' + s.attr] = consts.get('.' + s.attr, 0) + 1
    for s in ast.walk(main.node):
        if isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr == 'add_argument' and isinstance(s.func.value, ast.Name) and s.func.value.id in parsers and s.args and isinstance(s.args[0], ast.Constant):
            kw = {k.arg: k.value for k in s.keywords}
            d = kw['dest'].value if isinstance(kw.get('dest'), ast.Constant) else s.args[-1].value.lstrip('-').replace('-', '_')
            parsers[s.func.value.id][1][d] = (s, kw)
    for name, args in parsers.values():
        got = _receiver(ck, 'cmd_' + name)
        ck.ok('cli', bool(got), main, f'the command {name} exists')
        for g in got:
            ps, need, rest = _params(g)
            for d, (s, kw) in args.items():
                ck.ok('cli', d in ps or consts.get(d, 0) > 1 or consts.get('.' + d, 0) > 0, main, f'{name} takes {d}')
            for p in need:
                ck.ok('cli', p in args or consts.get('.' + p, 0) > 0 or consts.get(p, 0) > 1, main, f'{name} gets its {p}')
            for d, (s, kw) in args.items():
                if d in ('pid', 'sig'):
                    ck.ok('cli', 'type' in kw, main, f'the {d} of {name} is a number')
                if d == 'env':
                    ck.ok('cli', 'type' in kw or 'action' in kw or consts.get('.env', 0) > 0, main, f'the environment of {name} is a dict')
