"""Launchers: processes are started once, as asked, and their end is reported once."""

import ast

from ipa import terms as tm

from . import fold
from .client import leaves
from .cluster import attempt, last
from .common import add, argof, awaited, call, enclosing, is_eff, keyed, lit, prop, remove, store

L = 'cluster.launcher:'
U = fold.UNKNOWN
CLASSES = ('BaseLauncher', 'ControllerLauncher', 'EngineLauncher', 'LocalProcessLauncher', 'LocalControllerLauncher', 'LocalEngineLauncher', 'LocalEngineSetLauncher', 'MPILauncher', 'MPIControllerLauncher', 'MPIEngineSetLauncher',
           'SSHLauncher', 'SSHControllerLauncher', 'SSHEngineLauncher', 'SSHEngineSetLauncher', 'SSHProxyEngineSetLauncher', 'BatchSystemLauncher', 'BatchControllerLauncher', 'BatchEngineSetLauncher', 'LSFLauncher', 'LSFEngineSetLauncher')


@prop('L02', 90)
def l02(ck):
    names = tuple(dict.fromkeys(n for c in CLASSES for n in ck.names(L + c)))
    base(ck, names)
    kept(ck)
    local(ck, names)
    output(ck, names)
    ending(ck, names)
    engines(ck, names)
    commands(ck, names)
    ssh(ck, names)
    sshset(ck, names)
    batch(ck, names)
    connection(ck, names)
    shared(ck)
    from . import traits

    traits.launchers(ck)


def layers(fl, t):
    """What a dict is made of, the last one winning: [term of a whole dict, or (key, value)]."""
    out = []
    if t.op == 'phi':
        alts = [x for x in fl.alts(t) if x.op != 'phi']
        if len(alts) != 1:
            return None
        t = alts[0]
    if t.op in ('binop', 'bin') and t.a[0] == '|':
        a, b = layers(fl, t.a[1]), layers(fl, t.a[2])
        return None if a is None or b is None else a + b
    if t.op == 'copy':
        out = [t.a[0]]
    elif t.op == 'call' and t.a[0].op == 'attr' and t.a[0].a[1] == 'copy':
        out = [t.a[0].a[0]]
    elif t.op == 'call' and t.a[0].op == 'glob' and t.a[0].a[0].endswith('.copy'):
        out = [tm.mk('glob', t.a[0].a[0][: -len('.copy')])]
    elif t.op == 'alloc' and t.a[1] == 'dict':
        for x in t.a[2]:
            out.append(x[1] if isinstance(x, tuple) and x[0].op == 'starstar' else x)
    elif t.op == 'call':
        out = [t]
    else:
        return None
    for e in sorted((e for e in fl.all_effects() if e.kind == 'add' and e.a[0] is t), key=lambda e: e.node.line):
        if e.a[-1] == 'all' and e.a[1] is not None and (e.a[2] is None or not hasattr(e.a[2], 'op') or e.a[2].op == 'item' and e.a[2].a[1] is e.a[1]):
            out.append(e.a[1].a[0] if e.a[1].op == 'elem' else e.a[1])
        else:
            out.append((e.a[1], e.a[2]))
    return out


def kwargs(fl, t):
    """Keyword arguments of a call, also those given as **options."""
    kw = {}
    for k, v in t.a[2]:
        if k is None:
            for y in leaves(fl, v):
                for n, vs in keyed(fl, y).items():
                    kw[n] = vs[-1]
        else:
            kw[k] = v
    return kw


def order(fl, t, pats):
    """Positions of the layers matching the patterns (None: cannot tell)."""
    ls = layers(fl, t)
    if ls is None:
        return None
    return [max((i for i, x in enumerate(ls) if not isinstance(x, tuple) and fl.match(p, x) is not None), default=-1) for p in pats]


def env_ok(ck, rule, fl, t, e, msg):
    """An environment is ours, with that of the launcher on top."""
    if t is None:
        ck.ok(rule, False, e, msg)
        return
    o = order(fl, t, ('os.environ', 'self.get_env()'))
    if o is not None:
        ck.ok(rule, 0 <= o[0] < o[1], e, msg)
    else:
        ck.ok(rule, t.op not in ('glob',) and t is not tm.NONE, e, msg)


# ---------------------------------------------------------------- all launchers


def base(ck, names):
    B = L + 'BaseLauncher.'
    fl = ck.F(B + 'on_stop', opaque=names)
    at = dict(now=call('f(self.stop_data)'), any=call('f(*_)'), put=add('self.stop_callbacks', '_'), put2=call('self.stop_callbacks.append(f)'))
    for st in ('before', 'running', 'after'):
        leaf = fold.leaves(fl, [('self.state', st), ('self.running', st == 'running')])
        for t in fold.cases(fl, leaf, at):
            if t.end == 'return':
                w = st == 'after'
                ck.ok('on_stop', t.count('now') == t.count('any') == w and bool(t.count('put') + t.count('put2')) == (not w), fl, f'who asks to be told of the end of a process is told once: now if it has ended, else later (state: {st})', path=t.path())
    fl = ck.F(B + 'notify_start', opaque=names)
    for t in fl.traces(dict(s=store('self.state', "'running'"), d=store('self.start_data', 'data')), retval=True):
        if t.end == 'return':
            ck.ok('notify', 's' in t and 'd' in t and (t.ret is None or fl.match('data', t.ret) is not None), fl, 'a process that was started is running', path=t.path())
    fl = ck.F(B + 'notify_stop', opaque=names)
    CB = 'elem(self.stop_callbacks)(*_)'
    at = dict(s=store('self.state', "'after'"), d=store('self.stop_data', 'data'), f=call(CB), d0=store('self.stop_data'))
    for st in ('before', 'running', 'after'):
        leaf = fold.leaves(fl, [('self.state', st), ('self.running', st == 'running')])
        for t in fold.cases(fl, leaf, at):
            if t.end == 'return':
                if st == 'after':
                    ck.ok('notify', not t.count('f') + t.count('d0'), fl, 'the end of a process is reported once', path=t.path())
                else:
                    ck.ok('notify', 's' in t and 'd' in t and (not t.count('f') or t.before('s', 'f') and t.before('d', 'f')), fl, 'a process that has ended is known to have, before that is reported', path=t.path())
    n = 0
    for e, b in fl.find(call(CB)):
        n += 1
        ck.ok('notify', fl.match('elem(self.stop_callbacks)(data)', e.a[0]) is not None, e, 'everyone is told how a process ended')
        h = fl.loop_of(e.node)
        if h is not None:
            for t in fl.body_traces(h, dict(f=is_eff(e))):
                if t.end in ('stop', 'return'):
                    ck.ok('notify', t.end == 'stop' and t.count('f') == 1, e, 'everyone who asked is told of the end of a process', path=t.path())
        else:
            ck.ok('notify', any(x.op == 'comp' and tm.mentions(x, lambda z: z is e.a[0]) for g in fl.all_effects() for y in g.a if hasattr(y, 'op') for x in tm.subterms(y)), e, 'everyone who asked is told of the end of a process')
    ck.ok('notify', n > 0, fl, 'the end of a process is reported')
    fl = ck.F(B + 'get_env', opaque=names)
    for t in fl.traces({}, retval=True):
        if t.end == 'return' and t.ret is not None:
            o = order(fl, t.ret, ('self.cluster_env', 'self.environment'))
            ck.ok('env', o is None or 0 <= o[0] < o[1], fl, 'processes are told their cluster, and get the environment that was configured', path=t.path())
    for cls, pdir in (('BaseLauncher', 'self.profile_dir'), ('SSHLauncher', 'self.remote_profile_dir')):
        fl = ck.F(L + cls + '.cluster_env', opaque=names)
        for t in fl.traces({}, retval=True):
            if t.end != 'return' or t.ret is None:
                continue
            ks = {}
            for y in leaves(fl, t.ret):
                for k, vs in keyed(fl, y).items():
                    ks.setdefault(k, []).extend(vs)
            if cls == 'BaseLauncher':
                ck.ok('env', all(fl.match('self.cluster_id', v) is not None for v in ks.get('IPP_CLUSTER_ID', [tm.NONE])), fl, 'processes are told the id of their cluster', path=t.path())
            weak = [e for e in fl.all_effects() if e.kind == 'add' and e.a[-1] == 'setdefault' and fl.match("'IPP_PROFILE_DIR'", e.a[1]) is not None and fl.match(pdir, e.a[2]) is not None]
            ck.ok('env', sum(fl.match(pdir, v) is not None for v in ks.get('IPP_PROFILE_DIR', [])) > len(weak), fl, 'processes are told the profile directory of their cluster (there)', path=t.path())
    fl = ck.F(B + 'running', opaque=names)
    for st in ('before', 'running', 'after'):
        leaf = fold.leaves(fl, [('self.state', st)])
        for t in fold.cases(fl, leaf, {}):
            if t.end == 'return' and t.ret is not None:
                got = fold.fold(t.ret, leaf)
                ck.ok('notify', got is U or bool(got) == (st == 'running'), fl, f'a launcher whose process is {st!r} says running: {got}', path=t.path())
    fl = ck.F(B + 'from_dict', opaque=names)
    at = dict(s=call('setattr(_, elem(_), d[elem(_)])'))
    for e, b in fl.find(call('setattr(*_)')):
        ck.ok('restore', fl.match('setattr(cls(*_, **_), elem(_), d[elem(_)])', e.a[0]) is not None and len(e.a[0].a[1]) == 3 and e.a[0].a[1][1].op == 'elem' and e.a[0].a[1][2].op == 'item' and e.a[0].a[1][2].a[1] is e.a[0].a[1][1], e, 'a launcher is restored as it was')
        h = fl.loop_of(e.node)
        if h is not None:
            has = lit('elem(_) in d')
            for t in fl.body_traces(h, dict(s=at['s'], has=has)):
                if t.end in ('stop', 'return'):
                    ck.ok('restore', t.end == 'stop' and bool(t.count('s')) == bool(t.count('has')), e, 'a launcher is restored with all that was recorded', path=t.path())
    ck.ok('restore', bool(fl.find(call('setattr(*_)'))), fl, 'a launcher is restored with all that was recorded')
    fl = ck.F(B + 'to_dict', opaque=names)
    got = False
    for t in fl.traces({}, retval=True):
        if t.end == 'return' and t.ret is not None:
            for y in leaves(fl, t.ret):
                for e in fl.all_effects():
                    if e.kind == 'add' and e.a[0] is y and e.a[1] is not None and e.a[1].op == 'elem':
                        got = got or fl.match('getattr(self, _)', e.a[2]) is not None and e.a[2].a[1][1] is e.a[1]
                        h = fl.loop_of(e.node)
                        if h is not None:
                            for tt in fl.body_traces(h, dict(x=is_eff(e))):
                                if tt.end in ('stop', 'return'):
                                    ck.ok('restore', tt.end == 'stop' and tt.count('x') == 1, fl, 'all that a launcher is restored from is recorded', path=tt.path())
                if y.op == 'comp':
                    got = not fl.comp_guards(y) and not y.a[4]
                if y.op == 'call':
                    got = True
    ck.ok('restore', got, fl, 'what a launcher is restored from is recorded')


RECORD = {
    'BaseLauncher': ('profile_dir', 'cluster_id', 'state'),
    'EngineLauncher': ('n',),
    'LocalProcessLauncher': ('pid', 'output_file'),
    'SSHLauncher': ('ssh_cmd', 'ssh_args', 'scp_cmd', 'scp_args', 'hostname', 'user', 'remote_output_file', 'remote_profile_dir', 'remote_python'),
    'SSHProxyEngineSetLauncher': ('n',),
    'BatchSystemLauncher': ('output_file', 'job_id', 'n'),
}


def kept(ck):
    """Traits that another process needs to take over are part of the record."""
    for cname, traits in RECORD.items():
        c = ck.repo.cls(L + cname)
        body = {}
        for s in c.node.body:
            if isinstance(s, (ast.Assign, ast.AnnAssign)):
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                for x in ts:
                    if isinstance(x, ast.Name):
                        body[x.id] = s
        for n in traits:
            s = body.get(n)
            if s is None or s.value is None:
                continue
            tagged = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'tag' and any((k.arg == 'to_dict' and not (isinstance(k.value, ast.Constant) and not k.value.value)) or k.arg is None for k in x.keywords) for x in ast.walk(s.value))
            plain = isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in ('Unicode', 'Integer', 'List', 'Dict', 'Any', 'Float')
            ck.ok('restore', tagged or not plain, ck.repo.method(c, 'to_dict') or ck.repo.func(L + 'BaseLauncher.to_dict'), f'{cname}.{n} is on record, for whoever takes the process over')


# ---------------------------------------------------------------- local processes


def local(ck, names):
    P = L + 'LocalProcessLauncher.'
    fl = ck.F(P + 'start', opaque=names)
    POP = 'any_of(subprocess.Popen(*_, **_), Popen(*_, **_))'
    PS = f'psutil.Process(any_of({POP}.pid, self.pid))'
    at = dict(run=call(POP), pid=store('self.pid', f'{POP}.pid'), proc=store('self.process', PS), note=call('self.notify_start(*_)'), wait=call('self._start_waiting()'))
    for st in ('before', 'running', 'after'):
        leaf = fold.leaves(fl, [('self.state', st), ('self.running', st == 'running')])
        for t in fold.cases(fl, leaf, at):
            if t.end == 'return':
                ok = ck.ok('start', st == 'before' and t.count('run') == 1, fl, f'a launcher starts one process, once (state: {st})', path=t.path())
                ok = ok and ck.ok('start', 'pid' in t and 'proc' in t and t.before('pid', 'wait') and t.before('proc', 'wait') and t.before('run', 'pid'), fl, 'a process that was started is known before its end is waited for', path=t.path())
                ok = ok and ck.ok('start', t.count('note') == t.count('wait') == 1 and t.before('note', 'wait'), fl, 'a process that was started is running, then its end is waited for', path=t.path())
            elif t.end == 'raise':
                ck.ok('start', st != 'before' and not t.count('run'), fl, f'only processes that were started are not started (state: {st})', path=t.path())
    for e, b in fl.find(call(POP)):
        t = e.a[0]
        kw = kwargs(fl, t)
        x = argof(t, 0, 'args')
        ck.ok('start.args', x is not None and any(fl.match('any_of(self.args, self.find_args())', y) is not None for y in leaves(fl, x)), e, 'the command of the launcher is run')
        env_ok(ck, 'start.env', fl, kw.get('env'), e, 'a process gets our environment, and above that of its launcher')
        ck.ok('start.cwd', 'cwd' in kw and all(fl.match('self.work_dir', y.a[1][0] if y.op == 'bool' else y) is not None for y in leaves(fl, kw['cwd'])), e, 'a process runs in the directory that was asked for')
        ck.ok('start.session', kw.get('start_new_session') is tm.const(True) or 'preexec_fn' in kw or 'process_group' in kw, e, 'our signals do not reach the process')
        err = kw.get('stderr')
        ck.ok('start.output', 'stdout' in kw and err is not None and (fl.match('any_of(subprocess.STDOUT, STDOUT)', err) is not None or err is kw['stdout']), e, 'all output of a process goes to its file')
        ck.ok('start.output', 'stdin' in kw, e, 'a process does not read our input')
    for e, b in fl.find(call('open(self.output_file, *_, **_)')):
        m = argof(e.a[0], 1, 'mode')
        ck.ok('start.output', m is None or m.op != 'const' or 'a' in str(m.a[0]) or 'w' in str(m.a[0]), e, 'all output of a process goes to its file')
    # waiting for the end
    TH = 'any_of(threading.Thread(*_, **_), Thread(*_, **_), ipyparallel.util._OutputProducingThread(*_, **_))'
    for cls in ('LocalProcessLauncher', 'SSHLauncher'):
        fl = ck.F(L + cls + '._start_waiting', opaque=names)
        at = dict(ev=store('self._stop_waiting', '_'), keep=store('self._wait_thread', TH), go=call(f'any_of({TH}, self._wait_thread).start()'))
        for t in fl.traces(at):
            if t.end == 'return':
                ck.ok('wait', t.count('go') == 1 and 'keep' in t and 'ev' in t and t.before('ev', 'go') and t.before('keep', 'go'), fl, 'the end of a process is waited for, in the background', path=t.path())
        for e, b in fl.find(call(TH)):
            kw = kwargs(fl, e.a[0])
            ck.ok('wait', 'target' in kw and fl.match('self._wait', kw['target']) is not None, e, 'the end of a process is waited for')
            ck.ok('wait', kw.get('daemon') is tm.const(True) or fl.find(store('_.daemon', 'True')), e, 'waiting for a process does not keep ours from ending')
        fl = ck.F(L + cls + '._wait', opaque=names)
        W = 'self.process.wait(*_, **_)' if cls == 'LocalProcessLauncher' else 'self.wait_one(*_, **_)'
        EXC = 'TimeoutExpired' if cls == 'LocalProcessLauncher' else 'TimeoutError'
        at = dict(w=attempt(W), done=call(W), n=call('any_of(self.loop.add_callback(*_), self.loop.add_callback_from_signal(*_), self.loop.call_soon_threadsafe(*_))'), bad=call('self.notify_stop(*_)'))
        for t in fl.traces(at, exc='handled', cap=3):
            if t.end == 'return':
                ck.ok('wait', t.count('n') == 1 and not t.count('bad'), fl, 'the end of a process is reported once, from the event loop', path=t.path())
                ck.ok('wait', not t.count('done') or t.count('done') == 1 and t.before('done', 'n'), fl, 'the end of a process is reported after it', path=t.path())
        tries = [h for x in ast.walk(ck.repo.func(L + cls + '._wait').node) if isinstance(x, ast.Try) for h in x.handlers]
        for e, b in fl.find(call(W)):
            to = argof(e.a[0], 0, 'timeout')
            ck.ok('wait', to is None or to is tm.NONE or any(h.type is None or EXC in ast.unparse(h.type) or 'Exception' in ast.unparse(h.type) for h in tries) or not tries, e, 'a process that still runs is waited for again')
        n = 0
        for e in fl.all_effects():
            if e.kind == 'call':
                for x in tm.subterms(e.a[0]):
                    if x.op == 'alloc' and x.a[1] == 'dict':
                        ks = dict((k.a[0], v) for k, v in (y for y in x.a[2] if isinstance(y, tuple)) if k.op == 'const')
                        if 'exit_code' in ks:
                            n += 1
                            ck.ok('wait', any(tm.mentions(y, lambda z: fl.match(W, z) is not None) for y in leaves(fl, ks['exit_code'])), e, 'the exit code of the process is reported')
                            ck.ok('wait', 'identifier' in ks and fl.match('self.identifier', ks['identifier']) is not None, e, 'it is known whose end is reported')
    fl = ck.F(P + '_reconstruct_process', opaque=names)
    PD = "psutil.Process(d['pid'])"
    at = dict(run=attempt(PD), p=store('self.process', PD), w=call('self._start_waiting()'))
    for pid in (None, -1, 7):
        leaf = fold.leaves(fl, [("d['pid']", U if pid is None else pid), ("d.get('pid', *_)", -1 if pid is None else pid), ("d.get('pid')", pid)])
        have = lit("'pid' in d")
        for t in fold.cases(fl, leaf, dict(at, has=have, no=lit("not ('pid' in d)")), exc='handled'):
            if pid == 7 and 'no' not in t:
                if t.end == 'return':
                    ck.ok('restore', 'p' in t and t.count('w') == 1 and t.before('p', 'w'), fl, 'a process that still runs is waited for again', path=t.path())
            elif pid == -1 and t.end == 'return':
                ck.ok('restore', not t.count('run') + t.count('w'), fl, 'no process is waited for if none was started', path=t.path())
            if t.end == 'return' and 'run' in t:
                ck.ok('restore', 'p' in t, fl, 'a process that does not run any more is not taken over', path=t.path())
    fl = ck.F(P + 'from_dict', opaque=names)
    for t in fl.traces(dict(r=call('_._reconstruct_process(d)')), retval=True):
        if t.end == 'return':
            ck.ok('restore', t.count('r') == 1, fl, 'the process of a restored launcher is taken over', path=t.path())


def output(ck, names):
    fl = ck.F(L + 'LocalProcessLauncher.get_output', opaque=names)
    at = dict(read=call('open(self.output_file, *_, **_)'), keep=store('self._output'), rm=attempt('any_of(os.remove(self.output_file), os.unlink(self.output_file))'))
    for have in (None, 'text'):
        for file in ('', 'f'):
            for rm in (True, False):
                leaf = fold.leaves(fl, [('self._output', have), ('self.output_file', file), ('remove', rm), ('os.path.isfile(_)', True), ('os.path.exists(_)', True)])
                for t in fold.cases(fl, leaf, at, exc='handled'):
                    if t.end == 'return':
                        ck.ok('output', bool(t.count('keep')) == (have is None) or bool(have), fl, 'output that was not read yet is read', path=t.path())
                        ck.ok('output', not rm or not file or 'rm' in t, fl, 'output files are removed if that is asked for', path=t.path())
                        ck.ok('output', rm or not t.count('rm'), fl, 'output files are only removed if that is asked for', path=t.path())
                        ck.ok('output', not (t.count('rm') and t.count('read')) or t.before('read', 'rm'), fl, 'output is read before its file is removed', path=t.path())
    for t in fl.traces(dict(o=attempt('open(self.output_file)'), rm=attempt('any_of(os.remove(self.output_file), os.unlink(self.output_file))'), ok=call('any_of(os.remove(self.output_file), os.unlink(self.output_file))')), exc='handled'):
        if 'rm' in t and 'ok' not in t:
            ck.ok('output', t.end != 'raise', fl, 'a file that cannot be removed is no reason to fail', path=t.path())
    import ast as _a

    f = ck.repo.func(L + 'LocalProcessLauncher.get_output')
    for x in _a.walk(f.node):
        if isinstance(x, _a.Call) and _a.unparse(x.func) in ('os.remove', 'os.unlink'):
            ck.ok('output', any(isinstance(y, _a.Try) and any(z is x for s in y.body for z in _a.walk(s)) for y in _a.walk(f.node)) or any(isinstance(y, _a.With) and 'suppress' in _a.unparse(y.items[0]) and any(z is x for z in _a.walk(y)) for y in _a.walk(f.node)), f, 'a file that cannot be removed is no reason to fail')
    fl = ck.F(L + 'BaseLauncher._log_output', opaque=names)
    ck.every('output', fl, dict(g=call('self.get_output(*_, **_)')), lambda t: t.count('g') >= 1, 'the output of a process that has ended is shown')


def ending(ck, names):
    P = L + 'LocalProcessLauncher.'
    fl = ck.F(P + 'stop', opaque=names)
    TERM, KILL = 'self.signal(any_of(SIGTERM, signal.SIGTERM))', 'self.signal(any_of(SIGKILL, signal.SIGKILL))'
    J = 'self.join(*_, **_)'
    at = dict(term=attempt(TERM), kill=attempt(KILL), j=attempt(J), aw=awaited(J))
    {'to': lambda e: argof(e.a[0], 0, 'timeout') or tm.NONE if e.kind == 'call' and fl.match(J, e.a[0]) is not None else None}

    for t in fl.traces(at, exc='handled', retval=False):
        if t.end == 'return':
            ck.ok('stop', 'term' in t and 'j' in t and t.before('term', 'j'), fl, 'a process is told to end, and waited for', path=t.path())
            ck.ok('stop', t.count('aw') >= 1, fl, 'a process has ended when stop returns', path=t.path())
            ck.ok('stop', not t.count('kill') or t.before('j', 'kill') and last(t, 'kill', 'aw'), fl, 'a process is only killed if it does not end, and waited for then', path=t.path())
            ck.ok('stop', t.count('j') < 2 or 'kill' in t, fl, 'a process that does not end is killed', path=t.path())
    for e, b in fl.find(call(TERM)) + fl.find(call(KILL)):
        h = [t for t in fl.traces(dict(x=_att(e), y=is_eff(e), j=attempt(J)), exc='handled') if 'x' in t and 'y' not in t]
        ck.ok('stop', all(t.end == 'return' and 'j' in t for t in h) and _guarded(ck, P + 'stop', 'signal'), e, 'a process that cannot be signalled is waited for all the same')
    js = [e for e, b in fl.find(call(J))]
    for e in js:
        to = argof(e.a[0], 0, 'timeout')
        ck.ok('stop', to is not None and any(fl.match(p, to) is not None for p in ('self.stop_seconds_until_kill', 'self.stop_timeout')), e, 'a process is waited for as long as configured')
    ck.ok('stop', any(fl.match('self.stop_seconds_until_kill', argof(e.a[0], 0, 'timeout') or tm.NONE) is not None for e in js), fl, 'a process is killed after the time that was configured')
    ck.ok('stop', bool(fl.find(call(KILL))), fl, 'a process that does not end is killed')
    fl = ck.F(P + 'join', opaque=names)
    at = dict(j=call('self._wait_thread.join(*_, **_)'))
    for have in (True, False):
        for alive in (True, False):
            leaf = fold.leaves(fl, [('self._wait_thread', fold.Rec() if have else None), ('self._wait_thread.is_alive()', alive)])
            for t in fold.cases(fl, leaf, at):
                if t.end == 'return':
                    ck.ok('join', not have or not alive and 'j' in t, fl, f'join returns when the process has ended (waiting: {have}, alive: {alive})', path=t.path())
                elif t.end == 'raise':
                    ck.ok('join', have and alive and 'j' in t, fl, 'join only fails if the process still runs', path=t.path())
    for e in fl.all_effects():
        if e.kind == 'raise' and e.a[0] is not None:
            ck.ok('join', tm.mentions(e.a[0], lambda y: y.op == 'glob' and 'TimeoutError' in y.a[0]), e, 'a process that does not end in time is a TimeoutError')
    for e, b in fl.find(at['j']):
        ck.ok('join', fl.match('timeout', argof(e.a[0], 0, 'timeout') or tm.NONE) is not None, e, 'join waits as long as asked')
    for cls, SIG in (('LocalProcessLauncher', 'any_of(self.process.send_signal(sig), os.kill(self.pid, sig), os.kill(self.process.pid, sig))'), ('SSHLauncher', 'self.ssh_sender.cmd_kill(self.pid, sig)')):
        fl = ck.F(f'{L}{cls}.signal', opaque=names)
        at = dict(s=call(SIG), k=call('any_of(subprocess.check_output(*_), check_output(*_))'))
        for st in ('before', 'running', 'after'):
            leaf = fold.leaves(fl, [('self.state', st), ('self.running', st == 'running')])
            for t in fold.cases(fl, leaf, at):
                if t.end == 'return':
                    ck.ok('signal', t.count('s') + t.count('k') == (st == 'running'), fl, f'a process gets the signal exactly if it runs (state: {st})', path=t.path())
    fl = ck.F(P + 'poll', opaque=names)
    for run in (True, False):
        for code in (None, 0, 3):
            leaf = fold.leaves(fl, [('self.process.is_running()', run), ('self.process.wait(*_)', code), ('self.process.wait(*_, **_)', code)])
            for t in fold.cases(fl, leaf, dict(n=call('self.notify_stop(*_)'))):
                if t.end == 'return':
                    got = fold.fold(t.ret, leaf) if t.ret is not None else U
                    ck.ok('poll', t.count('n') == (not run), fl, 'the end of a process is reported when it is noticed', path=t.path())
                    ck.ok('poll', got is U or (got is None) == run and (code is None or run or got == code), fl, f'a process whose exit code is {code} is polled as {got} (running: {run})', path=t.path())


def _att(e):
    a = is_eff(e)
    a.attempt = True
    return a


def _guarded(ck, spec, meth):
    """Every call of self.<meth> is inside a try, or another construct that may contain its exceptions."""
    f = ck.repo.func(spec)
    for x in ast.walk(f.node):
        if isinstance(x, ast.Call) and ast.unparse(x.func) == 'self.' + meth:
            if not any(isinstance(y, (ast.Try, ast.With)) and any(z is x for s in y.body for z in ast.walk(s)) for y in ast.walk(f.node)):
                return False
    return True


# ---------------------------------------------------------------- sets of engines


def engines(ck, names):
    S = L + 'LocalEngineSetLauncher.'
    fl = ck.F(S + 'start', opaque=names)
    MK = 'self.launcher_class(*_, **_)'
    EL = f'any_of({MK}, self.launchers[_])'
    at = dict(n=store('self.n', 'n'), note=call('self.notify_start(*_)'))
    ck.every('set', fl, at, lambda t: t.count('note') == 1 and 'n' in t, 'a set of engines is running when all of them were started')
    for e, b in fl.find(call(MK)):
        kw = kwargs(fl, e.a[0])
        if kw:
            for k, p in (('profile_dir', 'self.profile_dir'), ('cluster_id', 'self.cluster_id'), ('environment', 'self.environment'), ('work_dir', 'self.work_dir')):
                ck.ok('set', k in kw and any(fl.match(p, y) is not None or tm.mentions(y, lambda z, p=p: fl.match(p, z) is not None) for y in leaves(fl, kw[k])), e, f'every engine gets the {k} of its set')
            ids = [x for x in (kw.get('identifier'), kw.get('output_file')) if x is not None]
            ck.ok('set', 'identifier' in kw and all(tm.mentions(x, lambda z: z.op in ('elem', 'phi', 'idx')) for x in ids), e, 'engines have ids and output files of their own')
        h = fl.loop_of(e.node)
        ck.ok('set', h is not None, e, 'n engines are started')
        if h is None:
            continue
        ba = dict(mk=is_eff(e), keep=add('self.launchers', '_', MK), args=store(f'{EL}.engine_args'), cmd=store(f'{EL}.engine_cmd'), on=call(f'{EL}.on_stop(self._notice_engine_stopped)'), go=call(f'{EL}.start(*_, **_)'), note=at['note'])
        for t in fl.body_traces(h, ba):
            if t.end in ('stop', 'return'):
                ok = ck.ok('set', t.end == 'stop' and t.count('mk') == t.count('keep') == t.count('go') == 1, fl, 'n engines are started, each of them once and remembered', path=t.path())
                ok = ok and ck.ok('set', t.count('on') == 1 and t.before('on', 'go'), fl, 'the end of every engine is noticed', path=t.path())
                ok = ok and ck.ok('set', ('args' in t or 'engine_args' in kw) and ('cmd' in t or 'engine_cmd' in kw) and t.before('keep', 'go') and all(k not in t or t.before(k, 'go') for k in ('args', 'cmd')), fl, 'engines get the arguments of their set before they are started', path=t.path())
                ck.ok('set', 'note' not in t, fl, 'a set of engines is running when all of them were started', path=t.path()) if ok else None
        for k in ('identifier', 'output_file'):
            if k not in kw or kw[k].op == 'phi':
                continue
            got = {}
            for sid in ('s1', 's2'):
                for i in (0, 1, 2, 9, 10, 11, 99, 100, 101):
                    leaf = lambda x, sid=sid, i=i: i if x.op == 'elem' and _range(x.a[0]) else sid if fl.match('self.engine_set_id', x) is not None else 'X' if x.op == 'attr' and x.a[0].op in ('name', 'param') else U  # noqa: E731
                    v = fold.fold(kw[k], leaf)
                    if v is not U:
                        got.setdefault(v, []).append((sid, i))
            # ids differ in a set, files also between sets
            twice = [v for v, xs in got.items() if len(xs if k == 'output_file' else {i for q, i in xs}) != (1)]
            ck.ok('set', not twice, e, f'engines have an {k} of their own, not the same: {twice[:2]}')
        it = [y for y in tm.subterms(kw.get('identifier') or tm.NONE) if y.op == 'elem']
        for y in it:
            if tm.mentions(y, lambda z: z.op == 'call' and z.a[0].op == 'glob' and z.a[0].a[0] == 'range'):
                r = [z for z in tm.subterms(y) if z.op == 'call' and z.a[0].op == 'glob' and z.a[0].a[0] == 'range'][0]
                leaf = fold.leaves(fl, [('n', 5), ('self.n', 5)])
                got = [fold.fold(q, leaf) for q in r.a[1]]
                ck.ok('set', U in got or len(range(*got)) == 5, e, f'{len(range(*got)) if U not in got else "?"} engines are started instead of 5')
    for k in ('engine_args', 'engine_cmd'):
        for e, b in fl.find(store(f'{EL}.{k}', '_')):
            ck.ok('set', tm.mentions(e.a[2], lambda z, k=k: fl.match('self.' + k, z) is not None), e, f'engines get the {k} of their set')
    for meth, p in (('signal', '_.signal(sig)'), ('stop', '_.stop()')):
        fl = ck.F(S + meth, opaque=names)
        n = 0
        for e, b in fl.find(call(p)):
            if not tm.mentions(e.a[0], lambda z: fl.match('self.launchers', z) is not None):
                continue
            n += 1
            h = fl.loop_of(e.node)
            inc = any(x.op == 'comp' and tm.mentions(x, lambda z: z is e.a[0]) for g in fl.all_effects() for y in g.a if hasattr(y, 'op') for x in tm.subterms(y))
            ck.ok('set.' + meth, h is not None or inc, e, f'all engines are reached by {meth}')
            if h is not None:
                at = dict(x=is_eff(e), w=awaited('_'), aw=lit('not inspect.isawaitable(_)'), f=call('any_of(asyncio.ensure_future(_), asyncio.create_task(_))'), ad=add('_', '_'))
                for t in fl.body_traces(h, at):
                    if t.end in ('stop', 'return'):
                        ck.ok('set.' + meth, t.end == 'stop' and t.count('x') == 1, e, f'all engines are reached by {meth}', path=t.path())
                        if meth == 'stop' and not inc:
                            ck.ok('set.stop', t.count('w') + t.count('aw') + t.count('ad') >= 1, e, 'every engine has ended when stop returns', path=t.path())
        ck.ok('set.' + meth, n > 0, fl, f'engines are reached by {meth}')
        if meth == 'stop':
            ws = [e for e in fl.all_effects() if e.kind == 'await']
            ck.ok('set.stop', any(fl.match('any_of(asyncio.gather(*_, **_), asyncio.wait(*_, **_))', w.a[0]) is not None or w.a[0].op == 'elem' or fl.match('_.stop()', w.a[0]) is not None for w in ws), fl, 'every engine has ended when stop returns')
    fl = ck.F(S + '_notice_engine_stopped', opaque=names)
    at = dict(pop=remove('self.launchers', "data['identifier']"), n=call('self.notify_stop(self.stop_data)'), any=call('self.notify_stop(*_)'), rec=add('_', "data['identifier']", 'data'), code=add('self.stop_data', "'exit_code'"), left=lit('self.launchers'), none=lit('not self.launchers'))
    for e, b in fl.find(store('self.outputs', '_')):
        ck.ok('set.output', tm.mentions(e.a[2], lambda z: fl.match('self.outputs', z) is not None), e, 'the output of engines that have ended is kept')
    for t in fl.traces(at):
        if t.end == 'return':
            ck.ok('set.end', 'pop' in t and 'rec' in t, fl, 'the end of an engine is recorded', path=t.path())
            ck.ok('set.end', t.count('any') == t.count('n') and (t.count('any') == 1 if 'none' in t and 'left' not in t else not t.count('any') if 'left' in t else True), fl, 'a set of engines has ended, once, exactly if its last engine has', path=t.path())
            ck.ok('set.end', not t.count('n') or t.before('rec', 'n') and t.before('pop', 'none'), fl, 'a set of engines has ended after its engines', path=t.path())
    # exit codes: the first that is not zero
    for e, b in fl.find(add('self.stop_data', "'exit_code'", "_['exit_code']")):
        h = fl.loop_of(e.node)
        if h is None:
            continue
        for cur in (None, 0):
            for new in (0, 3):
                leaf = lambda x, cur=cur, new=new: cur if fl.match("any_of(self.stop_data['exit_code'], self.stop_data.get('exit_code'))", x) is not None else new if x.op == 'item' and x.a[1] is tm.const('exit_code') and tm.mentions(x, lambda z: z.op == 'elem') else U  # noqa: E731
                put = add('self.stop_data', "'exit_code'", "_['exit_code']")
                for t in fl.body_traces(h, dict(p=put, has=lit("'exit_code' in _"), no=lit("not ('exit_code' in _)")), world=fold.literal(leaf)):
                    if t.end in ('stop', 'return') and 'no' not in t:
                        ck.ok('set.code', bool(t.count('p')) == (cur is None or bool(new)), e, f'the exit code of a set of engines is that of an engine that failed, if any (so far: {cur}, engine: {new})', path=t.path())
    fl = ck.F(S + 'from_dict', opaque=names)
    FD = '_.launcher_class.from_dict(*_, **_)'
    for e, b in fl.find(call(FD)):
        h = fl.loop_of(e.node)
        kw = kwargs(fl, e.a[0])
        ck.ok('set.restore', 'identifier' in kw and kw['identifier'].op == 'elem', e, 'engines keep their ids')
        if h is None:
            continue
        ba = dict(run=attempt(FD), ran=call(FD), keep=add('_.launchers', '_', FD), on=call(f'any_of({FD}, _.launchers[_]).on_stop(_._notice_engine_stopped)'))
        for t in fl.body_traces(h, ba, exc='handled'):
            if t.end in ('stop', 'return') and 'run' in t:
                ck.ok('set.restore', t.end == 'stop', fl, 'all engines that still run are taken over', path=t.path())
                ck.ok('set.restore', t.count('ran') == t.count('keep') == t.count('on'), fl, 'the end of engines that were taken over is noticed', path=t.path())
        tries = [x for x in ast.walk(ck.repo.func(S + 'from_dict').node) if isinstance(x, ast.Try)]
        ck.ok('set.restore', any(hh.type is None or any(z in ast.unparse(hh.type) for z in ('NotRunning', 'LauncherError', 'Exception')) for x in tries for hh in x.handlers), e, 'engines that have ended are not taken over')
    nr = [e for e in fl.all_effects() if e.kind == 'raise' and e.a[0] is not None and tm.mentions(e.a[0], lambda y: y.op == 'glob' and y.a[0].endswith('NotRunning'))]
    ck.ok('set.restore', bool(nr), fl, 'a set without engines does not run')
    ck.ok('set.restore', bool(fl.find(store('_.n', '_'))), fl, 'a set knows how many engines it has')
    fl = ck.F(S + 'to_dict', opaque=names)
    ck.every('set.restore', fl, dict(p=add('_', "'engines'")), lambda t: 'p' in t, 'the engines of a set are on record')
    for e in fl.all_effects():
        for y in e.a:
            if hasattr(y, 'op') and y.op == 'comp' and tm.mentions(y, lambda z: fl.match('_.to_dict()', z) is not None):
                ck.ok('set.restore', not fl.comp_guards(y), e, 'all engines of a set are on record')


# ---------------------------------------------------------------- commands


def commands(ck, names):
    one = [('self.controller_cmd', ['C']), ('self.engine_cmd', ['E']), ('self.cluster_args', ['A']), ('self.controller_args', ['c']), ('self.engine_args', ['e']), ('self.mpi_cmd', ['m']), ('self.mpi_args', ['x']), ('self.program', ['P']), ('self.program_args', ['p']), ('self.n', 4), ('self.submit_command', ['s']), ('self.batch_file', 'b'), ('self.cmd_and_args', ['K']), ('self.ipcluster_cmd', ['I']), ('self.ipcluster_args', ['i']), ('self.remote_profile_dir', 'D'), ('self.cluster_id', 'j')]
    for spec, want in (
        ('LocalProcessLauncher.find_args', ['K']), ('LocalControllerLauncher.find_args', ['C', 'A', 'c']), ('LocalEngineLauncher.find_args', ['E', 'A', 'e']), ('MPILauncher.find_args', ['m', '-n', '4', 'x', 'P', 'p']),
        ('MPIControllerLauncher.program', ['C']), ('MPIControllerLauncher.program_args', ['A', 'c']), ('MPIEngineSetLauncher.program', ['E', '--mpi']), ('MPIEngineSetLauncher.program_args', ['A', 'e']),
        ('SSHControllerLauncher.program', ['C']), ('SSHControllerLauncher.program_args', ['A', 'c']), ('SSHEngineLauncher.program', ['E']), ('SSHEngineLauncher.program_args', ['A', 'e']),
        ('SSHProxyEngineSetLauncher.program', ['I', 'engines']), ('SSHProxyEngineSetLauncher.program_args', ['-n', '4', '--profile-dir', 'D', '--cluster-id', 'j', 'i']),
        ('BatchSystemLauncher.find_args', ['s', 'b']), ('BatchControllerLauncher._default_program', ['C']), ('BatchControllerLauncher._default_program_args', ['A', 'c']), ('BatchEngineSetLauncher._default_program', ['E']), ('BatchEngineSetLauncher._default_program_args', ['A', 'e']),
    ):
        fl = ck.F(L + spec, opaque=names)
        for n in (4, 1):
            leaf = fold.leaves(fl, [('self.n', n)] + one)
            want = [str(n) if x in ('1', '4') else x for x in want]
            for t in fold.cases(fl, leaf, {}):
                if t.end != 'return' or t.ret is None:
                    continue
                got = fold.fold(t.ret, leaf)
                if isinstance(got, (list, tuple)) and U in got:
                    continue
                if got is not U:
                    # (options may come in another order)
                    ck.ok('command', list(got) == want or 'Proxy' in spec and sorted(got) == sorted(want), fl, f'the command is {got} instead of {want}', path=t.path())
    for spec in ('MPILauncher.start', 'MPIEngineSetLauncher.start', 'SSHProxyEngineSetLauncher.start'):
        fl = ck.F(L + spec, opaque=tuple(n for n in names if n != 'start'))
        go = 'any_of(subprocess.Popen(*_, **_), Popen(*_, **_), self.ssh_sender.cmd_start(*_, **_), super().start(*_, **_), super().start())'
        for t in fl.traces(dict(n=store('self.n', 'n'), go=call(go))):
            if t.end == 'return':
                ck.ok('command', 'n' in t and (not t.count('go') or t.before('n', 'go')), fl, 'as many are started as were asked for', path=t.path())


# ---------------------------------------------------------------- ssh


def ssh(ck, names):
    S = L + 'SSHLauncher.'
    fl = ck.F(S + 'start', opaque=names)
    RUN = 'self.ssh_sender.cmd_start(*_, **_)'
    at = dict(send=call('self.send_files()'), run=call(RUN), pid=store('self.pid', RUN), note=call('self.notify_start(*_)'), wait=call('self._start_waiting()'), fetch=call('self.fetch_files()'), host=store('self.hostname', 'hostname'), user=store('self.user', 'user'))
    for h in (None, 'h'):
        for u in (None, 'u'):
            leaf = fold.leaves(fl, [('hostname', h), ('user', u), ('port', None)])
            for t in fold.cases(fl, leaf, at):
                if t.end != 'return':
                    continue
                ok = ck.ok('ssh.start', t.count('run') == 1 and 'pid' in t and t.before('send', 'run'), fl, 'files are sent, then the process is started, once', path=t.path())
                ok = ok and ck.ok('ssh.start', t.count('note') == t.count('wait') == 1 and t.before('pid', 'note') and t.before('note', 'wait'), fl, 'a process that was started is running, then its end is waited for', path=t.path())
                ok = ok and ck.ok('ssh.start', 'fetch' in t and t.before('run', 'fetch'), fl, 'files are fetched after the process was started', path=t.path())
                ok = ok and ck.ok('ssh.start', bool(t.count('host')) == (h is not None) and bool(t.count('user')) == (u is not None) and all(k not in t or t.before(k, 'run') for k in ('host', 'user')), fl, 'the process is started on the host that was asked for', path=t.path())
    for e, b in fl.find(call(RUN)):
        kw = kwargs(fl, e.a[0])
        leaf = fold.leaves(fl, [('self.program', ['P']), ('self.program_args', ['p'])])
        x = argof(e.a[0], 0, 'cmd')
        got = fold.fold(x, leaf) if x is not None else None
        ck.ok('ssh.start', got is U or list(got or ()) == ['P', 'p'], e, 'the program is started with its arguments')
        ck.ok('ssh.start', 'env' in kw and fl.match('self.get_env()', kw['env']) is not None, e, 'the process gets the environment of its launcher')
        ck.ok('ssh.start', 'output_file' in kw and fl.match('self.remote_output_file', kw['output_file']) is not None, e, 'the output of the process is where it is looked for')
    # traits may be shared with the launchers of other hosts
    for e in fl.all_effects():
        if e.kind in ('add', 'remove') and e.a[0].op == 'attr' and fl.match('self', e.a[0].a[0]) is not None and e.a[0].a[1] in ('ssh_args', 'scp_args', 'ssh_cmd', 'scp_cmd'):
            ck.ok('ssh.shared', False, e, f'the {e.a[0].a[1]} of other hosts are changed')
    for attr, opt in (('ssh_args', '-p'), ('scp_args', '-P')):
        st = fl.find(store('self.' + attr, '_'))
        for have in ([], ['-v']):
            leaf = fold.leaves(fl, [('self.' + attr, have), ('port', '22'), ('str(port)', '22')])
            for e, b in st:
                got = fold.fold(e.a[2], leaf)
                ck.ok('ssh.port', got is U or not isinstance(got, list) or U in got or [str(x) for x in got] == have + [opt, '22'], e, f'the options of a host with port 22 are {got}')
    for meth, one, src in (('send_files', '_send_file', 'self.to_send'), ('fetch_files', '_fetch_file', 'self.to_fetch')):
        fl = ck.F(S + meth, opaque=names)
        n = 0
        for e, b in fl.find(call(f'self.{one}(*_, **_)')):
            n += 1
            h = fl.loop_of(e.node)
            ck.ok('ssh.files', h is not None, e, 'all files are sent or fetched')
            a, c = argof(e.a[0], 0, 'a'), argof(e.a[0], 1, 'b')
            ck.ok('ssh.files', a is None or c is None or a.op != 'item' or c.op != 'item' or (a.a[1], c.a[1]) == (tm.const(0), tm.const(1)), e, 'files are sent from here to there, and fetched from there to here')
            if h is not None:
                for t in fl.body_traces(h, dict(x=is_eff(e))):
                    if t.end in ('stop', 'return'):
                        ck.ok('ssh.files', t.end == 'stop' and t.count('x') == 1, e, 'all files are sent or fetched', path=t.path())
        ck.ok('ssh.files', n > 0, fl, 'files are sent or fetched')
    fl = ck.F(S + '_send_file', opaque=names)
    CP = 'any_of(subprocess.check_output(*_, **_), check_output(*_, **_))'
    ck.every('ssh.files', fl, dict(c=call(CP)), lambda t: t.count('c') == 1, 'a file is sent once')
    for e, b in fl.find(call(CP)):
        leaf = fold.leaves(fl, [('self.scp_cmd', ['S']), ('self.scp_args', ['a']), ('local', 'L'), ('self.location', 'h'), ('remote', 'R'), ('os.path.sep', '/')])
        got = fold.fold(argof(e.a[0], 0, 'args'), leaf)
        ck.ok('ssh.files', got is U or U in got or got == ['S', 'a', 'L', 'h:R'], e, f'a file is sent by {got}')
    at = dict(c=call(CP), mk=call('self.ssh_sender.cmd_mkdir(*_)'))
    for have in (True, False):
        leaf = fold.leaves(fl, [('self.ssh_sender.cmd_exists(*_)', have)])
        for t in fold.cases(fl, leaf, at):
            if t.end == 'return':
                ck.ok('ssh.files', have or 'mk' in t and t.before('mk', 'c'), fl, 'the directory of a file exists when it is sent', path=t.path())
    fl = ck.F(S + '_fetch_file', opaque=names)
    ck.every('ssh.files', fl, dict(c=call(CP)), lambda t: t.count('c') == 1, 'a file is fetched once')
    for e, b in fl.find(call(CP)):
        leaf = fold.leaves(fl, [('self.scp_cmd', ['S']), ('self.scp_args', ['a']), ('local', 'L'), ('self.location', 'h'), ('remote', 'R'), ('os.path.sep', '/')])
        got = fold.fold(argof(e.a[0], 0, 'args'), leaf)
        ck.ok('ssh.files', got is U or U in got or got == ['S', 'a', 'h:R', 'L'], e, f'a file is fetched by {got}')
    for e in fl.all_effects():
        if e.kind == 'call' and e.a[0].op == 'call' and tm.mentions(e.a[0].a[0], lambda y: y.op == 'glob' and y.a[0].rsplit('.', 1)[-1] in ('ensure_dir_exists', 'makedirs', 'mkdir')):
            m = argof(e.a[0], 1, 'mode')
            v = fold.fold(m, lambda x: U) if m is not None else None
            ck.ok('ssh.mode', v in (None, U) or isinstance(v, int) and v & 0o700 == 0o700, e, f'directories for fetched files are accessible (mode {v if v in (None, U) else oct(v)})')
    HERE = {'client': '/h/me/P/security/c.json', 'engine': '/h/me/P/security/e.json'}
    THERE = {'client': 'R/security/c.json', 'engine': 'R/security/e.json'}
    where = [('self.connection_files', HERE), ('self.remote_connection_files', THERE), ('self.profile_dir', '/h/me/P'), ('self.remote_profile_dir', 'R')]
    pairs = {k: (HERE[k], THERE[k]) for k in HERE}
    for spec, want in (('SSHLauncher.remote_connection_files', THERE), ('SSHControllerLauncher._to_fetch_default', [pairs[k][::-1] for k in HERE]), ('SSHEngineLauncher._to_send_default', [pairs[k] for k in HERE])):
        fl = ck.F(L + spec, opaque=tuple(n for n in names if n != spec.split('.')[-1]))
        leaf = fold.leaves(fl, where[0:1] + where[2:] if want is THERE else where)
        for t in fold.cases(fl, leaf, {}):
            if t.end == 'return' and t.ret is not None:
                got = fold.fold(t.ret, leaf)
                if got is not U and got and (isinstance(got, dict) or all(isinstance(x, (tuple, list)) for x in got)):
                    ck.ok('ssh.files', got == want if want is THERE else sorted(map(tuple, got)) == sorted(want), fl, f'the files are {got} instead of {want}', path=t.path())
    # ends
    fl = ck.F(L + 'ssh_waitpid')
    RUNS, ENDED = "print('__process_running=1__')", "print('__process_running=0__')"
    P = 'psutil.Process(pid).wait(*_, **_)'
    if any(e.kind == 'call' and tm.mentions(e.a[0], lambda y: y.op == 'const' and isinstance(y.a[0], str) and '__process_running=' in y.a[0]) for e in fl.all_effects()):
        ck.ok('ssh.wait', bool(fl.find(call(RUNS))) or not fl.find(call(ENDED)), fl, 'a process that still runs has not ended')
        for t in fl.traces(dict(w=call(P), r=call(RUNS), x=call(ENDED)), exc='none'):
            if t.end == 'return' and 'w' in t:
                ck.ok('ssh.wait', not t.count('r'), fl, 'a process that has ended does not run', path=t.path())
    fl = ck.F(S + 'wait_one', opaque=names)
    for run in (0, 1):
        leaf = lambda x, run=run: (run if _int(x) else str(run)) if x.op in ('item', 'call') and _mentions_const(x, 'process_running') else U  # noqa: E731
        for t in fold.cases(fl, leaf, {}):
            if t.end == 'return':
                ck.ok('ssh.wait', not run, fl, 'a process that still runs has not ended', path=t.path())
    for e in fl.all_effects():
        if e.kind == 'raise' and e.a[0] is not None:
            g = [y for y in tm.subterms(e.a[0]) if y.op == 'glob']
            ck.ok('ssh.wait', any(y.a[0].endswith(('TimeoutError', 'RuntimeError', 'OSError')) for y in g) or not g, e, 'a process that still runs is a TimeoutError')
    ck.ok('ssh.wait', any(e.kind == 'raise' and e.a[0] is not None and tm.mentions(e.a[0], lambda y: y.op == 'glob' and y.a[0].endswith('TimeoutError')) for e in fl.all_effects()), fl, 'a process that still runs is a TimeoutError')
    fl = ck.F(S + 'join', opaque=names)
    for t in fl.traces(dict(w=awaited('_'), d=call('any_of(functools.partial(self.wait_one, *_, **_)(), self.wait_one(*_, **_))'))):
        if t.end == 'return':
            ck.ok('ssh.wait', t.count('w') + t.count('d') >= 1, fl, 'join waits for the process', path=t.path())


def _range(x):
    return x.op == 'call' and x.a[0].op == 'glob' and x.a[0].a[0] == 'range'


def _int(x):
    return x.op == 'call' and x.a[0].op == 'glob' and x.a[0].a[0] == 'int'


def _mentions_const(x, k):
    return tm.mentions(x, lambda y: y is tm.const(k))


def sshset(ck, names):
    S = L + 'SSHEngineSetLauncher.'
    fl = ck.F(S + 'start', opaque=names)
    MK = 'self.launcher_class(*_, **_)'
    EL = f'any_of({MK}, self.launchers[_])'
    ck.every('sshset', fl, dict(note=call('self.notify_start(*_)'), n=store('self.n')), lambda t: t.count('note') == 1 and 'n' in t, 'a set of engines is running when all of them were started')
    for e, b in fl.find(call(MK)):
        hs = enclosing(fl, e.node)
        if not hs:
            continue
        h = next((x for x in hs if x.term is not None and tm.mentions(fl.val(x, x.term), _range)), hs[0])
        ba = dict(mk=is_eff(e), keep=add('self.launchers', '_', MK), on=call(f'{EL}.on_stop(self._notice_engine_stopped)'), go=call(f'{EL}.start(*_, **_)'), note=call('self.notify_start(*_)'))
        for t in fl.body_traces(h, ba, stop=hs):
            if t.end in ('stop', 'return'):
                ck.ok('sshset', t.count('mk') == t.count('keep') == t.count('go') == t.count('on') == 1 and t.before('on', 'go') and t.before('keep', 'go') or not t.count('mk') and t.end == 'return', fl, 'every engine is started once and remembered, and its end noticed', path=t.path())
    for e, b in fl.find(add('self.launchers', '_', MK)):
        k = e.a[1]
        ck.ok('sshset', all(tm.mentions(k, f) for f in (lambda z: z.op == 'elem' and fl.match('elem(self.engines)', z) is not None, lambda z: z.op == 'elem' and tm.mentions(z, lambda y: y.op == 'call' and y.a[0].op == 'glob' and y.a[0].a[0] == 'range'))) or k.op == 'phi' or not any(y.op == 'elem' for y in tm.subterms(k)) and tm.mentions(k, lambda z: z.op == 'phi'), e, 'engines have ids of their own')
    for e, b in fl.find(call(f'{EL}.start(*_, **_)')):
        kw = kwargs(fl, e.a[0])
        pos = e.a[0].a[1]
        ck.ok('sshset', 'hostname' in kw or len(pos) >= 1, e, 'engines are started on their hosts')
    hosts(ck, fl, MK, EL)
    # the configuration is left as it is
    for e in fl.all_effects():
        if e.kind in ('remove', 'add', 'clear') and e.a[0].op != 'alloc':
            ck.ok('sshset.config', not (fl.match('self.engines', e.a[0]) is not None or e.a[0].op == 'item' and fl.match('self.engines', e.a[0].a[0]) is not None), e, 'the configuration of hosts is left as it is for the next start')
    ck.ok('sshset.config', True, fl, 'the configuration of hosts is left as it is for the next start')
    # at most as many as asked for
    mins = [e for e in fl.all_effects() if e.kind == 'call' and e.a[0].op == 'call' and e.a[0].a[0].op == 'glob' and e.a[0].a[0].a[0] == 'min']
    brk = any(isinstance(x, ast.Break) for x in ast.walk(ck.repo.func(S + 'start').node))
    ck.ok('sshset', bool(mins) or brk, fl, 'no more engines are started than were asked for')
    for e in mins:
        args = e.a[0].a[1]
        ok = any(y.op in ('bin', 'binop') or y.op == 'phi' for y in args)
        ck.ok('sshset', ok or brk, e, 'no more engines are started than were asked for')


def hosts(ck, fl, MK, EL):
    """Each host gets what is configured for it."""
    for e, b in fl.find(store('self.n', '_')):
        ck.ok('sshset', fl.match('n', e.a[2]) is None, e, 'a set knows how many engines were started, not how many were asked for')
    count = {y.a[1] if len(y.a) > 1 else None for e, b in fl.find(store('self.n', '_')) for y in [e.a[2]] if y.op == 'phi'}
    for e, b in fl.find(store(f'{EL}.to_send', '_')):
        gs = [g for g, p in fl.guards().get(e.node.id, ()) if any(y.op in ('elem', 'phi') for y in tm.subterms(g))]
        bad = [g for g in gs if not any(y.op == 'elem' for y in tm.subterms(g)) and {y.a[1] if len(y.a) > 1 else None for y in tm.subterms(g) if y.op == 'phi'} & count]
        ck.ok('sshset.send', not (gs and len(bad) == len(gs)), e, 'files are sent to every host, not only to the first')
    for e, b in fl.find(call(MK)):
        for k, v in e.a[0].a[2]:
            if k is not None:
                continue
            ls = layers(fl, v)
            if v.op == 'comp':
                ls = [v] + [e2.a[1] if e2.a[-1] == 'all' else (e2.a[1], e2.a[2]) for e2 in sorted((x for x in fl.all_effects() if x.kind == 'add' and x.a[0] is v), key=lambda x: x.node.line)]
            if ls is None:
                continue
            mine = [i for i, x in enumerate(ls) if not isinstance(x, tuple) and tm.mentions(x, lambda z: fl.match('getattr(self, _)', z) is not None)]
            mine += [i for i, x in enumerate(ls) if isinstance(x, tuple) and x[0] is not None and x[0].op == 'elem' and x[1] is not None and fl.match('getattr(self, _)', x[1]) is not None]
            host = [i for i, x in enumerate(ls) if not isinstance(x, tuple) and i not in mine and _config(fl, x)]
            own = [i for i, x in enumerate(ls) if isinstance(x, tuple) and x[0].op == 'const' and x[0].a[0] in ('parent', 'identifier')]
            ck.ok('sshset.layers', not mine or not host or max(mine) < min(host), e, 'what is configured for a host is above what is configured for all')
            ck.ok('sshset.layers', not own or all(min(own) > i for i in mine + host), e, 'engines have ids of their own')
            keys = {x[0].a[0] for x in ls if isinstance(x, tuple) and x[0].op == 'const'} | {k2 for k2, v2 in e.a[0].a[2] if k2}
            comps = [ls[i] for i in mine if not isinstance(ls[i], tuple) and ls[i].op == 'comp' and len(ls[i].a[3]) == 1]
            for c in comps:
                every = {'location', 'user', 'hostname', 'to_send', 'to_fetch', 'delay', 'ssh_cmd'}
                got = fold.fold(c.a[3][0], lambda x: every if fl.match('any_of(set(_).intersection(_), set(_) & set(_), _.intersection(_), _.keys() & _.keys())', x) is not None else U)
                if got is not U:
                    got = set(got) | keys
                    ck.ok('sshset.traits', {'profile_dir', 'cluster_id', 'delay', 'ssh_cmd'} <= got, e, f'engines get what all engines have in common, not: {sorted({"profile_dir", "cluster_id", "delay", "ssh_cmd"} - got)}')
                    ck.ok('sshset.traits', not got & {'location', 'user', 'hostname', 'to_send', 'to_fetch'}, e, f'engines do not share what is of one host: {sorted(got & every - {"delay", "ssh_cmd"})}')
    # user@host:port
    go = fl.find(call(f'{EL}.start(*_, **_)'))
    for e, b in go:
        hs = enclosing(fl, e.node)
        outer = [x for x in hs if x.term is not None and not tm.mentions(fl.val(x, x.term), _range)]
        if not outer:
            continue
        kw = kwargs(fl, e.a[0])
        pos = e.a[0].a[1]
        vals = {k: (lambda g, k=k, i=i: (kw.get(k) if k in kw else pos[i] if len(pos) > i else None) if g is e or g.kind == 'call' and g.a[0] is e.a[0] else None) for i, k in enumerate(('hostname', 'user', 'port'))}
        for host, want in (('h', ('h', None, None)), ('u@h', ('h', 'u', None)), ('h:22', ('h', None, '22')), ('u@h:22', ('h', 'u', '22'))):
            leaf = lambda x, host=host: host if x.op == 'elem' and fl.match('elem(any_of(self.engines, self.engines.items()))', x) is not None else U  # noqa: E731
            for t in fl.body_traces(outer[0], dict(go=is_eff(e)), world=fold.literal(leaf), values=vals):
                if 'go' not in t:
                    continue
                for k, w in zip(('hostname', 'user', 'port'), want):
                    for v in t.values(k):
                        got = fold.fold(v, leaf) if v is not None else U
                        ck.ok('sshset.host', got is U or got == w or got == (w or ''), e, f'{k} of {host!r} is {got!r} instead of {w!r}', path=t.path())


def _config(fl, x):
    """Made of what is configured for a host."""
    return tm.mentions(x, lambda z: z.op == 'item' and fl.match('self.engines', z.a[0]) is not None) or x.op == 'phi' and any(_config(fl, y) for _, y in fl.phi_ops.get(x, ()) if y.op != 'phi')


def shared(ck):
    """What is configured is not changed in place."""
    mod = ck.repo.modules['ipyparallel.cluster.launcher']
    conf = set()
    for c in mod.tree.body:
        for s in c.body if isinstance(c, ast.ClassDef) else ():
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('List', 'Dict', 'Set') and any(k.arg == 'config' for k in x.keywords) for x in ast.walk(s.value)):
                conf |= {t.id for t in (s.targets if isinstance(s, ast.Assign) else [s.target]) if isinstance(t, ast.Name)}
    conf |= {'program', 'program_args', 'cluster_args'}
    n = 0
    for c in CLASSES:
        cls = ck.repo.cls(L + c)
        for name in ck.names(L + c):
            f = cls.methods.get(name) if hasattr(cls, 'methods') else None
            if f is None:
                continue
            n += 1
            node = f.node
            alias = {t.id for s in ast.walk(node) if isinstance(s, ast.Assign) and isinstance(s.value, ast.Attribute) and ast.unparse(s.value).startswith('self.') and s.value.attr in conf for t in s.targets if isinstance(t, ast.Name)}
            for s in ast.walk(node):
                if isinstance(s, ast.AugAssign):
                    t = s.target
                    hit = isinstance(t, ast.Name) and t.id in alias or isinstance(t, ast.Attribute) and t.attr in conf and ast.unparse(t).startswith('self.')
                    ck.ok('shared', not hit, f, f'{ast.unparse(t)} is changed in place, also where it is shared')
                elif isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr in ('append', 'extend', 'insert', 'remove', 'pop', 'clear', 'update', 'setdefault', 'sort', 'reverse', 'popitem'):
                    o = s.func.value
                    hit = isinstance(o, ast.Name) and o.id in alias or isinstance(o, ast.Attribute) and o.attr in conf and ast.unparse(o) == 'self.' + o.attr
                    ck.ok('shared', not hit, f, f'{ast.unparse(o)} is changed in place, also where it is shared')
    ck.ok('shared', n > 40, ck.repo.func(L + 'BaseLauncher.get_env'), 'there are launchers')


# ---------------------------------------------------------------- batch systems


def batch(ck, names):
    B = L + 'BatchSystemLauncher.'
    fl = ck.F(B + 'start', opaque=names)
    RUN = 'self._run_command(*_, **_)'
    ID = f'self.parse_job_id({RUN})'
    at = dict(w=call('any_of(self.write_batch_script(n), self.write_batch_script(n=n))'), run=call(RUN), id=call(ID), note=call(f'self.notify_start(any_of({ID}, self.job_id))'))
    ck.every('batch.start', fl, at, lambda t: t.count('run') == t.count('note') == t.count('id') == 1 and t.before('w', 'run') and t.before('id', 'note'), 'the script is written, then submitted, once; the job is running then')
    for e, b in fl.find(call(RUN)):
        kw = kwargs(fl, e.a[0])
        x = argof(e.a[0], 0, 'command')
        ck.ok('batch.start', x is not None and fl.match('any_of(self.args, self.find_args())', x) is not None, e, 'the submit command is run')
        env_ok(ck, 'batch.env', fl, kw.get('env'), e, 'jobs are submitted with our environment, and above that of their cluster')
    fl = ck.F(L + 'LSFLauncher.start', opaque=names)
    POP = 'any_of(subprocess.Popen(*_, **_), Popen(*_, **_), subprocess.run(*_, **_), subprocess.check_output(*_, **_), check_output(*_, **_), self._run_command(*_, **_))'
    at = dict(w=at['w'], run=call(POP), id=call('self.parse_job_id(_)'), note=call('self.notify_start(any_of(self.parse_job_id(_), self.job_id))'))
    ck.every('batch.start', fl, at, lambda t: t.count('run') == t.count('note') == t.count('id') == 1 and t.before('w', 'run') and t.before('id', 'note'), 'the script is written, then submitted, once; the job is running then')
    for e, b in fl.find(call(POP)):
        kw = kwargs(fl, e.a[0])
        env_ok(ck, 'batch.env', fl, kw.get('env'), e, 'jobs are submitted with our environment, and above that of their cluster')
        x = argof(e.a[0], 0, 'args')
        if kw.get('shell') is tm.const(True) and x is not None:
            ck.ok('batch.lsf', tm.mentions(x, lambda y: fl.match('any_of(shlex_join(self.submit_command), shlex.join(self.submit_command), _.shlex_join(self.submit_command))', y) is not None) or tm.mentions(x, lambda y: fl.match('_.join(*_)', y) is not None and tm.mentions(y, lambda z: fl.match('self.submit_command', z) is not None)), e, 'all of the submit command is run')
            ck.ok('batch.lsf', tm.mentions(x, lambda y: fl.match('self.batch_file', y) is not None), e, 'the script is submitted')
    fl = ck.F(B + 'parse_job_id', opaque=names)
    M = 'self.job_id_regexp.search(output)'
    G = M + '.group(self.job_id_regexp_group)'
    for m in (True, False):
        leaf = fold.leaves(fl, [(M, fold.Rec() if m else None)])
        for t in fold.cases(fl, leaf, dict(s=store('self.job_id', G), s0=store('self.job_id'))):
            if t.end == 'return':
                ck.ok('batch.id', m and t.count('s') == t.count('s0') == 1 and t.ret is not None and fl.match(f'any_of({G}, self.job_id)', t.ret) is not None, fl, 'the id of a job is taken from the answer to its submission', path=t.path())
            elif t.end == 'raise':
                ck.ok('batch.id', not m, fl, 'a job whose id is known was started', path=t.path())
    fl = ck.F(B + 'stop', opaque=names)
    ck.every('batch.stop', fl, dict(r=call(RUN), n=call('self.notify_stop(*_)')), lambda t: t.count('r') == 1 and t.count('n') == 1 and t.before('r', 'n'), 'a job is deleted, then it has ended')
    for meth, want in (('stop', ['d', 'J']), ('signal', ['s', '9', 'J'])):
        fl = ck.F(B + meth, opaque=names)
        ck.ok('batch.stop', bool(fl.find(call(RUN))), fl, 'the command is run')
        for e, b in fl.find(call(RUN)):
            leaf = fold.leaves(fl, [('self.delete_command', ['d']), ('self.signal_command', ['s']), ('self.job_id', 'J'), ('sig', 9), ('str(sig)', '9')])
            got = fold.fold(argof(e.a[0], 0, 'command'), leaf)
            ck.ok('batch.stop', got is U or U in got or got == want, e, f'the command is {got} instead of {want}')
    fl = ck.F(B + '_run_command', opaque=names)
    CP = 'any_of(subprocess.check_output(command, *_, **_), check_output(command, *_, **_))'
    for e in fl.all_effects():
        if e.kind == 'call' and fl.match(CP, e.a[0]) is not None:
            ck.ok('batch.run', any(k is None for k, v in e.a[0].a[2]), e, 'commands are run with the environment that was given')
    fl = ck.F(B + 'write_batch_script', opaque=names)
    FMT = 'self.formatter.format(*_, **_)'
    at = dict(n=store('self.n', 'n'), env=add('self.context', "'environment_json'", 'json.dumps(self.get_env())'), fmt=call(FMT), file=store('self.batch_template', '_.read()'), dflt=store('self.batch_template', 'self.default_template'), opt=call('self._insert_options_in_script()'), arr=call('self._insert_job_array_in_script()'), w=call(f'_.write({FMT})'))
    ck.every('batch.script', fl, at, lambda t: 'n' in t and 'env' in t and t.count('fmt') == t.count('w') == 1 and t.before('n', 'fmt') and t.before('env', 'fmt'), 'the script knows the number of engines and the environment, and is written')
    for tmpl in ('', 'T'):
        for file in ('', 'F'):
            leaf = fold.leaves(fl, [('self.batch_template', tmpl), ('self.batch_template_file', file)])
            for t in fold.cases(fl, leaf, at):
                if t.end != 'return':
                    continue
                ck.ok('batch.script', bool(t.count('file')) == (not tmpl and bool(file)), fl, f'a template that is configured is used, else its file (template: {tmpl!r}, file: {file!r})', path=t.path())
                ck.ok('batch.script', not tmpl or not t.count('dflt') + t.count('opt') + t.count('arr'), fl, 'a template that is configured is left as it is', path=t.path())
                if not tmpl and not file:
                    ck.ok('batch.script', t.count('dflt') == t.count('opt') == t.count('arr') == 1, fl, 'without a template, the default is used, with all options', path=t.path())
    for e, b in fl.find(call(FMT)):
        for k, v in e.a[0].a[2]:
            if k is None:
                o = order(fl, v, ('self.context', 'self.namespace'))
                ck.ok('batch.script', o is None or 0 <= o[0] < o[1], e, 'what is configured is used in the script, above our own values')


# ---------------------------------------------------------------- connection information


def connection(ck, names):
    fl = ck.F(L + 'ControllerLauncher.get_connection_info', opaque=names)
    at = dict(p=call('self.poll()'), sleep=awaited('asyncio.sleep(*_)'), load=call('any_of(json.load(_), json.loads(_))'), late=lit('time.monotonic() > _'), late2=lit('_ < time.monotonic()'))
    dead = lit('not (self.poll() is None)')
    for t in fl.traces(dict(at, dead=dead), exc='none'):
        if t.end == 'return':
            ck.ok('info', not (t.count('late') + t.count('late2') + t.count('dead')), fl, 'a controller that has ended, or is late, has no connection information', path=t.path())
    rs = [e for e in fl.all_effects() if e.kind == 'raise' and e.a[0] is not None]
    ck.ok('info', any(tm.mentions(e.a[0], lambda y: y.op == 'glob' and y.a[0].endswith('TimeoutError')) for e in rs), fl, 'a controller that does not start in time is a TimeoutError')
    ck.ok('info', any(tm.mentions(e.a[0], lambda y: y.op == 'glob' and y.a[0].endswith('RuntimeError')) for e in rs), fl, 'a controller that has ended is not waited for')
    for code in (0, 1):
        leaf = fold.leaves(fl, [('self.poll()', code), ('inspect.isawaitable(_)', False)])
        for t in fold.cases(fl, leaf, at, exc='none'):
            if t.end == 'return':
                ck.ok('info', 'p' not in t, fl, f'a controller that has ended (exit code {code}) is not waited for', path=t.path())
    for t in fl.traces(dict(at, dead=dead), exc='none'):
        if t.end == 'stop':
            continue
        if 'sleep' in t and t.end == 'return':
            ck.ok('info', 'p' in t, fl, 'a controller that has ended is not waited for', path=t.path())
    ck.ok('info', bool(fl.find(call('any_of(json.load(_), json.loads(_))'))), fl, 'the connection files are loaded')
    for e in fl.all_effects():
        if e.kind == 'call' and e.a[0].op == 'call' and e.a[0].a[0].op == 'glob' and e.a[0].a[0].a[0] == 'any' and e.a[0].a[1] and e.a[0].a[1][0].op == 'comp' and isinstance(e.a[0].a[1][0].a[2], tm.T):
            ck.ok('info', fl.match('any_of(os.path.exists(_), os.path.isfile(_))', e.a[0].a[1][0].a[2]) is None, e, 'all connection files are waited for')
    for g in {g for gs in fl.guards().values() for g, p in gs}:
        for y in tm.subterms(g):
            if y.op == 'bool' and any(fl.match('timeout', z) is not None for z in y.a[1]) and any(fl.match('self.connection_info_timeout', z) is not None for z in y.a[1]):
                ck.ok('info', False, fl, 'no time is a time limit as well')
    for ph, ops in fl.phi_ops.items():
        if any(fl.match('self.connection_info_timeout', y) is not None for _, y in ops) and any(fl.match('timeout', y) is not None for _, y in ops):
            for v in (0, 0.5, -1):
                leaf = fold.leaves(fl, [('timeout', v)])
                vals = dict(p=lambda g, ph=ph: ph if g.kind == 'call' else None)
                for t in fl.traces({}, world=fold.literal(leaf), values=vals, exc='none'):
                    got = [y for y in t.values('p') if y is not None and fl.match('self.connection_info_timeout', y) is not None]
                    ck.ok('info', not got, fl, f'the time limit {v} is used if it is given', path=t.path())
    # which kinds
    fl = ck.F(L + 'BaseLauncher.connection_files', opaque=names)
    for cid, pre in (('', 'ipcontroller'), ('x', 'ipcontroller-x')):
        leaf = fold.leaves(fl, [('self.cluster_id', cid), ('self.profile_dir', 'P')])
        for t in fold.cases(fl, leaf, {}):
            if t.end == 'return' and t.ret is not None:
                got = fold.fold(t.ret, leaf)
                if isinstance(got, dict) and U not in got.values():
                    ck.ok('info', {k: v.rsplit('/', 1)[-1] for k, v in got.items()} == {k: f'{pre}-{k}.json' for k in ('client', 'engine')}, fl, f'the connection files of cluster {cid!r} are {got}', path=t.path())
    fl = ck.F(L + 'SSHLauncher.remote_connection_files', opaque=names)
    ck.ok('info', True, fl, 'there are connection files')
