"""The magics of IPython: %px and friends; and what errors tell."""

from ipa import terms as tm

from . import fold
from .client import leaves
from .common import add, argof, call, caught, is_eff, keyed, lit, prop, store

M = 'client.magics:ParallelMagics'
ARGS = 'any_of(parse_argstring(*_), _.parse_argstring(*_), IPython.core.magic_arguments.parse_argstring(*_))'
RUN = 'self.view.execute(cell, *_, **_)'
U = fold.UNKNOWN


def attempt(p):
    a = call(p)
    a.attempt = True
    return a


@prop('M01', 60)
def m01(ck):
    names = ck.names(M) + ('_asyncify', '_iscoroutinefunction')
    execute(ck, names)
    cell(ck, names)
    config(ck, names)
    result(ck, names)
    autopx(ck, names)
    options(ck)
    register(ck)


# ---------------------------------------------------------------- running a cell


def execute(ck, names):
    fl = ck.F(M + '.parallel_execute', opaque=names)
    runs = [e for e, b in fl.find(call('self.view.execute(*_, **_)'))]
    for e in runs:
        t = e.a[0]
        ck.ok('run', fl.match('cell', argof(t, 0, 'code') or tm.NONE) is not None and (argof(t, 1, 'silent') or tm.const(True)) is tm.const(False), e, 'the code is run as it was given, with its output')
        b = argof(t, 4, 'block')
        ck.ok('run', b is tm.const(False), e, 'code is submitted first and waited for afterwards')
        ck.ok('run', argof(t, 2, 'targets') is None or fl.match('self.view.targets', argof(t, 2, 'targets')) is not None, e, 'code is run on the targets of the view')
    at = dict(
        run=call(RUN), last=store('self.last_result', RUN), last0=store('self.last_result'), save=add('self.shell.user_ns', 'save_name', RUN), save0=add('self.shell.user_ns', '_', '_'),
        get=call(RUN + '.get(*_)'), stream=call(RUN + '.stream_output(*_)'), show=call(RUN + '.display_outputs(*_, **_)'), inter=call(RUN + '.wait_interactive(*_, **_)'), wait=call(RUN + '.wait(*_, **_)'),
        out=call(RUN + '.wait_for_output(*_, **_)'),
    )
    ck.ok('run', bool(runs), fl, 'code is run on the view')

    def world(**kw):
        d = dict(block=True, vblock=False, stream=False, sstream=False, after=2, safter=2, sig=None, ssig='SIGINT', done=True, save=None, verbose=False, ready=True)
        d.update(kw)
        return d, fold.leaves(fl, [
            ('self.view.block', d['vblock']), ('self.stream_output', d['sstream']), ('self.progress_after_seconds', d['safter']), ('self.signal_on_interrupt', d['ssig']), ('self.verbose', d['verbose']),
            (RUN + '.done()', d['done']), (RUN + '._output_ready', d['ready']), ('block', d['block']), ('stream_output', d['stream']), ('progress_after', d['after']), ('signal_on_interrupt', d['sig']), ('save_name', d['save'])])

    def eff(a, b):
        return b if a is None else a

    def normal(**kw):
        d, leaf = world(**kw)
        blk, st = eff(d['block'], d['vblock']), eff(d['stream'], d['sstream'])
        pa = eff(d['after'], d['safter'])
        what = ', '.join(f'{k}={v}' for k, v in kw.items())
        for t in fold.cases(fl, leaf, at, cap=4):
            if t.end != 'return':
                continue
            ok = ck.ok('run', t.count('run') == 1, fl, f'code is run exactly once ({what})', path=t.path())
            ok = ok and ck.ok('last', t.count('last') >= 1 and t.count('last') == t.count('last0') and t.before('run', 'last'), fl, f'the last result is remembered ({what})', path=t.path())
            ok = ok and ck.ok('save', t.count('save') == t.count('save0') and bool(t.count('save')) == bool(d['save']), fl, f'the result is stored under the name that was given ({what})', path=t.path())
            ok = ok and ck.ok('block', t.count('get') == blk, fl, f'the result is waited for exactly if that is asked for ({what})', path=t.path())
            r = [] if t.ret is None else leaves(fl, t.ret)
            ok = ok and ck.ok('block', blk or bool(r) and all(fl.match(RUN, x) is not None for x in r), fl, f'without blocking, the result is returned ({what})', path=t.path())
            ok = ok and ck.ok('block', not blk or all(x is tm.NONE for x in r), fl, f'a result that was shown is not returned as well ({what})', path=t.path())
            ok = ok and ck.ok('block', blk or not t.count('wait') + t.count('inter') + t.count('out') + t.count('show') + t.count('stream'), fl, f'without blocking, nothing is waited for ({what})', path=t.path())
            if blk:
                ok = ok and ck.ok('output', st or 'out' in t and last(t, 'get', 'out') and last(t, 'out', 'show'), fl, f'output is complete, if it is in time, when it is shown ({what})', path=t.path())
                ok = ok and ck.ok('output', t.count('stream') == st and t.count('show') == (not st), fl, f'output is shown once, while it arrives or afterwards ({what})', path=t.path())
                ok = ok and ck.ok('progress', t.count('inter') == (pa >= 0 and not (pa > 0 and d['done'])), fl, f'progress is shown after the time that was asked for ({what})', path=t.path())
                if 'wait' in t and 'inter' in t:
                    ok = ok and ck.ok('progress', t.before('wait', 'inter'), fl, f'progress is shown after the time that was asked for ({what})', path=t.path())
            if not ok:
                return

    for b in (None, True, False):
        for v in (True, False):
            for s in (None, True, False):
                for ss in (True, False):
                    normal(block=b, vblock=v, stream=s, sstream=ss)
    for a in (None, -1, 0, 2):
        for sa in (-1, 0, 2):
            for dn in (True, False):
                normal(after=a, safter=sa, done=dn)
    for n in (None, '', 'x'):
        normal(save=n)
        normal(save=n, block=False)
    # errors and interrupts
    ea = dict(get=attempt(RUN + '.get(*_)'), got=at['get'], late=attempt(RUN + '.wait_for_output(*_, **_)'), out=at['out'], show=attempt(RUN + '.display_outputs(*_, **_)'), send=call('self.view.client.send_signal(*_, **_)'))
    short = [e for e in fl.all_effects() if e.kind == 'raise' and tm.mentions(e.a[0], lambda y: y.op in ('glob', 'attr') and 'AlreadyDisplayed' in str(y.a))]
    ea['short'] = any_effect(short)
    for st in (True, False):
        for ready in (True, False):
            d, leaf = world(stream=st, ready=ready)
            for t in fold.cases(fl, leaf, ea, exc='all', cap=4):
                if 'get' in t and t.end in ('raise', 'exc', 'return'):
                    ck.ok('output.error', st or 'show' in t or t.count('late') > t.count('out') and last(t, 'get', 'late'), fl, 'output is shown also if there was an error', path=t.path())
                    ck.ok('error', 'short' not in t or st and ready, fl, 'errors that were not displayed are raised as they are', path=t.path())
    for s in (None, 'SIGINT', 9, 0):
        for ss in (None, 'SIGTERM'):
            d, leaf = world(sig=s, ssig=ss)
            want = eff(s, ss)
            sent = False
            for t in fold.cases(fl, leaf, dict(ea, c=caught('KeyboardInterrupt')), {'send': lambda e: argof(e.a[0], 0, 'sig') if e.kind == 'call' and fl.match('self.view.client.send_signal(*_, **_)', e.a[0]) is not None else None}, exc='handled'):
                if t.end == 'return' and ('get' in t and 'got' not in t or 'c' in t):
                    ck.ok('interrupt', 'send' in t, fl, 'an error or interrupt is not swallowed', path=t.path())
                if 'send' in t:
                    sent = True
                    ck.ok('interrupt', 'c' in t, fl, 'signals are sent on interrupts only', path=t.path())
                for v in t.values('send'):
                    got = fold.fold(v, leaf) if v is not None else U
                    ck.ok('interrupt', got is U or got == want and want is not None, fl, f'an interrupt sends the signal that was asked for ({want}), not {got}', path=t.path())
            ck.ok('interrupt', sent == (want is not None), fl, f'an interrupt is passed on to the engines if that is asked for ({want})')
    for e, b in fl.find(call('self.view.client.send_signal(*_, **_)')):
        x = argof(e.a[0], 1, 'targets')
        ck.ok('interrupt', x is not None and fl.match('self.view.targets', x) is not None, e, 'the engines that run the code are interrupted')
    for e, b in fl.find(call(RUN + '.display_outputs(*_, **_)')):
        x = argof(e.a[0], 0, 'groupby')
        ck.ok('output', x is not None and fl.match('groupby', x) is not None, e, 'output is grouped as asked')
    px = ck.F(M + '.px', opaque=names)
    for t in px.traces(dict(run=call('self.parallel_execute(line)')), retval=True):
        if t.end == 'return':
            ck.ok('px', t.count('run') == 1 and t.ret is not None and px.match('self.parallel_execute(line)', t.ret) is not None, px, '%px runs the line', path=t.path())


def any_effect(es):
    def a(x, alts, b):
        return {} if x in es else None

    a.desc = 'one of these'
    return a


# ---------------------------------------------------------------- %%px


def cell(ck, names):
    fl = ck.F(M + '.cell_px', opaque=names)
    RUNS = 'self.parallel_execute(*_, **_)'
    for e, b in fl.find(call(RUNS)):
        t = e.a[0]
        for i, (k, p) in enumerate((('cell', 'cell'), ('block', None), ('groupby', ARGS + '.groupby'), ('save_name', ARGS + '.save_name'), ('stream_output', ARGS + '.stream'), ('progress_after', ARGS + '.progress_after_seconds'))):
            x = argof(t, i, k)
            ck.ok('cell', x is not None and (p is None or fl.match(p, x) is not None), e, f'%%px passes on its option for {k}')
    TG = ARGS + '.targets'
    new = f'any_of(self._eval_target_str({TG}), {TG})'
    at = dict(run=attempt(RUNS), ran=call(RUNS), set=store('self.view.targets', new), back=store('self.view.targets', 'self.view.targets'), any=store('self.view.targets'), local=call('self.shell.run_cell(cell, *_)'), local0=call('self.shell.run_cell(*_, **_)'),
              get=call(RUNS + '.get(*_)'), show=call(RUNS + '.display_outputs(*_, **_)'))
    vals = {'blk': lambda e: argof(e.a[0], 1, 'block') if e.kind == 'call' and fl.match(RUNS, e.a[0]) is not None else None,
            'sig': lambda e: argof(e.a[0], 6, 'signal_on_interrupt') if e.kind == 'call' and fl.match(RUNS, e.a[0]) is not None else None}
    for tg in (None, '1'):
        for loc in (None, True):
            for b in (None, True, False):
                for v in (True, False):
                    for sg in (None, '9', 'SIGINT'):
                        leaf = fold.leaves(fl, [('self.view.block', v), ('self.view.targets', U), (TG, tg), (ARGS + '.local', loc), (ARGS + '.block', b), (ARGS + '.signal_on_interrupt', sg), (f'self._eval_signal_str({ARGS}.signal_on_interrupt)', ('signal', sg))])
                        blk = v if b is None else b
                        what = f'targets={tg}, local={loc}, block={b}, of the view {v}'
                        for t in fold.cases(fl, leaf, at, vals, exc='all' if sg is None else 'none'):
                            if 'run' in t:
                                ok = ck.ok('cell.targets', t.count('set') == (tg is not None) and (tg is None or t.before('set', 'run')), fl, f'a cell runs on the targets that were asked for ({what})', path=t.path())
                                ok = ok and ck.ok('cell.targets', (tg is None or 'back' in t) and t.count('any') == t.count('set') + t.count('back') and (tg is None or last(t, 'run', 'back')), fl, f'the targets of the view are restored, whatever happens ({what})', path=t.path())
                                if not ok:
                                    return
                            if t.end != 'return':
                                continue
                            for x in t.values('blk'):
                                got = fold.fold(x, leaf) if x is not None else U
                                ck.ok('cell.block', got is U or got is False if loc else got is U or (v if got is None else got) == blk, fl, f'a cell is waited for as asked ({what})', path=t.path())
                            for x in t.values('sig'):
                                got = fold.fold(x, leaf) if x is not None else U
                                ck.ok('cell.signal', x is not None and (got is U or got == (None if sg is None else ('signal', sg))), fl, f'an interrupt sends the signal that was asked for ({sg})', path=t.path())
                            ok = ck.ok('cell', t.count('run') == t.count('ran') == 1, fl, f'a cell is run exactly once ({what})', path=t.path())
                            ok = ok and ck.ok('cell.local', t.count('local') == t.count('local0') == bool(loc) and (not loc or t.before('run', 'local')), fl, f'a cell is run locally exactly if asked, after it was submitted ({what})', path=t.path())
                            ok = ok and ck.ok('cell.local', t.count('get') == t.count('show') == (bool(loc) and blk) and ('get' not in t or t.before('local', 'get') and t.before('get', 'show')), fl, f'the results of a cell that also runs locally are waited for afterwards ({what})', path=t.path())
                            r = [] if t.ret is None else leaves(fl, t.ret)
                            ok = ok and ck.ok('cell.block', all(x is tm.NONE for x in r) if blk else bool(r) and all(fl.match(RUNS, x) is not None for x in r), fl, f'the result is returned if it was not waited for ({what})', path=t.path())
                            if not ok:
                                return
    # the restored targets were read before they were replaced
    import ast

    f = ck.repo.func(M + '.cell_px')
    targets = [n for n in ast.walk(f.node) if isinstance(n, ast.Assign) and any(ast.unparse(x) == 'self.view.targets' for x in n.targets)]
    reads = {ast.unparse(x): n.lineno for n in ast.walk(f.node) if isinstance(n, ast.Assign) and ast.unparse(n.value) == 'self.view.targets' for x in n.targets}
    for n in targets:
        v = ast.unparse(n.value)
        if v == 'self.view.targets':
            ck.ok('cell.targets', False, f, 'the targets are restored to what they were')
        elif v in reads:
            ck.ok('cell.targets', not any(m is not n and ast.unparse(m.value) not in reads and m.lineno < reads[v] < n.lineno for m in targets), f, 'the targets are restored to what they were')
    # what a target string means
    ev = ck.F(M + '._eval_target_str', opaque=names)
    for ts, want in (('1', 'ts'), ('[0,2]', 'ts'), ('all', 'all'), ('::2', 'ids'), ('1:3', 'ids')):
        leaf = fold.leaves(ev, [('ts', ts)])
        for t in fold.cases(ev, leaf):
            if t.end != 'return' or t.ret is None:
                continue
            for x in leaves(ev, t.ret):
                if fold.fold(x, leaf) is not U:
                    ck.ok('targets', fold.fold(x, leaf) == want, ev, f'targets given as {ts!r} are {fold.fold(x, leaf)!r}', path=t.path())
                elif x.op == 'call' and x.a[0].op == 'glob' and x.a[0].a[0] == 'eval' and x.a[1]:
                    y = x.a[1][0]
                    got = fold.fold(y, leaf)
                    ck.ok('targets', got is U or got == (ts if want == 'ts' else f'self.view.client.ids[{ts}]'), ev, f'targets given as {ts!r} are looked up as {got!r}', path=t.path())
                    ck.ok('targets', want != 'all', ev, "'all' means all", path=t.path())
    es = ck.F(M + '._eval_signal_str', opaque=names)
    for s, want in (('9', 9), ('0', 0), ('SIGINT', 'SIGINT')):
        leaf = fold.leaves(es, [('sig_str.isdigit()', s.isdigit()), ('sig_str.isnumeric()', s.isdigit()), ('sig_str.isdecimal()', s.isdigit()), ('sig_str', s)])
        for t in fold.cases(es, leaf):
            if t.end == 'return' and t.ret is not None:
                got = fold.fold(t.ret, leaf)
                ck.ok('signals', got is U or got == want and type(got) is type(want), es, f'the signal {s!r} is {got!r}', path=t.path())


def last(t, a, b):
    """The last b comes after the last a."""
    xs = [x for x in t.atoms if x in (a, b)]
    return bool(xs) and xs[-1] == b


# ---------------------------------------------------------------- %pxconfig, %pxresult, %autopx


def config(ck, names):
    fl = ck.F(M + '.pxconfig', opaque=names)
    table = (('targets', 'self.view.targets', f'any_of(self._eval_target_str({ARGS}.targets))'), ('block', 'self.view.block', ARGS + '.block'), ('set_verbose', 'self.verbose', ARGS + '.set_verbose'), ('stream', 'self.stream_output', ARGS + '.stream'),
             ('signal_on_interrupt', 'self.signal_on_interrupt', f'self._eval_signal_str({ARGS}.signal_on_interrupt)'), ('progress_after_seconds', 'self.progress_after_seconds', ARGS + '.progress_after_seconds'))
    given = dict(targets='1', block=False, set_verbose=False, stream=False, signal_on_interrupt='0', progress_after_seconds=0)
    at = {}
    for k, tgt, v in table:
        at[k] = store(tgt, v)
        at[k + '0'] = store(tgt)
    for on in [()] + [(k,) for k in given] + [tuple(given)]:
        leaf = fold.leaves(fl, [(f'{ARGS}.{k}', given[k] if k in on else None) for k in given])
        for t in fold.cases(fl, leaf, at, cap=4):
            if t.end == 'return':
                for k in given:
                    if not ck.ok('config', t.count(k) == t.count(k + '0') == (k in on), fl, f'%pxconfig sets {k} exactly if it is given (given: {", ".join(on) or "nothing"})', path=t.path()):
                        return


def result(ck, names):
    fl = ck.F(M + '.result', opaque=names)
    L = 'self.last_result'
    at = dict(get=call(L + '.get(*_)'), show=call(f'{L}.display_outputs(*_, **_)'), save=add('self.shell.user_ns', ARGS + '.save_name', L), err=raised('UsageError'))
    for have in (True, False):
        for name in (None, 'x'):
            leaf = fold.leaves(fl, [(L, fold.Rec() if have else None), (ARGS + '.save_name', name)])
            for t in fold.cases(fl, leaf, at, cap=4):
                if t.end == 'return':
                    ck.ok('result', have and (t.count('save') == 1 if name else (t.count('get'), t.count('show'), t.count('save')) == (1, 1, 0) and t.before('get', 'show')), fl, '%pxresult stores or shows the last result', path=t.path())
                elif t.end == 'raise':
                    ck.ok('result', not have, fl, '%pxresult fails exactly if there is no result', path=t.path())
    for e, b in fl.find(at['show']):
        x = argof(e.a[0], 0, 'groupby')
        ck.ok('result', x is not None and fl.match(ARGS + '.groupby', x) is not None, e, 'output is grouped as asked')
    for f in ck.repo.all_funcs():
        if f.module.name.endswith('client.magics') and f.cls is not None and f.name not in ('parallel_execute', '__init__'):
            g = ck.F(f, opaque=names)
            for e, b in g.find(store('self.last_result')):
                ck.ok('last', g.match('self.view.execute(*_, **_)', e.a[2]) is not None, e, 'the last result is that of what was run last')


def raised(name):
    def a(x, alts, b):
        return {} if x.kind == 'raise' and name in str(x.a[0]) else None

    a.desc = name
    return a


def autopx(ck, names):
    fl = ck.F(M + '.autopx', opaque=names)
    at = dict(on=call('self._enable_autopx()'), off=call('self._disable_autopx()'))
    for cur in (True, False):
        leaf = fold.leaves(fl, [('self._autopx', cur)])
        for t in fold.cases(fl, leaf, at, cap=4):
            if t.end == 'return':
                ck.ok('autopx', (t.count('on'), t.count('off')) == ((0, 1) if cur else (1, 0)), fl, '%autopx toggles', path=t.path())
    en = ck.F(M + '._enable_autopx', opaque=names)
    for orig, sh, px in (('self._original_run_cell', 'self.shell.run_cell', 'self.pxrun_cell'), ('self._original_run_nodes', 'self.shell.run_ast_nodes', 'self.pxrun_nodes')):
        for co in (True, False):
            leaf = fold.leaves(en, [(f'_iscoroutinefunction({sh})', co), (f'_._iscoroutinefunction({sh})', co)])
            at = dict(save=store(orig, sh), save0=store(orig), put=store(sh), flag=store('self._autopx', 'True'))
            for t in fold.cases(en, leaf, at, {'v': lambda e, sh=sh: e.a[2] if e.kind == 'store' and en.match(sh, tm.mk('attr', e.a[0], e.a[1])) is not None else None}):
                if t.end == 'return':
                    ck.ok('autopx.on', t.count('save') == t.count('save0') == t.count('put') == 1 and t.before('save', 'put'), en, 'what is replaced can be restored', path=t.path())
                    ck.ok('autopx.on', 'flag' in t, en, '%autopx is on afterwards', path=t.path())
                    for v in t.values('v'):
                        good = [en.match(f'any_of(_asyncify({px}), _._asyncify({px}))' if co else px, x) is not None and (co or x.op == 'attr') for x in leaves(en, v)] if v is not None else []
                        ck.ok('autopx.on', any(good) if v is not None and v.op == 'phi' else all(good), en, 'cells are run on the engines, awaitable if they were', path=t.path())
    di = ck.F(M + '._disable_autopx', opaque=names)
    at = dict(a=store('self.shell.run_cell', 'self._original_run_cell'), b=store('self.shell.run_ast_nodes', 'self._original_run_nodes'), f=store('self._autopx', 'False'))
    for cur in (True, False):
        leaf = fold.leaves(di, [('self._autopx', cur)])
        for t in fold.cases(di, leaf, at):
            if t.end == 'return':
                ck.ok('autopx.off', all(t.count(k) == cur for k in at), di, 'what was replaced is restored, once', path=t.path())
    rn = ck.F(M + '.pxrun_nodes', opaque=names)
    px = ck.F(M + '.pxrun_cell', opaque=names)
    at = dict(run=attempt('self.parallel_execute(*_, **_)'), ran=call('self.parallel_execute(self._px_cell)'), off=call('self._disable_autopx()'), tb=call('self.shell.showtraceback(*_)'), is_=rx(rn, True), isnt=rx(rn, False))
    for t in rn.traces(at, exc='handled', retval=True):
        if t.end != 'return':
            continue
        if 'is_' in t:
            ck.ok('autopx.run', t.count('off') == 1 and not t.count('run'), rn, '%autopx itself is not run on the engines', path=t.path())
            ck.ok('autopx.run', t.ret is tm.const(False), rn, 'the shell is told that there was no error', path=t.path())
        elif 'isnt' in t:
            ck.ok('autopx.run', t.count('run') == 1 and not t.count('off'), rn, 'a cell is run on the engines, once', path=t.path())
            ck.ok('autopx.error', ('tb' in t) == ('ran' not in t), rn, 'errors of engines are shown', path=t.path())
            ck.ok('autopx.error', t.ret is not None and [x is tm.const('ran' not in t) for x in leaves(rn, t.ret)] == [True], rn, 'the shell is told whether there was an error', path=t.path())
    ck.ok('autopx.run', bool(rn.find(at['ran'])), rn, 'the cell is run')
    at = dict(mem=store('self._px_cell', 'raw_cell'), run=call('self._original_run_cell(raw_cell, *_, **_)'))
    for t in px.traces(at, retval=True):
        if t.end == 'return':
            ck.ok('autopx.run', t.count('mem') == t.count('run') == 1 and t.before('mem', 'run') and t.ret is not None and px.match('self._original_run_cell(raw_cell, *_, **_)', t.ret) is not None, px, 'the shell prepares the cell that is run', path=t.path())


def rx(fl, pol):
    def a(x, alts, b):
        if x.kind == 'lit':
            t, p = x.a[0], x.a[1]
            none = t.op == 'isnone'
            if tm.mentions(t, lambda y: y.op == 'const' and isinstance(y.a[0], str) and 'autopx' in y.a[0]):
                return {} if (p != none) == pol else None
        return None

    a.lit = True
    a.desc = '%autopx'
    return a


# ---------------------------------------------------------------- options


WANT = {
    '--block': ('block', True), '-b': ('block', True), '--noblock': ('block', False), '-a': ('block', False), '--stream': ('stream', True), '--no-stream': ('stream', False), '--verbose': ('set_verbose', True), '--no-verbose': ('set_verbose', False),
    '-r': ('groupby', 'order'), '-e': ('groupby', 'engine'), '--local': ('local', True), '--targets': ('targets', None), '-t': ('targets', None), '--out': ('save_name', None), '-o': ('save_name', None), '--group-outputs': ('groupby', None),
    '--progress-after': ('progress_after_seconds', None), '--signal-on-interrupt': ('signal_on_interrupt', None),
}


def register(ck):
    init = ck.F(M + '.__init__', opaque=ck.names(M))
    want = {'pxresult': 'self.result', 'px': 'self.px', 'pxconfig': 'self.pxconfig', 'autopx': 'self.autopx'}
    kinds = ("any_of(self.magics['line'], line_magics)", "self.magics['cell']")
    for suffix in ('', '_even'):
        leaf = fold.leaves(init, [('suffix', suffix), ('self.suffix', suffix)])
        got = {}

        def seen(e):
            if e.kind == 'add' and len(e.a) > 2 and e.a[1] is not None and e.a[2] is not None:
                k = fold.fold(e.a[1], leaf)
                if isinstance(k, str):
                    got.setdefault(k, []).append((e, e.a[2]))
            if e.kind == 'store' and e.a[1] == 'magics':
                for d in tm.subterms(e.a[2]):
                    if d.op == 'alloc' and d.a[1] == 'dict':
                        for k, v in d.a[2]:
                            if k is not None and isinstance(fold.fold(k, leaf), str):
                                got.setdefault(fold.fold(k, leaf), []).append((e, v))
            return None

        for t in fold.cases(init, leaf, dict(view=store('self.view', 'view')), {'x': seen}):
            if t.end == 'return':
                ck.ok('register', 'view' in t, init, 'the magics run code on their view', path=t.path())
        for k, w in want.items():
            vs = got.get(k + suffix)
            ck.ok('register', bool(vs), init, f'there is a magic %{k}{suffix}')
            for e, v in vs or ():
                ck.ok('register', init.match(f'any_of({w}, self.cell_px)' if k == 'px' else w, v) is not None, e, f'%{k}{suffix} is {w}')
            if k == 'px' and vs:
                ck.ok('register', {init.match('self.cell_px', v) is not None for e, v in vs} == {True, False}, init, f'there are %{k}{suffix} and %%{k}{suffix}')
    ac = ck.F('client.view:DirectView.activate', opaque=ck.names('client.view:DirectView') + ('ParallelMagics',))
    for t in ac.traces(dict(reg=call('_.magics_manager.register(any_of(ParallelMagics(_, self, suffix), ParallelMagics(_, view=self, suffix=suffix), _.ParallelMagics(_, self, suffix)))'), reg0=call('_.magics_manager.register(*_, **_)'), make=call('any_of(ParallelMagics(*_, **_), _.ParallelMagics(*_, **_))')), retval=True):
        if t.end == 'return' and 'make' in t:
            ck.ok('register', t.count('reg') == t.count('reg0') == 1, ac, 'activating a view registers its magics under its suffix', path=t.path())


def options(ck):
    import ast

    seen = {}
    mod = next(m for n, m in ck.repo.modules.items() if n.endswith('client.magics'))
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Call) and (isinstance(n.func, ast.Attribute) and n.func.attr == 'argument' or isinstance(n.func, ast.Name) and n.func.id == 'argument'):
            flags = [a.value for a in n.args if isinstance(a, ast.Constant)]
            kw = {k.arg: k.value.value for k in n.keywords if isinstance(k.value, ast.Constant)}
            for f in flags:
                dest = kw.get('dest') or next((x for x in flags if x.startswith('--')), f).lstrip('-').replace('-', '_')
                seen.setdefault(f, []).append((dest, kw.get('const')))
    if not seen:
        return
    f = ck.repo.func(M + '.cell_px')
    for k, w in WANT.items():
        if k in seen:
            ck.ok('options', all(x == w for x in seen[k]), f, f'the option {k} means {w}, not {seen[k]}')
        else:
            ck.ok('options', False, f, f'there is an option {k}')
