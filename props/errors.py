"""Errors raised elsewhere, coroutines run synchronously, and the web API."""

import ast
import re

from ipa import terms as tm

from . import fold
from .client import leaves
from .cluster import attempt
from .common import add, argof, awaited, call, is_eff, keyed, lit, prop, remove, store
from .launch import kwargs

E = 'error:'
U = fold.UNKNOWN


def _runs(e, alts, env):
    """a coroutine is run by asyncio"""
    if e.kind != 'call' or e.a[0].op != 'call':
        return None
    return {} if _glob(e.a[0].a[0], '_asyncio_run', 'run') else None


def _glob(t, *names):
    return t is not None and t.op == 'glob' and t.a[0].rsplit('.', 1)[-1] in names


# ---------------------------------------------------------------- errors


BASES = {
    'KernelError': 'Exception',
    'TaskAborted': 'KernelError',
    'RemoteError': 'KernelError',
    'CompositeError': 'RemoteError',
    'AlreadyDisplayedError': 'RemoteError',
    'EngineError': 'KernelError',
    'NoEnginesRegistered': 'KernelError',
    'TaskTimeout': 'KernelError',
    'UnmetDependency': 'KernelError',
    'ImpossibleDependency': 'UnmetDependency',
    'DependencyTimeout': 'ImpossibleDependency',
    'InvalidDependency': 'ImpossibleDependency',
    'TaskRejectError': 'KernelError',
}


@prop('R01', 30)
def r01(ck):
    classes(ck)
    wire(ck)
    render(ck)
    composite(ck)
    collect(ck)


def classes(ck):
    """Whoever catches a kind of errors catches all of that kind."""
    defs = {n.name: n for n in ck.repo.modules['ipyparallel.error'].tree.body if isinstance(n, ast.ClassDef)}
    anchor = ck.repo.func(E + 'collect_exceptions')

    def bases(name, seen=()):
        out = {name}
        n = defs.get(name)
        for b in n.bases if n is not None else ():
            x = b.attr if isinstance(b, ast.Attribute) else b.id if isinstance(b, ast.Name) else None
            if x and x not in seen:
                out |= bases(x, (*seen, name))
        return out

    for name, base in BASES.items():
        if name in defs:
            ck.ok('kinds', base in bases(name), anchor, f'a {name} is a {base}')


def wire(ck):
    fl = ck.F(E + 'wrap_exception')
    X = 'sys.exc_info()'
    want = {'status': "'error'", 'ename': f'any_of({X}[0].__name__, type({X}[1]).__name__, {X}[1].__class__.__name__)', 'evalue': f'str({X}[1])', 'engine_info': 'engine_info'}
    for t in fl.traces({}, retval=True):
        if t.end != 'return':
            continue
        ks = {}
        for y in leaves(fl, t.ret):
            for k, vs in keyed(fl, y).items():
                ks.setdefault(k, []).extend(vs)
        for k, p in want.items():
            ck.ok('wrap', k in ks, fl, f'an error is sent with its {k}')
            for v in ks.get(k, ()):
                known = tm.mentions(v, lambda z: fl.match(X, z) is not None) or v.op in ('const', 'param', 'name')
                known = known and not tm.mentions(v, lambda z: z.op == 'slice')
                ck.ok('wrap', fl.match(p, v) is not None or not known, fl, f'an error is sent with its own {k}')
        ck.ok('wrap', 'traceback' in ks, fl, 'an error is sent with its traceback')
        for v in ks.get('traceback', ()):
            ck.ok('wrap', v.op not in ('const',) and not (v.op == 'alloc' and not v.a[2]), fl, 'an error is sent with its traceback')
            ck.ok('wrap', not tm.mentions(v, lambda z: z.op == 'item' and z.a[1].op == 'slice'), fl, 'an error is sent with all of its traceback')
    fl = ck.F(E + 'unwrap_exception')
    for t in fl.traces({}, retval=True):
        if t.end != 'return':
            continue
        r = t.ret
        ck.ok('unwrap', r is not None and r.op == 'call' and _glob(r.a[0], 'RemoteError'), fl, 'an error that was received is a RemoteError')
        if r is None or r.op != 'call':
            continue
        for i, (n, k) in enumerate((('ename', 'ename'), ('evalue', 'evalue'), ('traceback', 'traceback'), ('engine_info', 'engine_info'))):
            v = argof(r, i, n)
            if v is None:
                ck.ok('unwrap', False, fl, f'an error that was received has the {n} that was sent')
                continue
            got = {y.a[0] for y in tm.subterms(v) if y.op == 'const' and y.a[0] in ('ename', 'evalue', 'traceback', 'engine_info')}
            ck.ok('unwrap', got == {k}, fl, f'an error that was received has the {n} that was sent')
    fl = ck.F('client.client:Client._unwrap_exception', opaque=('unwrap_exception',))
    ER = 'any_of(error.unwrap_exception(content), unwrap_exception(content), _.unwrap_exception(content))'
    n = 0
    for t in fl.traces({}, retval=True):
        if t.end == 'return':
            n += 1
            ck.ok('unwrap', t.ret is not None and fl.match(ER, t.ret) is not None, fl, 'an error that was received is passed on')
    ck.ok('unwrap', n > 0, fl, 'an error that was received is passed on')
    for e in fl.all_effects():
        if e.kind == 'add' and e.a[1] is not None and e.a[1].op == 'const' and e.a[1].a[0] == 'engine_id':
            ck.ok('unwrap', e.a[2] is not None and tm.mentions(e.a[2], lambda z: z.op == 'attr' and z.a[1] == '_engines') and tm.mentions(e.a[2], lambda z: z is tm.const('engine_uuid')), e, 'the engine of an error is the one that raised it')


def render(ck):
    """Errors can always be shown, with all that is known about them."""
    fl = ck.F(E + 'RemoteError.__init__')
    for a in ('ename', 'evalue', 'traceback'):
        ck.every('keep', fl, dict(s=store('self.' + a, a)), lambda t: 's' in t, f'the {a} of an error is kept')
    for info in (None, {'engine_id': 3}):
        leaf = fold.leaves(fl, [('engine_info', info)])
        for t in fold.cases(fl, leaf, dict(s=store('self.engine_info', '_v')), {}):
            if t.end == 'return':
                ck.ok('keep', 's' in t, fl, 'the engine of an error is kept', path=t.path())
    for e, b in fl.find(store('self.engine_info', '_v')):
        for info in (None, {}, {'engine_id': 3}):
            got = fold.fold(e.a[2], fold.leaves(fl, [('engine_info', info)])) if len(e.a) > 2 and hasattr(e.a[2], 'op') else U
            if got is not U:
                ck.ok('keep', got == (info or {}), e, f'the engine of an error is {got} instead of {info}')
    F = {'engine_id': 3, 'method': 'apply'}
    fl = ck.F(E + 'RemoteError._get_engine_str')
    for info in ({}, F):
        leaf = fold.leaves(fl, [('engine_info', info), ("engine_info['engine_id']", info.get('engine_id', U)), ("engine_info['method']", info.get('method', U))])
        for t in fold.cases(fl, leaf, {}):
            if t.end == 'return' and t.ret is not None:
                got = fold.fold(t.ret, leaf)
                ck.ok('show', got is U or not info or ('3' in str(got) and 'apply' in str(got)), fl, f'the engine of an error is shown as {got}', path=t.path())
                ck.ok('show', got is U or bool(info) or isinstance(got, str), fl, f'an error without an engine is shown as {got}', path=t.path())
            if t.end == 'return' and not info:
                ck.ok('show', not any(y.op == 'item' and fl.match('engine_info', y.a[0]) is not None for y in tm.subterms(t.ret)), fl, 'an error without an engine can be shown', path=t.path())
    for f in ('RemoteError.__str__', 'RemoteError.__repr__', 'RemoteError.render_traceback'):
        fl = ck.F(E + f, opaque=('_get_engine_str',))
        leaf = fold.leaves(fl, [('self.ename', 'EN'), ('self.evalue', 'EV'), ('self.traceback', 'TB'), ('self._get_engine_str(*_)', 'ES'), ('_._get_engine_str(*_)', 'ES'), ('_get_engine_str(*_)', 'ES'), ('self.engine_info.get(*_)', 3), ('self.engine_info', F), ('self.__class__.__name__', 'RemoteError')])
        for t in fold.cases(fl, leaf, {}):
            if t.end == 'return' and t.ret is not None:
                got = fold.fold(t.ret, leaf)
                if got is U:
                    continue
                if f.endswith('render_traceback'):
                    if any(e.kind in ('add', 'remove') and tm.mentions(t.ret, lambda z, e=e: z is e.a[0]) for e in fl.all_effects()):
                        continue
                    ck.ok('show', list(got)[-1:] == ['TB'] and 'ES' in ''.join(map(str, got)), fl, f'the traceback of an error is {got}', path=t.path())
                else:
                    ck.ok('show', 'EN' in str(got) and 'EV' in str(got), fl, f'an error is shown as {got}', path=t.path())
        if f.endswith('render_traceback'):
            leaf = fold.leaves(fl, [('self.traceback', None), ('self._get_engine_str(*_)', 'ES'), ('_._get_engine_str(*_)', 'ES'), ('_get_engine_str(*_)', 'ES'), ('self.engine_info', {})])
            for t in fold.cases(fl, leaf, {}):
                if t.end == 'return' and t.ret is not None:
                    sp = [y for y in tm.subterms(t.ret) if y.op == 'call' and y.a[0].op == 'attr' and y.a[0].a[1] in ('splitlines', 'split')]
                    for y in sp:
                        ck.ok('show', fold.fold(y.a[0].a[0], leaf) is not None, fl, 'an error without a traceback can be shown', path=t.path())


def composite(ck):
    C = E + 'CompositeError.'
    fl = ck.F(C + '__init__')
    ck.every('many', fl, dict(m=store('self.msg', 'message'), e=store('self.elist', 'any_of(elist, copy(elist))')), lambda t: 'm' in t and 'e' in t, 'all errors are kept')
    for f in ('__str__', 'render_traceback'):
        fl = ck.F(C + f, opaque=('_get_engine_str',))
        n = 0
        for h in fl.order:
            if h.kind != 'loop' or h.term is None:
                continue
            it = fl.val(h, h.term)
            if not tm.mentions(it, lambda z: fl.match('self.elist', z) is not None):
                continue
            n += 1
            ck.ok('many', fl.match('any_of(self.elist, self.elist[:self.tb_limit], islice(self.elist, self.tb_limit), itertools.islice(self.elist, self.tb_limit), enumerate(self.elist[:self.tb_limit]))', it) is not None or it.op not in ('item', 'attr'), fl, 'the first errors are shown')
        for e in fl.all_effects():
            for y in e.a:
                if hasattr(y, 'op') and any(z.op == 'comp' and tm.mentions(z, lambda w: fl.match('self.elist', w) is not None) for z in tm.subterms(y)):
                    n += 1
        ck.ok('many', n > 0, fl, 'all errors are shown')
        # how many more there are
        lim = 4
        for k in (0, 1, 4, 5, 9):
            leaf = fold.leaves(fl, [('len(self.elist)', k), ('self.tb_limit', lim), ('excid', None)])
            seen = []
            for e in fl.all_effects():
                for y in [*e.a, *(o for x in e.a if hasattr(x, 'op') and x.op == 'phi' for _, o in fl.phi_ops.get(x, ()))]:
                    if hasattr(y, 'op'):
                        seen += [(e, z) for z in tm.subterms(y) if z.op == 'fstr' and any('more' in str(p.a[0] if hasattr(p, 'op') and p.op == 'const' else p if isinstance(p, str) else '') for p in z.a[0])]
            for e, z in seen:
                nums = [p for p in z.a[0] if hasattr(p, 'op') and p.op != 'const']
                for p in nums:
                    v = fold.fold(p, leaf)
                    ck.ok('many', v is U or v == k - lim, e, f'{v} more errors instead of {k - lim}')
        # an error without a traceback, or without an engine, can be shown
        for e in fl.all_effects():
            if e.kind == 'call' and e.a[0].op == 'call' and e.a[0].a[0].op == 'attr' and e.a[0].a[0].a[1] == 'splitlines':
                o = e.a[0].a[0].a[0]
                v = fold.fold(o, lambda z: None if z.op == 'item' and z.a[1] is tm.const(2) else U)
                ck.ok('show', v is not None, e, 'an error without a traceback can be shown')
        for x in ast.walk(ck.repo.func(C + f).node):
            if isinstance(x, ast.For) and isinstance(x.target, ast.Tuple) and len(x.target.elts) == 4 and isinstance(x.target.elts[1], ast.Name):
                ev = x.target.elts[1].id
                own = any(isinstance(y, ast.Name) and y.id == ev and isinstance(y.ctx, ast.Store) for s in x.body for y in ast.walk(s))
                bad = any(isinstance(y, ast.BinOp) and isinstance(y.op, ast.Add) and any(isinstance(z, ast.Name) and z.id == ev for z in (y.left, y.right)) for s in x.body for y in ast.walk(s))
                ck.ok('show', own or not bad, fl, 'the value of an error need not be text')
    fl = ck.F(C + 'print_traceback', opaque=('render_traceback',))
    for e, b in fl.find(call('_.render_traceback(*_, **_)')):
        x = argof(e.a[0], 0, 'excid')
        ck.ok('one', x is not None and tm.mentions(x, lambda z: fl.match('excid', z) is not None), e, 'the error that was asked for is printed')
    fl = ck.F(E + 'AlreadyDisplayedError.render_traceback')
    for t in fl.traces({}, retval=True):
        if t.end == 'return':
            ck.ok('show', t.ret is not None and t.ret.op not in ('fstr', 'const') and not (t.ret.op == 'call' and _glob(t.ret.a[0], 'str', 'repr')) and not (t.ret.op == 'call' and t.ret.a[0].op == 'attr' and t.ret.a[0].a[1] in ('join', '__str__')), fl, 'a traceback is a list of lines', path=t.path())
    for f in ('raise_exception',):
        fl = ck.F(C + f)
        n = 0
        for e in fl.all_effects():
            if e.kind != 'raise' or e.a[0] is None or e.a[0].op != 'call':
                continue
            if _glob(e.a[0].a[0], 'RemoteError'):
                n += 1
                P = 'self.elist[excid]'
                for i, name in enumerate(('ename', 'evalue', 'traceback', 'engine_info')):
                    v = argof(e.a[0], i, name)
                    star = any(x.op == 'star' for x in e.a[0].a[1])
                    ck.ok('one', star or v is not None and fl.match(f'{P}[{i}]', v) is not None, e, f'the error that was asked for is raised, with its {name}')
        ck.ok('one', n > 0, fl, 'the error that was asked for is raised')
        ck.ok('one', any(e.kind == 'raise' and e.a[0] is not None and tm.mentions(e.a[0], lambda z: _glob(z, 'IndexError')) for e in fl.all_effects()) or not any(isinstance(x, ast.Try) for x in ast.walk(ck.repo.func(C + f).node)), fl, 'an error that does not exist is an IndexError')
        for t in fl.traces({}):
            ck.ok('one', t.end != 'return', fl, 'an error that was asked for is raised', path=t.path())


def collect(ck):
    fl = ck.F(E + 'collect_exceptions', opaque=('CompositeError', 'RemoteError'))
    # by kind of result
    apps = [e for e in fl.all_effects() if e.kind == 'add' and e.a[0].op == 'alloc' and e.a[0].a[1] == 'list']
    errs = [e for e in fl.all_effects() if e.kind == 'raise' and e.a[0] is not None and e.a[0].op == 'call' and _glob(e.a[0].a[0], 'CompositeError')]
    ck.ok('collect', bool(errs), fl, 'errors are raised')
    lists = {argof(e.a[0], 1, 'elist') for e in errs}
    apps = [e for e in apps if e.a[0] in lists or any(x.op == 'copy' and x.a[0] is e.a[0] for x in lists if x is not None)]
    if not apps:
        return
    heads = [h for h in fl.order if h.kind == 'loop' and any(e.node.id in fl._reach(fl.body_of(h), {h.id}) | {fl.body_of(h).id} for e in apps if fl.body_of(h) is not None)]
    for h in heads[:1]:
        use = [e for e in fl.all_effects() if any(hasattr(x, 'op') and tm.mentions(x, lambda z: fl.match('any_of(rdict_or_list.values(), rdict_or_list.items(), rdict_or_list[_])', z) is not None) for x in e.a)]
        ck.ok('collect', bool(use), fl, 'of a dict of results, the results are looked at')
        for kind, isa in (('Composite', ('CompositeError', 'RemoteError', 'KernelError', 'IPythonError', 'Exception', 'BaseException')), ('Remote', ('RemoteError', 'KernelError', 'IPythonError', 'Exception', 'BaseException')), ('Aborted', ('TaskAborted', 'KernelError', 'IPythonError', 'Exception', 'BaseException')), ('value', ())):
            leaf = _kinds(isa)
            at = {f'a{i}': is_eff(e) for i, e in enumerate(apps)}
            for t in fl.body_traces(h, at, world=fold.literal(leaf)):
                if t.end not in ('stop', 'return'):
                    continue
                got = [e for i, e in enumerate(apps) if t.count(f'a{i}')]
                if kind == 'value':
                    ck.ok('collect', all(e.a[-1] == 'all' and e.a[1].op == 'elem' and e.a[1].a[0].op == 'phi' for e in got), fl, 'a result is not an error', path=t.path())
                    continue
                if kind == 'Composite' and not got and t.end == 'stop' and any(_reach(fl, e.a[1], lambda z: z.op == 'attr' and z.a[1] == 'elist') and fl.loop_of(e.node) is not h for e in apps):
                    continue  # no errors in it
                ok = ck.ok('collect', len(got) == 1 and t.end == 'stop', fl, f'every error is reported once ({kind})', path=t.path())
                if not ok:
                    continue
                e = got[0]
                v = e.a[1]
                if kind == 'Composite':
                    ck.ok('collect', _reach(fl, v, lambda z: z.op == 'attr' and z.a[1] == 'elist') and not tm.mentions(v, lambda z: z.op == 'item' and z.a[1].op == 'slice'), e, 'of an error of many, each is reported', path=t.path())
                elif kind == 'Remote' and v.op == 'tup':
                    names = [x.a[1] if x.op == 'attr' else None for x in v.a[0]]
                    ck.ok('collect', names == ['ename', 'evalue', 'traceback', 'engine_info'], e, f'an error is reported as {names}', path=t.path())
                elif v.op == 'tup':
                    ck.ok('collect', len(v.a[0]) == 4, e, 'an error is reported with all that is known about it', path=t.path())
    ne = dict(r=is_eff(errs[0]))
    for t in fl.traces(dict(ne, **{f'a{i}': is_eff(e) for i, e in enumerate(apps)}), retval=True):
        if t.end == 'return':
            ck.ok('collect', t.ret is not None and fl.match('rdict_or_list', t.ret) is not None, fl, 'results without errors are passed on', path=t.path())
    for k in (0, 1, 3):
        leaf = lambda x, k=k: _len(x, lists, k)  # noqa: E731
        for t in fold.cases(fl, leaf, {}):
            if t.end == 'return':
                ck.ok('collect', k == 0, fl, 'errors are raised', path=t.path())
            elif t.end == 'raise':
                ck.ok('collect', k > 0, fl, 'results without errors are passed on', path=t.path())


def _reach(fl, v, pred, seen=None):
    """A term is made of such a term, on some path."""
    seen = set() if seen is None else seen
    for y in tm.subterms(v):
        if pred(y):
            return True
        if y.op == 'phi' and y not in seen:
            seen.add(y)
            if any(_reach(fl, o, pred, seen) for _, o in fl.phi_ops.get(y, ())):
                return True
    return False


def _len(x, lists, k):
    if x in lists:
        return [0] * k
    if x.op == 'call' and _glob(x.a[0], 'len') and x.a[1] and x.a[1][0] in lists:
        return k
    return U


def _kinds(isa):
    def leaf(x):
        if x.op == 'call' and x.a[0].op == 'glob' and x.a[0].a[0] == 'isinstance' and len(x.a[1]) == 2:
            c = x.a[1][1]
            cs = [c] if c.op == 'glob' else list(c.a[0]) if c.op == 'tup' else []
            if cs and all(y.op == 'glob' for y in cs):
                ns = [y.a[0].rsplit('.', 1)[-1] for y in cs]
                if all(n in BASES or n in ('CompositeError', 'KernelError', 'IPythonError', 'Exception', 'BaseException') for n in ns):
                    return any(n in isa for n in ns)
        return U

    return leaf


# ---------------------------------------------------------------- coroutines


@prop('A01', 15)
def a01(ck):
    names = tuple(ck.names('_async:AsyncFirst'))
    A = '_async:AsyncFirst.'
    fl = ck.F(A + '_in_thread', opaque=names)
    RUN = 'any_of(self._thread_loop.add_callback(*_), self._thread_loop.call_soon_threadsafe(*_), self._thread_loop.add_callback_from_signal(*_))'
    at = dict(go=call(RUN), res=call('_.result(*_)'), th=store('self._async_thread', '_'), start=call('any_of(self._async_thread.start(), _.start())'), up=call('self._loop_started.wait(*_)'))
    for t in fl.traces(dict(at, new=lit('self._async_thread is None')), retval=True):
        if t.end == 'return':
            ck.ok('thread', t.count('go') == 1 and t.before('go', 'res'), fl, 'a coroutine is run once, then its result returned', path=t.path())
            ck.ok('thread', t.ret is not None and fl.match('_.result(*_)', t.ret) is not None, fl, 'a coroutine is run once, then its result returned', path=t.path())
            if 'new' in t:
                ck.ok('thread', t.count('start') == 1 and 'th' in t and t.before('start', 'up') and t.before('up', 'go'), fl, 'the loop runs before a coroutine is sent to it', path=t.path())
            else:
                ck.ok('thread', not t.count('start'), fl, 'there is one thread for coroutines', path=t.path())
    for e, b in fl.find(call('_.result(*_)')):
        ck.ok('thread', not e.a[0].a[1] and not e.a[0].a[2], e, 'a coroutine is waited for until it ends')
    for e, b in fl.find(call('any_of(threading.Thread(*_, **_), Thread(*_, **_), ipyparallel.util._OutputProducingThread(*_, **_))')):
        kw = kwargs(fl, e.a[0])
        ck.ok('thread', kw.get('daemon') is tm.const(True), e, 'the thread does not keep a program from ending')
        tg = argof(e.a[0], 0, 'target') or kw.get('target')
        ck.ok('thread', tg is None or tg.op != 'attr' or fl.match('self._thread_main', tg) is not None, e, 'the thread runs the loop')
    # every end of the coroutine is an end of the future
    f = ck.repo.func(A + '_in_thread')
    n = 0
    for nf in ck.repo.nested_funcs(f):
        fl2 = ck.F(nf)
        sets = dict(ok=call('_.set_result(*_)'), err=call('_.set_exception(*_)'), aw=awaited('_'))
        if not fl2.find(call('_.set_result(*_)')):
            continue
        n += 1
        for t in fl2.traces(sets, exc='none'):
            if t.end == 'return':
                ck.ok('ends', t.count('ok') == 1 and not t.count('err'), fl2, 'the result of a coroutine is passed on', path=t.path())
        for e, b in fl2.find(call('_.set_result(*_)')):
            x = argof(e.a[0], 0, 'result')
            ck.ok('ends', x is not None and (x.op == 'await' or any(g.kind == 'await' and (g.a[0] is x or tm.mentions(x, lambda z: z is g.a[0])) for g in fl2.all_effects())), e, 'the result of a coroutine is passed on')
            args = [z for g in fl2.all_effects() if g.kind == 'call' for z in [g.a[0]] if z.op == 'call' and fl2.match('async_f(*_, **_)', z) is not None]
            for z in args:
                ck.ok('ends', any(y.op == 'star' for y in z.a[1]) and any(k is None for k, v in z.a[2]), e, 'a coroutine is run with all arguments')
        tries = [x for x in ast.walk(nf.node) if isinstance(x, ast.Try)]
        wide = [h for x in tries for h in x.handlers if h.type is None or (isinstance(h.type, ast.Name) and h.type.id == 'BaseException') or (isinstance(h.type, ast.Tuple) and any(isinstance(y, ast.Name) and y.id == 'BaseException' for y in h.type.elts))]
        canc = [h for x in tries for h in x.handlers if h.type is not None and 'CancelledError' in ast.unparse(h.type)]
        fin = [x for x in tries if x.finalbody and 'set_' in ast.unparse(ast.Module(body=x.finalbody, type_ignores=[]))]
        ck.ok('ends', bool(wide or canc or fin), fl2, 'a coroutine that is cancelled ends the call')
        for x in tries:
            for h in x.handlers:
                calls = [y for y in ast.walk(h) if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == 'set_exception']
                helper = [y for y in ast.walk(h) if isinstance(y, ast.Call)]
                ck.ok('ends', bool(calls) or bool(helper), fl2, 'the error of a coroutine is passed on')
    fl = ck.F(A + '_synchronize', opaque=(*names, '_asyncio_run'))
    R = 'any_of(asyncio.get_running_loop(), asyncio.get_event_loop())'
    at = dict(th=call('self._in_thread(*_, **_)'), run=_runs, have=call(R))
    loop = fold.leaves(fl, [(R, fold.Rec(running=True))])
    for t in fold.cases(fl, loop, at, exc='none'):
        if t.end == 'return':
            ck.ok('which', t.count('th') == 1 and not t.count('run'), fl, 'a coroutine is run here if no loop runs here, else in its own thread', path=t.path())
            ck.ok('which', t.ret is not None and t.ret.op == 'call', fl, 'the result of a coroutine is returned', path=t.path())
    ck.ok('which', bool(fl.find(at['run'])), fl, 'a coroutine is run here if no loop runs here')
    ck.ok('which', not fl.find(call('asyncio.get_event_loop()')), fl, 'only loops that run are in the way')
    for e, b in fl.find(call('async_f(*_, **_)')) + fl.find(at['th']):
        ck.ok('which', any(y.op == 'star' for y in e.a[0].a[1]) and any(k is None for k, v in e.a[0].a[2]), e, 'a coroutine is run with all arguments')
    fl = ck.F('_async:_asyncio_run')
    RS = '_.run_sync(*_, **_)'
    closing = bool(fl.find(call('any_of(contextlib.closing(_), closing(_))')))
    for t in fl.traces(dict(c=attempt('_.close()'), r=attempt(RS)), exc='all', retval=True):
        if not closing and t.end in ('return', 'exc', 'raise') and t.count('r') and fl.find(call(RS)):
            ck.ok('which', t.count('c') == 1, fl, 'a loop is closed when the coroutine has ended', path=t.path())
        if t.end == 'return' and fl.find(call(RS)):
            ck.ok('which', t.ret is not None and fl.match(RS, t.ret) is not None, fl, 'the result of a coroutine is returned', path=t.path())
    for e, b in fl.find(call(RS)):
        ck.ok('which', not tm.mentions(e.a[0].a[0], lambda z: z.op == 'call' and (_glob(z.a[0], 'current', 'get_event_loop', 'instance') or z.a[0].op == 'attr' and z.a[0].a[1] in ('current', 'instance'))), e, 'a coroutine has a loop of its own')
        to = argof(e.a[0], 1, 'timeout')
        ck.ok('which', to is None or to is tm.NONE, e, 'a coroutine is waited for until it ends')
    fl = ck.F(A + '__getattr__', opaque=names)
    CO = 'any_of(inspect.iscoroutinefunction(_), asyncio.iscoroutinefunction(_), iscoroutinefunction(_))'
    for s in (True, False):
        for c in (True, False):
            leaf = fold.leaves(fl, [("name.endswith('_sync')", s), (CO, c)])
            for t in fold.cases(fl, leaf, {}):
                if t.end == 'return' and s:
                    ck.ok('names', c, fl, 'only coroutines have a synchronous form', path=t.path())
                    if t.ret is not None and t.ret.op == 'call':
                        p = t.ret
                        ck.ok('names', any(fl.match('self._synchronize', x) is not None for x in p.a[1]) or not _glob(p.a[0], 'partial'), fl, 'the synchronous form of a coroutine runs it', path=t.path())
                        for x in p.a[1][1:]:
                            ns = [y for y in tm.subterms(x) if y.op in ('item', 'call') and tm.mentions(y, lambda z: fl.match('name', z) is not None)]
                            for y in ns:
                                v = fold.fold(y, fold.leaves(fl, [('name', 'stop_engines_sync')]))
                                ck.ok('names', v is U or not isinstance(v, str) or v == 'stop_engines', fl, f'stop_engines_sync runs {v}', path=t.path())
                elif t.end == 'raise' and s:
                    ck.ok('names', not c, fl, 'every coroutine has a synchronous form', path=t.path())


# ---------------------------------------------------------------- web


VERBS = ('get', 'post', 'put', 'patch', 'delete', 'head')


@prop('N01', 20)
def n01(ck):
    H = 'nbextension.handlers:'
    mod = ck.repo.modules['ipyparallel.nbextension.handlers']
    classes = {n.name: n for n in mod.tree.body if isinstance(n, ast.ClassDef)}

    def handler(name, seen=()):
        n = classes.get(name)
        if n is None:
            return name == 'APIHandler' or name.endswith('RequestHandler')
        return any(handler(b.id if isinstance(b, ast.Name) else b.attr, (*seen, name)) for b in n.bases if isinstance(b, (ast.Name, ast.Attribute)) and name not in seen)

    n = 0
    for name, c in classes.items():
        if not handler(name):
            continue
        body = [(x, x.name) for x in c.body if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef))]
        for f, verb in body:
            if verb in VERBS:
                n += 1
                dec = [ast.unparse(d).rsplit('.', 1)[-1] for d in f.decorator_list]
                ck.ok('auth', 'authenticated' in dec, ck.repo.func(f'{H}{name}.{verb}'), f'{name}.{verb} needs authentication')
            if verb == 'prepare' or verb in ('get_current_user', 'check_xsrf_cookie'):
                ck.ok('auth', any(isinstance(x, ast.Attribute) and x.attr == verb and 'super()' in ast.unparse(x) for x in ast.walk(f)), ck.repo.func(f'{H}{name}.{verb}'), f'{name}.{verb} is that of the server')
        for s in c.body:
            if isinstance(s, ast.Assign):
                for x in s.targets:
                    if isinstance(x, ast.Name):
                        ck.ok('auth', x.id not in (*VERBS, 'check_xsrf_cookie', 'current_user', 'allow_unauthenticated') and '_xsrf' not in x.id, ck.repo.func(H + 'load_jupyter_server_extension'), f'{name}.{x.id} is that of the server')
    ck.ok('auth', n > 0, ck.repo.func(H + 'load_jupyter_server_extension'), 'there are requests')
    names = tuple(ck.names(H + 'ClusterHandler', 'cluster_manager'))
    acts = (*names, 'get_cluster')
    A = H + 'ClusterActionHandler.'
    fl = ck.F(A + 'get_cluster')
    G = 'self.cluster_manager.get_cluster(cluster_key)'
    for t in fl.traces({}, retval=True):
        if t.end == 'return':
            ck.ok('which', t.ret is not None and fl.match(G, t.ret) is not None, fl, 'a request is for the cluster that it names', path=t.path())
    for t in fl.traces(dict(e=call('any_of(_.HTTPError(404, *_), HTTPError(404, *_))'), e0=call('any_of(_.HTTPError(*_), HTTPError(*_))')), exc='handled'):
        if t.end == 'raise' and 'e0' in t:
            ck.ok('which', 'e' in t, fl, 'a cluster that does not exist is not found', path=t.path())
    ck.ok('which', bool(fl.find(call('any_of(_.HTTPError(404, *_), HTTPError(404, *_))'))), fl, 'a cluster that does not exist is not found')
    C = 'self.get_cluster(cluster_key)'
    MODEL = f'self.cluster_model(cluster_key, {C})'
    for verb in ('get', 'post'):
        fl = ck.F(A + verb, opaque=acts)
        at = dict(w=call(f'any_of(self.write(any_of(json.dumps({MODEL}), {MODEL})), self.finish(any_of(json.dumps({MODEL}), {MODEL})))'), w0=call('any_of(self.write(*_), self.finish(*_))'))
        ck.every('reply', fl, at, lambda t: t.count('w') == 1, 'the reply is the state of the cluster')
    fl = ck.F(A + 'post', opaque=acts)
    ST = f'{C}.start_cluster(*_, **_)'
    at = dict(st=awaited(ST), w=call('any_of(self.write(*_), self.finish(*_))'))
    ck.every('start', fl, at, lambda t: t.count('st') == 1 and t.before('st', 'w'), 'a cluster is started before that is reported')
    for e, b in fl.find(call(ST)):
        x = argof(e.a[0], 0, 'n')
        ck.ok('start', x is not None and (tm.mentions(x, lambda z: z is tm.const('n'))), e, 'a cluster is started with as many engines as asked for')
        ck.ok('start', x is None or not tm.mentions(x, lambda z: z.op == 'const' and isinstance(z.a[0], int) and not isinstance(z.a[0], bool)), e, 'a cluster is started with as many engines as configured if none are asked for')
    for nn, okay in ((None, True), (0, True), (3, True), ('3', False), ([], False)):
        def leaf(x, nn=nn):
            if x.op == 'cmp' and x.a[0] == 'in' and x.a[1] is tm.const('n'):
                return nn is not None
            if x.op in ('call', 'item', 'get') and tm.mentions(x, lambda z: z is tm.const('n')) and not (x.op == 'call' and x.a[0].op == 'glob'):
                return nn
            return U
        for t in fold.cases(fl, leaf, at):
            if t.end == 'return':
                ck.ok('start', okay, fl, f'a number of engines {nn!r} is refused', path=t.path())
            elif t.end == 'raise':
                ck.ok('start', not okay and not t.count('st'), fl, f'a number of engines {nn!r} is not refused', path=t.path())
    fl = ck.F(A + 'delete', opaque=acts)
    at = dict(st=awaited(f'{C}.stop_cluster()'), rm=call('self.cluster_manager.remove_cluster(cluster_key)'), rm0=call('self.cluster_manager.remove_cluster(*_)'))
    ck.every('stop', fl, at, lambda t: t.count('st') == t.count('rm') == t.count('rm0') == 1 and t.before('st', 'rm'), 'a cluster is stopped, then forgotten')
    for t in fl.traces(dict(at, tr=call(f'{C}.stop_cluster()')), exc='handled'):
        if t.end in ('return', 'raise') and t.count('rm'):
            ck.ok('stop', t.count('st') == 1, fl, 'a cluster that cannot be stopped is not forgotten', path=t.path())
    # the list
    L = H + 'ClusterListHandler.'
    fl = ck.F(L + 'get', opaque=names)
    LD = 'self.cluster_manager.load_clusters(*_, **_)'
    ck.every('list', fl, dict(l=call(LD), w=call('any_of(self.write(*_), self.finish(*_))')), lambda t: t.count('l') == 1 and t.count('w') == 1 and t.before('l', 'w'), 'the clusters there are are listed')
    for e, b in fl.find(call('any_of(self.write(*_), self.finish(*_))')):
        for z in tm.subterms(e.a[0]):
            if z.op == 'comp':
                ck.ok('list', not z.a[4], e, 'all clusters are listed')
            if z.op == 'item' and z.a[1].op == 'slice':
                ck.ok('list', False, e, 'all clusters are listed')
    ms = [e for e, b in fl.find(call('self.cluster_model(*_, **_)'))]
    for e in ms:
        k, v = argof(e.a[0], 0, 'key'), argof(e.a[0], 1, 'cluster')
        ck.ok('list', k is not None and v is not None and k.op == 'elem' and v.op == 'item' and v.a[1] is k, e, 'clusters are listed by their names')
    fl = ck.F(L + 'post', opaque=names)
    NEW = 'self.cluster_manager.new_cluster(*_, **_)'
    NM = f'any_of(json.dumps(self.cluster_model({NEW}[0], {NEW}[1])), self.cluster_model({NEW}[0], {NEW}[1]))'
    at = dict(n=call(NEW), w=call(f'any_of(self.write({NM}), self.finish({NM}))'))
    ck.every('new', fl, at, lambda t: t.count('n') == t.count('w') == 1 and t.before('n', 'w'), 'the reply is the cluster that was created')
    for k, given in (('n', 3), ('cluster_id', 'x'), ('profile', 'p')):
        def leaf(x, k=k, given=given):
            if x.op in ('call', 'item', 'get') and len(x.a) > 1 and tm.mentions(x, lambda z: z is tm.const(k)) and not tm.mentions(x, lambda z: z.op in ('fstr', 'cmp')) and not (x.op == 'call' and x.a[0].op == 'glob'):
                return given
            return U
        rm = remove('_', f"'{k}'")
        ok = [e for e, b in fl.find(rm)]
        for t in fold.cases(fl, leaf, dict(r=rm, n=call(NEW), sep=lit("os.path.sep in _"), d=add('_', "'profile_dir'", '_'))):
            if t.end == 'return' and ok:
                ck.ok('new', not t.count('r') or 'sep' in t or t.count('d') > 0, fl, f'a cluster is created with the {k} that was asked for', path=t.path())
    # the model
    fl = ck.F(H + 'ClusterHandler.cluster_model')
    for t in fl.traces(dict(i=add('_', "'id'", 'key'), f=add('_', "'cluster_file'", 'cluster.cluster_file')), retval=True):
        if t.end == 'return' and fl.find(add('_', "'id'")):
            ck.ok('model', 'i' in t, fl, 'a cluster is listed with its name', path=t.path())
    for e in fl.all_effects():
        if e.kind == 'add' and e.a[1] is tm.const('n') and e.a[2] is not None:
            ck.ok('model', not (e.a[2].op == 'call' and _glob(e.a[2].a[0], 'len')), e, 'all engines are counted')
        if e.kind == 'add' and e.a[1] is tm.const('n') and e.a[2] is not None and e.a[2].op == 'call' and _glob(e.a[2].a[0], 'sum'):
            for z in tm.subterms(e.a[2]):
                if z.op == 'comp':
                    ck.ok('model', not z.a[4], e, 'all engines are counted')
    # registration
    fl = ck.F(H + 'load_jupyter_server_extension')
    ADD = call('_.add_handlers(*_)')
    mgr = 'any_of(ClusterManager(*_, **_), ipyparallel.cluster.ClusterManager(*_, **_), _.ClusterManager(*_, **_))'
    ck.every('load', fl, dict(m=add('_', "'cluster_manager'", mgr), h=ADD), lambda t: t.count('m') == 1 and t.count('h') == 1 and t.before('m', 'h'), 'requests are answered once there is a manager of clusters')
    pats = [(h, a) for v in [mod.globals.get('default_handlers')] if isinstance(v, ast.AST) for a in ast.walk(v) if isinstance(a, ast.Name) and a.id in classes for h in [a.id]]
    if pats:
        ck.ok('load', {'ClusterListHandler', 'ClusterActionHandler'} <= {h for h, _ in pats}, fl, 'all requests are answered')
    env = {}
    for st in mod.tree.body:
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            v = _text(st.value, env)
            if v is not None:
                env[st.targets[0].id] = v
    for st in mod.tree.body:
        for x in ast.walk(st) if isinstance(st, ast.Assign) else ():
            if isinstance(x, ast.Tuple) and len(x.elts) >= 2 and isinstance(x.elts[1], ast.Name) and x.elts[1].id == 'ClusterActionHandler':
                pat = _text(x.elts[0], env)
                if pat is None:
                    continue
                for key in ('default:', 'my-profile:a.b-1', 'a b:1', '%2Fhome%2Fprofile_x:'):
                    try:
                        m = re.fullmatch(pat.rstrip('$'), '/ipyparallel/clusters/' + key)
                    except re.error:
                        break
                    ck.ok('load', m is not None and m.groupdict().get('cluster_key', key) == key, fl, f'the cluster {key} can be named')


def _text(n, env):
    if isinstance(n, ast.Constant) and isinstance(n.value, str):
        return n.value
    if isinstance(n, ast.Name):
        return env.get(n.id)
    if isinstance(n, ast.JoinedStr):
        ps = [_text(v.value if isinstance(v, ast.FormattedValue) else v, env) for v in n.values]
        return None if None in ps else ''.join(ps)
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
        a, b = _text(n.left, env), _text(n.right, env)
        return None if None in (a, b) else a + b
    return None
