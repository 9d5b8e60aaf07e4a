"""Views: what is asked of a view is sent as asked, to the engines it is asked of, and is on record."""

import ast

from ipa import terms as tm
from ipa.flow import Eff
from ipa.terms import pat

from .client import _items, _lit, closures, effect, leaves
from .common import add, argof, call, covers, dict_sources, each, either, enclosing, getitem, is_eff, iter_covers, lit, prop, raises, remove, ret, store  # noqa: F401
from .result import listing, rets

V = 'client.view:'
VM = V + 'View.'
AR = 'ipyparallel.client.asyncresult.AsyncResult'


def passes(cp, get, p):
    """A call matching cp is given a value (found by get) matching p, on the path at hand."""

    def f(e, a, b):
        if e.kind != 'call' or pat(cp).match(e.a[0], a) is None:
            return None
        v = get(e.a[0])
        return None if v is None else pat(p).match(v, a)

    f.desc = f'{cp} given {p}'
    return f


def kw(i, name):
    return lambda c: argof(c, i, name)


def entry_of(fl, name, key):
    """What the dict given as argument `name` has at `key`."""

    def g(c):
        d = argof(c, 99, name)
        if d is None:
            return None
        vs = [v for k, v, it in dict_sources(fl, d) if k is not None and k.op == 'const' and k.a[0] == key]
        return vs[0] if len(vs) == 1 else None

    return g


def flag(ck, rule, fl, cp, get, name, msg, own=None):
    """What is passed is the argument if there is one, else the flag of the view."""
    own = own or f'self.{name}'
    at = dict(given=passes(cp, get, name), own=passes(cp, get, own), isn=lit(f'{name} is None'), nn=lit(f'{name} is not None'), hit=call(cp))
    ts = [t for t in fl.traces(at) if 'hit' in t]
    ck.ok(rule, bool(ts), fl, msg)
    for t in ts:
        if not ck.ok(rule, t.count('given') + t.count('own') == t.count('hit') and ('given' in t) == ('nn' in t) and ('own' in t) == ('isn' in t), fl, msg, path=t.path()):
            break


def unpickled(fl, t):
    return t.a[1][0] if fl.match('ipyparallel.serialize.PrePickled(_)', t) is not None else t


def payload(ck, fl, cp, rule='apply'):
    """The function and its arguments are sent unchanged."""
    for e, b in fl.find(call(cp)):
        c = e.a[0]
        f, args, kws = argof(c, 1, 'f'), argof(c, 2, 'args'), argof(c, 3, 'kwargs')
        ck.ok(rule, f is not None and fl.match('f', unpickled(fl, f)) is not None, e, 'the function is the one to be called')
        for v, name in ((args, 'args'), (kws, 'kwargs')):
            ok = v is not None
            for x in leaves(fl, v) if ok else ():
                if x.op == 'alloc' and not x.a[2] or fl.match(name, x) is not None:
                    continue
                src = dict_sources(fl, x)
                SRC = f'any_of({name}, [], {{}})'
                if x.op == 'comp' and x.a[0] in ('list', 'gen', 'dict') and x.a[4] == 0 and len(x.a[3]) == 1 and len(src) == 1:
                    k, val, its = src[0]
                    it = x.a[3][0]
                    good = iter_covers(fl, it, SRC, True)
                    inner = unpickled(fl, val)
                    good = good and (fl.match('elem(_)', inner) is not None if name == 'args' else k is not None and k.op == 'elem' and (inner.op == 'item' and inner.a[1] is k))
                    ok = ok and good
                elif x.op == 'alloc':
                    ok = ok and bool([v for k, v, it in src])
                    for k, val, it in src:
                        inner = unpickled(fl, val if val is not None else k)
                        ok = ok and (name == 'kwargs' and k.op == 'elem' and inner.op == 'item' and inner.a[1] is k)
                    if name == 'args':
                        ok = listing(fl, x, 'any_of(elem(_), ipyparallel.serialize.PrePickled(elem(_)))', SRC)
                else:
                    ok = False
            ck.ok(rule, ok, e, f'the {name} are those that were given')


def blocks(ck, fl, rule, RES, GET, out=None):
    """The value is returned if it is to be waited for, the pending result otherwise."""
    at = dict(isn=lit('block is None'), nn=lit('block is not None'), g1=lit('block'), g0=lit('not block'), s1=lit('self.block'), s0=lit('not self.block'), get=call(GET))
    if out:
        at['out'] = call(out)
    ts = [t for t in fl.traces(at, retval=True) if t.end == 'return']
    ck.ok(rule, bool(ts), fl, 'something is returned')
    for t in ts:
        yes = 'g1' in t and 'nn' in t or 's1' in t and 'isn' in t
        no = 'g0' in t and 'nn' in t or 's0' in t and 'isn' in t
        if not ck.ok(rule, yes != no and ('get' in t) == yes, fl, 'a result is waited for exactly if the call is to block', path=t.path()):
            return
        if out:
            good = ('out' in t) == yes and fl.match(RES, t.ret) is not None
        else:
            good = fl.match(GET if yes else RES, t.ret) is not None
        if not ck.ok(rule, good, fl, 'a blocking call returns the value, others the pending result', path=t.path()):
            return


def opaque_for(ck, cls, *minus):
    return tuple(sorted((set(ck.names(V + cls)) | set(ck.names(V + 'View')) | set(ck.names('client.client:Client')) | set(ck.fnames('client.remotefunction')) | {'getname', 'AsyncResult', 'PrePickled', 'get', 'wait', 'wait_for_output'}) - set(minus)))


@prop('C04', 60)
def c04(ck):
    decorators(ck)
    flags(ck)
    direct(ck)
    balanced(ck)
    broadcast(ck)
    sending(ck)
    shorthands(ck)
    asking(ck)
    imports(ck)
    functions(ck)


# -- direct views ---------------------------------------------------------


def to_all(ck, fl, rule, cp, fname, label=True):
    T = 'any_of(targets, self.targets)'
    BT = f'self.client._build_targets({T})'
    flag(ck, rule + '.targets', fl, 'self.client._build_targets(_)', kw(0, 'targets'), 'targets', 'it is sent to the targets that were asked for, or those of the view')
    if label:
        flag(ck, rule + '.flags', fl, cp, entry_of(fl, 'metadata', 'label'), 'label', 'requests carry the label that was asked for, or that of the view')
    sends = fl.find(call(cp))
    ck.ok(rule, bool(sends), fl, 'requests are sent')
    for e, b in sends:
        h = fl.loop_of(e.node)
        over = h is not None and covers(fl, h, BT + '[0]', ordered=True)
        ck.ok(rule, over, e, 'each target gets a request')
        idn = argof(e.a[0], 99, 'ident')
        ck.ok(rule, idn is not None and fl.match(f'elem({BT}[0])', idn) is not None, e, 'a request is sent to its target')
        ck.ok(rule, fl.match('self._socket', argof(e.a[0], 0, 'socket')) is not None, e, 'requests are sent on the channel of the view')
        if over:
            for t in fl.body_traces(h, dict(s=is_eff(e))):
                ck.ok(rule, t.end == 'stop' and t.count('s') == 1, e, 'each target gets one request', path=t.path())
    news = fl.find(call(f'{AR}(*_, **_)'))
    ck.ok(rule, bool(news), fl, 'the requests have a result')
    for e, b in news:
        c = e.a[0]
        ch = argof(c, 1, 'children')
        one = [x for x in leaves(fl, ch) if x.op == 'item' and x.a[1] is tm.const(0)]
        many = [x for x in leaves(fl, ch) if x not in one]
        ck.ok(rule, bool(one) and bool(many) and all(listing(fl, x, cp, BT + '[0]') for x in many + [x.a[0] for x in one]), e, 'the result is that of all requests, in order')
        ck.ok(rule, fl.match(BT + '[1]', argof(c, 3, 'targets')) is not None, e, 'the result knows its targets')
        ck.ok(rule, argof(c, 4, 'owner') is tm.const(True), e, 'the result is the owner of what it returns')

    def single(e, a, b):
        if e.kind != 'call' or pat(f'{AR}(*_, **_)').match(e.a[0], a) is None:
            return None
        v = argof(e.a[0], 1, 'children')
        return pat('_[0]').match(v, a) if v is not None else None

    single.desc = 'a single result'
    at = dict(one=single, new=call(f'{AR}(*_, **_)'), isi=lit(f'isinstance({T}, int)'), isl=lit(f'not isinstance({T}, int)'))
    for t in fl.traces(at):
        if 'new' in t and not ck.ok(rule, ('one' in t) == ('isi' in t) and ('isi' in t or 'isl' in t), fl, 'the result is single exactly if a single target was asked for', path=t.path()):
            break


def direct(ck):
    names = opaque_for(ck, 'DirectView')
    fl = ck.F(V + 'DirectView._really_apply', opaque=names)
    SEND = 'self.client.send_apply_request(*_, **_)'
    to_all(ck, fl, 'direct', SEND, 'f')
    flag(ck, 'direct.flags', fl, SEND, kw(5, 'track'), 'track', 'requests are tracked if that was asked for, or by default of the view')
    payload(ck, fl, SEND, 'direct.payload')
    NEW = f'{AR}(*_, **_)'
    blocks(ck, fl, 'direct.block', NEW, NEW + '.get()')
    ex = ck.F(V + 'DirectView.execute', opaque=names)
    SEND = 'self.client.send_execute_request(*_, **_)'
    to_all(ck, ex, 'execute', SEND, None)
    for e, b in ex.find(call(SEND)):
        ck.ok('execute', ex.match('code', argof(e.a[0], 1, 'code')) is not None and ex.match('silent', argof(e.a[0], 2, 'silent')) is not None, e, 'the code is that which was given')
    blocks(ck, ex, 'execute.block', NEW, NEW + '.get()', NEW + '.wait_for_output()')


# -- load-balanced views --------------------------------------------------


def balanced(ck):
    names = opaque_for(ck, 'LoadBalancedView')
    fl = ck.F(V + 'LoadBalancedView._really_apply', opaque=names)
    SEND = 'self.client.send_apply_request(*_, **_)'
    NEW = f'{AR}(*_, **_)'
    for k in ('timeout', 'retries', 'label'):
        flag(ck, 'balanced.flags', fl, SEND, entry_of(fl, 'metadata', k), k, f'a task carries the {k} that was asked for, or that of the view')
    for k in ('after', 'follow'):
        def dep(c, k=k):
            v = entry_of(fl, 'metadata', k)(c)
            return v.a[1][0] if v is not None and fl.match('self._render_dependency(_)', v) is not None else None
        flag(ck, 'balanced.flags', fl, SEND, dep, k, f'a task carries the dependencies ({k}) that were asked for, or those of the view')
    flag(ck, 'balanced.flags', fl, SEND, kw(5, 'track'), 'track', 'tasks are tracked if that was asked for, or by default of the view')
    payload(ck, fl, SEND, 'balanced.payload')
    blocks(ck, fl, 'balanced.block', NEW, NEW + '.get()')
    T = 'any_of(targets, self.targets)'
    BT = f'self.client._build_targets({T})[0]'

    def tg(p):
        def f(e, a, b):
            if e.kind != 'call' or pat(SEND).match(e.a[0], a) is None:
                return None
            v = entry_of(fl, 'metadata', 'targets')(e.a[0])
            if v is None:
                return None
            xs = a(v) if v.op == 'phi' else [v]
            return {} if any(p(x) for x in xs if x.op != 'phi') else None
        f.desc = 'targets'
        return f

    def looped(e, a, b):
        return {} if e.kind == 'done' and fl.match(BT, e.a[0]) is not None else None

    looped.edge, looped.desc = True, 'all targets'
    at = dict(send=call(SEND), none=tg(lambda x: x.op in ('alloc', 'tup') and not _items(x) and not [s for s in dict_sources(fl, x)]), some=tg(lambda x: listing(fl, x, 'elem(_).decode(*_)', BT)),
              lp=looped, isn=lit(f'{T} is None'), nn=lit(f'{T} is not None'), gn=lit('targets is None'), sn=lit('self.targets is None'), snn=lit('self.targets is not None'))
    n = 0
    for t in fl.traces(at):
        if 'send' not in t:
            continue
        n += 1
        no = 'gn' in t and 'sn' in t
        if not ck.ok('balanced.targets', (t.count('none') + t.count('some') == 1 and ('none' in t) == no or t.count('some') == 1 and ('lp' in t) != no), fl, 'a task may run on any engine unless it is restricted to targets', path=t.path()):
            break
    ck.ok('balanced.targets', n > 0, fl, 'tasks are sent')
    ck.every('balanced', fl, dict(s=call(SEND), new=call(NEW)), lambda t: t.end != 'return' or t.count('s') == t.count('new') == 1, 'one task is sent')
    for e, b in fl.find(call(NEW)):
        c = e.a[0]
        ck.ok('balanced', fl.match(SEND, argof(c, 1, 'children')) is not None and argof(c, 4, 'owner') is tm.const(True), e, 'the result is that of the task')
    for e, b in fl.find(call(SEND)):
        ck.ok('balanced', fl.match('self._socket', argof(e.a[0], 0, 'socket')) is not None, e, 'tasks are sent on the channel of the view')
        ck.ok('balanced', argof(e.a[0], 6, 'ident') is None or argof(e.a[0], 6, 'ident') is tm.NONE, e, 'tasks are sent to the scheduler')
    # what a pure scheduler ignores is refused
    pure = lit("self._task_scheme == 'pure'")
    pa = dict(pure=pure, s=call(SEND))
    for k in ('follow', 'after', 'retries', 'targets', 'timeout'):
        pa['n_' + k] = lit(f'not any_of({k}, self.{k})')
    for t in fl.traces(pa):
        if 's' in t and 'pure' in t and not ck.ok('balanced.pure', all('n_' + k in t for k in ('follow', 'after', 'retries', 'targets', 'timeout')), fl, 'flags that the scheduler ignores are refused', path=t.path()):
            break
    # dependencies
    rd = ck.F(V + 'LoadBalancedView._render_dependency', opaque=names)
    is_d, is_a, is_n = (lit('isinstance(dep, ipyparallel.controller.dependency.Dependency)'), lit(f'isinstance(dep, {AR})'), lit('dep is None'))
    for t in rets(rd, dict(d=is_d, a=is_a, n=is_n)):
        k = 'd' if 'd' in t else 'a' if 'a' in t else 'n' if 'n' in t else '-'
        good = {'d': lambda r: rd.match('dep.as_dict()', r) is not None, 'a': lambda r: rd.match('any_of(dep.msg_ids, list(dep.msg_ids))', r) is not None, 'n': lambda r: not _items(r) and r.op in ('alloc', 'tup'),
                '-': lambda r: rd.match('any_of(list(_), _)', r) is not None and tm.mentions(r, lambda x: rd.match('ipyparallel.controller.dependency.Dependency(dep)', x) is not None)}[k](t.ret)
        ck.ok('balanced.dependency', good, rd, 'dependencies are the tasks they name, with their conditions', path=t.path())
    vd = ck.F(V + 'LoadBalancedView._validate_dependency', opaque=names)
    va = dict(bad=_lit(lambda t: t.op == 'truth' and vd.match('isinstance(elem(_), _)', t.a[0]) is not None, False), neq=_lit(lambda t: t.op == 'cmp' and t.a[0] == '!=' and vd.match('set(_) != set(_)', t) is not None), cont=_lit(lambda t: vd.match('isinstance(dep, _)', t.a[0] if t.op == 'truth' else t) is not None))
    for t in rets(vd, va):
        if t.ret.op == 'call' and vd.match('all(_)', t.ret) is not None:
            x = t.ret.a[1][0]
            ck.ok('balanced.validate', x.op == 'comp' and x.a[4] == 0 and vd.match('isinstance(elem(_), _)', x.a[2]) is not None and 'cont' in t, vd, 'only dependencies are valid', path=t.path())
            continue
        ck.ok('balanced.validate', t.ret in (tm.const(True), tm.const(False)) and (t.ret is tm.const(False) or 'bad' not in t) and (t.ret is tm.const(False) or 'cont' in t or _is_none(vd, t)), vd, 'only dependencies are valid', path=t.path())
    ds = ck.F('controller.dependency:Dependency.__init__')
    adds = [e for e in ds.all_effects() if e.kind == 'add' or e.kind == 'call' and ds.match('set.__init__(*_)', e.a[0]) is not None]
    ck.ok('balanced.dependency', bool(adds), ds, 'dependencies are the tasks they name')
    DA = dict(ids=add('_', 'dep'), many=effect('', lambda e: False))
    D = {k: f"any_of({k}, dependencies['{k}'], dependencies.get('{k}', *_))" for k in ('all', 'success', 'failure')}
    ck.every('balanced.dependency', ds, dict(a=store('self.all', D['all']), s=store('self.success', D['success']), f=store('self.failure', D['failure'])), lambda t: t.end != 'return' or t.count('a') == t.count('s') == t.count('f') == 1, 'dependencies keep their conditions')
    ad = ck.F('controller.dependency:Dependency.as_dict')
    for t in rets(ad):
        d = {k.a[0]: v for k, v, it in dict_sources(ad, t.ret) if k is not None and k.op == 'const'}
        want = dict(all='self.all', success='self.success', failure='self.failure', dependencies='any_of(copyof(self), self)')
        ck.ok('balanced.dependency', set(d) >= set(want) and all(ad.match(p, d[k]) is not None for k, p in want.items()), ad, 'dependencies are the tasks they name, with their conditions', path=t.path())
    sf = ck.F(V + 'LoadBalancedView.set_flags', opaque=tuple(n for n in names))
    SUP = either(call('super().set_flags(**kwargs)'), call('ipyparallel.client.view.View.set_flags(self, **kwargs)'))
    for k in ('follow', 'after'):
        at = dict(sup=SUP, has=lit(f"'{k}' in kwargs"), val=lit(f"self._validate_dependency(any_of(kwargs['{k}'], kwargs.get('{k}', *_)))"), bad=lit(f"not self._validate_dependency(_)"))
        ts = sf.traces(at)
        ck.ok('balanced.set', any('val' in t for t in ts) or any(covers(sf, h, '_') for h in sf.order if h.kind == 'loop'), sf, 'dependencies are checked')
        for t in ts:
            ck.ok('balanced.set', t.end == 'raise' or 'bad' not in t and t.count('sup') == 1, sf, 'flags are set if they are valid', path=t.path())
    for e, b in sf.find(SUP):
        for t in sf.traces(dict(bad=lit('not self._validate_dependency(_)'), neg=_lit(lambda x: x.op == 'cmp' and sf.match('_ < 0', x) is not None), sup=SUP)):
            ck.ok('balanced.set', not (t.before('bad', 'sup') or t.before('neg', 'sup')), e, 'invalid flags are refused', path=t.path())


def _is_none(fl, t):
    return True


# -- broadcast views ------------------------------------------------------


def broadcast(ck):
    names = opaque_for(ck, 'BroadcastView')
    T = 'any_of(targets, self.targets)'
    BT = f'self.client._build_targets({T})'
    for meth, send in (('_really_apply', 'send_apply_request'), ('execute', 'send_execute_request')):
        rule = 'broadcast' if meth == '_really_apply' else 'broadcast.execute'
        fl = ck.F(V + 'BroadcastView.' + meth, opaque=names)
        SEND = f'self.client.{send}(*_, **_)'
        flag(ck, rule + '.targets', fl, 'self.client._build_targets(_)', kw(0, 'targets'), 'targets', 'it is sent to the targets that were asked for, or those of the view')
        ck.every(rule, fl, dict(s=call(SEND)), lambda t: t.end != 'return' or t.count('s') == 1, 'one request is sent, for all targets')
        S = 'elem(_)'
        for e, b in fl.find(call(SEND)):
            c = e.a[0]
            ck.ok(rule, fl.match('self._socket', argof(c, 0, 'socket')) is not None, e, 'requests are sent on the channel of the view')
            md = argof(c, 99, 'metadata')
            ok = md is not None and fl.match('self._init_metadata(_)', md) is not None
            pairs = md.a[1][0] if ok else None
            while pairs is not None and pairs.op == 'copy':
                pairs = pairs.a[0]
            if ok and pairs.op == 'call':
                ok = fl.match('zip(_, _)', pairs) is not None and listing(fl, pairs.a[1][0], 'elem(_).decode(*_)', BT + '[0]') and fl.match(BT + '[1]', pairs.a[1][1]) is not None
            elif ok and pairs.op == 'comp':
                ok = pairs.a[4] == 0 and len(pairs.a[3]) == 1 and iter_covers(fl, pairs.a[3][0], BT + '[0]', True) and pairs.a[2].op == 'tup' and len(pairs.a[2].a[0]) == 2
            ck.ok(rule, ok, e, 'a request names all of its targets, in order')
            hook = argof(c, 99, 'message_future_hook')
            ck.ok(rule, hook is not None, e, 'the request has a result')
            for f, up in closures(ck, fl, rule, [hook] if hook is not None else [], names):
                mk = f.find(call('self._make_async_result(*_, **_)'))
                ck.ok(rule, len(mk) == 1, f, 'the request has a result')
                for e2, b2 in mk:
                    c2 = e2.a[0]
                    ids = argof(c2, 1, 's_idents')
                    tg = argof(c2, 99, 'targets')
                    ck.ok(rule, f.match(f.func.params[0] if hasattr(f.func, 'params') else 'message_future', argof(c2, 0, 'message_future')) is not None and ids is not None and listing(fl, up(ids), 'elem(_).decode(*_)', BT + '[0]') and tg is not None and fl.match(BT + '[1]', up(tg)) is not None, e2,
                          'the result is that of all targets, in order')
        if meth == '_really_apply':
            flag(ck, rule + '.flags', fl, SEND, kw(5, 'track'), 'track', 'requests are tracked if that was asked for, or by default of the view')
            payload(ck, fl, SEND, rule + '.payload')
        else:
            for e, b in fl.find(call(SEND)):
                ck.ok(rule, fl.match('code', argof(e.a[0], 1, 'code')) is not None and fl.match('silent', argof(e.a[0], 2, 'silent')) is not None, e, 'the code is that which was given')
    im = ck.F(V + 'BroadcastView._init_metadata', opaque=names)
    for t in rets(im):
        d = {k.a[0]: v for k, v, it in dict_sources(im, t.ret) if k is not None and k.op == 'const'}
        want = dict(targets='target_tuples', is_broadcast='True', is_coalescing='self.is_coalescing', label='self.label')
        ck.ok('broadcast.metadata', all(k in d and im.match(p, d[k]) is not None for k, p in want.items()), im, 'a request names its targets, and how it is to be answered', path=t.path())
    ma = ck.F(V + 'BroadcastView._make_async_result', opaque=names)
    NEW = f'{AR}(*_, **_)'
    PART = 'self.client.create_message_futures(*_, **_)[0]'
    CO, NC = lit('self.is_coalescing'), lit('not self.is_coalescing')
    for e, b in ma.find(call(NEW)):
        c = e.a[0]
        ch = leaves(ma, argof(c, 1, 'children'))
        whole = [x for x in ch if ma.match('message_future', x) is not None]
        ck.ok('broadcast.result', len(whole) >= 1 and all(listing(ma, x, PART, 's_idents') for x in ch if x not in whole) and len(ch) > len(whole), e, 'the result is that of all targets, in order')
        ck.ok('broadcast.result', argof(c, 4, 'owner') is tm.const(True), e, 'the result is the owner of what it returns')

    def parts(e, a, b):
        if e.kind != 'call' or pat(NEW).match(e.a[0], a) is None:
            return None
        xs = [x for x in (a(argof(e.a[0], 1, 'children')) if argof(e.a[0], 1, 'children').op == 'phi' else [argof(e.a[0], 1, 'children')])]
        return {} if any(x.op in ('alloc', 'comp') for x in xs) else None

    parts.desc = 'parts'
    for t in ma.traces(dict(co=CO, nc=NC, parts=parts, new=call(NEW))):
        if 'new' in t and not ck.ok('broadcast.result', ('parts' in t) == ('nc' in t) and ('co' in t or 'nc' in t), ma, 'replies are combined exactly if that was asked for', path=t.path()):
            break
    # what cannot be combined
    nc = ck.F(V + '_not_coalescing')
    saved = lit('_')
    at = dict(off=store('self.is_coalescing', 'False'), back=store('self.is_coalescing', 'self.is_coalescing'), run=call('method(self, *args, **kwargs)'), any=store('self.is_coalescing'))
    for t in nc.traces(at, exc='all'):
        if 'run' in t or 'off' in t:
            if not ck.ok('broadcast.restore', t.atoms[-1] == 'any' and 'back' in t or t.end == 'raise' and 'off' not in t, nc, 'how replies are combined is as before when a call ends, even with an error', path=t.path()):
                break
    for m in ('execute', 'map', 'scatter', 'gather'):
        ck.ok('broadcast.whole', _decorated(ck, V + 'BroadcastView', m, '_not_coalescing'), nc, f'replies to {m} are not combined')


def _decorated(ck, cls, name, deco):
    """Is the method wrapped, by decoration or by assignment?"""
    c = ck.repo.cls(cls)
    for n in c.node.body:
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == name:
            return any(isinstance(d, ast.Name) and d.id == deco or isinstance(d, ast.Attribute) and d.attr == deco for d in n.decorator_list)
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
            return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == deco for x in ast.walk(n.value))
    return False


# -- on record ------------------------------------------------------------


def decorators(ck):
    fl = ck.F(V + 'save_ids')
    calls = fl.find(call('f(self, *args, **kwargs)'))
    ck.ok('record', bool(calls), fl, 'calls are made')
    NEWIDS = 'self.client.history[_:]'
    hist = [e for e in fl.all_effects() if e.kind == 'add' and fl.match('self.history', e.a[0]) is not None]
    outs = [e for e in fl.all_effects() if e.kind in ('add', 'store') and (fl.match('self.outstanding', e.a[0]) is not None)]
    ck.ok('record', bool(hist) and bool(outs), fl, 'requests of a view are on record')
    # either all at once, or one by one
    one = [e for e in outs if e.kind == 'add' and e.a[1].op == 'elem' and e.a[2] is None]
    for e in one:
        h = fl.loop_of(e.node)
        if ck.ok('record', h is not None and covers(fl, h, NEWIDS), e, 'all requests of a call are outstanding'):
            for t in fl.body_traces(h, dict(a=is_eff(e))):
                ck.ok('record', t.end == 'stop' and 'a' in t, e, 'all requests of a call are outstanding', path=t.path())
    heads = [fl.loop_of(e.node) for e in one]

    def done(e, a, b):
        return {} if e.kind == 'done' and e.node in heads else None

    done.edge, done.desc = True, 'the end of the loop'
    for e, b in calls:
        for s, lab in e.node.succ:
            for t in fl.traces(dict(o=effect('', lambda e: e in outs and e not in one), d=done), start=s, exc='handled'):
                ck.ok('record', 'o' in t or 'd' in t, fl, 'requests of a view are outstanding, even if a call ends with an error', path=t.path())
    # a request that a nested call recorded is not recorded again
    is_new = _lit(lambda t: t.op == 'cmp' and t.a[0] == 'in' and t.a[1].op == 'elem' and tm.mentions(t.a[2], lambda x: fl.match('self.history', x) is not None), False)
    for e in hist:
        if e.a[1].op == 'elem' and e.a[2] is None and fl.loop_of(e.node) is not None:
            ck.paths_guard('record', fl, is_eff(e), dict(n=is_new), 'nested calls do not record requests twice', exc='all')
        else:
            src = [x for x in (e.a[1], e.a[2]) if isinstance(x, tm.T)]
            ck.ok('record', any(tm.mentions(x, lambda y: y.op == 'comp' and y.a[4] > 0) for x in src) and any(is_new(Eff('lit', l, None), fl.alts, {}) is not None for ls in fl._elits.values() for l in ls), e, 'nested calls do not record requests twice')
    for e in outs + hist:
        x = e.a[1]
        src = x
        while src.op in ('elem', 'copy') or src.op == 'comp':
            src = src.a[0] if src.op != 'comp' else src.a[3][0]
        ck.ok('record', any(fl.match(NEWIDS, y) is not None for y in leaves(fl, src)), e, 'the requests of a call are those that were added to the history of the client by it')
    for H in ('self.client.history', 'self.history'):
        cuts = {y for x in fl.all_effects() for a in x.a if isinstance(a, tm.T) for y in tm.subterms(a) if fl.match(f'{H}[_:]', y) is not None}
        for y in cuts:
            ck.ok('record', all(fl.match(f'any_of(0, len({H}))', z) is not None for z in leaves(fl, y.a[1].a[0])), fl, f'what a call added to {H} is what was not there before')
    for e, b in fl.find(effect('', lambda e: e.kind == 'call' and fl.match('len(self.client.history)', e.a[0]) is not None)):
        ck.ok('record', any(e.node in _before(fl, r.node) for r, _ in calls), e, 'what was there before is known before the call')
    for t in rets(fl):
        ck.ok('record', fl.match('f(self, *args, **kwargs)', t.ret) is not None, fl, 'the value of a call is returned', path=t.path())
    sr = ck.F(V + 'sync_results', opaque=('_sync_results',))
    for t in rets(sr):
        ck.ok('record.sync', sr.match('f(self, *args, **kwargs)', t.ret) is not None, sr, 'the value of a call is returned', path=t.path())
    sa = dict(on=store('self._in_sync_results', 'True'), off=store('self._in_sync_results', 'False'), run=call('f(self, *args, **kwargs)'), sync=call('self._sync_results()'), nested=lit('self._in_sync_results'))
    for t in sr.traces(sa, exc='all'):
        if not ck.ok('record.sync', 'nested' in t or 'on' not in t or 'off' in t, sr, 'calls are not taken for nested ones once a call ended with an error', path=t.path()):
            break
        if t.end == 'return' and not ck.ok('record.sync', t.count('run') == 1 and ('nested' in t or 'sync' in t and t.before('run', 'sync')), sr, 'each call runs once, and what was finished by then is no longer outstanding', path=t.path()):
            break
    sy = ck.F(VM + '_sync_results')
    for e, b in sy.find(store('self.outstanding')):
        v = e.a[2]
        D = 'any_of(self.outstanding.difference(self.client.outstanding), self.outstanding - self.client.outstanding)'
        C = f'any_of({D}, self.outstanding.intersection({D}), self.outstanding & {D})'
        ok = sy.match(f'any_of(self.outstanding.difference({C}), self.outstanding - {C}, self.outstanding.intersection(self.client.outstanding), self.outstanding & self.client.outstanding)', v) is not None
        ck.ok('record.sync', ok, e, 'what is outstanding is what the client waits for')
    # every way to submit is on record
    for cls, m in (('DirectView', '_really_apply'), ('DirectView', 'execute'), ('LoadBalancedView', '_really_apply'), ('BroadcastView', '_really_apply'), ('BroadcastView', 'execute')):
        for d in ('save_ids', 'sync_results'):
            ck.ok('record.all', _decorated(ck, V + cls, m, d), ck.repo.method(ck.repo.cls(V + cls), m), f'requests of {cls}.{m} are on record')
    for m in ('spin', 'wait'):
        ck.ok('record.all', _decorated(ck, V + 'View', m, 'sync_results'), ck.repo.func(VM + m), f'{m} updates what is outstanding')


def _before(fl, node):
    out, todo = set(), [node]
    preds = {}
    for n in fl.order:
        for s, lab in n.succ:
            preds.setdefault(s.id, []).append(n)
    while todo:
        n = todo.pop()
        for p in preds.get(n.id, ()):
            if p not in out:
                out.add(p)
                todo.append(p)
    return out


# -- flags ----------------------------------------------------------------


def flags(ck):
    fl = ck.F(VM + 'set_flags')
    SET = effect('set', lambda e: e.kind == 'call' and fl.match('setattr(self, elem(kwargs), kwargs[elem(kwargs)])', e.a[0]) is not None or e.kind == 'store' and False)
    KNOWN, UNKNOWN = lit('elem(kwargs) in self._flag_names'), lit('elem(kwargs) not in self._flag_names')
    hits = fl.find(SET)
    ck.ok('flags.set', bool(hits), fl, 'flags are set')
    for e, b in hits:
        h = fl.loop_of(e.node)
        ck.ok('flags.set', h is not None and covers(fl, h, 'kwargs'), e, 'all flags are set')
        for t in fl.body_traces(h, dict(k=KNOWN, u=UNKNOWN, s=SET)) if h is not None else ():
            ck.ok('flags.set', t.end == 'raise' or t.end == 'stop' and 's' in t, e, 'a flag is set, or refused', path=t.path())
        ck.paths_guard('flags.set', fl, SET, dict(k=KNOWN), 'only flags are set')
    for t in rets(fl):
        ck.ok('flags.set', fl.match('self', t.ret) is not None, fl, 'the view is returned', path=t.path())
    tf = ck.F(VM + 'temp_flags', opaque=('set_flags',))
    ys = [e for e in tf.all_effects() if e.kind == 'yield']
    ck.ok('flags.temp', bool(ys), tf, 'flags can be set for a while')
    SETS = tf.find(call('self.set_flags(**_)'))
    new = [e for e, b in SETS if any(k in (None, '**') and tf.match('kwargs', v) is not None for k, v in e.a[0].a[2])]
    old = [e for e, b in SETS if e not in new]
    ck.ok('flags.temp', bool(new) and bool(old), tf, 'flags are set, then restored')
    at = dict(new=effect('', lambda e: e in new), old=effect('', lambda e: e in old), y=effect('', lambda e: e.kind == 'yield'))
    for f in at.values():
        f.attempt = True
    for t in tf.traces(at, exc='all'):
        if 'new' in t and not ck.ok('flags.temp', 'old' in t and t.atoms[-1] == 'old', tf, 'flags are restored, even after an error, of which setting them may be one', path=t.path()):
            break
        if t.end == 'return' and not ck.ok('flags.temp', t.before('new', 'y'), tf, 'flags are set for the block', path=t.path()):
            break
    for e in old:
        d = next((v for k, v in e.a[0].a[2] if k in (None, '**')), None)
        srcs = dict_sources(tf, d) if d is not None else []
        ok = bool(srcs)
        for k, v, it in srcs:
            ok = ok and k is not None and tf.match('elem(self._flag_names)', k) is not None and tf.match('getattr(self, elem(self._flag_names))', v) is not None
        ck.ok('flags.temp', ok, e, 'all flags are as before')
        for x in [x for x in tf.all_effects() if x.kind == 'add' and tf.match('elem(self._flag_names)', x.a[1]) is not None]:
            h = tf.loop_of(x.node)
            ck.ok('flags.temp', h is None or covers(tf, h, 'self._flag_names') and all(t.end != 'stop' or 'a' in t for t in tf.body_traces(h, dict(a=is_eff(x)))), x, 'all flags are as before')
    # the names of flags are those of attributes
    for cls in ('View', 'LoadBalancedView'):
        c = ck.repo.cls(V + cls)
        names = attrs = None
        have = set()
        for k in [c] + [b for b in (ck.repo.cls(V + 'View'),)]:
            for n in k.node.body:
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            have.add(t.id)
                            if t.id == '_flag_names' and k is c:
                                names = [x.value for x in ast.walk(n.value) if isinstance(x, ast.Constant) and isinstance(x.value, str)]
        want = {'targets', 'block', 'track', 'label'} | ({'follow', 'after', 'timeout', 'retries'} if cls == 'LoadBalancedView' else set())
        ck.ok('flags.names', names is not None and set(names) >= want and set(names) <= have, ck.repo.func(VM + 'set_flags'), f'all flags of {cls} can be set')


# -- shorthands -----------------------------------------------------------


def asked_for(ck, spec, cp, args, names):
    fl = ck.F(spec, opaque=names)
    for a in args:
        flag(ck, 'short.flags', fl, cp, kw(99, a), a, f'the {a} are those that were asked for, or those of the view')
    for t in rets(fl):
        ck.ok('short', fl.match(cp, t.ret) is not None, fl, 'what was asked for is done', path=t.path())


def shorthands(ck):
    DV = V + 'DirectView.'
    names = opaque_for(ck, 'DirectView')

    def returns(spec, pattern, msg, where=None, opaque=names):
        fl = ck.F(spec, opaque=opaque)
        ts = rets(fl)
        ck.ok('short', bool(ts), fl, msg)
        for t in ts:
            ck.ok('short', fl.match(pattern, t.ret) is not None, fl, msg, path=t.path())
        return fl

    F = 'any_of(f, __ipp_f, _View__ipp_f)'
    for m, extra in (('apply', ''), ('apply_async', ', False'), ('apply_sync', ', True')):
        returns(VM + m, f'any_of(self._really_apply({F}, args, kwargs{extra}), self._really_apply({F}, args, kwargs{extra.replace(", ", ", block=")}))', f'{m} calls the function with the arguments')
    for m, v in (('map_async', 'False'), ('map_sync', 'True')):
        fl = ck.F(VM + m, opaque=names)
        for t in rets(fl, dict(b=add('kwargs', "'block'", v), r=call('self.map(f, *sequences, **_)'))):
            direct_kw = t.ret.op == 'call' and any(k == 'block' and x is tm.const(v == 'True') for k, x in t.ret.a[2])
            ck.ok('short', fl.match('self.map(f, *sequences, **_)', t.ret) is not None and ('b' in t and t.before('b', 'r') or direct_kw), fl, f'{m} maps the function over the sequences', path=t.path())
    # defaults of the view
    for spec, cp, args in ((DV + 'push', 'self._really_apply(*_, **_)', ('block', 'track', 'targets')), (DV + 'pull', 'self._really_apply(*_, **_)', ('block', 'targets')), (DV + 'clear', 'self.client.clear(*_, **_)', ('targets', 'block'))):
        asked_for(ck, spec, cp, args, names)
    fl = ck.F(DV + 'push', opaque=names)
    for e, b in fl.find(call('self._really_apply(*_, **_)')):
        ck.ok('short', fl.match('ipyparallel.util._push', argof(e.a[0], 0, 'f')) is not None and fl.match('ns', argof(e.a[0], 2, 'kwargs')) is not None, e, 'the namespace is pushed')
    fl = ck.F(DV + 'pull', opaque=names)
    for e, b in fl.find(call('self._really_apply(*_, **_)')):
        a = argof(e.a[0], 1, 'args')
        ck.ok('short', fl.match('ipyparallel.util._pull', argof(e.a[0], 0, 'f')) is not None and a is not None and fl.match('any_of((names,), [names])', a) is not None and all(fl.match('names', x) is not None for y in (a.a[0] if a.op == 'tup' else a.a[2]) for x in leaves(fl, y)), e, 'the names are pulled')
    returns(DV + 'get', 'self.pull(key_s, block=True)', 'getting is pulling')
    returns(DV + '__getitem__', 'any_of(self.get(key), self.pull(key, block=True))', 'items of a view are those of its engines')
    up = ck.F(DV + 'update', opaque=names)
    for t in rets(up):
        ok = up.match('self.push(*_, **_)', t.ret) is not None and up.match('ns', argof(t.ret, 0, 'ns')) is not None
        for i, k, p in ((1, 'targets', 'any_of(None, self.targets)'), (2, 'block', 'any_of(None, self.block)'), (3, 'track', 'any_of(None, self.track)')):
            x = argof(t.ret, i, k) if ok else None
            ok = ok and (x is None or up.match(p, x) is not None)
        ck.ok('short', ok, up, 'updating is pushing', path=t.path())
    for k in ('dill', 'cloudpickle', 'pickle'):
        f = ck.F(DV + 'use_' + k, opaque=tuple(names) + ('use_' + k,))
        U = f'ipyparallel.serialize.use_{k}'
        ck.every('short', f, dict(u=either(call(U + '()'), call(f'_.use_{k}()'))), lambda t: t.end != 'return' or 'u' in t, f'{k} is used here, too')
        for t in rets(f):
            ck.ok('short', f.match(f'any_of(self.apply(_), self.apply_sync(_), self.apply_async(_))', t.ret) is not None and str(t.ret.a[1][0]).endswith('use_' + k), f, f'{k} is used on the engines', path=t.path())
    si = ck.F(DV + '__setitem__', opaque=names)
    for e, b in si.find(either(call('self.update(_)'), call('self.push(_, **_)'))):
        d = [(k, v) for k, v, it in dict_sources(si, e.a[0].a[1][0])]
        ck.ok('short', len(d) == 1 and si.match('key', d[0][0]) is not None and si.match('value', d[0][1]) is not None, e, 'items of a view are those of its engines')
    ck.every('short', si, dict(u=either(call('self.update(_)'), call('self.push(_, **_)'))), lambda t: t.count('u') == 1, 'items of a view are those of its engines')
    rn = ck.F(DV + 'run', opaque=names)
    for t in rets(rn):
        c = t.ret
        ok = rn.match('self.execute(*_, **_)', c) is not None
        ck.ok('short', ok and tm.mentions(argof(c, 0, 'code'), lambda x: x.op == 'call' and x.a[0].op == 'attr' and x.a[0].a[1] == 'read') and all(argof(c, 99, k) is not None and rn.match(k, argof(c, 99, k)) is not None for k in ('block', 'targets', 'label')), rn, 'running a file is executing what it contains', path=t.path())


def asking(ck):
    """What a view asks of the hub and the engines about requests that were sent before."""
    names = opaque_for(ck, 'DirectView')
    for spec, cp, args in ((VM + 'abort', 'self.client.abort(*_, **_)', ('targets', 'block')), (VM + 'queue_status', 'self.client.queue_status(*_, **_)', ('targets',)), (VM + 'shutdown', 'self.client.shutdown(*_, **_)', ('block',))):
        asked_for(ck, spec, cp, args, names)
    for e, b in ck.F(VM + 'shutdown', opaque=names).find(call('self.client.shutdown(*_, **_)')):
        fs = ck.F(VM + 'shutdown', opaque=names)
        ck.ok('short', all(argof(e.a[0], 99, k) is not None and fs.match(k, argof(e.a[0], 99, k)) is not None for k in ('restart', 'hub')) and all(fs.match('any_of(targets, self.targets)', x) is not None for x in leaves(fs, argof(e.a[0], 99, 'targets'))), e, 'what was asked for is shut down')
    fs = ck.F(VM + 'shutdown', opaque=names)
    at = dict(own=passes('self.client.shutdown(*_, **_)', kw(99, 'targets'), 'self.targets'), given=passes('self.client.shutdown(*_, **_)', kw(99, 'targets'), 'targets'), isn=lit('targets is None'), all=lit("targets == 'all'"), nn=lit('targets is not None'), na=lit("targets != 'all'"))
    ck.every('short', fs, at, lambda t: ('own' in t) == ('isn' in t or 'all' in t) and ('given' in t) == ('nn' in t and 'na' in t) and ('given' in t) != ('own' in t), 'no engine but those of the view is shut down unless it is asked for')
    ab = ck.F(VM + 'abort', opaque=names)
    at = dict(given=passes('self.client.abort(*_, **_)', kw(99, 'jobs'), 'jobs'), own=passes('self.client.abort(*_, **_)', kw(99, 'jobs'), 'any_of(copyof(self.outstanding), self.outstanding)'), isn=lit('jobs is None'), nn=lit('jobs is not None'))
    ck.every('short', ab, at, lambda t: ('given' in t) == ('nn' in t) and ('own' in t) == ('isn' in t), 'what is aborted is what was asked for, or all that is outstanding')
    wt = ck.F(VM + 'wait', opaque=names)
    at = dict(given=passes('self.client.wait(*_, **_)', kw(0, 'jobs'), 'jobs'), own=passes('self.client.wait(*_, **_)', kw(0, 'jobs'), 'self.history'), isn=lit('jobs is None'), nn=lit('jobs is not None'))
    ck.every('short', wt, at, lambda t: ('given' in t) == ('nn' in t) and ('own' in t) == ('isn' in t), 'what is waited for is what was asked for, or all that the view sent')
    for e, b in wt.find(call('self.client.wait(*_, **_)')):
        ck.ok('short', wt.match('timeout', argof(e.a[0], 1, 'timeout')) is not None, e, 'waiting ends in time')
    gr = ck.F(VM + 'get_result', opaque=names)
    G = 'self.client.get_result(*_, **_)'
    for t in rets(gr):
        ck.ok('short.result', gr.match(G, t.ret) is not None, gr, 'results are those of the client', path=t.path())
    for e, b in gr.find(call(G)):
        c = e.a[0]
        ck.ok('short.result', all(argof(c, 99, k) is not None and gr.match(k, argof(c, 99, k)) is not None for k in ('block', 'owner')), e, 'results are those of the client')
    P0 = 'indices_or_msg_ids'
    at = dict(isint=lit(f'isinstance(any_of({P0}, -1), int)'), one=passes(G, kw(0, P0), f'self.history[any_of({P0}, -1)]'), call=call(G))
    for t in gr.traces(at):
        if 'call' in t and not ck.ok('short.result', ('one' in t) == ('isint' in t), gr, 'indices are those of the history of the view', path=t.path()):
            break
    idx = [e for e, b in gr.find(add('_', '_', f'self.history[elem(_)]'))] + [x for e, b in gr.find(call(G)) for x in leaves(gr, argof(e.a[0], 0, P0)) if x.op == 'comp']
    ck.ok('short.result', bool(idx), gr, 'indices in lists are those of the history of the view')
    ck.never('short.result', gr, either(*[call(f'{k}(_)') for k in ('set', 'frozenset', 'reversed')], call('sorted(_, **_)')), 'results come in the order in which they were asked for')


# -- what is sent ---------------------------------------------------------


def sending(ck):
    names = ck.names('client.client:Client')
    fl = ck.F('client.client:Client.send_apply_request', opaque=tuple(names) + ('pack_apply_message',))
    SEND = 'self._send(*_, **_)'
    PACK = 'ipyparallel.serialize.pack_apply_message(any_of(f), _, _, **_)'
    ck.every('send', fl, dict(s=call(SEND)), lambda t: t.end != 'return' or t.count('s') == 1, 'one request is sent')
    for e, b in fl.find(call(SEND)):
        c = e.a[0]
        ck.ok('send', fl.match('socket', argof(c, 0, 'socket')) is not None and argof(c, 1, 'msg_type') is tm.const('apply_request'), e, 'the function is to be applied')
        for k in ('ident', 'track', 'message_future_hook'):
            ck.ok('send', argof(c, 99, k) is not None and fl.match(k, argof(c, 99, k)) is not None, e, f'the request has its {k}')
        md = argof(c, 99, 'metadata')
        ck.ok('send', md is not None and all(fl.match('metadata', x) is not None or x.op == 'alloc' and not x.a[2] for x in leaves(fl, md)) and any(fl.match('metadata', x) is not None for x in leaves(fl, md)), e, 'the request has its metadata')
        ck.ok('send', argof(c, 99, 'track_outstanding') is tm.const(True), e, 'the request is outstanding')
        bf = argof(c, 99, 'buffers')
        ok = bf is not None and bf.op == 'call' and str(bf.a[0]).endswith('pack_apply_message') and len(bf.a[1]) >= 3
        ck.ok('send', ok and fl.match('f', bf.a[1][0]) is not None and all(any(fl.match(n, x) is not None for x in leaves(fl, v)) and all(fl.match(n, x) is not None or x.op == 'alloc' and not x.a[2] for x in leaves(fl, v)) for v, n in zip(bf.a[1][1:], ('args', 'kwargs'))), e, 'the request has its function and arguments')
    for t in rets(fl):
        ck.ok('send', fl.match(SEND, t.ret) is not None, fl, 'the future of the request is returned', path=t.path())
    ex = ck.F('client.client:Client.send_execute_request', opaque=names)
    ck.every('send', ex, dict(s=call(SEND)), lambda t: t.end != 'return' or t.count('s') == 1, 'one request is sent')
    for e, b in ex.find(call(SEND)):
        c = e.a[0]
        ck.ok('send', ex.match('socket', argof(c, 0, 'socket')) is not None and argof(c, 1, 'msg_type') is tm.const('execute_request'), e, 'the code is to be executed')
        for k in ('ident', 'message_future_hook'):
            ck.ok('send', argof(c, 99, k) is not None and ex.match(k, argof(c, 99, k)) is not None, e, f'the request has its {k}')
        md = argof(c, 99, 'metadata')
        ck.ok('send', md is not None and any(ex.match('metadata', x) is not None for x in leaves(ex, md)), e, 'the request has its metadata')
        ck.ok('send', argof(c, 99, 'track_outstanding') is tm.const(True), e, 'the request is outstanding')
        ct = argof(c, 2, 'content')
        d = {k.a[0]: v for k, v, it in dict_sources(ex, ct) if k is not None and k.op == 'const'} if ct is not None else {}
        ck.ok('send', 'code' in d and ex.match('code', d['code']) is not None and 'silent' in d and ex.match('any_of(bool(silent), silent)', d['silent']) is not None, e, 'the request has its code')
    for t in rets(ex):
        ck.ok('send', ex.match(SEND, t.ret) is not None, ex, 'the future of the request is returned', path=t.path())


# -- imports --------------------------------------------------------------


def imports(ck):
    fl = ck.F(V + 'DirectView.sync_imports', opaque=('apply_async', 'get'))
    hooks = [e for e in fl.all_effects() if e.kind == 'store' and e.a[1] == '__import__']
    ck.ok('imports', bool(hooks), fl, 'imports are noticed')
    back = [e for e in hooks if e.a[2].op not in ('closure', 'lambda')]
    on = [e for e in hooks if e not in back]
    ck.ok('imports', bool(back) and bool(on), fl, 'imports are noticed, for a while')
    at = dict(on=effect('', lambda e: e in on), off=effect('', lambda e: e in back), y=effect('', lambda e: e.kind == 'yield'))
    for t in fl.traces(at, exc='all'):
        if 'on' in t and not ck.ok('imports', 'off' in t and not t.before('off', 'on') and t.before('on', 'off'), fl, 'imports work as before when the block ends, even with an error', path=t.path()):
            break
    for e in back:
        ck.ok('imports', fl.match('builtins.__import__', e.a[2]) is not None, e, 'imports work as before')
    for f, up in closures(ck, fl, 'imports', [e.a[2] for e in on], ('apply_async',)):
        st = [e for e in f.all_effects() if e.kind == 'store' and e.a[1] == '__import__']
        ck.ok('imports', bool(st) and all(e.a[2].op == 'free' or f.match('builtins.__import__', e.a[2]) is not None for e in st), f, 'imports work as usual during one')
        kept = [e for e in st if e.a[2].op != 'free']
        own = [e for e in st if e.a[2].op == 'free']
        for t in f.traces(dict(k=effect('', lambda e: e in kept), o=effect('', lambda e: e in own)), exc='all'):
            if not ck.ok('imports', t.count('k') == 0 and t.count('o') == 0 or t.before('o', 'k') and not t.before('k', 'o'), f, 'further imports are noticed, whatever happens during one', path=t.path()):
                break
        for t in f.traces(dict(s=effect('', lambda e: e in st)), exc='all'):
            if not ck.ok('imports', t.count('s') in (0, 2), f, 'further imports are noticed, whatever happens during one', path=t.path()):
                break
        ap = f.find(call('self.apply_async(*_)'))
        ck.ok('imports', bool(ap), f, 'imports are forwarded')
        for e, b in ap:
            c = e.a[0]
            ck.ok('imports', [str(up(x)) for x in c.a[1][1:]] == ['name', 'fromlist', 'level'], e, 'the same import is done on the engines')
        for t in rets(f):
            pass
    gets = fl.find(call('any_of(elem(_), _[0]).get()'))
    ck.ok('imports', bool(gets), fl, 'errors of imports are raised')
    for e, b in gets:
        src = e.a[0].a[0].a[0].a[0]
        h = fl.loop_of(e.node)
        if ck.ok('imports', h is not None and src.op in ('alloc', 'free'), e, 'errors of all imports are raised'):
            empty = _lit(lambda t: t.op == 'truth' and t.a[0] is src, False)
            ck.ok('imports', h.term is not None and fl.val(h, h.term) in (src, tm.mk('copy', src)) or e.a[0].a[0].a[0].op == 'item' and all(t.end != 'return' or 'y' not in t or 'e' in t for t in fl.traces(dict(e=empty, y=effect('', lambda e: e.kind == 'yield')))), e, 'errors of all imports are raised')
            for t in fl.body_traces(h, dict(g=is_eff(e))):
                ck.ok('imports', t.end == 'raise' or t.end == 'stop' and 'g' in t, e, 'errors of all imports are raised', path=t.path())
    ri = ck.nested(V + 'DirectView.sync_imports', 'remote_import')
    ia = dict(imp=call('__import__(name, fromlist=fromlist, level=level)'), fl=lit('fromlist'), nofl=lit('not fromlist'), mod=add('globals()', 'name', 'sys.modules[name]'))
    ck.every('imports', ri, ia, lambda t: t.count('imp') == 1 and ('mod' in t) == ('nofl' in t), 'the import is done on the engines')
    IM = '__import__(name, fromlist=fromlist, level=level)'
    for e, b in ri.find(add('globals()', 'elem(fromlist)', f'getattr({IM}, elem(fromlist))')):
        h = ri.loop_of(e.node)
        ck.ok('imports', covers(ri, h, 'fromlist') and all(t.end == 'stop' and 'a' in t for t in ri.body_traces(h, dict(a=is_eff(e)))), e, 'all names are imported')
    ck.exists('imports', ri, add('globals()', 'elem(fromlist)', f'getattr({IM}, elem(fromlist))'), 'names are imported from modules')


# -- remote functions -----------------------------------------------------


def functions(ck):
    R = 'client.remotefunction:RemoteFunction.'
    fl = ck.F(R + '__call__', opaque=('temp_flags', 'apply'))
    C = 'self.view.temp_flags(*_, **_)'
    at = dict(given=passes(C, kw(99, 'block'), 'self.block'), own=passes(C, kw(99, 'block'), 'self.view.block'), isn=lit('self.block is None'), nn=lit('self.block is not None'), run=call('self.view.apply(self.func, *args, **kwargs)'), w=call(C))
    ck.every('function', fl, at, lambda t: t.end != 'return' or t.before('w', 'run') and ('given' in t) == ('nn' in t) and ('own' in t) == ('isn' in t) and t.count('run') == 1, 'a remote function is called on its view, with its flags')
    for e, b in fl.find(call(C)):
        ck.ok('function', any(k is None or k == '**' for k, v in e.a[0].a[2]) and any(fl.match('self.flags', v) is not None for k, v in e.a[0].a[2]), e, 'a remote function is called with its flags')
    for t in rets(fl):
        ck.ok('function', fl.match('self.view.apply(self.func, *args, **kwargs)', t.ret) is not None, fl, 'the value is that of the call', path=t.path())
    ini = ck.F(R + '__init__')
    ck.every('function', ini, dict(v=store('self.view', 'view'), f=store('self.func', 'f'), b=store('self.block', 'block'), g=store('self.flags', 'flags')), lambda t: all(t.count(k) == 1 for k in 'vfbg'), 'a remote function knows its view and flags')
    for m, cls in (('remote', 'RemoteFunction'), ('parallel', 'ParallelFunction')):
        f = ck.F(f'client.remotefunction:{m}', opaque=(cls,))
        for g, up in closures(ck, f, 'function', [t.ret for t in rets(f)], (cls,)):
            for t in rets(g):
                c = t.ret
                ok = c.op == 'call' and str(c.a[0]).endswith(cls) and len(c.a[1]) >= 2 and f.match('view', up(c.a[1][0])) is not None and g.match(g.func.params[0] if hasattr(g.func, 'params') else 'f', c.a[1][1]) is not None
                have = {k: v for k, v in c.a[2]} if c.op == 'call' else {}
                for k in ('block',) + (('dist', 'ordered') if m == 'parallel' else ()):
                    ok = ok and k in have and f.match(k, up(have[k])) is not None
                ck.ok('function', ok, g, f'@{m} makes a function of the view', path=t.path())
        g = ck.F(VM + m, opaque=(m,))
        cp = f'ipyparallel.client.remotefunction.{m}(*_, **_)'
        flag(ck, 'function', g, cp, kw(99, 'block'), 'block', 'a function blocks if that was asked for, or by default of the view')
