"""Results of requests are what the requests returned: whole, in order, and never before they are complete."""

from ipa import terms as tm

from . import fold
from .client import _items, _lit, closures, effect, fl_loops, leaves
from .common import Only, add, argof, broad_handlers, call, caught, contained, covers, each, either, enclosing, getitem, is_eff, iter_covers, keyed, lit, prop, raises, remove, ret, store, yields_all  # noqa: F401

A = 'client.asyncresult:AsyncResult'
AM = A + '.'
M = 'client.asyncresult:AsyncMapResult'
AR = 'ipyparallel.client.asyncresult.AsyncResult'


def rets(fl, at=(), **kw):
    return [t for t in fl.traces(dict(at), retval=True, **kw) if t.end == 'return']


def listing(fl, t, elt, src):
    """[elt for x in src], in order."""
    for x in leaves(fl, t):
        if x.op == 'copy' and len(x.a) == 1:
            x = x.a[0]
        if x.op == 'comp':
            if not (x.a[0] in ('list', 'gen') and x.a[4] == 0 and len(x.a[3]) == 1 and iter_covers(fl, x.a[3][0], src, True) and fl.match(elt, x.a[2]) is not None):
                return False
        elif x.op == 'alloc':
            adds = [e for e in fl.all_effects() if e.kind == 'add' and e.a[0].op == 'alloc' and e.a[0].a[0] == x.a[0]]
            if x.a[2] or not adds:
                return False
            for e in adds:
                h = fl.loop_of(e.node)
                if e.a[-1] != 'append' or fl.match(elt, e.a[1]) is None or not covers(fl, h, src, ordered=True):
                    return False
                if any(t.end != 'stop' or t.count('a') != 1 for t in fl.body_traces(h, dict(a=is_eff(e)))):
                    return False
        else:
            return False
    return True


def whole(e, elem=False):
    """What a yield, or a loop of yields, goes through."""
    x = e.a[0]
    return x.a[0] if x.op == 'star' or elem and x.op == 'elem' else x


def parts_of(fl, t):
    """The summands of a list."""
    out = []
    for x in leaves(fl, t):
        if x.op == 'bin' and x.a[0] == '+':
            out += parts_of(fl, x.a[1]) + parts_of(fl, x.a[2])
        else:
            out.append(x)
    return out


def names_of(ck):
    return tuple(sorted(set(ck.names(A)) | set(ck.names(M)) | set(ck.fnames('client.futures')) | set(ck.fnames('error')) | set(ck.fnames('client.asyncresult'))))


@prop('C03', 60)
def c03(ck):
    names = names_of(ck)
    build(ck, names)
    resolve(ck, names)
    getting(ck, names)
    iterating(ck, names)
    splitting(ck, names)
    mapping(ck, names)
    errors(ck)
    showing(ck, names)
    interactive(ck, names)


def build(ck, names):
    fl = ck.F(AM + '__init__', opaque=names)
    is_list, no_list = lit('isinstance(children, list)'), lit('not isinstance(children, list)')
    at = dict(l=is_list, n=no_list, one=store('self._single_result', 'True'), many=store('self._single_result', 'False'), init=call('self._init_futures()'))
    ck.every('init', fl, at, lambda t: t.count('init') == 1 and ('one' in t) == ('n' in t) and ('many' in t or 'n' in t), 'a result is single unless there is a list of requests')
    ids = fl.find(store('self.msg_ids'))
    ck.ok('init', bool(ids), fl, 'the ids of the requests are known')
    for e, b in ids:
        v = e.a[2]
        ok = listing(fl, v, 'elem(_).msg_id', '_') or all(fl.match('any_of(children, [children])', x) is not None for x in leaves(fl, v))
        ck.ok('init', ok, e, 'the ids are those of the requests, in order')
    for e, b in fl.find(store('self._children')):
        ck.ok('init', all(fl.match('any_of(children, [children], [])', x) is not None for x in leaves(fl, e.a[2])), e, 'the requests are kept in order')
    for e, b in fl.find(store('self._metadata')):
        ok = listing(fl, e.a[2], 'elem(_).output.metadata', 'any_of(self._children, children)') or listing(fl, e.a[2], 'any_of(self._client, client).metadata[elem(_)]', 'any_of(self.msg_ids, children)')
        ck.ok('init', ok, e, 'the metadata are those of the requests, in order')
    ck.every('init', fl, dict(md=store('self._metadata'), ids=store('self.msg_ids'), ch=store('self._children'), init=call('self._init_futures()'), ready=store('self._ready', 'False'), ev=store('self._ready_event'), out=store('self._output_event'), ordy=store('self._output_ready', 'False')),
             lambda t: all(t.count(k) == 1 and t.before(k, 'init') for k in ('md', 'ids', 'ch', 'ready', 'ev', 'out', 'ordy')), 'a result is complete before what resolves it is hooked up')
    fi = ck.F(AM + '_init_futures', opaque=names)
    CH = 'self._children'
    for attr, cb in (('_result_future', '_resolve_result'), ('_output_future', '_resolve_output'), ('_sent_future', '_handle_sent')):
        V = f'any_of(self.{attr}, ipyparallel.client.futures.multi_future(_))'
        at = dict(f=store('self.' + attr, 'ipyparallel.client.futures.multi_future(_)'), cb=call(f'{V}.add_done_callback(self.{cb})'))
        ck.every('futures', fi, at, lambda t: t.count('f') == t.count('cb') == 1, f'{cb} is called when {attr} is done')
        for e, b in fi.find(at['f']):
            a = e.a[2].a[1][0]
            ps = parts_of(fi, a)
            if attr == '_result_future':
                ok = all(iter_covers(fi, x, CH, True) for x in ps) and len(ps) == 1
            elif attr == '_sent_future':
                ok = listing(fi, a, 'elem(_).tracker', CH)
            else:
                out = [x for x in ps if x.op == 'comp' and listing(fi, x, 'elem(_).output', CH)]
                res = [y for x in ps if x.op == 'alloc' for y in _items(x)]
                adds = [x for x in fi.all_effects() if x.kind == 'add' and x.a[0].op == 'alloc' and any(x.a[0] is p for p in ps)]
                ok = (bool(out) or any(fi.match('elem(_).output', x.a[1]) is not None or x.a[-1] == 'all' for x in adds)) and any(fi.match('any_of(self._result_future, ipyparallel.client.futures.multi_future(_))', x) is not None for x in res + [y.a[1] for y in adds])
            ck.ok('futures', ok, e, f'{attr} waits for all requests')
        for e, b in fi.find(at['cb']):
            o = e.a[0].a[0].a[0]
            ck.ok('futures', o.op != 'call' or any(o is x.a[2] for x, _ in fi.find(at['f'])), e, f'{cb} is called when {attr} is done')
    ck.every('futures', fi, dict(fin=call('self.add_done_callback(self._finalize_result)')), lambda t: t.count('fin') == 1, 'a result is ready once it is resolved')
    adds = fi.find(add(CH, '_'))
    ck.ok('futures.local', bool(adds), fi, 'requests that are given by their ids are found')
    for e, b in adds:
        ck.ok('futures.local', e.a[-1] == 'append', e, 'requests are kept in order')
        h = fi.loop_of(e.node)
        ck.ok('futures.local', covers(fi, h, 'self.msg_ids', ordered=True), e, 'requests are kept in order')
        for t in fi.body_traces(h, dict(a=is_eff(e))):
            ck.ok('futures.local', t.end == 'raise' or t.end == 'stop' and t.count('a') == 1, e, 'every request is found, or an error is raised', path=t.path())
        for x in leaves(fi, e.a[1]):
            NEW = 'ipyparallel.client.futures.MessageFuture(elem(self.msg_ids))'
            ok = fi.match('any_of(self._client._futures.get(elem(self.msg_ids), *_), self._client._futures[elem(self.msg_ids)])', x) is not None or fi.match(NEW, x) is not None
            ck.ok('futures.local', ok, e, 'the request is the one with this id')
    NEW = 'ipyparallel.client.futures.MessageFuture(elem(self.msg_ids))'
    RES = 'any_of(self._client.results.get(elem(self.msg_ids), *_), self._client.results[elem(self.msg_ids)])'
    na = dict(new=call(NEW), res=call(f'{NEW}.set_result({RES})'), out=call(f'any_of({NEW}.output, concurrent.futures.Future()).set_result(_)'), md=store('any_of({0}.output, concurrent.futures.Future()).metadata'.format(NEW), 'any_of(self.client, self._client).metadata[elem(self.msg_ids)]'))
    for e, b in fi.find(na['new']):
        h = fi.loop_of(e.node)
        for t in fi.body_traces(h, na):
            if t.end == 'stop':
                ck.ok('futures.local', t.count('new') == t.count('res') == t.count('out') == t.count('md'), e, 'results that are known already are resolved, with their metadata', path=t.path())
    for value in (None, 0, '', 'value'):
        leaf = fold.leaves(fi, [('self._client.results', {'id': value}), ('self._client._futures', {}), ('elem(self.msg_ids)', 'id'), ('ipyparallel.client.asyncresult._default', 'nothing'), ('ipyparallel.client.futures.MessageFuture(*_)', fold.Rec())])
        for e, b in adds:
            for t in fi.body_traces(fi.loop_of(e.node), dict(a=is_eff(e), **na), world=fold.literal(leaf)):
                ck.ok('futures.local', t.end == 'stop' and t.count('res') == t.count('a') == 1, e, 'results that are known already are found, whatever they are', path=t.path())
    hs = ck.F(AM + '_handle_sent', opaque=names)
    ck.every('sent', hs, dict(t=store('self._tracker'), s=call('self._sent_event.set()')), lambda t: t.count('t') == t.count('s') == 1 and t.before('t', 's'), 'it is known when everything was sent')
    for e, b in hs.find(store('self._tracker')):
        ck.ok('sent', hs.match('any_of(zmq.MessageTracker(*_), zmq.sugar.tracker.MessageTracker(*_))', e.a[2]) is not None and tm.mentions(e.a[2], lambda x: hs.match('f.result()', x) is not None), e, 'all sends are tracked')
        for x in tm.subterms(e.a[2]):
            ck.ok('sent', not (x.op == 'item' and x.a[1].op in ('slice', 'const')), e, 'all sends are tracked')
            if x.op == 'comp':
                ck.ok('sent', all(_unset(hs, g) for g in hs.comp_guards(x)), e, 'all sends are tracked')
    st = ck.F(AM + 'sent', opaque=names)
    ev, no = lit('self._sent_event.is_set()'), lit('not self._sent_event.is_set()')
    for t in rets(st, dict(ev=ev, no=no)):
        v = t.ret
        ck.ok('sent', v is tm.const(False) and 'no' in t or tm.mentions(v, lambda x: st.match('self._tracker.done', x) is not None) and ('ev' in t or tm.mentions(v, lambda x: st.match('self._sent_event.is_set()', x) is not None)) or st.match('self._sent_event.is_set()', v) is not None and 'no' in t, st, 'sent tells whether everything was sent', path=t.path())
    ws = ck.F(AM + 'wait_for_send', opaque=names)
    wa = dict(is_set=lit('self._sent_event.is_set()'), w=lit('self._sent_event.wait(_)'), nw=lit('not self._sent_event.wait(_)'), tr=call('self._tracker.wait(*_)'))
    for t in rets(ws, wa):
        ck.ok('sent', 'tr' in t and ('is_set' in t or 'w' in t) and 'nw' not in t and ws.match('self._tracker.wait(*_)', t.ret) is not None, ws, 'waiting for sends ends when everything was sent, or with an error', path=t.path())


def _unset(fl, g):
    t, pol = g if isinstance(g, tuple) else (g, True)
    return t.op == 'isnone' and pol is False or t.op == 'truth' and pol is True and t.a[0].op == 'elem'


def resolve(ck, names):
    fl = ck.F(AM + '_resolve_result', opaque=names)
    RES = 'any_of(f.result(), list(map(self._client.results.get, self.msg_ids)), _)'
    at = dict(done=lit('self.done()'), ok=call('self.set_result(_)'), err=call('self.set_exception(_)'), yes=store('self._success', 'True'), no=store('self._success', 'False'), raw=store('self._raw_results'), one=lit('self._single_result'), many=lit('not self._single_result'),
              coll=call('self._collect_exceptions(_)'), exc=lit('isinstance(_, Exception)'), noexc=lit('not isinstance(_, Exception)'), rec=call('self._reconstruct_result(_)'))
    ck.ok('resolve', bool(fl.find(at['ok'])) and bool(fl.find(at['err'])), fl, 'results are resolved')
    for f in ('f.result()', 'self._reconstruct_result(_)'):
        contained(ck, 'resolve', fl, call(f), 'errors that are in the way of a result are its result', at['err'])
    for t in fl.traces(at):
        if t.end != 'return':
            continue
        if not ck.ok('resolve', t.count('ok') + t.count('err') == (0 if 'done' in t else 1), fl, 'every result is resolved exactly once', path=t.path()):
            break
        if 'ok' in t and not ck.ok('resolve', t.before('yes', 'ok') and t.before('raw', 'ok') and 'no' not in t and ('one' in t and 'noexc' in t and 'exc' not in t or 'many' in t and t.before('coll', 'rec') and 'one' not in t), fl, 'a result is a success unless it, or one of its parts, is an error', path=t.path()):
            break
        if 'err' in t and not ck.ok('resolve', t.before('no', 'err') and not ('yes' in t and t.before('no', 'yes')), fl, 'a result that is an error is not a success', path=t.path()):
            break

    def local(y):
        y = y.a[0] if y.op == 'copy' and len(y.a) == 1 else y
        return fl.match('any_of(map(self._client.results.get, self.msg_ids), list(map(self._client.results.get, self.msg_ids)))', y) is not None or listing(fl, y, 'any_of(self._client.results.get(elem(_), *_), self._client.results[elem(_)])', 'self.msg_ids')

    for e, b in fl.find(at['ok']):
        ck.ok('resolve.value', all(fl.match('self._reconstruct_result(_)', x) is not None for x in leaves(fl, e.a[0].a[1][0])), e, 'the value is that of the requests')
        for x in leaves(fl, e.a[0].a[1][0]):
            for y in leaves(fl, x.a[1][0] if x.a[1] else x):
                ok = fl.match('any_of(f.result(), self._collect_exceptions(_), self._raw_results)', y) is not None or local(y)
                ck.ok('resolve.value', ok, e, 'the value is that of the requests')
    for e, b in fl.find(at['coll']):
        for y in leaves(fl, e.a[0].a[1][0]):
            ck.ok('resolve.value', fl.match('any_of(f.result(), self._raw_results)', y) is not None or local(y), e, 'the value is that of the requests')
    for e, b in fl.find(at['err']):
        ck.ok('resolve.value', all(x.op == 'exc' or fl.match('_[0]', x) is not None for x in leaves(fl, e.a[0].a[1][0])), e, 'the error is that of the requests')
    fi = ck.F(AM + '_finalize_result', opaque=names)
    ck.every('resolve.ready', fi, dict(r=store('self._ready', 'True'), e=call('self._ready_event.set()')), lambda t: t.count('r') == t.count('e') == 1 and t.before('r', 'e'), 'waiting ends when the result is ready')
    fo = ck.F(AM + '_resolve_output', opaque=names)
    ck.every('resolve.ready', fo, dict(r=store('self._output_ready', 'True'), e=call('self._output_event.set()')), lambda t: t.count('r') == t.count('e') == 1 and t.before('r', 'e'), 'waiting for output ends when the output is complete')
    for f in (fi, fo):
        own = lit('self.owner')
        pops = [e for e in f.all_effects() if e.kind == 'remove' and f.match('any_of(self._client.results, self._client.metadata)', e.a[0]) is not None]
        for e in pops:
            ck.guarded('resolve.owner', f, is_eff(e), [own], 'only the owner of results drops them')
            ck.ok('resolve.owner', f.match('elem(self.msg_ids)', e.a[1]) is not None, e, 'only results of its own are dropped')
            ck.ok('resolve.owner', f is fo or f.match('self._client.results', e.a[0]) is not None, e, 'metadata are kept until the output is complete')
        for e in f.all_effects():
            if e.kind in ('remove', 'add', 'clear') and not any(e is x for x in pops):
                ck.ok('resolve.owner', not tm.mentions(e.a[0], lambda x: f.match('any_of(self._metadata, self._raw_results, self.metadata)', x) is not None), e, 'the metadata of a result stay with it')
    # everything else that marks a result as ready
    for meth, c in [(m, c) for c in (A, M) for m in ck.names(c)]:
        f = ck.repo.method(ck.repo.cls(c), meth)
        if f is None or meth in ('_finalize_result', '__init__', '_resolve_output') or not f.qual.startswith('ipyparallel.client.asyncresult:' + c.split(':')[1]):
            continue
        g = ck.F(f, opaque=names)
        for e, b in g.find(either(store('self._ready'), call('self._ready_event.set()'), store('self._output_ready'), call('self._output_event.set()'))):
            ck.ok('resolve.ready', False, e, 'a result is only ready when it is resolved')


def getting(ck, names):
    fl = ck.F(AM + 'get', opaque=names)
    ready, un = either(lit('self._ready'), lit('self.ready()')), either(lit('not self._ready'), lit('not self.ready()'))
    RX = lit('return_exceptions')
    at = dict(ready=lit('self._ready'), un=lit('not self._ready'), r2=lit('self.ready()'), un2=lit('not self.ready()'), w=call('self.wait(*_, **_)'), ok=lit('self._success'), no=lit('not self._success'), rx=_lit(lambda t: t.op == 'truth' and fl.match('any_of(return_exceptions, self._return_exceptions)', t.a[0]) is not None),
              first=lit('_ == concurrent.futures.FIRST_EXCEPTION'), fail=lit('not elem(_)._success'))
    for t in rets(fl, at):
        if fl.match('self.result()', t.ret) is not None:
            ck.ok('get', ('ready' in t or 'r2' in t) and 'ok' in t, fl, 'a value is only returned when the result is ready, and a success', path=t.path())
        elif fl.match('self._reconstruct_result(_)', t.ret) is not None:
            ck.ok('get', ('ready' in t or 'r2' in t) and 'no' in t and 'rx' in t and fl.match('self._reconstruct_result(self._raw_results)', t.ret) is not None, fl, 'errors are only returned on request', path=t.path())
        else:
            ok = fl.match('elem(_).get(*_, **_)', t.ret) is not None and 'first' in t and 'fail' in t
            ck.ok('get', ok, fl, 'nothing else is returned, but the first error on request', path=t.path())
    for t in fl.traces(at, retval=True):
        if t.end == 'raise':
            if 'ready' in t and 'no' in t:
                ck.ok('get', t.ret is None or all(fl.match('self.exception()', x) is not None for x in leaves(fl, t.ret)), fl, 'the error of the requests is raised', path=t.path())
            else:
                ck.ok('get', 'un' in t or 'un2' in t, fl, 'nothing else is raised, unless the result is not ready', path=t.path())
            if 'un2' in t:
                ck.ok('get', 'w' in t, fl, 'results are waited for', path=t.path())
    for e, b in fl.find(at['w']):
        ck.ok('get', argof(e.a[0], 0, 'timeout') is not None and all(fl.match('timeout', x) is not None for x in leaves(fl, argof(e.a[0], 0, 'timeout'))), e, 'results are waited for as long as asked')
    for e, b in fl.find(call('TimeoutError(*_)')):
        pass
    ck.ok('get', bool(fl.find(call('TimeoutError(*_)'))), fl, 'a result that is not ready in time is a TimeoutError')
    for asked in (None, False, True):
        for kept in (False, True):
            leaf = fold.leaves(fl, [('return_exceptions', asked), ('self._return_exceptions', kept), ('any_of(self._ready, self.ready())', True), ('self._success', False), ('return_when', None), ('self.exception()', 'error'), ('self._reconstruct_result(self._raw_results)', 'all'), ('self.result()', 'value')])
            for t in fold.cases(fl, leaf):
                got = fold.fold(t.ret, leaf) if t.ret is not None else fold.UNKNOWN
                want = 'all' if (kept if asked is None else asked) else 'error'
                if got is not fold.UNKNOWN:
                    ck.ok('get', got == want and (t.end == 'return') == (want == 'all'), fl, 'errors are returned exactly on request', path=t.path())
    wt = ck.F(AM + 'wait', opaque=names)
    timeouts(ck, 'wait', wt, 'self._ready_event.wait(*_)', [('self._ready', False), ('return_when', None)])
    timeouts(ck, 'wait', wt, 'concurrent.futures.wait(*_, **_)', [('self._ready', False), ('return_when', 'FIRST_COMPLETED')], 1)
    wa = dict(none=lit('return_when is None'), some=lit('return_when is not None'), rdy=lit('self._ready'), w=call('self._ready_event.wait(_)'), neg=lit('timeout < 0'))
    for t in rets(wt, wa):
        if 'none' in t:
            ck.ok('wait', 'rdy' in t or 'w' in t and any(wt.match('any_of(self._ready, self._ready_event.wait(_), self._ready_event.is_set())', x) is not None for x in leaves(wt, t.ret)), wt, 'waiting tells whether the result is ready', path=t.path())
        elif 'some' in t:
            ck.ok('wait', tm.mentions(t.ret, lambda x: wt.match('concurrent.futures.wait(self.split(), *_, **_)', x) is not None), wt, 'parts are waited for', path=t.path())
    for p in ('self._ready_event.wait(_)',):
        for e, b in wt.find(call(p)):
            v = argof(e.a[0], 0, 'timeout')
            ck.ok('wait', all(x is tm.NONE or wt.match('timeout', x) is not None for x in leaves(wt, v)), e, 'waiting takes as long as asked')
            for t in wt.traces(dict(neg=lit('timeout < 0'), pos=either(lit('timeout >= 0'), lit('not timeout')), hit=is_eff(e))):
                pass
            ck.ok('wait', any(x is tm.NONE for x in leaves(wt, v)), e, 'a negative timeout means forever')
    wo = ck.F(AM + 'wait_for_output', opaque=names)
    timeouts(ck, 'wait', wo, 'self._output_event.wait(*_)', [('self._output_ready', False)])
    for t in rets(wo, dict(r=lit('self._output_ready'), w=call('self._output_event.wait(*_)'))):
        ck.ok('wait', 'r' in t or 'w' in t, wo, 'output is waited for', path=t.path())
    rd = ck.F(AM + 'ready', opaque=names)
    for t in rets(rd, dict(r=lit('self._ready'))):
        ck.ok('wait', all(rd.match('any_of(self._ready, self.wait(0))', x) is not None or x is tm.const(True) and 'r' in t for x in leaves(rd, t.ret)), rd, 'ready tells whether the result is ready', path=t.path())
    for ready in (True, False):
        leaf = fold.leaves(rd, [('any_of(self._ready, self.wait(0))', ready), ('any_of(self.done(), self._output_ready, self._output_event.is_set())', True)])
        for t in fold.cases(rd, leaf):
            v = fold.fold(t.ret, leaf) if t.end == 'return' else fold.UNKNOWN
            if v is not fold.UNKNOWN:
                ck.ok('wait', bool(v) == ready, rd, 'ready tells whether the result is ready', path=t.path())
    su = ck.F(AM + 'successful', opaque=names)
    for t in rets(su, dict(r=lit('self.ready()'), r2=lit('self._ready'))):
        ck.ok('get', ('r' in t or 'r2' in t) and all(su.match('self._success', x) is not None for x in leaves(su, t.ret)), su, 'successful tells whether the result is a success, once it is ready', path=t.path())
    cr = ck.F(AM + '_check_ready', opaque=names)
    for t in rets(cr, dict(r=either(lit('self.ready()'), lit('self._ready')))):
        ck.ok('get', 'r' in t, cr, 'results that are not ready are errors', path=t.path())
    gi = ck.F(AM + '__getitem__', opaque=names)
    K = 'self.result()[key]'
    for t in rets(gi, dict(chk=call('self._check_ready()'), i=lit('isinstance(key, int)'), s=lit('isinstance(key, slice)'), k=lit('isinstance(key, str)'), one=lit('self._single_result'), many=lit('not self._single_result'))):
        if 'k' in t:
            r = t.ret
            if 'one' in t:
                ok = gi.match('self._metadata[0][key]', r) is not None or r.op == 'item' and listing(gi, r.a[0], 'elem(self._metadata)[key]', 'self._metadata') and r.a[1] is tm.const(0)
            else:
                ok = listing(gi, r, 'elem(self._metadata)[key]', 'self._metadata')
            ck.ok('getitem', ok, gi, 'metadata are those of the requests, in order', path=t.path())
        else:
            ok = gi.match(f'any_of(self._collect_exceptions([{K}])[0], self._collect_exceptions({K}))', t.ret) is not None
            ck.ok('getitem', ok and 'chk' in t, gi, 'items are those of the result, once it is ready', path=t.path())
    gd = ck.F(AM + 'get_dict', opaque=names)
    out = [t.ret for t in rets(gd)]
    EID = "any_of(elem(self._metadata)['engine_id'], elem(self._metadata).engine_id)"
    sets = [e for e in gd.all_effects() if e.kind == 'add' and e.a[0] in out]
    ck.ok('get_dict', bool(sets) and all(r.op == 'alloc' for r in out), gd, 'results are keyed by engine')
    for e in sets:
        ck.ok('get_dict', gd.match(EID, e.a[1]) is not None, e, 'results are keyed by engine')
        h = gd.loop_of(e.node)
        it = gd.val(h, h.term) if h is not None else None
        ok = it is not None and it.op == 'call' and it.a[0].op == 'glob' and it.a[0].a[0] == 'zip' and len(it.a[1]) == 2 and (iter_covers(gd, it.a[1][0], 'self._metadata', True) or listing(gd, it.a[1][0], EID, 'self._metadata'))
        ck.ok('get_dict', ok and all(gd.match('any_of(self.get(*_), [self.get(*_)])', x) is not None for x in leaves(gd, it.a[1][1])), e, 'results belong to their engines')
        for t in gd.body_traces(h, dict(a=is_eff(e), dup=lit('_ in _'))):
            ck.ok('get_dict', t.end == 'raise' and 'dup' in t or t.end == 'stop' and t.count('a') == 1 and 'dup' not in t, e, 'no result is dropped', path=t.path())
    rc = ck.F(AM + '_reconstruct_result', opaque=names)
    for t in rets(rc, dict(one=lit('self._single_result'), many=lit('not self._single_result'))):
        ck.ok('resolve.value', rc.match('res[0]' if 'one' in t else 'res', t.ret) is not None, rc, 'the result is that of the requests', path=t.path())


def timeouts(ck, rule, fl, pattern, table, pos=0):
    """Nothing and negative timeouts are forever, others are as long as asked."""
    at = call(pattern)
    for given, want in ((None, None), (-1, None), (-0.5, None), (0, 0), (0.25, 0.25), (7, 7)):
        leaf = fold.leaves(fl, [('timeout', given), *table])
        for t in fold.cases(fl, leaf, dict(w=at), {'t': lambda e: at_arg(e, at, fl, pos)}):
            for x in t.values('t'):
                v = fold.fold(x, leaf)
                if v is not fold.UNKNOWN:
                    ck.ok(rule, v == want and (v is None) == (want is None), fl, 'waiting takes as long as asked, or forever if the timeout is negative', path=t.path())


def at_arg(e, at, fl, pos):
    if e.kind != 'call' or at(e, fl.alts, {}) is None:
        return None
    x = argof(e.a[0], pos, 'timeout')
    return tm.NONE if x is None else x


def iterating(ck, names):
    WAIT = call('self._wait_for_child(elem(_), *_, **_)')
    for spec in (AM + '__iter__', M + '._ordered_iter'):
        fl = ck.F(spec, opaque=names)
        ys = [e for e in fl.all_effects() if e.kind == 'yield']
        ck.ok('iter', bool(ys), fl, 'results are iterated over')
        one = [e for e in ys if fl.match('any_of(elem(_).result(), self._yield_child_results(elem(_)), elem(self._yield_child_results(elem(_))))', whole(e)) is not None]
        ck.ok('iter', bool(one), fl, 'results are yielded one by one as they arrive')
        for e in ys:
            ck.ok('iter', e in one or tm.mentions(e.a[0], lambda x: fl.match('self.get(*_)', x) is not None), e, 'what is yielded is the results')
            if e in one:
                hs = [h for h in enclosing(fl, e.node) if covers(fl, h, 'self._children', ordered=True)]
                ck.ok('iter', bool(hs), e, 'results are yielded in order')
                for h in hs[:1]:
                    at = dict(w=WAIT, y=is_eff(e), c=call('self._collect_exceptions(_)'))
                    for t in fl.body_traces(h, at):
                        ck.ok('iter', t.end == 'stop' and ('y' in t or spec is not AM + '__iter__' and fl.loop_of(e.node) is not h) and ('y' not in t or t.before('w', 'y')), e, 'every result is waited for, then yielded', path=t.path())
                        if fl.match('elem(_).result()', e.a[0]) is not None:
                            ck.ok('iter', t.before('c', 'y'), e, 'errors are raised', path=t.path())
        for e, b in fl.find(call('self.get(*_, **_)')):
            hs = [x for x in ys if x not in one]
            ck.ok('iter', fl.match('self.get(0)', e.a[0]) is not None or fl.match('self.get(timeout=0)', e.a[0]) is not None, e, 'iterating does not wait for all of the results')
    wc = ck.F(AM + '_wait_for_child', opaque=names)
    at = dict(done=lit('child.done()'), clr=call('evt.clear()'), cb=call('child.add_done_callback(_)'), w=call('evt.wait(*_)'))
    for t in rets(wc, at):
        ck.ok('iter', 'done' in t or t.before('clr', 'cb') and t.before('cb', 'w') and t.count('clr') == t.count('w') == 1, wc, 'waiting for a request ends when it is done, not before', path=t.path())
    for f, up in closures(ck, wc, 'iter', [e.a[0].a[1][0] for e, b in wc.find(at['cb'])], ()):
        ck.every('iter', f, dict(s=call('evt.set()')), lambda t: t.count('s') == 1, 'waiting for a request ends when it is done')
    yc = ck.F(M + '._yield_child_results', opaque=names)
    ya = dict(c=call('self._collect_exceptions(_)'), y=effect('yield', lambda e: e.kind == 'yield'))
    OK = 'any_of(child.result(), [child.result()])'
    for t in rets(yc, ya):
        ck.ok('iter', t.before('c', 'y') or 'y' not in t and yc.loop_of(yc.find(ya['y'])[0][0].node) is not None, yc, 'errors are raised before anything is yielded', path=t.path())
    for e, b in yc.find(ya['y']):
        ck.ok('iter', all(yc.match(OK, x) is not None for x in leaves(yc, whole(e, True))), e, 'all results of a request are yielded')
        h = yc.loop_of(e.node)
        for t in yc.body_traces(h, dict(y=is_eff(e))) if h is not None else ():
            ck.ok('iter', t.end == 'stop' and t.count('y') == 1, e, 'all results of a request are yielded', path=t.path())
    un = ck.F(M + '._unordered_iter', opaque=names)
    W = 'concurrent.futures.wait(_, return_when=concurrent.futures.FIRST_COMPLETED)'
    D, P = f'any_of({W}[0], {W}.done)', f'any_of({W}[1], {W}.not_done)'
    ys = [e for e in un.all_effects() if e.kind == 'yield' and not tm.mentions(e.a[0], lambda x: un.match('self.get(*_)', x) is not None)]
    ck.ok('iter.any', bool(ys), un, 'results are yielded as they arrive')
    for e in ys:
        ck.ok('iter.any', un.match(f'self._yield_child_results(elem({D}))', whole(e, True)) is not None, e, 'results are yielded as they arrive')
        hs = enclosing(un, e.node)
        inner = [h for h in hs if h.term is not None and covers(un, h, D)]
        ck.ok('iter.any', bool(inner), e, 'all that are done are yielded')
        for h in inner[:1]:
            for t in un.body_traces(h, dict(y=is_eff(e))):
                ck.ok('iter.any', t.end == 'stop' and 'y' in t or un.loop_of(e.node) is not h, e, 'all that are done are yielded', path=t.path())
    for e, b in un.find(call(W)):
        src = leaves(un, e.a[0].a[1][0])
        ok = all(iter_covers(un, x, 'self._children') or un.match(P, x) is not None for x in src)
        ck.ok('iter.any', ok and any(un.match(P, x) is not None for x in src) and any(iter_covers(un, x, 'self._children') for x in src), e, 'what is not done yet is waited for')
    it = ck.F(M + '.__iter__', opaque=names)
    for t in it.traces(dict(o=lit('self.ordered'), n=lit('not self.ordered'), a=yields_all('self._ordered_iter()'), b=yields_all('self._unordered_iter()'))):
        # loops may not be entered
        ck.ok('iter', t.count('a') == 0 or 'o' in t, it, 'results are in order on request', path=t.path())
        ck.ok('iter', t.count('b') == 0 or 'n' in t, it, 'results are in order on request', path=t.path())
    for p in ('self._ordered_iter()', 'self._unordered_iter()'):
        ck.exists('iter', it, yields_all(p), 'results are iterated over')


def splitting(ck, names):
    sp = ck.F(AM + 'split', opaque=names)
    ones = lit('len(self._children) == 1')
    NEW = call(f'{AR}(*_, **_)')
    for t in rets(sp, dict(one=ones)):
        r = t.ret
        if 'one' in t and _items(r):
            ck.ok('split', sp.match('(self,)', r) is not None or [str(x) for x in _items(r)] == ['self'], sp, 'a result of one request is its only part', path=t.path())
        else:
            src = r.a[0] if r.op == 'copy' else r
            if src.op == 'comp':
                ck.ok('split', src.a[4] == 0 and len(src.a[3]) == 1 and iter_covers(sp, src.a[3][0], 'self._children', True) and sp.match(f'{AR}(*_, **_)', src.a[2]) is not None, sp, 'each request is a part, in order', path=t.path())
            else:
                ck.ok('split', src.op == 'alloc' and listing(sp, src, f'{AR}(*_, **_)', 'self._children'), sp, 'each request is a part, in order', path=t.path())
    for e, b in sp.find(NEW):
        c = argof(e.a[0], 1, 'children')
        xs = [y for x in leaves(sp, c) for y in (_items(x) if x.op == 'alloc' else [x])] if c is not None else []
        ck.ok('split', bool(xs) and all(sp.match('elem(self._children)', x) is not None for x in xs), e, 'each request is a part')
        r = argof(e.a[0], 5, 'return_exceptions')
        ck.ok('split', r is not None and sp.match('self._return_exceptions', r) is not None, e, 'parts return exceptions as the whole does')
        ck.ok('split', (lambda o: o is None or o is tm.const(False))(argof(e.a[0], 4, 'owner')), e, 'parts do not drop results of the whole')
    jn = ck.F(AM + 'join', opaque=names)
    for t in rets(jn, dict(one=lit('len(async_results) == 1'))):
        if 'one' in t and jn.match('async_results[0]', t.ret) is not None:
            continue
        c = argof(t.ret, 1, 'children') if t.ret.op == 'call' else None
        c = c.a[0] if c is not None and c.op == 'copy' else c
        ok = c is not None and (jn.match('any_of(itertools.chain(*_), itertools.chain.from_iterable(_))', c) is not None and tm.mentions(c, lambda x: x.op == 'comp' and x.a[0] in ('list', 'gen') and x.a[4] == 0 and iter_covers(jn, x.a[3][0], 'async_results', True) and jn.match('elem(async_results)._children', x.a[2]) is not None)
                                or c.op == 'comp' and c.a[0] in ('list', 'gen') and c.a[4] == 0 and len(c.a[3]) == 2 and jn.match('elem(elem(async_results)._children)', c.a[2]) is not None
                                or any(e.kind == 'add' and e.a[0] is c and jn.match('elem(elem(async_results)._children)', e.a[1]) is not None for e in jn.all_effects()))
        ck.ok('join', ok, jn, 'the requests of all results are joined, in order', path=t.path())


def mapping(ck, names):
    rr = ck.F(M + '._reconstruct_result', opaque=names)
    at = dict(rx=lit('self._return_exceptions'), nrx=lit('not self._return_exceptions'), anyx=_lit(lambda t: t.op == 'truth' and rr.match('any(_)', t.a[0]) is not None))
    lists = set()
    for t in rets(rr, at):
        if rr.match('self._mapObject.joinPartitions(res)', t.ret) is not None:
            continue
        ok = t.ret.op == 'alloc' and 'rx' in t
        ck.ok('map', ok, rr, 'the partitions are joined, in order', path=t.path())
        if ok:
            lists.add(t.ret)
    for x in lists:
        adds = [e for e in rr.all_effects() if e.kind == 'add' and e.a[0] is x]
        hs = {h for e in adds for h in enclosing(rr, e.node) if covers(rr, h, 'res', ordered=True)}
        ck.ok('map', len(hs) == 1, rr, 'results and errors are in order')
        for h in hs:
            for t in rr.body_traces(h, dict(one=effect('', lambda e: e in adds and e.a[-1] == 'append' and rr.match('elem(res)', e.a[1]) is not None), many=effect('', lambda e: e in adds and (e.a[-1] == 'all' or rr.match('elem(elem(res))', e.a[1]) is not None)),
                                            exc=lit('isinstance(elem(res), Exception)'), val=lit('not isinstance(elem(res), Exception)'))):
                ck.ok('map', t.end == 'stop' and t.count('one') == (1 if 'exc' in t else 0) and ('exc' in t) != ('many' in t), rr, 'no result or error is dropped', path=t.path())
    ini = ck.F(M + '.__init__', opaque=names)
    INIT = effect('init', lambda e: e.kind == 'call' and ini.match('any_of(super().__init__(*_, **_), ipyparallel.client.asyncresult.AsyncResult.__init__(*_, **_))', e.a[0]) is not None)
    ck.every('map', ini, dict(i=INIT, m=store('self._mapObject', 'mapObject'), o=store('self.ordered', 'ordered')), lambda t: t.count('i') == 1 and t.before('m', 'i') and t.before('o', 'i'), 'what joins the partitions is known before they arrive')
    for e, b in ini.find(INIT):
        kw = {k: v for k, v in e.a[0].a[2] if k}
        for k in ('return_exceptions', 'chunk_sizes'):
            ck.ok('map', k in kw and ini.match(k, kw[k]) is not None, e, f'{k} is passed on')


def errors(ck):
    ce = ck.F(AM + '_collect_exceptions', opaque=ck.fnames('error'))
    for t in rets(ce, dict(rx=lit('self._return_exceptions'), n=lit('not self._return_exceptions'))):
        ok = ce.match('results', t.ret) is not None if 'rx' in t else ce.match('ipyparallel.error.collect_exceptions(results, *_, **_)', t.ret) is not None
        ck.ok('errors', ok, ce, 'errors are raised unless they are asked for as results', path=t.path())
    fl = ck.F('error:collect_exceptions')
    built = [e for e, b in fl.find(call('ipyparallel.error.CompositeError(*_)'))]
    ck.ok('errors', bool(built), fl, 'errors are raised together')
    L = {argof(e.a[0], 1, 'elist') for e in built}
    has, none = either(_lit(lambda t: t.op == 'truth' and t.a[0] in L), lit('len(_) > 0'), lit('len(_) != 0')), either(_lit(lambda t: t.op == 'truth' and t.a[0] in L, False), lit('len(_) == 0'))
    for t in fl.traces(dict(has=has, none=none), retval=True):
        if t.end == 'return':
            ck.ok('errors', 'none' in t and fl.match('rdict_or_list', t.ret) is not None, fl, 'results without errors pass', path=t.path())
        else:
            ck.ok('errors', 'has' in t and any(fl.match('ipyparallel.error.CompositeError(*_)', x) is not None for x in leaves(fl, t.ret)) if t.ret is not None else 'has' in t, fl, 'any error is raised', path=t.path())
    adds = [e for e in fl.all_effects() if e.kind == 'add' and e.a[0] in L]
    heads = {h for e in adds for h in enclosing(fl, e.node)[-1:]}
    ck.ok('errors', len(heads) == 1, fl, 'all results are looked at')

    def inst(cls, pol):
        def f(e, a, b):
            if e.kind != 'lit' or e.a[1] != pol or e.a[0].op != 'truth':
                return None
            c = e.a[0].a[0]
            if fl.match('isinstance(_, _c)', c) is None:
                return None
            ts = [c.a[1][1]] if c.a[1][1].op == 'glob' else list(_items(c.a[1][1]))
            return {} if any(str(x).endswith('.' + cls) for x in ts) else None
        f.desc, f.lit = cls, True
        return f

    for h in heads:
        it = fl.val(h, h.term)
        ck.ok('errors', all(fl.match('any_of(rdict_or_list, rdict_or_list.values())', x) is not None for x in leaves(fl, it)), fl, 'all results are looked at')
        for t in fl.body_traces(h, dict(a=effect('', lambda e: e in adds), remote=inst('RemoteError', True), kernel=inst('KernelError', True), comp=inst('CompositeError', True), nrem=inst('RemoteError', False), nker=inst('KernelError', False))):
            bad = {'remote', 'kernel', 'comp'} & set(t.atoms)
            ck.ok('errors', t.end == 'stop' and (('a' in t) if bad else 'nker' in t and 'a' not in t), fl, 'no error is overlooked', path=t.path())
    for e in adds:
        if e.a[-1] == 'append':
            xs = _items(e.a[1])
            ck.ok('errors', len(xs) == 4, e, 'errors say what went wrong')
            if len(xs) == 4 and fl.match('_.ename', xs[0]) is not None:
                ck.ok('errors', all(fl.match(p, x) is not None for p, x in zip(('_.ename', '_.evalue', '_.traceback', '_.engine_info'), xs)), e, 'errors say what went wrong')
    ce = ck.F('error:CompositeError.__init__')
    ck.every('errors', ce, dict(m=store('self.msg', 'message'), l=store('self.elist', 'elist')), lambda t: t.count('m') == t.count('l') == 1, 'errors are kept')
    un = ck.F('error:unwrap_exception')
    for t in rets(un):
        a = t.ret.a[1] if t.ret.op == 'call' else ()
        kw = {k: v for k, v in t.ret.a[2] if k} if t.ret.op == 'call' else {}
        vals = [argof(t.ret, i, n) for i, n in enumerate(('ename', 'evalue', 'traceback', 'engine_info'))] if t.ret.op == 'call' else []
        pats = ("content['ename']", "content['evalue']", "any_of(_.join(content['traceback']), content['traceback'])", "any_of(content.get('engine_info', *_), content['engine_info'])")
        ck.ok('errors', len(vals) == 4 and all(v is not None and un.match(p, v) is not None for p, v in zip(pats, vals)), un, 'errors say what went wrong, and where', path=t.path())
    re_ = ck.F('error:RemoteError.__init__')
    ck.every('errors', re_, dict(n=store('self.ename', 'ename'), v=store('self.evalue', 'evalue'), t=store('self.traceback', 'traceback'), i=store('self.engine_info')), lambda t: all(t.count(k) == 1 for k in 'nvti'), 'errors say what went wrong, and where')
    we = ck.F('error:wrap_exception')
    from .common import dict_sources
    for t in rets(we):
        have = {k.a[0]: v for k, v, it in dict_sources(we, t.ret) if k is not None and k.op == 'const'}
        ck.ok('errors', set(have) >= {'status', 'traceback', 'ename', 'evalue', 'engine_info'} and have['status'] is tm.const('error') and tm.mentions(have['ename'], lambda x: we.match('sys.exc_info()[0]', x) is not None) and tm.mentions(have['evalue'], lambda x: we.match('sys.exc_info()[1]', x) is not None)
              and we.match('engine_info', have['engine_info']) is not None, we, 'errors say what went wrong, and where', path=t.path())


def showing(ck, names):
    so = ck.F(AM + 'stream_output', opaque=names)
    ys = [e for e in so.all_effects() if e.kind == 'yield']
    AP = [e for e, b in so.find(add('elem(self._children).iopub_callbacks', '_'))]
    ck.ok('stream', bool(AP), so, 'output is streamed')
    for e in AP:
        h = so.loop_of(e.node)
        it = so.val(h, h.term) if h is not None else None
        ck.ok('stream', it is not None and iter_covers(so, it, 'self._children', True), e, 'output of all requests is streamed')
        for t in so.body_traces(h, dict(a=is_eff(e))):
            ck.ok('stream', t.end in ('return',) or 'a' in t, e, 'output of all requests is streamed', path=t.path())
    for out, err in (('text', ''), (' ', None), ('\n', 'text'), (None, ' \n'), ('', '')):
        leaf = fold.leaves(so, [('elem(self._children).output.metadata', dict(stdout=out, stderr=err, outputs=[], execute_result=None))])
        MSG = {'m': lambda e: next((x for x in e.a[0].a[1] if x.op == 'alloc' and x.a[1] == 'dict'), None) if e.kind == 'call' else None}
        for h in {so.loop_of(e.node) for e in AP}:
            for t in so.body_traces(h, {}, world=fold.literal(leaf), values=MSG):
                got = [fold.fold(x, leaf) for x in t.values('m')]
                if t.end == 'stop' and fold.UNKNOWN not in got:
                    texts = {(m['content'].get('name'), m['content'].get('text')) for m in got if m.get('header', {}).get('msg_type') == 'stream'}
                    ck.ok('stream', {x for x in (('stdout', out), ('stderr', err)) if x[1]} <= texts, so, 'output from before is streamed as well', path=t.path())
    RM = remove('_.iopub_callbacks', '_')
    rms = so.find(RM)
    ck.ok('stream', bool(rms), so, 'streaming ends')
    for e, b in rms:
        h = so.loop_of(e.node)
        if h is not None:
            for t in so.body_traces(h, dict(r=is_eff(e), gone=lit('_ not in _.iopub_callbacks'))):
                ck.ok('stream', t.end == 'stop' and ('r' in t or 'gone' in t), e, 'streaming ends for all requests', path=t.path())
    stops = {(so.loop_of(e.node) or e.node).id for e, b in rms}
    for y in ys:
        for s, lab in y.node.succ:
            ends = so.traces({}, start=s, stop=stops, exc='handled')
            ck.ok('stream', bool(ends) and all(t.end == 'stop' for t in ends), y, 'streaming ends, also when there is an error')
    do = ck.F(AM + 'display_outputs', opaque=names)
    for h in fl_loops(do):
        for t in do.body_traces(h, {}):
            ck.ok('display', t.end in ('stop', 'raise'), do, 'outputs of all requests are displayed', path=t.path())
        ck.ok('display', not tm.mentions(do.val(h, h.term), lambda x: x.op == 'call' and x.a[0].op == 'glob' and x.a[0].a[0] == 'min'), do, 'all outputs are displayed')
    ORD = [h for h in fl_loops(do) if do.match('range(_)', do.val(h, h.term)) is not None]
    PUB = call('self._republish_displaypub(_[_i], _)')
    for e, b in do.find(PUB):
        hs = enclosing(do, e.node)
        if not any(h in ORD for h in hs):
            continue
        src = e.a[0].a[1][0]
        ck.ok('display', src.a[0].op == 'elem' or src.a[0].op == 'item', e, 'outputs that are displayed in turn are those of the requests')
        g = do.loop_of(e.node)

        def short(x, a, b, src=src):
            if x.kind != 'lit':
                return None
            s = x.a[0]
            # len(outputs) <= i, in any form
            return {} if s.op == 'cmp' and tm.mentions(s, lambda y: y is src.a[1]) and tm.mentions(s, lambda y: do.match('len(_)', y) is not None and (y.a[1][0] is src.a[0])) else None

        short.desc, short.lit = 'has fewer outputs', True
        for t in do.body_traces(g, dict(p=is_eff(e), s=short)):
            ck.ok('display', t.end == 'stop' and ('p' in t or 's' in t), e, 'all outputs are displayed, in turn', path=t.path())


def interactive(ck, names):
    fl = ck.F(AM + 'wait_interactive', opaque=names)
    good, bad = fold.Rec(_success=True), fold.Rec(_success=False)
    W = call('self.wait(*_, **_)')
    for when, done, pending, want in (
        ('FIRST_EXCEPTION', [good, bad], [good], True), ('FIRST_EXCEPTION', [good], [good], False), ('FIRST_EXCEPTION', [], [good], False), ('FIRST_EXCEPTION', [good, good], [], True), ('FIRST_EXCEPTION', [bad], [], True),
        ('FIRST_COMPLETED', [good], [good], True), ('FIRST_COMPLETED', [], [good], False), ('FIRST_COMPLETED', [bad, good], [], True),
        ('ALL_COMPLETED', True, None, True), ('ALL_COMPLETED', False, None, False),
    ):
        leaf = fold.leaves(fl, [('return_when', when), ('timeout', None), ('self.ready()', False), ('self._ready', False), ('self.wait(*_, **_)', done if pending is None else (done, pending)), *((f'concurrent.futures.{x}', x) for x in ('FIRST_EXCEPTION', 'FIRST_COMPLETED', 'ALL_COMPLETED'))])
        ts = fold.cases(fl, leaf, dict(w=W))
        ends = {min(t.count('w'), 2) for t in ts if t.end == 'return'}
        if want:
            ck.ok('wait', 1 in ends, fl, f'waiting ends when the result is ready ({when})')
        else:
            ck.ok('wait', ends != {1}, fl, f'waiting does not end before the result is ready ({when})')
    pr = ck.F(AM + 'progress', opaque=names)
    for t in rets(pr):
        ck.ok('progress', not tm.mentions(t.ret, lambda x: x.op == 'call' and x.a[0].op == 'glob' and x.a[0].a[0] == 'len' and pr.match('len(self)', x) is None), pr, 'progress is counted in tasks, as the length is', path=t.path())
