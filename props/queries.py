"""Stored results: what a client asks of the hub and the engines about requests that were sent before."""

import ast

from ipa import terms as tm

from .client import _lit, effect, entry, leaves, same
from .common import add, argof, call, clear, covers, each, either, enclosing, getitem, is_eff, iter_covers, keyed, lit, prop, raises, remove, ret, store  # noqa: F401
from .result import listing
from .view import asking

C = 'client.client:Client'
CM = C + '.'
HB = 'client.asyncresult:AsyncHubResult'
AR = 'ipyparallel.client.asyncresult.AsyncResult'
AHR = 'ipyparallel.client.asyncresult.AsyncHubResult'
TABLES = ('results', 'metadata', '_futures', '_output_futures')


def opaque(ck):
    return tuple(sorted(set(ck.names(C)) | set(ck.fnames('util')) | set(ck.fnames('error')) | set(ck.fnames('serialize.serialize')) | set(ck.fnames('client.futures')) | set(ck.fnames('client.asyncresult'))))


@prop('C06', 60)
def c06(ck):
    names = opaque(ck)
    status(ck, names)
    queues(ck, names)
    history(ck, names)
    records(ck, names)
    resubmit(ck, names)
    jobs(ck, names)
    getting(ck, names)
    purging(ck, names)
    waiting(ck, names)
    aborting(ck, names)
    asking(ck)
    hubresult(ck)
    untouched(ck, names)


def flat(fl, t):
    """What a collection is made of: (source, what is left out), for each way to make it."""
    out = []
    for x in leaves(fl, t):
        if x.op == 'copy':
            out += flat(fl, x.a[0])
        elif x.op == 'call' and x.a[0].op == 'glob' and x.a[0].a[0] in ('sorted', 'dict.fromkeys', 'list', 'set', 'tuple', 'reversed', 'iter') and x.a[1]:
            out += flat(fl, x.a[1][0])
        elif x.op == 'comp' and x.a[0] != 'dict' and len(x.a[3]) == 1 and x.a[2] is tm.elem(x.a[3][0]):
            g = list(fl.comp_guards(x))
            out += [(s, o + g) for s, o in flat(fl, x.a[3][0])]
        elif x.op == 'comp' and x.a[0] != 'dict' and len(x.a[3]) == 1 and fl.match('elem(_)', x.a[2]) is not None:
            g = list(fl.comp_guards(x))
            out += [(s, o + g) for s, o in flat(fl, x.a[3][0])]
        else:
            out.append((x, []))
    return out


def distinct(fl, t):
    """Is nothing in there twice?"""
    def d(x):
        if x.op == 'copy':
            return len(x.a) > 1 and x.a[1].endswith('set') or d(x.a[0])
        if x.op == 'call' and x.a[0].op == 'glob' and x.a[1]:
            if x.a[0].a[0] in ('set', 'frozenset', 'dict.fromkeys'):
                return True
            return x.a[0].a[0] in ('sorted', 'list', 'tuple', 'iter', 'reversed') and d(x.a[1][0])
        if x.op == 'comp':
            return x.a[0] in ('set', 'dict') or len(x.a[3]) == 1 and d(x.a[3][0])
        if x.op == 'alloc':
            return x.a[1] in ('set', 'dict')
        if x.op == 'phi':
            return all(d(y) for y in leaves(fl, x))
        return x.op == 'item' and fl.match("_['completed']", x) is not None

    return d(t)


def asked(ck, rule, fl, mtype, once=True):
    """One request to the hub; its failure is raised. Gives the pattern of the content of the reply."""
    R = f"self._send_recv(self._query_stream, '{mtype}', *_, **_)"
    RC = f"any_of({R}['content'], {R}.get('content', *_))"
    S = f"any_of({RC}['status'], {RC}.pop('status', *_), {RC}.get('status', *_))"
    at = dict(q=call(R), good=lit(f"{S} == 'ok'"), bad=lit(f"{S} != 'ok'"), up=raises(f'self._unwrap_exception({RC})'))
    ck.exists(rule, fl, at['q'], f'the hub is asked ({mtype})')
    n = 0
    for t in fl.traces(at):
        if t.end in ('return',):
            if not ck.ok(rule, t.count('q') == 1 or not once and t.count('q') == 0, fl, f'the hub is asked once ({mtype})', path=t.path()):
                break
            if not ck.ok(rule, 'q' not in t or 'good' in t, fl, 'what the hub refuses is raised', path=t.path()):
                break
            n += 1
        elif 'bad' in t:
            if not ck.ok(rule, t.count('up') == 1, fl, 'the failure that is raised is that of the hub', path=t.path()):
                break
    ck.ok(rule, n > 0, fl, 'the answer of the hub is used')
    ck.exists(rule, fl, at['up'], 'what the hub refuses is raised')
    hits = fl.find(at['q'])
    for e, b in hits:
        others = [x for x in fl.all_effects() if x.kind == 'call' and fl.match('self._send_recv(*_, **_)', x.a[0]) is not None and x.node.id != e.node.id]
        ck.ok(rule, not [x for x in others if fl.match(R, x.a[0]) is None], e, 'nothing else is asked')
    return R, RC


def content_of(fl, R):
    out = []
    for e, b in fl.find(call(R)):
        a = e.a[0]
        v = a.a[1][2] if len(a.a[1]) > 2 else dict(a.a[2]).get('content')
        if v is not None:
            out.append((e, keyed(fl, v)))
    return out


def fields(ck, rule, fl, R, want):
    cs = content_of(fl, R)
    ck.ok(rule, bool(cs), fl, 'the request has a content')
    for e, c in cs:
        for k, test in want.items():
            vs = c.get(k, [])
            ck.ok(rule, bool(vs) and all(test(v) for v in vs), e, f'{k} is what was asked for')


def matches(fl, p):
    return lambda v: all(x.op not in ('or', 'and', 'bool') and fl.match(p, x) is not None for x in leaves(fl, v))


def status(ck, names):
    fl = ck.F(CM + 'result_status', opaque=names)
    R, RC = asked(ck, 'status', fl, 'result_request', once=False)
    ALL = 'self._msg_ids_from_jobs(msg_ids)'
    cs = content_of(fl, R)
    ck.ok('status', bool(cs), fl, 'the request has a content')

    def local(g, of='_'):
        return [p for t, p in g if fl.match('_ in self.results', t) is not None]

    shrink = [e for e in fl.all_effects() if e.kind == 'remove' and fl.match('self.results', e.a[0]) is None and not fl.match(RC, e.a[0])]
    for e, c in cs:
        vs = c.get('status_only', [])
        ck.ok('status', bool(vs) and all(fl.match('any_of(status_only, bool(status_only))', v) is not None for v in vs), e, 'results are fetched when they are asked for')
        for v in c.get('msg_ids', []) or [tm.NONE]:
            for src, out in flat(fl, v):
                ck.ok('status.ids', fl.match(ALL, src) is not None, e, f'the hub is asked for the jobs, not for {src}')
                ck.ok('status.ids', all(fl.match('_ in self.results', t) is not None and not p for t, p in out), e, 'only what is known already is left out')
                if not out:
                    # taken out one by one
                    rm = [x for x in shrink if same(fl, x.a[0], v)]
                    ck.ok('status.ids', bool(rm), e, 'what is known already is not asked for')
                    for x in rm:
                        h = fl.loop_of(x.node)
                        it = fl.val(h, h.term) if h is not None and h.term is not None else None
                        ck.ok('status.ids', it is not None and all(fl.match(ALL, s) is not None and not o for s, o in flat(fl, it)), x, 'all jobs are looked up')
                        ck.ok('status.ids', fl.match('elem(_)', x.a[1]) is not None, x, 'the one that is known is taken out')
    # what is known already
    got = [e for e in fl.all_effects() if e.kind in ('add', 'comp_elt')]
    ret_local = [e for e in fl.all_effects() if e.kind == 'add' and e.a[2] is not None and tm.mentions(e.a[2], lambda x: fl.match('self.results[_]', x) is not None) or e.kind == 'comp_elt' and tm.mentions(e.a[0], lambda x: fl.match('self.results[_]', x) is not None)] if got else []
    ck.ok('status.local', bool(ret_local), fl, 'results that are known already are among the results')
    for e in ret_local:
        v = e.a[2] if e.kind == 'add' else None
        if v is not None:
            m = fl.match('self.results[_]', v)
            ck.ok('status.local', m is not None and same(fl, v.a[1], e.a[1]), e, 'a known result is given for its own id')
            h = fl.loop_of(e.node)
            it = fl.val(h, h.term) if h is not None and h.term is not None else None
            ck.ok('status.local', it is not None and all(fl.match(ALL, s) is not None for s, o in flat(fl, it)), e, 'all jobs are looked up')
            if h is not None:
                for t in fl.body_traces(h, dict(a=is_eff(e), y=lit('_ in self.results'), n=lit('_ not in self.results'))):
                    ck.ok('status.local', t.end == 'stop' and (t.count('a') == 1) == ('n' not in t), e, 'each of the known results is used', path=t.path())
    for e in ret_local:
        if e.kind == 'add' and e.a[0].op == 'alloc':
            given = effect('local results given', lambda x, o=e.a[0]: x.kind == 'call' and (fl.match('_.update(_)', x.a[0]) is not None and any(y is o for y in leaves(fl, x.a[0].a[1][0])) or x.kind == 'add' and x.a[2] is o) or x.kind == 'store' and x.a[-1] is o)
            R_ = [x for _, b in fl.find(ret()) for x in leaves(fl, _.a[0])]
            if not any(x is e.a[0] for x in R_):
                for t in fl.traces(dict(g=given, so=lit('status_only'))):
                    ck.ok('status.local', t.end != 'return' or 'g' in t or 'so' in t, e, 'results that are known already are among the results', path=t.path())
    done = [e for e in fl.all_effects() if e.kind == 'add' and fl.match("_['completed']", e.a[0]) is not None]
    own = [e for e in done if not tm.mentions(e.a[1], lambda x: fl.match("_['completed']", x) is not None)]
    ck.ok('status.local', bool(own), fl, 'results that are known already are completed')
    # what the hub has
    recs = [e for e in fl.all_effects() if e.kind == 'add' and fl.match('self.results', e.a[0]) is not None]
    ck.ok('status.results', bool(recs), fl, 'fetched results are kept')
    for e in recs:
        mid, val = e.a[1], e.a[2]
        h = fl.loop_of(e.node)
        if not ck.ok('status.results', h is not None, e, 'all results are kept'):
            continue
        it = fl.val(h, h.term)
        order = all(x.op == 'copy' and len(x.a) > 1 and x.a[1].startswith('sorted') or fl.match("_['completed']", x) is not None for x in (leaves(fl, it)))
        ck.ok('status.buffers', order, e, 'buffers are taken in the order in which the hub sends them')
        ck.ok('status.buffers', distinct(fl, it), e, 'no buffers are taken twice')
        vs = [s for s, o in flat(fl, it)]
        ck.ok('status.results', all(fl.match(ALL, s) is not None or fl.match("_['completed']", s) is not None for s in vs), e, 'all results are kept')
        REC = effect('record', lambda x: False)
        rec = lambda x, k: _rec(fl, x, mid, k)  # noqa: E731
        OKS = _lit(lambda x: fl.match("_['status'] == 'ok'", x) is not None and _of(fl, x, mid), True)
        NOK = _lit(lambda x: fl.match("_['status'] == 'ok'", x) is not None and _of(fl, x, mid), False)
        kinds = {k: (_lit(lambda x, k=k: fl.match(f"_ == '{k}_reply'", x) is not None and _of(fl, x, mid), True)) for k in ('apply', 'execute')}
        at = dict(ok=OKS, nok=NOK, ap=kinds['apply'], ex=kinds['execute'], put=is_eff(e),
                  inn=_lit(lambda x: fl.match("_ in _['completed']", x) is not None and same(fl, x.a[1], mid), True), out=_lit(lambda x: fl.match("_ in _['completed']", x) is not None and same(fl, x.a[1], mid), False),
                  des=call('ipyparallel.serialize.serialize.deserialize_object(*_, **_)'), des2=call('ipyparallel.serialize.deserialize_object(*_, **_)'),
                  give=effect('content[id]', lambda x: x.kind == 'add' and same(fl, x.a[1], mid) and fl.match('any_of(self.results, self.metadata)', x.a[0]) is None and x.a[2] is val),
                  md=effect('metadata', lambda x: x.kind == 'call' and fl.match('self.metadata[_].update(self._extract_metadata(*_))', x.a[0]) is not None and same(fl, x.a[0].a[0].a[0].a[1], mid)),
                  io=effect('output', lambda x: x.kind == 'call' and fl.match("self.metadata[_].update(_['io'])", x.a[0]) is not None and same(fl, x.a[0].a[0].a[0].a[1], mid) and _of(fl, x.a[0].a[1][0], mid)))
        n = 0
        for t in fl.body_traces(h, at):
            if t.end == 'stop' and 'put' not in t:
                ck.ok('status.results', 'out' in t, e, 'a result that is there is kept', path=t.path())
            elif t.end == 'stop':
                n += 1
                d = t.count('des') + t.count('des2')
                ok = 'out' not in t and t.count('give') == 1 and t.count('md') == 1 and t.count('io') == 1 and t.before('md', 'io')
                if not ck.ok('status.results', ok, e, 'a result is given, and kept with its metadata and output', path=t.path()):
                    break
                if not ck.ok('status.results', ('ok' in t) != ('nok' in t) and (d == 1) == ('ap' in t and 'ok' in t), e, 'the result of an apply is restored once, in all other cases buffers are left alone', path=t.path()):
                    break
            elif t.end == 'return':
                ck.ok('status.results', False, e, 'all results are kept', path=t.path())
        ck.ok('status.results', n > 0, e, 'results are kept')
        for x in leaves(fl, val):
            restored = fl.match('ipyparallel.serialize.deserialize_object(_)[0]', x) is not None
            ex = fl.match('ipyparallel.client.client.ExecuteReply(_, _, _)', x) is not None and same(fl, x.a[1][0], mid) and _of(fl, x.a[1][1], mid)
            er = fl.match('self._unwrap_exception(_)', x) is not None and _of(fl, x.a[1][0], mid)
            ck.ok('status.results', restored or ex or er, e, f'a result is what the record says, not {x}')
    for e, b in fl.find(call('ipyparallel.serialize.deserialize_object(*_)')):
        v = e.a[0].a[1][0]
        ls = leaves(fl, v)
        first = [x for x in ls if fl.match("any_of(_['buffers'], _.get('buffers', *_))", x) is not None]
        rest = [x for x in ls if fl.match('ipyparallel.serialize.deserialize_object(_)[1]', x) is not None]
        ck.ok('status.buffers', v.op == 'phi' and first and rest and len(first) + len(rest) == len([x for x in ls if x is not tm.NONE and not (x.op == 'undef')]), e, 'each result is restored from what the ones before it left')
        ck.ok('status.buffers', all(fl.match(R, (x.a[0] if x.op == 'item' else x.a[0].a[0])) is not None for x in first), e, 'buffers are those of the reply')
    # what was found in the hub's record
    for e, b in fl.find(call('self._extract_metadata(*_)')):
        m = keyed(fl, e.a[0].a[1][0])
        for k, f in (('content', 'result_content'), ('parent_header', 'header'), ('header', 'result_header'), ('metadata', 'result_metadata')):
            ck.ok('status.metadata', bool(m.get(k)) and all(_field(fl, v, f) for v in m[k]), e, f'the {k} of a result is the {f} of its record')
    at = dict(so=lit('status_only'), no=lit('not status_only'), fail=raises('any_of(ipyparallel.error.collect_exceptions(*_), _[0])'), col=call('ipyparallel.error.collect_exceptions(*_)'))
    ck.every('status.failures', fl, at, lambda t: ('so' in t) != ('no' in t) and t.count('col') == t.count('no'), 'failures are raised when results are asked for')
    fails = [e for e in fl.all_effects() if e.kind == 'add' and e.a[0].op == 'alloc' and tm.mentions(e.a[1], lambda x: fl.match('self._unwrap_exception(_)', x) is not None) and fl.match('self._unwrap_exception(_)', e.a[1]) is not None]
    ck.ok('status.failures', bool(fails), fl, 'failures are gathered')
    for e, b in fl.find(at['col']):
        ck.ok('status.failures', any(any(x is f.a[0] for x in leaves(fl, e.a[0].a[1][0])) for f in fails) or fl.match("any_of(_['content'])", e.a[0].a[1][0]) is not None, e, 'all failures are raised')
    for e, b in fl.find(ret()):
        v = e.a[0]
        ck.ok('status', all(fl.match(RC, x) is not None or x.op == 'alloc' for x in leaves(fl, v)), e, 'the answer is that of the hub')


def _rec(fl, x, mid, k):
    return fl.match(f"_[_]['{k}']", x) is not None and same(fl, x.a[0].a[1], mid)


def _of(fl, x, mid):
    """Does x come from the record of this id?"""
    return _every(fl, x, lambda z: z.op in ('item', 'get') and (z.a[1] is mid or same(fl, z.a[1], mid)))


def _every(fl, t, pred, seen=()):
    """Does each alternative of t have a part like that?"""
    if t.op == 'phi':
        if t in seen:
            return False
        ls = leaves(fl, t)
        return bool(ls) and all(_every(fl, y, pred, seen + (t,)) for y in ls)
    return pred(t) or any(_every(fl, y, pred, seen) for y in tm.children(t))


def _field(fl, v, f):
    ls = leaves(fl, v)
    return bool(ls) and all(tm.mentions(x, lambda y: y.op in ('item', 'get') and y.a[1] is tm.const(f) or y.op == 'call' and fl.match(f"_.get('{f}', *_)", y) is not None) for x in ls)


def queues(ck, names):
    fl = ck.F(CM + 'queue_status', opaque=names)
    R, RC = asked(ck, 'queues', fl, 'queue_request')
    T = 'self._build_targets(targets)[1]'
    fields(ck, 'queues', fl, R, dict(targets=matches(fl, f'any_of({T}, None)'), verbose=matches(fl, 'any_of(verbose, bool(verbose))')))
    al, no = lit("targets == 'all'"), lit("targets != 'all'")
    ck.every('queues', fl, dict(al=al, no=no, b=call('self._build_targets(targets)')), lambda t: ('b' in t) or 'al' in t, 'engines are asked for by their ids')
    for e, c in content_of(fl, R):
        for v in c.get('targets', []):
            for p in ([x for _, x in fl.phi_ops.get(v, ())] or [v]):
                if p is tm.NONE:
                    ck.ok('queues', v.op == 'phi', e, 'only all engines are left to the hub')
    INTS = f'any_of(ipyparallel.util.int_keys({RC}), {RC})'
    one, many = lit('isinstance(targets, int)'), lit('not isinstance(targets, int)')
    for t in fl.traces(dict(one=one, many=many, al=al), retval=True):
        if t.end != 'return' or t.ret is None:
            continue
        if 'one' in t:
            # a negative one is a different key
            ck.ok('queues', fl.match(f'{INTS}[{T}[0]]', t.ret) is not None or fl.match(f'{INTS}[any_of({T}, _)[0]]', t.ret) is not None, fl, 'a single engine is looked up by the id it has', path=t.path())
        else:
            ck.ok('queues', fl.match(INTS, t.ret) is not None, fl, 'the status is that of all targets', path=t.path())
    ck.ok('queues', any(fl.match('ipyparallel.util.int_keys(_)', e.a[0]) is not None for e in fl.all_effects() if e.kind == 'call'), fl, 'engines have integer ids')


def history(ck, names):
    fl = ck.F(CM + 'hub_history', opaque=names)
    R, RC = asked(ck, 'history', fl, 'history_request')
    for e, b in fl.find(ret()):
        ck.ok('history', fl.match(f"any_of({RC}['history'], list({RC}['history']))", e.a[0]) is not None, e, 'the history is that of the hub')


def records(ck, names):
    fl = ck.F(CM + 'db_query', opaque=names)
    R, RC = asked(ck, 'records', fl, 'db_request')
    fields(ck, 'records', fl, R, dict(query=matches(fl, 'query'), keys=matches(fl, 'any_of(keys, [keys])')))
    RECS = f"{RC}['records']"
    for e, b in fl.find(ret()):
        ck.ok('records', fl.match(RECS, e.a[0]) is not None or listing(fl, e.a[0], '_', RECS), e, 'all records are returned')
    REC = f'elem({RECS})'
    for k, l in (('buffers', 'buffer_lens'), ('result_buffers', 'result_buffer_lens')):
        adds = [e for e in fl.all_effects() if e.kind == 'add' and fl.match(REC, e.a[0]) is not None and e.a[1] is tm.const(k)]
        if not ck.ok('records.buffers', len(adds) == 1, fl, f'{k} are put back'):
            continue
        e = adds[0]
        h = fl.loop_of(e.node)
        ck.ok('records.buffers', covers(fl, h, RECS, ordered=True), e, 'buffers are put back in the order of the records')
        LEN = f"{RC}['{l}'][idx({RECS})]"
        LEN = f"any_of({LEN}, {RC}['{l}'][_], elem({RC}['{l}']))"
        v = e.a[2]
        got = v.op == 'item' and v.a[1].op == 'slice' and _unset(v.a[1].a[0]) and fl.match(LEN, v.a[1].a[1]) is not None
        if v.op == 'comp':  # [next(it) for i in range(len)]
            got = len(v.a[3]) == 1 and fl.match(f'range({LEN})', v.a[3][0]) is not None
        ck.ok('records.buffers', got, e, f'a record gets as many {k} as the hub took out of it')
        at = dict(a=is_eff(e), some=_lit(lambda x: fl.match(f"{RC}['{l}'] is None", x) is not None, False), none=_lit(lambda x: fl.match(f"{RC}['{l}'] is None", x) is not None, True),
                  t=lit(f"{RC}['{l}']"), nt=lit(f"not {RC}['{l}']"))
        for t in fl.body_traces(h, at):
            ck.ok('records.buffers', t.end == 'stop' and (t.count('a') == 1) == ('none' not in t and 'nt' not in t), e, f'{k} are put back whenever there are any', path=t.path())
        if v.op == 'item':
            src = leaves(fl, v.a[0])
            used = [x for y in fl.all_effects() if y.kind == 'add' and fl.match(REC, y.a[0]) is not None and y.a[2].op == 'item' and y.a[2].a[1].op == 'slice' for x in leaves(fl, y.a[2].a[0])]
            left = [x for x in used if x.op == 'item' and x.a[1].op == 'slice' and x.a[0] is v.a[0] and x.a[1].a[0] is v.a[1].a[1]]
            ck.ok('records.buffers', bool(left), e, 'what a record got is not given again')
            for x in src:
                ok = fl.match(f"any_of({R}['buffers'], {R}.get('buffers', *_), iter({R}['buffers']))", x) is not None or x.op == 'item' and x.a[1].op == 'slice' and _unset(x.a[1].a[1]) and fl.match(f"{RC}[_][_]", x.a[1].a[0]) is not None
                ck.ok('records.buffers', ok, e, f'buffers are those of the reply that are left, not {x}')
                if x.op == 'item' and x.a[1].op == 'slice':
                    # what is skipped is what was just given
                    taken = [y.a[2] for y in fl.all_effects() if y.kind == 'add' and fl.match(REC, y.a[0]) is not None and y.a[2].op == 'item' and y.a[2].a[1].op == 'slice']
                    ck.ok('records.buffers', any(y.a[0] is x.a[0] and y.a[1].a[1] is x.a[1].a[0] for y in taken), e, 'what a record got is not given again, and nothing is left out')
            ck.ok('records.buffers', len(src) > 1, e, 'what a record got is not given again')
    order = dict(b=effect('buffers', lambda x: x.kind == 'add' and fl.match(REC, x.a[0]) is not None and x.a[1] is tm.const('buffers')), r=effect('result_buffers', lambda x: x.kind == 'add' and fl.match(REC, x.a[0]) is not None and x.a[1] is tm.const('result_buffers')))
    for e, b in fl.find(order['b'])[:1]:
        for t in fl.body_traces(fl.loop_of(e.node), order):
            ck.ok('records.buffers', not ('b' in t and 'r' in t) or t.before('b', 'r'), e, 'the buffers of a record come before its result buffers', path=t.path())
    for k, f in [(k, 'extract_dates') for k in ('header', 'result_header')] + [(k, '_parse_date') for k in ('submitted', 'started', 'completed', 'received')]:
        ok = [e for e in fl.all_effects() if e.kind == 'add' and fl.match(REC, e.a[0]) is not None and e.a[1] is tm.const(k) and fl.match(f"any_of(ipyparallel.util.{f}({REC}['{k}']), ipyparallel.util.extract_dates({REC}['{k}']))", e.a[2]) is not None]
        ck.ok('records.dates', bool(ok), fl, f'{k} has dates, as it had when it was stored')


def _unset(x):
    return x is None or x is tm.NONE


def resubmit(ck, names):
    fl = ck.F(CM + 'resubmit', opaque=names)
    R, RC = asked(ck, 'resubmit', fl, 'resubmit_request')
    IDS = 'self._msg_ids_from_jobs(any_of(indices_or_msg_ids, -1))'
    IDS = 'self._msg_ids_from_jobs(_)'
    fields(ck, 'resubmit', fl, R, dict(msg_ids=lambda v: iter_covers(fl, v, IDS, True)))
    for e, b in fl.find(call(IDS)):
        ck.ok('resubmit', all(fl.match('any_of(indices_or_msg_ids, -1)', x) is not None for x in leaves(fl, e.a[0].a[1][0])), e, 'the jobs that were asked for are sent again')
        v = e.a[0].a[1][0]
        ck.ok('resubmit', any(fl.match('indices_or_msg_ids', x) is not None for x in leaves(fl, v)), e, 'the jobs that were asked for are sent again')
    hs = fl.find(call(f'{AHR}(*_, **_)'))
    ck.ok('resubmit', bool(hs), fl, 'the results of the new requests are returned')
    for e, b in hs:
        a = e.a[0]
        v = a.a[1][1] if len(a.a[1]) > 1 else dict(a.a[2]).get('children', tm.NONE)
        ok = all(x.op == 'comp' and x.a[0] == 'list' and len(x.a[3]) == 1 and not fl.comp_guards(x) and iter_covers(fl, x.a[3][0], IDS, True) and fl.match(f"any_of({RC}['resubmitted'][elem({IDS})], {RC}['resubmitted'][_])", x.a[2]) is not None for x in leaves(fl, v))
        ok = ok or listing(fl, v, f"{RC}['resubmitted'][elem({IDS})]", IDS)
        ck.ok('resubmit', ok, e, 'the new requests are those of the old ones, in their order')
    blocks(ck, 'resubmit', fl, f'{AHR}(*_, **_)')


def blocks(ck, rule, fl, P):
    """Wait when told to, or by default; return the result."""
    B, NB = lit('block'), lit('not block')
    at = dict(w=call(f'any_of({P}, _).wait(*_, **_)'), b=_lit(lambda x: x.op == 'truth' and _block(fl, x.a[0]), True), nb=_lit(lambda x: x.op == 'truth' and _block(fl, x.a[0]), False))
    for t in fl.traces(at, retval=True):
        if t.end == 'return':
            ck.ok(rule, (t.count('w') == 1) == ('b' in t) and ('b' in t) != ('nb' in t), fl, 'the result is waited for when asked to', path=t.path())
            ck.ok(rule, t.ret is not None and fl.match(P, t.ret) is not None, fl, 'the result is returned', path=t.path())


def _block(fl, x):
    return any(fl.match('any_of(block, self.block)', y) is not None for y in leaves(fl, x))


def jobs(ck, names):
    fl = ck.F(CM + '_msg_ids_from_jobs', opaque=names)
    J = 'elem(_)'
    adds = [e for e in fl.all_effects() if e.kind == 'add' and e.a[0].op == 'alloc']
    i, s, a = lit(f'isinstance({J}, int)'), lit(f'isinstance({J}, str)'), lit(f'isinstance({J}, {AR})')
    if not ck.ok('jobs', bool(adds), fl, 'jobs have ids'):
        return
    heads = {fl.loop_of(e.node) for e in adds}
    ck.ok('jobs', len(heads) == 1 and None not in heads, fl, 'jobs are gone through in order')
    h = heads.pop()
    if h is None:
        return
    ck.ok('jobs', all(fl.match('any_of(jobs, [jobs])', x) is not None for x in leaves(fl, fl.val(h, h.term))), fl, 'all jobs are looked up')
    idx = effect('history', lambda e: e in adds and e.a[-1] == 'append' and fl.match(f'self.history[{J}]', e.a[1]) is not None)
    own = effect('id', lambda e: e in adds and e.a[-1] == 'append' and fl.match(J, e.a[1]) is not None)
    all_ = effect('ids', lambda e: e in adds and (e.a[-1] == 'all') and fl.match(f'any_of(elem({J}.msg_ids), {J}.msg_ids)', e.a[1]) is not None)
    for t in fl.body_traces(h, dict(i=i, s=s, a=a, idx=idx, own=own, all=all_)):
        if t.end in ('raise', 'exc'):
            ck.ok('jobs', not ({'i', 's', 'a'} & set(t.atoms)), fl, 'ids, indices and results are jobs', path=t.path())
        else:
            k = [x for x in ('i', 's', 'a') if x in t]
            ck.ok('jobs', t.end == 'stop' and len(k) == 1 and t.count('idx') == (k == ['i']) and t.count('own') == (k == ['s']) and t.count('all') == (k == ['a']), fl, 'a job is an index in the history, an id or a result', path=t.path())
    for e, b in fl.find(ret()):
        ck.ok('jobs', any(e.a[0] is x.a[0] for x in adds) or e.a[0].op == 'copy' and e.a[0].a[0] is adds[0].a[0] and len(e.a[0].a) == 1, e, 'the ids of all jobs, in order')
    # ids of the requests an engine ran
    ft = ck.F(CM + '_msg_ids_from_target', opaque=names)
    T = 'self._build_targets(targets)[0]'
    N = ('targets', '0')
    empty = [e for e, b in ft.find(ret()) if e.a[0].op == 'alloc' and not e.a[0].a[2] and not [x for x in ft.all_effects() if x.kind == 'add' and x.a[0] is e.a[0]]]
    for e in empty:
        g = ft.guards()[e.node.id]
        ck.ok('jobs.target', any(ft.match('targets', t.a[0]) is not None and not p for t, p in g if t.op == 'truth'), e, 'no targets, no jobs')
        ck.ok('jobs.target', any(ft.match('0 == targets', t) is not None and not p for t, p in g) or any(t.op in ('isnone',) or ft.match('targets is None', t) is not None for t, p in g), e, 'engine 0 is an engine')
    outs = [e for e, b in ft.find(ret()) if e not in empty]
    ck.ok('jobs.target', bool(outs), ft, 'the jobs of an engine are found')
    for e in outs:
        for x in leaves(ft, e.a[0]):
            if x.op == 'comp':
                g = ft.comp_guards(x)
                ok = ft.match('elem(self.metadata)', x.a[2]) is not None and len(x.a[3]) == 1 and iter_covers(ft, x.a[3][0], 'self.metadata')
            else:
                es = [y for y in ft.all_effects() if y.kind == 'add' and y.a[0] is x]
                ok = bool(es) and all(ft.match('elem(self.metadata)', y.a[1]) is not None and covers(ft, fl_loop(ft, y), 'self.metadata') for y in es)
                g = [z for y in es for z in ft.guards()[y.node.id] if tm.mentions(z[0], lambda q: ft.match('self.metadata[_]', q) is not None)]
            good = [(t, p) for t, p in g if p and t.op == 'cmp' and tm.mentions(t, lambda q: q.op in ('item', 'get') and q.a[1] is tm.const('engine_uuid') or q.op == 'call' and ft.match("_.get('engine_uuid', *_)", q) is not None)]
            ck.ok('jobs.target', ok and len(good) == 1 and len(g) == 1, e, 'the jobs of an engine are those whose metadata say so')
            for t, p in good:
                src = t.a[2]
                dec = all(y.op == 'comp' and ft.match(f'elem({T}).decode(*_)', y.a[2]) is not None and not ft.comp_guards(y) for y in leaves(ft, src)) or any(
                    z.kind == 'add' and any(z.a[0] is y for y in leaves(ft, src)) and ft.match(f'elem({T}).decode(*_)', z.a[1]) is not None for z in ft.all_effects())
                ck.ok('jobs.target', t.a[0] == 'in' and dec, e, 'engines are known by the text of their uuids')


def fl_loop(fl, e):
    return fl.loop_of(e.node)


def getting(ck, names):
    gr = ck.F(CM + 'get_result', opaque=names)
    P = 'self._asyncresult_from_jobs(_, *_, **_)'
    for e, b in gr.find(call(P)):
        a = e.a[0]
        ck.ok('get', all(gr.match('any_of(indices_or_msg_ids, -1)', x) is not None for x in leaves(gr, a.a[1][0])) and any(gr.match('indices_or_msg_ids', x) is not None for x in leaves(gr, a.a[1][0])), e, 'the jobs that were asked for')
        own = dict(a.a[2]).get('owner') or (a.a[1][1] if len(a.a[1]) > 1 else None)
        ck.ok('get', own is not None and gr.match('owner', own) is not None, e, 'whoever owns a result cleans up')
        last = [t for t, p in gr.guards()[e.node.id]]
    for n in gr.order:
        pass
    blocks(ck, 'get', gr, P)
    fl = ck.F(CM + '_asyncresult_from_jobs', opaque=names)
    LOCAL, HUB = f'{AR}(*_, **_)', f'{AHR}(*_, **_)'
    made = {k: fl.find(call(p)) for k, p in (('local', LOCAL), ('hub', HUB))}
    made['local'] = [x for x in made['local'] if fl.match(HUB, x[0].a[0]) is None]
    for k, es in made.items():
        ck.ok('get', bool(es), fl, f'{k} results can be had')
        for e, b in es:
            kw = dict(e.a[0].a[2])
            ck.ok('get', 'owner' in kw and fl.match('owner', kw['owner']) is not None and e.a[0].a[1] and fl.match('self', e.a[0].a[1][0]) is not None, e, 'the result belongs to whoever asked for it')
    for e, b in fl.find(ret()):
        ck.ok('get', all(fl.match(f'any_of({LOCAL}, {HUB})', x) is not None for x in leaves(fl, e.a[0])), e, 'a result is returned')
    if not (made['local'] and made['hub']):
        return
    lists = {}
    for k, es in made.items():
        v = es[0][0].a[0].a[1][1] if len(es[0][0].a[0].a[1]) > 1 else dict(es[0][0].a[0].a[2]).get('children')
        ls = leaves(fl, v)
        lists[k] = [x for x in ls if x.op == 'alloc']
        one = [x for x in ls if x.op == 'item']
        ck.ok('get', bool(lists[k]) and len(lists[k]) + len(one) == len(ls) and all(any(x.a[0] is y for y in lists[k]) and x.a[1] is tm.const(0) for x in one), es[0][0], 'a single job has a single result')
        e = es[0][0]
        gs = fl.guards()
    F, I = lists['local'], lists['hub']
    adds = [e for e in fl.all_effects() if e.kind == 'add' and e.a[0].op == 'alloc']
    fadd = [e for e in adds if any(e.a[0] is x for x in F)]
    iadd = [e for e in adds if any(e.a[0] is x for x in I)]
    heads = {fl.loop_of(e.node) for e in fadd + iadd}
    if not ck.ok('get.all', len(heads) == 1 and None not in heads and fadd and iadd, fl, 'jobs are looked up one by one, in order'):
        return
    h = heads.pop()
    ck.ok('get.all', all(fl.match('any_of(jobs, [jobs])', x) is not None for x in leaves(fl, fl.val(h, h.term))), fl, 'all jobs are looked up')

    def job(x):
        return all(fl.match('any_of(elem(_), self.history[elem(_)])', y) is not None for y in leaves(fl, x))

    FU = effect('the request itself', lambda e: e in fadd and e.a[-1] == 'append' and all(fl.match('any_of(self._futures.get(_, *_), self._futures[_])', y) is not None and job(y.a[1][0] if y.op == 'call' else y.a[1]) for y in leaves(fl, e.a[1])))
    NEW = 'ipyparallel.client.futures.MessageFuture(_)'
    new = effect('a known result', lambda e: e in fadd and e.a[-1] == 'append' and fl.match(NEW, e.a[1]) is not None and job(e.a[1].a[1][0]))
    kids = effect('the requests of a result', lambda e: e in fadd and e.a[-1] == 'all' and tm.mentions(e.a[1], lambda y: fl.match('_._children', y) is not None and job(y.a[0])))
    idx1 = effect('id', lambda e: e in iadd and e.a[-1] == 'append' and job(e.a[1]))
    idn = effect('ids', lambda e: e in iadd and e.a[-1] == 'all' and tm.mentions(e.a[1], lambda y: fl.match('_.msg_ids', y) is not None and job(y.a[0])))
    miss = effect('not here', lambda e: e.kind == 'add' and e.a[0].op == 'alloc' and not any(e.a[0] is x for x in F + I) or e.kind == 'store' and False)

    def isa(what, pol):
        return _lit(lambda x: x.op == 'truth' and fl.match(f'isinstance(_, {what})', x.a[0]) is not None and job(x.a[0].a[1][0]), pol)

    at = dict(str=isa('str', True), ar=isa(AR, True), fu=FU, new=new, kids=kids, i1=idx1, iN=idn, miss=miss,
              infu=_lit(lambda x: fl.match('_ in self._futures', x) is not None or x.op == 'truth' and fl.match('self._futures.get(_, *_)', x.a[0]) is not None, True), nofu=_lit(lambda x: fl.match('_ in self._futures', x) is not None or x.op == 'truth' and fl.match('self._futures.get(_, *_)', x.a[0]) is not None, False),
              inres=_lit(lambda x: fl.match('_ in self.results', x) is not None, True), nores=_lit(lambda x: fl.match('_ in self.results', x) is not None, False),
              set=effect('set_result', lambda e: e.kind == 'call' and fl.match(f'{NEW}.set_result(self.results[_])', e.a[0]) is not None and job(e.a[0].a[1][0].a[1])),
              md=effect('metadata', lambda e: e.kind == 'store' and e.a[1] == 'metadata' and fl.match('self.metadata[_]', e.a[2]) is not None and job(e.a[2].a[1])),
              out=effect('output', lambda e: e.kind == 'call' and fl.match(f'any_of({NEW}.output, concurrent.futures.Future()).set_result(*_)', e.a[0]) is not None),
              has=_lit(lambda x: x.op == 'truth' and fl.match('_._children', x.a[0]) is not None and job(x.a[0].a[0]), True), hasnt=_lit(lambda x: x.op == 'truth' and fl.match('_._children', x.a[0]) is not None and job(x.a[0].a[0]), False))
    seen = set()
    for t in fl.body_traces(h, at):
        if t.end == 'return':
            ck.ok('get.all', False, fl, 'all jobs are looked up', path=t.path())
        if t.end != 'stop':
            continue
        k = 'str' if 'str' in t else 'ar' if 'ar' in t else None
        seen.add(k)
        n = t.count('fu') + t.count('new') + t.count('kids')
        if k == 'str':
            # an id: each of them is noted, and found here or missed
            ok = t.count('i1') == 1 and t.count('iN') == 0 and n + t.count('miss') == 1
            ok = ok and ('fu' not in t or 'nofu' not in t) and (t.count('new') == t.count('set') == t.count('md') == t.count('out')) and ('new' not in t or 'nores' not in t)
            ok = ok and ('miss' not in t or {'nofu', 'nores'} <= set(t.atoms)) and 'kids' not in t
        elif k == 'ar':
            ok = t.count('iN') == 1 and t.count('i1') == 0 and 'fu' not in t and 'new' not in t and (t.count('kids') == 1) == ('miss' not in t)
            ok = ok and ('kids' not in t or 'hasnt' not in t) and ('miss' not in t or 'hasnt' in t)
        else:
            ok = False
        if not ck.ok('get.all', ok, fl, 'each job is one of the results, or missing here', path=t.path()):
            break
    ck.ok('get.all', {'str', 'ar'} <= seen, fl, 'ids and results can be looked up')
    # one that is missing here, and all of them are asked of the hub
    missing = {e.a[0] for e in adds if not any(e.a[0] is x for x in F + I)}
    for e, b in made['local'] + made['hub']:
        hub = fl.match(HUB, e.a[0]) is not None
        g = [(t.a[0], p) for t, p in fl.guards()[e.node.id] if t.op == 'truth' and t.a[0] in missing]
        ck.ok('get.all', [p for _, p in g] == [hub], e, 'the hub is asked exactly when something is missing here')
    ck.ok('get.all', len(missing) == 1, fl, 'what is missing here is known')
    single = [e for e in fl.all_effects() if e.kind == 'call' and fl.match('isinstance(jobs, _)', e.a[0]) is not None]
    ck.ok('get', bool(single), fl, 'one job or many')


def purging(ck, names):
    fl = ck.F(CM + 'purge_local_results', opaque=names)
    rules = {}
    J, T = 'self._msg_ids_from_jobs(jobs)', 'self._msg_ids_from_target(targets)'
    al, no = lit("jobs == 'all'"), lit("jobs != 'all'")
    OUT, SOME = _lit(lambda x: x.op == 'truth' and fl.match('self.outstanding', x.a[0]) is not None, True), _lit(lambda x: x.op == 'truth' and fl.match('self.outstanding', x.a[0]) is not None, False)

    def over(x):
        some = lambda y: fl.match('any_of(self.outstanding.intersection(_), self.outstanding & _, _ & self.outstanding, _.intersection(self.outstanding))', y) is not None or y.op == 'comp' and len(y.a[3]) == 1 and any(fl.match('_ in self.outstanding', c) is not None and p for c, p in fl.comp_guards(y))  # noqa: E731
        return any(some(y) for y in leaves(fl, x))

    def apart(x):
        return fl.match('any_of(self.outstanding.isdisjoint(_), _.isdisjoint(self.outstanding))', x) is not None

    at = dict(al=al, no=no, out=OUT, none=SOME, part=_lit(lambda x: x.op == 'truth' and over(x.a[0]), True), nopart=_lit(lambda x: x.op == 'truth' and over(x.a[0]), False), part2=_lit(lambda x: x.op == 'truth' and apart(x.a[0]), False))
    for k in TABLES:
        at['c' + k] = effect(f'{k}.clear()', lambda e, k=k: e.kind == 'clear' and fl.match(f'self.{k}', e.a[0]) is not None or e.kind == 'store' and e.a[1] == k and e.a[2].op == 'alloc' and not e.a[2].a[2])
    for t in fl.traces(at):
        if t.end != 'return':
            ck.ok('purge.local', not any(t.count('c' + k) for k in TABLES), fl, 'nothing is purged when that is refused', path=t.path())
        elif 'al' in t:
            ck.ok('purge.local', all(t.count('c' + k) == 1 for k in TABLES) and 'none' in t, fl, 'everything is purged, unless there are outstanding tasks', path=t.path())
        else:
            ck.ok('purge.local', not any(t.count('c' + k) for k in TABLES) and 'part' not in t and 'part2' not in t, fl, 'outstanding tasks are not purged', path=t.path())
    rem = {k: [e for e in fl.all_effects() if e.kind == 'remove' and fl.match(f'self.{k}', e.a[0]) is not None] for k in TABLES}
    for k, es in rem.items():
        if not ck.ok('purge.local', bool(es), fl, f'{k} of the jobs are purged'):
            continue
        for e in es:
            h = fl.loop_of(e.node)
            ck.ok('purge.local', h is not None and e.a[1] is tm.elem(fl.val(h, h.term)) or h is not None and fl.match('elem(_)', e.a[1]) is not None, e, 'each job is purged')
            ck.ok('purge.local', fl.match(f'self.{k}.pop(_, _)', _callterm(fl, e)) is not None or any(fl.match(f'_ in self.{k}', t) is not None and p for t, p in fl.guards()[e.node.id]), e, 'a job that is not known is no reason to stop')
            if h is None:
                continue
            it = leaves(fl, fl.val(h, h.term))
            parts = [y.a[1] for y in fl.all_effects() if y.kind == 'add' and any(y.a[0] is x for x in it)] + it + [z for x in it if x.op in ('bin', 'call') for z in _operands(x)]
            for p in (J, T):
                ck.ok('purge.local', any(tm.mentions(x, lambda y: fl.match(p, y) is not None) for x in parts), e, 'jobs and those of the targets are purged')
            for t in fl.body_traces(h, dict(a=is_eff(e))):
                ck.ok('purge.local', t.end == 'stop' and t.count('a') == 1, e, 'each job is purged', path=t.path())
            # nothing outstanding among them
            tests = [(t, p) for t, p in fl.guards()[h.id] if t.op == 'truth']
            ck.ok('purge.local', any(not p and over(t.a[0]) or p and apart(t.a[0]) for t, p in tests), e, 'outstanding tasks are not purged')
            added = [y for y in fl.all_effects() if y.kind == 'add' and any(y.a[0] is x for x in it)]
            for k_, P in (('j', J), ('t', T)):
                ys = [y for y in added if tm.mentions(y.a[1], lambda z: fl.match(P, z) is not None)]
                if not ys or any(tm.mentions(x, lambda z: fl.match(P, z) is not None) for x in it):
                    continue
                for t in fl.traces(dict(y=effect('added', lambda z, ys=ys: any(z is y for y in ys)), al=al)):
                    ck.ok('purge.local', t.end != 'return' or 'y' in t or 'al' in t, e, 'jobs and those of the targets are purged', path=t.path())
    zero(ck, 'purge.local', fl)
    fh = ck.F(CM + 'purge_hub_results', opaque=names)
    R, RC = asked(ck, 'purge.hub', fh, 'purge_request')
    B = 'self._build_targets(targets)[1]'
    for e, c in content_of(fh, R):
        for v in c.get('msg_ids', [tm.NONE]):
            ck.ok('purge.hub', all(fh.match(f"any_of('all', jobs, {J})", x) is not None for x in leaves(fh, v)) and any(fh.match(J, x) is not None for x in leaves(fh, v)), e, 'the jobs are purged')
        for v in c.get('engine_ids', [tm.NONE]):
            ls = leaves(fh, v)
            ck.ok('purge.hub', any(fh.match(B, x) is not None for x in ls), e, 'engines are known by their ids')
            ck.ok('purge.hub', all(fh.match(B, x) is not None or x.op == 'alloc' and not x.a[2] for x in ls), e, f'the hub takes a list of engines, even when there are none')
    tr, ntr, z = lit('targets'), lit('not targets'), lit('targets == 0')
    nz = lit('targets != 0')
    ck.every('purge.hub', fh, dict(tr=tr, ntr=ntr, z=z, nz=nz, b=call('self._build_targets(targets)')), lambda t: t.count('b') == 1 or 'ntr' in t and 'nz' in t, 'engine 0 is an engine')
    ck.every('purge.hub', fh, dict(al=al, no=no, j=call(J)), lambda t: 'j' in t or 'al' in t, 'jobs are purged by their ids')
    zero(ck, 'purge.hub', fh)
    fp = ck.F(CM + 'purge_results', opaque=names)
    at = dict(l=call('self.purge_local_results(*_, **_)'), h=call('self.purge_hub_results(*_, **_)'))
    ck.every('purge.both', fp, at, lambda t: t.count('l') == t.count('h') == 1 and t.before('l', 'h'), 'results are purged here, and if that is allowed in the hub')
    for k in ('l', 'h'):
        for e, b in fp.find(at[k]):
            a, kw = e.a[0].a[1], dict(e.a[0].a[2])
            ck.ok('purge.both', fp.match('jobs', kw.get('jobs') or (a[0] if a else tm.NONE)) is not None and fp.match('targets', kw.get('targets') or (a[1] if len(a) > 1 else tm.NONE)) is not None, e, 'the same is purged in both places')
    fe = ck.F(CM + 'purge_everything', opaque=names)
    at = dict(p=call("self.purge_results('all', *_, **_)"), pk=call("self.purge_results(jobs='all', **_)"), h=either(store('self.history', '[]'), clear('self.history')), d=clear('self.session.digest_history'))
    ck.every('purge.everything', fe, at, lambda t: t.count('p') + t.count('pk') == 1 and t.count('h') == 1 and max(t.atoms.index('p') if 'p' in t.atoms else -1, t.atoms.index('pk') if 'pk' in t.atoms else -1) < t.atoms.index('h'), 'everything is purged, and the history after it')


def _operands(x):
    if x.op == 'bin':
        return [x.a[1], x.a[2]]
    if x.op == 'call':
        return list(x.a[1]) + ([x.a[0].a[0]] if x.a[0].op == 'attr' else [])
    return []


def _callterm(fl, e):
    for x in fl.all_effects():
        if x.kind == 'call' and x.node is e.node:
            return x.a[0]
    return tm.NONE


def zero(ck, rule, fl):
    """0 is an engine and the first job, an error is raised only when nothing at all is given."""
    for e, b in fl.find(raises('ValueError(*_)')):
        g = fl.guards()[e.node.id]
        for v in ('targets', 'jobs'):
            ck.ok(rule, any(fl.match(f'0 == {v}', t) is not None and not p or fl.match(f'{v} is None', t) is not None and p for t, p in g), e, f'{v} may be 0')
            ck.ok(rule, any(t.op == 'truth' and fl.match(v, t.a[0]) is not None and not p or fl.match(f'{v} is None', t) is not None and p for t, p in g), e, f'only what is called without {v} is refused')


def waiting(ck, names):
    fl = ck.F(CM + 'wait', opaque=names)
    F = call('self._await_futures(_, timeout)')
    aw = fl.find(call('self._await_futures(*_, **_)'))
    ck.ok('wait', bool(aw), fl, 'jobs are waited for')
    adds = [e for e in fl.all_effects() if e.kind == 'add' and e.a[0].op == 'alloc']
    for e, b in aw:
        a, kw = e.a[0].a[1], dict(e.a[0].a[2])
        t = kw.get('timeout') or (a[1] if len(a) > 1 else tm.NONE)
        ck.ok('wait', fl.match('timeout', t) is not None, e, 'no longer than asked to')
        fs = kw.get('futures') or a[0]
        ours = [x for x in adds if any(x.a[0] is y for y in leaves(fl, fs))]
        some = [x for x in ours if tm.mentions(x.a[1], lambda y: fl.match('self._futures_for_msgs(_)', y) is not None)] or [y for y in leaves(fl, fs) if tm.mentions(y, lambda z: fl.match('self._futures_for_msgs(_)', z) is not None)]
        ck.ok('wait', bool(some), e, 'jobs that are known by their ids are waited for')
        extra = [x for x in ours if fl.match('elem(any_of(jobs, [jobs]))', x.a[1]) is not None]
        ck.ok('wait', bool(extra), e, 'futures are waited for')
    ids = [e.a[0].a[1][0] for e, b in fl.find(call('self._futures_for_msgs(*_)'))]
    for v in ids:
        ls = leaves(fl, v)
        for x in ls:
            if x.op == 'alloc':
                mine = [y for y in adds if y.a[0] is x]
                hs = {fl.loop_of(y.node) for y in mine}
                ck.ok('wait', len(hs) == 1 and None not in hs, fl, 'all jobs are gone through')
                for h in hs:
                    if h is None:
                        continue
                    ck.ok('wait', all(fl.match('any_of(jobs, [jobs])', y) is not None for y in leaves(fl, fl.val(h, h.term))), fl, 'all jobs are gone through')
                    JB = 'elem(any_of(jobs, [jobs]))'
                    at = dict(i=lit(f'isinstance({JB}, int)'), ar=lit(f'isinstance({JB}, {AR})'), fut=lit(f"hasattr({JB}, 'add_done_callback')"), fut2=lit(f'ipyparallel.util._is_future({JB})'), fut3=lit(f'ipyparallel.client.client._is_future({JB})'),
                              idx=effect('index', lambda e: e in mine and any(fl.match(f'self.history[{JB}]', z) is not None for z in leaves(fl, e.a[1]))), own=effect('id', lambda e: e in mine and e.a[-1] in ('add', 'append') and all(fl.match(f'any_of({JB}, self.history[{JB}])', z) is not None for z in leaves(fl, e.a[1]))),
                              all=effect('ids', lambda e: e in mine and e.a[-1] == 'all' and tm.mentions(e.a[1], lambda z: fl.match(f'{JB}.msg_ids', z) is not None)),
                              f=effect('future', lambda e: e in adds and e not in mine and e.a[-1] == 'append' and fl.match(JB, e.a[1]) is not None), ind=getitem('self.history', '_'))
                    for t in fl.body_traces(h, at):
                        if t.end != 'stop':
                            ck.ok('wait', t.end in ('raise', 'exc'), fl, 'all jobs are waited for', path=t.path())
                            continue
                        n = t.count('all') + t.count('f') + t.count('own')
                        good = n == 1 and ('i' not in t or 'ind' in t) and ('ar' not in t or 'all' in t) and (not ({'fut', 'fut2', 'fut3'} & set(t.atoms)) or 'f' in t)
                        ck.ok('wait', good, fl, 'every job is waited for', path=t.path())
            else:
                ck.ok('wait', fl.match('any_of(self.outstanding)', x) is not None or x.op == 'copy' and fl.match('self.outstanding', x.a[0]) is not None or x.op == 'call' and fl.match('any_of(set, list)(self.outstanding)', x) is not None, fl, 'everything outstanding is waited for by default')
                ck.ok('wait', fl.match('self.outstanding', x) is None, fl, 'what is waited for does not change meanwhile')
    for e, b in fl.find(ret()):
        if e.a[0] is tm.const(True):
            g = fl.guards()[e.node.id]
            nothing = any(t.op == 'truth' and fl.match('self.outstanding', t.a[0]) is not None and not p for t, p in g) and any(fl.match('jobs is None', t) is not None and p for t, p in g)
            none = any(t.op == 'truth' and tm.mentions(t.a[0], lambda y: fl.match('self.outstanding', y) is not None) and not p for t, p in g) and any(t.op == 'truth' and t.a[0].op == 'alloc' and not p for t, p in g)
            ck.ok('wait', nothing or none, e, 'there is nothing to wait for only when nothing is outstanding')
        else:
            ck.ok('wait', fl.match('self._await_futures(*_, **_)', e.a[0]) is not None, e, 'whether all jobs are done')
    fm = ck.F(CM + '_futures_for_msgs', opaque=names)
    G = 'any_of(self._futures.get(elem(msg_ids), *_), self._futures[elem(msg_ids)])'
    fa = [e for e in fm.all_effects() if e.kind == 'add' and e.a[0].op == 'alloc']
    for e in fa:
        h = fm.loop_of(e.node)
        ck.ok('wait', covers(fm, h, 'msg_ids') and all(fm.match(G, x) is not None for x in leaves(fm, e.a[1])), e, 'the requests of all ids')
        for t in fm.body_traces(h, dict(a=is_eff(e), y=either(lit(G), lit('elem(msg_ids) in self._futures')), n=either(lit(f'not {G}'), lit('elem(msg_ids) not in self._futures'), lit(f'{G} is None')))):
            ck.ok('wait', t.end == 'stop' and (t.count('a') == 1) == ('n' not in t), e, 'the requests of all ids', path=t.path())
    for e, b in fm.find(ret()):
        for x in leaves(fm, e.a[0]):
            ok = any(x is y.a[0] for y in fa)
            if x.op == 'comp':
                ok = len(x.a[3]) == 1 and iter_covers(fm, x.a[3][0], 'msg_ids') and fm.match(G, x.a[2]) is not None and all(p and (fm.match('elem(msg_ids) in self._futures', t) is not None or t.op == 'truth' and fm.match(G, t.a[0]) is not None) for t, p in fm.comp_guards(x))
            ck.ok('wait', ok, e, 'the requests of all ids')
    fw = ck.F(CM + '_await_futures', opaque=names)
    M = 'ipyparallel.client.futures.multi_future(futures)'
    W = 'any_of(threading.Event(), _).wait(any_of(timeout, None), **_)'
    at = dict(none=_lit(lambda x: x.op == 'truth' and fw.match('futures', x.a[0]) is not None, False), cb=call(f'{M}.add_done_callback(_)'), w=call('_.wait(*_, **_)'))
    for t in fw.traces(at, retval=True):
        if t.end == 'return':
            if 'none' in t:
                continue
            ck.ok('wait', t.count('cb') == 1 and t.count('w') == 1 and t.before('cb', 'w') and t.ret is not None and fw.match('_.wait(*_, **_)', t.ret) is not None, fw, 'it is said whether everything is done', path=t.path())
    for e, b in fw.find(at['w']):
        a, kw = e.a[0].a[1], dict(e.a[0].a[2])
        v = a[0] if a else kw.get('timeout', tm.NONE)
        ck.ok('wait', all(fw.match('any_of(timeout, None)', x) is not None for x in leaves(fw, v)) and any(fw.match('timeout', x) is not None for x in leaves(fw, v)), e, 'no longer than asked to')
        g = [p for p in (fw.phi_ops.get(v) or ())]
    neg = [e for e in fw.all_effects()]
    for n, x in [(n, x) for ph, ops in fw.phi_ops.items() if any(fw.match('timeout', y) is not None for _, y in ops) for n, x in ops if x is tm.NONE]:
        g = fw.guards().get(n, ())
        ck.ok('wait', any(fw.match('timeout < 0', t) is not None and p or fw.match('0 > timeout', t) is not None and p or fw.match('0 <= timeout', t) is not None and not p for t, p in g), fw, 'without limit only when the timeout is negative')


def aborting(ck, names):
    fl = ck.F(CM + 'abort', opaque=names)
    S = 'self._send_control_request(*_, **_)'
    sends = fl.find(call(S))
    ck.every('abort', fl, dict(s=call(S)), lambda t: t.count('s') == 1, 'the engines are told')
    for e, b in sends:
        a, kw = e.a[0].a[1], dict(e.a[0].a[2])
        c = kw.get('content') or (a[2] if len(a) > 2 else tm.NONE)
        ty = kw.get('msg_type') or (a[1] if len(a) > 1 else tm.NONE)
        tg = kw.get('targets') or (a[0] if a else tm.NONE)
        ck.ok('abort', fl.match("'abort_request'", ty) is not None, e, 'jobs are aborted')
        ids = [x for v in keyed(fl, c).get('msg_ids', []) for x in leaves(fl, v)]
        if not ck.ok('abort', bool(ids), e, 'engines are told what to abort'):
            continue
        adds = [x for x in fl.all_effects() if x.kind == 'add' and any(x.a[0] is y for y in ids)]
        J = 'any_of(jobs, [jobs], list(self.outstanding))'

        def jb(x):
            return fl.match('elem(_)', x) is not None and all(y.op == 'copy' and fl.match('self.outstanding', y.a[0]) is not None or fl.match(J, y) is not None for y in leaves(fl, x.a[0]))

        ck.ok('abort', bool(adds), e, 'engines are told what to abort')
        hs = {fl.loop_of(x.node) for x in adds}
        for h in hs:
            if not ck.ok('abort', h is not None, e, 'all jobs are aborted'):
                continue
            at = dict(one=effect('id', lambda x: x in adds and x.a[-1] in ('append', 'add') and jb(x.a[1])), all=effect('ids', lambda x: x in adds and x.a[-1] == 'all' and tm.mentions(x.a[1], lambda y: fl.match('_.msg_ids', y) is not None and jb(y.a[0]))),
                      ar=_lit(lambda x: x.op == 'truth' and fl.match(f'isinstance(_, {AR})', x.a[0]) is not None, True), no=_lit(lambda x: x.op == 'truth' and fl.match(f'isinstance(_, {AR})', x.a[0]) is not None, False))
            for t in fl.body_traces(h, at):
                if t.end == 'stop':
                    ck.ok('abort', t.count('all') == ('ar' in t) and t.count('one') == ('ar' not in t), e, 'each job is aborted', path=t.path())
                else:
                    ck.ok('abort', t.end in ('raise', 'exc'), e, 'each job is aborted', path=t.path())
        # an empty list means everything to an engine
        empty = lambda x: x.op == 'alloc' and not x.a[2]  # noqa: E731
        ls = leaves(fl, tg)
        ck.ok('abort.nothing', all(fl.match('targets', x) is not None or empty(x) for x in ls) and any(fl.match('targets', x) is not None for x in ls), e, 'the engines that are asked for')
        full = _lit(lambda x: x.op == 'truth' and any(x.a[0] is y for y in ids), True)

        def nobody(x, a, b):
            return {} if x is e and any(empty(y) for y in a(tg)) else None

        nobody.desc = 'no targets'
        for t in fl.traces(dict(full=full, s=is_eff(e), nobody=nobody)):
            if t.end == 'return' and 's' in t:
                if not ck.ok('abort.nothing', ('full' in t) != ('nobody' in t), e, 'engines are not told to abort nothing in particular, which is everything', path=t.path()):
                    break
        B = kw.get('block') or (a[3] if len(a) > 3 else tm.NONE)
        ck.ok('abort', all(fl.match('any_of(block, self.block)', x) is not None for x in leaves(fl, B)), e, 'the reply is waited for when asked to')
    # every engine gets the request, the first failure is raised
    fc = ck.F(CM + '_send_control_request', opaque=names)
    T = 'self._build_targets(targets)[0]'
    snd = call('self._send(self._control_stream, *_, **_)')
    es = fc.find(snd)
    ck.ok('control', bool(es), fc, 'requests are sent')
    for e, b in es:
        a, kw = e.a[0].a[1], dict(e.a[0].a[2])
        ck.ok('control', fc.match('msg_type', kw.get('msg_type') or (a[1] if len(a) > 1 else tm.NONE)) is not None and fc.match('content', kw.get('content') or (a[2] if len(a) > 2 else tm.NONE)) is not None, e, 'the request is what was asked for')
        ck.ok('control', fc.match(f'elem({T})', kw.get('ident', tm.NONE)) is not None, e, 'each engine gets its own')
        h = fc.loop_of(e.node)
        if h is not None:
            ck.ok('control', covers(fc, h, T), e, 'all targets get the request')
            for t in fc.body_traces(h, dict(a=is_eff(e))):
                ck.ok('control', t.end in ('stop', 'exc', 'raise') and t.count('a') == 1, e, 'all targets get the request', path=t.path())
        else:
            ck.ok('control', any(x.op == 'comp' and iter_covers(fc, x.a[3][0], T) and not fc.comp_guards(x) and x.a[2] is e.a[0] for y in fc.all_effects() for x in tm.subterms(y.a[0]) if hasattr(tm, 'subterms')), e, 'all targets get the request')
    replies(ck, 'control', fc, 'block')
    for name, mt, content in (('send_signal', 'signal_request', dict(sig='sig')), ('clear', 'clear_request', {})):
        f = ck.F(CM + name, opaque=names)
        ck.every('control', f, dict(s=call(S)), lambda t: t.count('s') == 1, 'the engines are told')
        for e, b in f.find(call(S)):
            a, kw = e.a[0].a[1], dict(e.a[0].a[2])
            get = lambda k, i: kw.get(k) or (a[i] if len(a) > i else tm.NONE)  # noqa: E731
            ck.ok('control', f.match(f"'{mt}'", get('msg_type', 1)) is not None and f.match('targets', get('targets', 0)) is not None and all(f.match('any_of(block, self.block)', x) is not None for x in leaves(f, get('block', 3))), e, 'the request is what was asked for')
            c = keyed(f, get('content', 2))
            ck.ok('control', set(c) == set(content) and all(f.match(p, v) is not None for k, p in content.items() for v in c[k]), e, 'the request has what was asked for')
    shutdown(ck, names)


def replies(ck, rule, fl, cond):
    """All replies are waited for; one that is not ok is raised."""
    up = raises('self._unwrap_exception(_)')
    w, r = effect('wait', lambda e: e.kind == 'call' and fl.match('elem(_).wait(*_)', e.a[0]) is not None), effect('result', lambda e: e.kind == 'call' and fl.match('elem(_).result(*_)', e.a[0]) is not None)
    S = "elem(_).result(*_)['content']['status']"
    hs = {fl.loop_of(e.node) for e, b in fl.find(r)}
    ck.ok(rule, bool(hs) and None not in hs, fl, 'all replies are waited for')
    for h in hs:
        if h is None:
            continue
        for t in fl.body_traces(h, dict(r=r, good=lit(f"{S} == 'ok'"), bad=lit(f"{S} != 'ok'"), up=up, use=call('self._unwrap_exception(_)'))):
            if t.end == 'stop':
                ck.ok(rule, 'r' in t and ('good' in t or 'use' in t), fl, 'a request that failed does not go unnoticed', path=t.path())
            elif t.end in ('raise', 'exc') and 'bad' in t:
                ck.ok(rule, 'use' in t, fl, 'the failure is that of the engine', path=t.path())
            elif t.end == 'return':
                ck.ok(rule, False, fl, 'all replies are waited for', path=t.path())


def shutdown(ck, names):
    fl = ck.F(CM + 'shutdown', opaque=names)
    es = fl.find(call("self._send(self._control_stream, 'shutdown_request', *_, **_)"))
    ck.ok('shutdown', bool(es), fl, 'engines are told')
    T = 'self._build_targets(_)[0]'
    for e, b in es:
        h = fl.loop_of(e.node)
        ok = h is not None and all(fl.match(T, x) is not None or x.op == 'alloc' and not x.a[2] for x in leaves(fl, fl.val(h, h.term)))
        ck.ok('shutdown', ok and fl.match('elem(_)', dict(e.a[0].a[2]).get('ident', tm.NONE)) is not None, e, 'all targets are told')
        if h is not None:
            for t in fl.body_traces(h, dict(a=is_eff(e))):
                ck.ok('shutdown', t.end in ('stop', 'exc', 'raise') and t.count('a') == 1, e, 'all targets are told', path=t.path())
    for e, b in fl.find(call('self._build_targets(_)')):
        ls = leaves(fl, e.a[0].a[1][0])
        ck.ok('shutdown', all(fl.match("any_of(targets, 'all')", x) is not None for x in ls) and any(fl.match('targets', x) is not None for x in ls), e, 'the targets that were asked for')
    H = "self._send_recv(self._query_stream, 'shutdown_request', *_, **_)"
    at = dict(hub=lit('hub'), nohub=lit('not hub'), h=call(H), close=call('self.close()'), err=_lit(lambda x: x.op == 'truth' and any(fl.match('self._unwrap_exception(_)', y) is not None for y in leaves(fl, x.a[0])), True),
              noerr=_lit(lambda x: x.op == 'truth' and any(fl.match('self._unwrap_exception(_)', y) is not None for y in leaves(fl, x.a[0])), False), note=add('self._notification_handlers', "'shutdown_notification'"))
    heads = {h.id for e, b in fl.find(effect('result', lambda e: e.kind == 'call' and fl.match('elem(_).result(*_)', e.a[0]) is not None)) for h in [fl.loop_of(e.node)] if h is not None}
    at['each'] = effect('all replies', lambda e: e.kind == 'done' and e.node.id in heads)
    at['each'].edge = True
    for t in fl.traces(at):
        if t.end == 'return':
            ck.ok('shutdown.hub', (t.count('h') == 1) == ('hub' in t) and (t.count('close') == 1) == ('hub' in t) and 'err' not in t, fl, 'the hub is told, and the client closed, exactly when that is asked for and nothing failed', path=t.path())
            if 'h' in t:
                ck.ok('shutdown.hub', 'note' in t and t.before('note', 'h'), fl, 'the reply is not lost to a client that closes itself', path=t.path())
                ck.ok('shutdown.hub', 'each' in t and t.before('each', 'h'), fl, 'engines are shut down before the hub', path=t.path())
        elif t.end == 'raise' and 'err' in t:
            ck.ok('shutdown.hub', 'close' not in t, fl, 'a client that failed to shut down can be used to look at what is left', path=t.path())
    # engines first
    for e, b in fl.find(call(H)):
        rs = [x for x in fl.all_effects() if x.kind == 'call' and fl.match('elem(_).result(*_)', x.a[0]) is not None]
        ck.ok('shutdown.hub', bool(rs) and all(e.node.id not in {n for n in fl._reach(e.node)} & {x.node.id} for x in rs) and all(e.node.id in fl._reach(x.node) for x in rs), e, 'engines are shut down before the hub')
        every = all(x.node.id in fl._reach(e.node) for x in rs)
        ck.ok('shutdown.hub', not every, e, 'engines are shut down before the hub')
    replies(ck, 'shutdown', fl, 'block')


def hubresult(ck):
    names = tuple(sorted((set(ck.names(HB)) | set(ck.names('client.asyncresult:AsyncResult')) | set(ck.names(C)) | set(ck.fnames('error')))))
    fp = ck.F(HB + '._pending_ids', opaque=tuple(n for n in names if n != 'missing'), cls=HB)
    RS = 'self._client.result_status(_, status_only=False)'

    def missing(t):
        return all(s is not None and fp.match('self.msg_ids', s) is not None and all(fp.match('_ in self._client.results', c) is not None and not p for c, p in o) and len(o) == 1 for s, o in flat(fp, t))

    es = fp.find(call('self._client.result_status(*_, **_)'))
    ck.ok('hub.pending', bool(es), fp, 'the hub is asked for results')
    for e, b in es:
        a, kw = e.a[0].a[1], dict(e.a[0].a[2])
        so = kw.get('status_only') or (a[1] if len(a) > 1 else tm.NONE)
        ck.ok('hub.pending', fp.match('False', so) is not None, e, 'results are fetched')
        ck.ok('hub.pending', missing(a[0]), e, 'exactly those that are missing are asked for')
        # a task that failed is not a failure to ask
        hs = [x for x in e.node.succ if x[1] == 'exc']
        ck.ok('hub.pending', bool(hs), e, 'a task that failed does not keep the others from being fetched')
    for e, b in fp.find(ret()):
        v = e.a[0]
        g = fp.guards()[e.node.id]
        none = v.op == 'alloc' and not v.a[2] and any(t.op == 'truth' and missing(t.a[0]) and not p for t, p in g)
        ck.ok('hub.pending', none or missing(v), e, 'what is still missing is pending')
    # the failure of the request itself: nothing has been retrieved
    def gone(t):
        while t.op in ('copy', 'call') and (t.op == 'copy' or t.a[0].op == 'glob' and t.a[0].a[0] in ('len', 'set', 'sorted', 'list', 'tuple') and len(t.a[1]) == 1):
            t = t.a[0] if t.op == 'copy' else t.a[1][0]
        return missing(t) or t.op in ('bin', 'binop') and all(gone(x) for x in t.a[1:])

    for e, b in fp.find(raises('_')):
        lits = [(t, p) for t, p in fp.guards().get(e.node.id, ()) if t.op == 'cmp']
        ck.ok('hub.pending', any(gone(t.a[1]) and gone(t.a[2]) for t, p in lits), e, 'a task that failed does not keep the others from being fetched: only a request that brought nothing is a failure')
    for t in fp.traces(dict(q=call('self._client.result_status(*_, **_)'), some=_lit(lambda x: x.op == 'truth' and missing(x.a[0]), True), none=_lit(lambda x: x.op == 'truth' and missing(x.a[0]), False))):
        if t.end == 'return':
            ck.ok('hub.pending', t.count('q') == 1 or 'none' in t, fp, 'the hub is asked for what is missing', path=t.path())
    fw = ck.F(HB + '.wait', opaque=names, cls=HB)
    R = 'self._client.results'
    P = 'self._pending_ids()'
    at = dict(was=lit('self._ready'), rdy=store('self._ready', 'True'), ordy=store('self._output_ready', 'True'), res=call('self.set_result(_)'), exc=call('self.set_exception(_)'), ok=store('self._success', 'True'), nok=store('self._success', 'False'), own=lit('self.owner'), noown=lit('not self.owner'),
              pend=call(P), rm=effect('remove', lambda e: e.kind == 'remove' and fw.match(R, e.a[0]) is not None), lw=call('self._client.wait(*_, **_)'), raw=store('self._raw_results'))
    for e, b in fw.find(at['rdy']):
        g = fw.guards()[e.node.id]
        ck.ok('hub.wait', any(t.op == 'truth' and not p and any(fw.match(P, y) is not None for y in leaves(fw, t.a[0])) for t, p in g), e, 'a result is ready when nothing is pending')
    ck.exists('hub.wait', fw, at['rdy'], 'a result can be ready')
    n = 0
    for t in fw.traces(at, exc='handled'):
        if t.end != 'return':
            continue
        if 'rdy' in t:
            n += 1
            ck.ok('hub.wait', 'pend' in t and 'lw' in t and t.before('lw', 'pend'), fw, 'what is outstanding here is waited for first', path=t.path())
            ck.ok('hub.wait', t.count('res') + t.count('exc') >= 1 and (('exc' in t) == ('nok' in t)) and 'ordy' in t, fw, 'a result that is ready is resolved, and says whether it was a success', path=t.path())
        elif 'was' not in t:
            # (ready is looked at again)
            pass
    ck.ok('hub.wait', n > 0, fw, 'a result can be ready')
    for e, b in fw.find(at['raw']):
        ck.ok('hub.wait', _results(fw, e.a[2]), e, 'results are those of the ids, in order')
    ck.exists('hub.wait', fw, at['raw'], 'results are those of the ids, in order')
    for e, b in fw.find(at['res']):
        ck.ok('hub.wait', True, e, '')
    for k in ('results', 'metadata'):
        rm = [e for e in fw.all_effects() if e.kind == 'remove' and fw.match(f'self._client.{k}', e.a[0]) is not None]
        for e in rm:
            ck.ok('hub.owner', any(t.op == 'truth' and fw.match('self.owner', t.a[0]) is not None and p for t, p in fw.guards()[e.node.id]), e, 'only an owner cleans up')
            ck.ok('hub.owner', fw.match(f'self._client.{k}.pop(_, _)', _callterm(fw, e)) is not None or any(fw.match(f'_ in self._client.{k}', t) is not None and p for t, p in fw.guards()[e.node.id]), e, 'a task that was asked for twice is cleaned up once')
    for e, b in fw.find(at['lw']):
        a = e.a[0].a[1]
        ck.ok('hub.wait', bool(a) and all(fw.match('self.msg_ids', s) is not None and all(fw.match('_ in self._client.outstanding', c) is not None and p for c, p in o) for s, o in flat(fw, a[0])), e, 'what is outstanding here is waited for')
    fi = ck.F(HB + '._init_futures', opaque=names, cls=HB)
    ck.never('hub.wait', fi, call('_.add_done_callback(*_)'), 'results of the hub are not waited for here')


def _results(fl, t):
    R = 'self._client.results'
    for x in leaves(fl, t):
        if x.op == 'copy' and len(x.a) == 1:
            x = x.a[0]
        if fl.match(f'map(any_of({R}.get, {R}.__getitem__), _)', x) is not None and iter_covers(fl, x.a[1][1], 'self.msg_ids', True):
            continue
        if x.op == 'comp' and x.a[0] == 'list' and not fl.comp_guards(x) and iter_covers(fl, x.a[3][0], 'self.msg_ids', True) and fl.match(f'any_of({R}[elem(self.msg_ids)], {R}.get(elem(self.msg_ids), *_))', x.a[2]) is not None:
            continue
        return False
    return True


def untouched(ck, names):
    """No collection is changed while it is gone through."""
    for c in (C, HB, 'client.asyncresult:AsyncResult'):
        for f in ck.repo.cls(c).methods.values():
            for n in ast.walk(f.node):
                if not isinstance(n, (ast.For, ast.AsyncFor)) or not isinstance(n.iter, (ast.Name, ast.Attribute)):
                    continue
                name = ast.unparse(n.iter)
                for b in _changes(n.body, name):
                    ck.ok('iterating', False, f, f'{name} is changed while it is gone through (line {b.lineno})')
            ck.ok('iterating', True, f, '')


CHANGES = {'remove', 'pop', 'append', 'add', 'discard', 'update', 'clear', 'extend', 'insert', 'popitem', 'setdefault'}


def _changes(body, name):
    """Statements that change what name holds, unless the loop is left right after."""
    for i, s in enumerate(body):
        subs = [getattr(s, k) for k in ('body', 'orelse', 'finalbody') if getattr(s, k, None)] + [h.body for h in getattr(s, 'handlers', ())]
        if any(isinstance(x, (ast.Break, ast.Return, ast.Raise)) for x in body[i:]):
            continue
        if subs and not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            for b in subs:
                yield from _changes(b, name)
            continue
        for x in ast.walk(s):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in CHANGES and ast.unparse(x.func.value) == name:
                yield x
            elif isinstance(x, ast.Delete) and any(isinstance(y, ast.Subscript) and ast.unparse(y.value) == name for y in x.targets):
                yield x
