"""The client: every request is resolved exactly once, with its own reply."""

import ast

from ipa import terms as tm

from . import fold

from .common import add, argof, broad_handlers, call, caught, contained, covers, dict_sources, each, either, enclosing, getitem, is_eff, iter_covers, keyed, lit, no_shared_state, prop, raises, remove, ret, store  # noqa: F401

C = 'client.client:Client'
CM = C + '.'
STATUS = "msg['content']['status']"


def leaves(fl, t):
    return [x for x in (fl.alts(t) if t.op == 'phi' else [t]) if x.op != 'phi']


def same(fl, a, b):
    """The same value, also when it was computed twice."""
    return a is b or (a.op == 'phi' or b.op == 'phi') and set(leaves(fl, a)) == set(leaves(fl, b))


def effect(desc, fn):
    def f(e, a, b):
        return {} if fn(e) else None

    f.desc = desc
    return f


def adds(fl, c, key, v=None):
    return effect(f'{c}[...]', lambda e: e.kind == 'add' and fl.match(c, e.a[0]) is not None and same(fl, e.a[1], key) and (v is None or fl.match(v, e.a[2]) is not None))


def removes(fl, c, key):
    return effect(f'remove from {c}', lambda e: e.kind == 'remove' and fl.match(c, e.a[0]) is not None and same(fl, e.a[1], key))


def calls_on(fl, obj, key, meth):
    """obj.get(key) / obj[key] . meth(...)"""
    def test(e):
        if e.kind != 'call' or e.a[0].a[0].op != 'attr' or e.a[0].a[0].a[1] != meth:
            return False
        return entry(fl, obj, key, e.a[0].a[0].a[0])

    return effect(f'{obj}[...].{meth}()', test)


def entry(fl, obj, key, o):
    """Is o the entry of obj for this key?"""
    ps = leaves(fl, o)
    for p in ps:
        if fl.match(f'any_of({obj}.get(_, *_), {obj}[_], {obj}.pop(_, *_))', p) is None:
            return False
        if not same(fl, p.a[1][0] if p.op == 'call' else p.a[1], key):
            return False
    return bool(ps)


def truth_of(fl, obj, key, pol):
    """Is (not) known that obj has an entry for key."""
    def f(e, a, b):
        if e.kind != 'lit':
            return None
        c, p = e.a[0], e.a[1]
        if c.op == 'truth' and c.a[0].op in ('call', 'get', 'item') and entry(fl, obj, key, c.a[0]):
            return {} if p == pol else None
        if fl.match(f'{obj}.get(_, *_) is None', c) is not None and same(fl, c.a[1].a[1], key):
            return {} if p != pol else None
        if c.op == 'cmp' and fl.match(f'_ in {obj}', c) is not None and same(fl, c.a[1], key):
            return {} if p == pol else None
        return None

    f.desc, f.lit = f'entry in {obj}: {pol}', True
    return f


# an error that counts as one, also among other results
ERR = 'any_of(ipyparallel.error.unwrap_exception(ipyparallel.error.wrap_exception(*_, **_)), ipyparallel.error.RemoteError(*_, **_), ipyparallel.error.KernelError(*_))'


def handler(ck, name, names, okval):
    """A reply resolves the request it answers."""
    fl = ck.F(CM + name, opaque=names)
    puts = [e for e in fl.all_effects() if e.kind == 'add' and fl.match('self.results', e.a[0]) is not None]
    if not ck.ok('reply', bool(puts), fl, 'the result of a request is kept'):
        return
    mid = puts[0].a[1]
    want = {"msg['parent_header']['msg_id']", "msg['metadata']['original_msg_id']"}
    for x in leaves(fl, mid):
        ok = [w for w in want if fl.match(w, x) is not None]
        ck.ok('reply.id', bool(ok), puts[0], f'a reply belongs to the request it is a reply to, not to {x}')
    ck.ok('reply.id', any(fl.match("msg['parent_header']['msg_id']", x) is not None for x in leaves(fl, mid)) and any(fl.match("msg['metadata']['original_msg_id']", x) is not None for x in leaves(fl, mid)), fl,
          'combined replies to a broadcast belong to the original request, others to their parent')
    for e in puts:
        ck.ok('reply.id', same(fl, e.a[1], mid), e, 'all replies are kept under the id of their request')
    ids = dict(co=lit("msg['metadata'].get('is_coalescing', *_)"), noco=lit("not msg['metadata'].get('is_coalescing', *_)"), bc=lit("msg['metadata'].get('is_broadcast', *_)"), nobc=lit("not msg['metadata'].get('is_broadcast', *_)"),
               orig=getitem("msg['metadata']", "'original_msg_id'"))
    # (decided where the id is chosen)
    ck.every('reply.id', fl, ids, lambda t: not ('orig' in t and not {'co', 'bc'} <= set(t.atoms)), 'only combined replies carry the id of the original request')
    ck.every('reply.id', fl, ids, lambda t: not ('co' in t and 'bc' in t and 'orig' not in t), 'combined replies carry the id of the original request')
    # ---- status
    okl, abl, rel = (lit(f"{STATUS} == '{s}'") for s in ('ok', 'aborted', 'resubmitted'))
    nok, nab, nre = (lit(f"{STATUS} != '{s}'") for s in ('ok', 'aborted', 'resubmitted'))
    FU, OF = 'self._futures', 'self._output_futures'
    at = dict(okl=okl, abl=abl, rel=rel, nok=nok, nab=nab, nre=nre,
              put=adds(fl, 'self.results', mid), putok=effect('ok value', lambda e: e in puts and okval(fl, e.a[2], mid)),
              putab=effect('TaskAborted', lambda e: e in puts and (lambda m: m is not None and same(fl, e.a[2].a[1][0], mid))(fl.match('ipyparallel.error.TaskAborted(_)', e.a[2]))),
              puterr=effect('the exception', lambda e: e in puts and fl.match("self._unwrap_exception(msg['content'])", e.a[2]) is not None),
              putexc=effect('what went wrong', lambda e: e in puts and fl.match(ERR, e.a[2]) is not None),
              set=calls_on(fl, FU, mid, 'set_result'), seterr=calls_on(fl, FU, mid, 'set_exception'), has=truth_of(fl, FU, mid, True), hasnt=truth_of(fl, FU, mid, False),
              out=calls_on(fl, OF, mid, 'set_result'), ohas=truth_of(fl, OF, mid, True), ohasnt=truth_of(fl, OF, mid, False),
              info=lit("msg['content'].get('engine_info', *_)"), noinfo=lit("not msg['content'].get('engine_info', *_)"),
              rem=removes(fl, 'self.outstanding', mid), notout=effect('', lambda e: False),
              md=effect('metadata', lambda e: e.kind == 'call' and fl.match('self.metadata[_].update(self._extract_metadata(msg))', e.a[0]) is not None and same(fl, e.a[0].a[0].a[0].a[1], mid)))

    def absent(e, a, b):
        return {} if e.kind == 'lit' and not e.a[1] and fl.match('_ in self.outstanding', e.a[0]) is not None else None

    def done(e, a, b):
        return {} if doneness(e) is True else None

    def pending(e, a, b):
        return {} if doneness(e) is False else None

    def doneness(e):
        return e.a[1] if e.kind == 'lit' and e.a[0].op == 'truth' and fl.match(f'any_of({OF}.get(_, *_), {OF}[_]).done()', e.a[0].a[0]) is not None else None

    absent.desc, done.desc, pending.desc = 'not outstanding', 'output is done', 'output is not done'
    absent.lit = done.lit = pending.lit = True
    at.update(notout=absent, odone=done, opend=pending)
    ts = [t for t in fl.traces(at) if t.end == 'return' and not ('rel' in t)]
    ck.ok('reply', bool(ts), fl, 'replies can be received')
    # a stale reply may be dropped
    ts = [t for t in ts if not ('notout' in t and 'put' not in t and 'set' not in t)]
    kinds = set()

    def all_of(rule, cond, msg, where=fl):
        for t in ts:
            if not ck.ok(rule, cond(t), where, msg, path=t.path()):
                return

    all_of('reply.result', lambda t: t.count('put') >= 1, 'each reply has a result')
    for t in ts:
        k = 'ok' if 'okl' in t else 'aborted' if 'abl' in t else 'error' if 'nok' in t and 'nab' in t else None
        if k is None:
            ck.ok('reply.result', False, fl, 'what the result is depends on the status', path=t.path())
            continue
        kinds.add(k)
        good = {'ok': t.count('putok') + t.count('putexc') >= 1 and not ({'putab', 'puterr'} & set(t.atoms)), 'aborted': t.count('putab') == 1 and 'putok' not in t and 'puterr' not in t,
                'error': t.count('puterr') == 1 and 'putok' not in t and 'putab' not in t}[k]
        if not ck.ok('reply.result', good and t.count('put') == sum(t.count(x) for x in ('putok', 'putab', 'puterr', 'putexc')), fl, f'the result of a reply with status {k} is its value, or the error it reports', path=t.path()):
            break
    ck.ok('reply.result', kinds == {'ok', 'aborted', 'error'}, fl, 'all kinds of replies are received')
    all_of('reply.resolved', lambda t: t.count('set') + t.count('seterr') == (0 if 'hasnt' in t and 'has' not in t else 1), 'the future of a request is resolved exactly once by its reply')
    for t in ts:
        if 'set' in t and not ck.ok('reply.resolved', t.before('put', 'set'), fl, 'the result is stored before its future is resolved', path=t.path()):
            break
    for e, b in fl.find(at['set']):
        v = argof(e.a[0], 0, 'result')
        own = v is not None and (entry(fl, 'self.results', mid, v) or any(v is p.a[2] for p in puts) or v.op == 'phi' and all(any(x is p.a[2] or x in leaves(fl, p.a[2]) for p in puts) for x in leaves(fl, v)))
        ck.ok('reply.resolved', own, e, 'the future gets the result of this reply')
    all_of('reply.outstanding', lambda t: t.count('rem') >= 1 or 'notout' in t, 'a request that was answered is no longer outstanding')
    all_of('reply.metadata', lambda t: t.count('md') >= 1 and ('set' not in t or t.before('md', 'set')), 'the metadata of a request is complete before its future is resolved')
    # the engine no longer has it
    rem = [e for e in fl.all_effects() if e.kind == 'remove' and fl.match('self._outstanding_dict[_]', e.a[0]) is not None and same(fl, e.a[1], mid)]
    ck.ok('reply.engine', bool(rem), fl, 'a request that was answered is no longer outstanding on its engine')
    for e in rem:
        k = e.a[0].a[1]
        src = leaves(fl, k)
        MD = "any_of(self.metadata[_]['engine_uuid'], self._extract_metadata(msg)['engine_uuid'], msg['metadata']['engine'], msg['metadata'].get('engine', *_))"

        def engine(x):
            if fl.match(MD, x) is not None or fl.match(f'elem({MD})', x) is not None or fl.match('any_of(elem(_)[0], elem(_[0]))', x) is not None:
                return True
            if x.op == 'elem':
                return all(fl.match(f'any_of({MD}, {MD} or _, elem({MD}))', y) is not None or y.op == 'alloc' and all(fl.match(MD, z) is not None for z in y.a[2]) for y in leaves(fl, x.a[0]))
            return False

        ck.ok('reply.engine', bool(src) and all(engine(x) for x in src), e, 'it is removed from the engine that ran it')
        h = fl.loop_of(e.node)
        if h is not None:
            hit = effect('', lambda x: x is e)

            def known(x, a, b):
                return {} if x.kind == 'lit' and x.a[1] and (fl.match(f'any_of(_ in self._outstanding_dict[{"_"}])', x.a[0]) is not None) else None

            known.desc, known.lit = 'outstanding on the engine', True
            for t in fl.body_traces(h, dict(hit=hit, known=known)):
                ck.ok('reply.engine', t.end == 'stop' and ('hit' in t) >= ('known' in t), e, 'it is removed from every engine that ran it', path=t.path())
    # ---- output
    all_of('reply.output', lambda t: t.count('out') <= max(1, t.count('opend')), 'output is complete at most once')
    for t in ts:
        need = ('abl' in t or 'nok' in t and 'noinfo' in t)
        forbid = 'okl' in t and 'putexc' not in t or 'abl' not in t and 'info' in t
        if need and 'ohasnt' not in t and 'odone' not in t and not ck.ok('reply.output', t.count('out') >= 1, fl, 'requests that were not run have no output to wait for', path=t.path()):
            break
        if forbid and not ck.ok('reply.output', 'out' not in t, fl, 'the output of a request that was run is not complete when its reply arrives', path=t.path()):
            break
    return fl, mid, at


@prop('C01', 60)
def c01(ck):
    names = ck.names(C, '_should_use_metadata_msg_id', 'create_message_futures')
    fnames = ck.fnames('client.futures')
    op = tuple(names) + tuple(fnames) + tuple(ck.fnames('error'))

    def ok_exec(fl, v, mid):
        m = fl.match("ipyparallel.client.client.ExecuteReply(_m, msg['content'], _d)", v)
        return m is not None and same(fl, v.a[1][0], mid) and any(fl.match('self.metadata[_]', x) is not None for x in leaves(fl, v.a[1][2]))

    D = "any_of(ipyparallel.serialize.deserialize_object(msg['buffers'])[0], ipyparallel.serialize.serialize.deserialize_object(msg['buffers'])[0])"

    def ok_apply(fl, v, mid):
        return all(x.op in ('alloc', 'comp') or fl.match(D, x) is not None for x in leaves(fl, v))

    handler(ck, '_handle_execute_reply', op, ok_exec)
    r = handler(ck, '_handle_apply_reply', op, ok_apply)
    if r:
        fl, mid, at = r
        contained(ck, 'reply.deserialize', fl, call('_.deserialize_object(*_)'), 'a result that cannot be deserialized resolves its request')
        exc = [e for e in fl.all_effects() if e.kind == 'add' and fl.match('self.results', e.a[0]) is not None and fl.match(ERR, e.a[2]) is not None]
        ck.ok('reply.deserialize', bool(exc), fl, 'the error is the result')
        parts = [e for e in fl.all_effects() if e.kind == 'add' and e.a[0].op == 'alloc' and fl.match('_.deserialize_object(_)[0]', e.a[1]) is not None]
        for bufs in ([], ['a'], ['a', 'b']):
            def rest(b, leaf):
                x = fold.fold(b['_b'], leaf)
                return x if x is fold.UNKNOWN else ('value', x[1:])

            leaf = fold.leaves(fl, [("msg['content']['status']", 'ok'), ("msg['buffers']", bufs), ("any_of(self.metadata[_].get('is_coalescing', *_), self.metadata[_]['is_coalescing'], msg['metadata'].get('is_coalescing', *_))", True), ('_.deserialize_object(_b)', rest)])
            heads = {fl.loop_of(e.node) for e in parts} - {None}
            for h in heads:
                ts = fl.traces(dict(hit=effect('', lambda e: e in parts)), world=fold.literal(leaf))
                ns = {t.count('hit') for t in ts if t.end == 'return'}
                ck.ok('reply.combined', len(bufs) in ns, fl, 'every part of a combined reply is read')
        ck.ok('reply.combined', bool(parts), fl, 'a combined reply is the list of all its parts')
        for e in parts:
            ck.ok('reply.combined', e.a[-1] == 'append', e, 'parts are kept in order')
            src = e.a[1].a[0].a[1][0]
            ck.ok('reply.combined', all(fl.match("any_of(msg['buffers'], _.deserialize_object(_)[1])", x) is not None for x in leaves(fl, src)) and len(leaves(fl, src)) >= 2, e, 'each part is read from what the ones before it left')
            h = fl.loop_of(e.node)
            ck.ok('reply.combined', h is not None, e, 'all parts are read')
            if h is not None:
                hit = is_eff(e)
                for t in fl.body_traces(h, dict(hit=hit)):
                    ck.ok('reply.combined', t.end == 'exc' or t.end == 'stop' and t.count('hit') == 1, e, 'every part is kept', path=t.path())
    # ---- engines that die
    st = ck.F(CM + '_handle_stranded_msgs', opaque=tuple(names) + tuple(ck.fnames('error')))
    OUT = 'self._outstanding_dict[uuid]'
    for e, b in st.find(call('self._outstanding_dict.pop(_)')):
        ck.guarded('stranded', st, is_eff(e), [lit('uuid in self._outstanding_dict')], 'engines that were sent nothing are gone as well')
    CALL = call('self._handle_apply_reply(_m)')
    known = either(lit('_ in self.results'), lit('_ not in self.outstanding'), lit('_ not in self._futures'))
    ck.ok('stranded', bool(st.find(CALL)), st, 'all requests that are outstanding on an engine that died are resolved')
    for e, b in st.find(CALL):
        h = st.loop_of(e.node)
        it = st.val(h, h.term) if h is not None and h.term is not None else None
        if not ck.ok('stranded', it is not None, e, 'all requests that are outstanding on an engine that died are resolved'):
            continue
        ck.ok('stranded', st.match(OUT, it) is None, st, 'the set is changed while it is handled: a copy must be iterated')
        for x in leaves(st, it):
            if x.op == 'comp':
                kept = [k for k in st.all_effects() if k.kind == 'comp_elt' and k.node.ev.comp[0] == x.a[1]]
                ck.ok('stranded', bool(kept) and all(iter_covers(st, y, OUT) for y in x.a[3]) and len(x.a[3]) == 1 and x.a[2].op == 'elem', e, 'all requests that are outstanding on an engine that died are resolved')
                for k in kept:
                    for t in st.body_traces(st.loop_of(k.node), dict(hit=is_eff(k), known=known)):
                        ck.ok('stranded', t.end == 'stop' and t.count('hit') == (0 if 'known' in t else 1), st, 'each of them is resolved', path=t.path())
            else:
                ck.ok('stranded', iter_covers(st, x, OUT), e, 'all requests that are outstanding on an engine that died are resolved')
        for t in st.body_traces(h, dict(hit=CALL, known=known)):
            ck.ok('stranded', t.end == 'stop' and t.count('hit') == (0 if 'known' in t else 1), st, 'each of them is resolved', path=t.path())
    for e, b in st.find(CALL):
        m = e.a[0].a[1][0]
        ck.ok('stranded', st.match("self.session.msg('apply_reply', *_)", m) is not None or st.match("self.session.msg(*_)", m) is not None, e, 'with a reply')
        ks = [x for x in st.all_effects() if x.kind == 'add' and st.match("_['parent_header']", x.a[0]) is not None]
        ck.ok('stranded.reply', bool(ks) and all(x.a[1] is tm.const('msg_id') and st.match(f'any_of(elem({OUT}), elem(copyof({OUT})))', x.a[2]) is not None for x in ks), e, 'the reply is that to the request')
        ks = [x for x in st.all_effects() if x.kind == 'add' and st.match("_['metadata']", x.a[0]) is not None]
        ck.ok('stranded.reply', bool(ks) and all(x.a[1] is tm.const('engine') and st.match('uuid', x.a[2]) is not None for x in ks), e, 'the reply is that of the engine')
        ct = argof(m, 1, 'content')
        ck.ok('stranded.reply', ct is not None and all(st.match('any_of(ipyparallel.error.wrap_exception(), ipyparallel.error.wrap_exception({}))', x) is not None for x in leaves(st, ct)), e, 'the reply is an error')
    ck.ok('stranded.reply', bool(st.find(call('ipyparallel.error.EngineError(*_)'))), st, 'the error is that the engine died')
    un = ck.F(CM + '_unregister_engine', opaque=names)
    POP = 'self._engines.pop(_e)'
    ua = dict(hit=call('self._handle_stranded_msgs(*_)'), unk=lit('_ not in any_of(self._ids, self._engines)'), known=lit('_ in any_of(self._ids, self._engines)'), gone=either(call('self._ids.remove(_)'), call('self._engines.pop(*_)')))
    ck.every('stranded', un, ua, lambda t: t.count('hit') == (0 if 'unk' in t and 'gone' not in t else 1), 'the requests of each engine that is gone are resolved')
    for e, b in un.find(ua['hit']):
        ck.ok('stranded', un.match("int(msg['content']['id'])", argof(e.a[0], 0, 'eid')) is not None, e, 'the engine that is gone')
        ck.ok('stranded', un.match("any_of(self._engines.pop(int(msg['content']['id'])), self._engines[int(msg['content']['id'])], self._engines.pop(int(msg['content']['id']), *_))", argof(e.a[0], 1, 'uuid')) is not None, e, 'the engine that is gone')
    sending(ck, names, fnames)
    dispatching(ck, names)
    broadcast(ck)


def fl_loops(fl):
    return [n for n in fl.order if n.kind == 'loop' and n.term is not None]


def sending(ck, names, fnames):
    fl = ck.F(CM + '_send', opaque=tuple(names) + tuple(fnames))
    MSG = 'self.session.msg(*_)'
    MID = f"{MSG}['header']['msg_id']"
    nested = {f.name: f for f in ck.repo.nested_funcs(ck.repo.func(CM + '_send'))}
    posts = [e for e, b in fl.find(call('self._io_loop.add_callback(*_)'))]
    ck.ok('send', bool(posts), fl, 'requests are sent in the IO thread')
    ck.every('send', fl, dict(post=call('self._io_loop.add_callback(*_)')), lambda t: t.count('post') == 1, 'each request is sent once')
    ck.ok('send', not fl.find(call('self.session.send(*_)')), fl, 'sockets are only used in the IO thread')
    FUT = 'ipyparallel.client.futures.MessageFuture(*_)'
    comm = lit("msg_type in _")
    at = dict(post=call('self._io_loop.add_callback(*_)'), out=add('self.outstanding', MID), hist=add('self.history', MID), fut=add('self._futures', MID, FUT), ofut=add('self._output_futures', MID, FUT),
              hook=call('message_future_hook(_f)'), nohook=lit('message_future_hook is None'), track=lit('track_outstanding'), notrack=lit('not track_outstanding'), clean=call('multi_future(_fs).add_done_callback(_c)'))
    EXC = {'comm_msg', 'comm_close', 'comm_open'}
    TASKS = {'execute_request', 'apply_request'}
    opq = tuple(names) + tuple(fnames) + tuple(ck.fnames('error'))
    FUTURE, OUTF = 'any_of(ipyparallel.client.futures.MessageFuture(*_), _[0])', 'any_of(ipyparallel.client.futures.MessageFuture(*_), _[1], _[-1])'

    def quiet(pol):
        def f(e, a, b):
            if e.kind != 'lit' or e.a[0].op != 'cmp' or e.a[0].a[0] != 'in' or fl.match('msg_type', e.a[0].a[1]) is None:
                return None
            s = e.a[0].a[2]
            vals = {x.a[0] for x in _items(s) if x.op == 'const'}
            return {} if vals == EXC and e.a[1] == pol else None
        f.desc, f.lit = 'no reply is expected', True
        return f

    def execs(pol):
        def f(e, a, b):
            if e.kind != 'lit' or e.a[0].op != 'cmp' or e.a[0].a[0] != 'in' or fl.match('msg_type', e.a[0].a[1]) is None:
                return None
            vals = {x.a[0] for x in _items(e.a[0].a[2]) if x.op == 'const'}
            return {} if vals == {'execute_request', 'apply_request'} and e.a[1] == pol else None
        f.desc, f.lit = 'an execution', True
        return f

    at.update(quiet=quiet(True), loud=quiet(False), ex=execs(True), nex=execs(False))
    ts = [t for t in fl.traces(at, retval=True) if t.end == 'return']
    ck.ok('send', bool(ts) and any('loud' in t for t in ts), fl, 'replies are expected to all but comm messages')

    def every(rule, cond, msg):
        for t in ts:
            if not ck.ok(rule, cond(t), fl, msg, path=t.path()):
                return

    every('send.future', lambda t: t.count('fut') == (1 if 'loud' in t else 0) and ('fut' not in t or t.before('fut', 'post')), 'the future of a request exists before it is sent')
    every('send.future', lambda t: ('ofut' in t) == ('loud' in t and 'ex' in t) and ('ofut' not in t or t.before('ofut', 'post')), 'the future of the output of an execution exists before it is sent')
    every('send.outstanding', lambda t: t.count('out') == t.count('hist') == (1 if 'loud' in t and 'track' in t else 0) and ('out' not in t or t.before('out', 'post') and t.before('hist', 'post')), 'executions are outstanding, and in the history, before they are sent')
    every('send.hook', lambda t: t.count('hook') == (1 if 'loud' in t and 'nohook' not in t else 0) and ('hook' not in t or t.before('fut', 'hook') and t.before('hook', 'post')), 'the caller learns of the request before it is sent')
    every('send.cleanup', lambda t: t.count('clean') == (1 if 'loud' in t else 0), 'what is kept about a request is dropped when all of its futures are resolved')
    for t in ts:
        r = t.ret
        if 'loud' in t:
            ck.ok('send.future', r is not None and (fl.match(FUT, r) is not None or fl.match('_[0]', r) is not None), fl, 'the future of the request is returned', path=t.path())
    # per engine
    eng = [e for e in fl.all_effects() if e.kind == 'add' and fl.match('self._outstanding_dict[_]', e.a[0]) is not None]
    ck.ok('send.engine', bool(eng), fl, 'requests are outstanding on the engine they are sent to')
    EN = "any_of(ident, ident[-1])"
    for e in eng:
        ck.ok('send.engine', fl.match(MID, e.a[1]) is not None, e, 'requests are outstanding on the engine they are sent to')
        ks = leaves(fl, e.a[0].a[1])
        raw = [y for x in ks for y in (leaves(fl, x.a[0].a[0]) if x.op == 'call' and x.a[0].op == 'attr' and x.a[0].a[1] == 'decode' else [x])]
        ck.ok('send.engine', bool(raw) and all(fl.match(f'any_of({EN}, {EN}.decode(*_))', x) is not None for x in raw), e, 'the engine is the one it is sent to')
    ea = dict(at, eng=effect('', lambda e: e in eng), ident=lit('ident'), noident=lit('not ident'), known=lit('_ in self._engines.values()'), unknown=lit('_ not in self._engines.values()'))
    for t in fl.traces(ea):
        if t.end == 'return' and 'out' in t:
            if not ck.ok('send.engine', 'eng' in t and t.before('eng', 'post') or 'noident' in t or 'unknown' in t, fl, 'requests are outstanding on the engine they are sent to before they are sent', path=t.path()):
                break
    # cleanup
    for f, up in closures(ck, fl, 'send.cleanup', [e.a[0].a[1][0] for e, b in fl.find(at['clean'])], opq):
        for tab in ('self.results', 'self._futures', 'self._output_futures', 'self.metadata'):
            ck.every('send.cleanup', f, dict(p=effect(tab, lambda e: e.kind == 'remove' and f.match(tab, e.a[0]) is not None and fl.match(MID, up(e.a[1])) is not None)), lambda t: t.count('p') == 1, f'what is kept about a request is dropped: {tab}')
    # in the IO thread
    for f, up in closures(ck, fl, 'send', [e.a[0].a[1][0] for e in posts], opq):
        SEND = call('self.session.send(*_)')

        def upm(p, t):
            return t is not None and all(fl.match(p, x) is not None for x in leaves(fl, up(t)))

        hits = f.find(SEND)
        ck.ok('send.sent', bool(hits), f, 'the request is sent')
        ck.every('send.sent', f, dict(hit=SEND), lambda t: t.count('hit') == 1, 'the request is sent once')
        for e, b in hits:
            a = e.a[0]
            for i, n, want in ((0, 'stream', 'socket'), (1, 'msg_or_type', MSG), (9, 'ident', 'ident'), (9, 'buffers', 'buffers'), (9, 'track', 'track')):
                ck.ok('send.sent', upm(want, argof(a, i, n)), e, f'the request is sent with its {n}')
        TRK = effect('tracker', lambda e: e.kind == 'call' and f.match("_.tracker.set_result(any_of(_['tracker'], _.get('tracker', *_)))", e.a[0]) is not None and upm(FUTURE, e.a[0].a[0].a[0].a[0]))
        tr = dict(hit=SEND, trk=TRK, on=lit('track'), off=lit('not track'))
        for t in f.traces(tr, exc='all'):
            if t.end == 'return' and t.before('hit', 'on'):
                ck.ok('send.tracker', t.count('trk') == 1, f, 'a tracked request tells when it was sent', path=t.path())
        fin = {k: effect(k, lambda e, m=m, o=o: e.kind == 'call' and f.match(f'_.{m}(*_)', e.a[0]) is not None and upm(o, e.a[0].a[0].a[0])) for k, m, o in
               (('res', 'set_result', FUTURE), ('exc', 'set_exception', FUTURE), ('out', 'set_result', f'any_of({FUTURE}.output, {OUTF})'), ('trk', 'set_result', f'{FUTURE}.tracker'))}

        def truth(p):
            def g(e, a, b):
                if e.kind != 'lit' or e.a[0].op != 'cmp' or e.a[0].a[0] not in ('in', 'not in'):
                    return None
                c = up(e.a[0])
                vals = {x.a[0] for x in _items(c.a[2]) if x.op == 'const'} if fl.match('msg_type', c.a[1]) is not None else set()
                neg = (c.a[0] == 'not in') == e.a[1]
                return {} if vals == p[0] and neg != p[1] else None
            g.desc, g.lit = str(p), True
            return g

        def reply(pol):
            q, r = truth((EXC, True)), truth((EXC, False))

            def g(e, a, b):
                if e.kind != 'lit':
                    return None
                if e.a[0].op == 'truth':
                    c = up(e.a[0].a[0])
                    if c.op == 'cmp' and c.a[0] in ('in', 'not in') and fl.match('msg_type', c.a[1]) is not None and {x.a[0] for x in _items(c.a[2]) if x.op == 'const'} == EXC:
                        return {} if ((c.a[0] == 'not in') == e.a[1]) == pol else None
                    if c.op == 'not' and c.a[0].op == 'cmp':
                        c = c.a[0]
                        return {} if ((c.a[0] == 'in') == e.a[1]) != pol else None
                return (r if pol else q)(e, a, b)
            g.desc, g.lit = 'a reply is expected', True
            return g

        fin['err'] = effect('an error', lambda e: e.kind == 'call' and f.match('_.set_result(*_)', e.a[0]) is not None and upm(FUTURE, e.a[0].a[0].a[0]) and len(e.a[0].a[1]) == 1 and all(f.match(ERR, x) is not None for x in leaves(f, e.a[0].a[1][0])))
        fa = dict(fin, rem=effect('not outstanding', lambda e: e.kind == 'remove' and f.match('self.outstanding', e.a[0]) is not None and upm(MID, e.a[1])), loud=reply(True), quiet=reply(False),
                  ex=truth((TASKS, True)), nex=truth((TASKS, False)), tdone=effect('', lambda e: False))
        for e, b in hits:
            hs = broad_handlers(f, e.node)
            ck.ok('send.failed', bool(hs), e, 'a request that cannot be sent is resolved')
            for h in hs:
                for t in f.traces(fa, start=h):
                    if t.end == 'return':
                        ok = 'rem' in t and ('nex' in t or 'ex' in t) and t.count('res') + t.count('exc') == 1 and ('ex' not in t or 'exc' not in t and t.count('out') == t.count('err') == 1)
                        ck.ok('send.failed', ok, e, 'a request that cannot be sent is resolved, and not outstanding', path=t.path())
                    elif t.end == 'raise':
                        ck.ok('send.failed', 'quiet' in t, e, 'a request that cannot be sent is resolved', path=t.path())
    cf = ck.F(CM + 'create_message_futures', opaque=tuple(names) + tuple(fnames))
    ca = dict(fut=add('self._futures', 'msg_id', '_f'), ofut=add('self._output_futures', 'msg_id', '_f'), on=lit('async_result'), off=lit('not async_result'), link=store('_.output'), md=store('_.metadata', 'self.metadata[msg_id]'))
    ck.every('futures', cf, ca, lambda t: t.count('fut') == 1 and t.count('ofut') == t.count('link') == t.count('md') == (1 if 'on' in t else 0), 'a request has a future, and one for its output and metadata if it is executed')
    for t in cf.traces(ca, retval=True):
        if t.end == 'return':
            items = [x for x in (t.ret.a[2] if t.ret is not None and t.ret.op == 'alloc' else [])]
            ck.ok('futures', bool(items), cf, 'the futures are returned', path=t.path())
    mf = [e.a[2] for e, b in cf.find(ca['fut'])]
    of = [e.a[2] for e, b in cf.find(ca['ofut'])]
    for e, b in cf.find(ca['link']):
        ck.ok('futures', all(e.a[0] is x for x in mf) and all(e.a[2] is x for x in of) and not (set(mf) & set(of)), e, 'the output future is that of the request')
    for e, b in cf.find(ca['md']):
        ck.ok('futures', all(e.a[0] is x for x in of), e, 'the metadata is that of the request')
    adds_ = [e for e in cf.all_effects() if e.kind == 'add' and e.a[0].op == 'alloc' and any(e.a[1] is x for x in of)]
    rets = [t.ret for t in cf.traces(ca, retval=True) if t.end == 'return' and 'on' in t]
    ck.ok('futures', bool(adds_) or all(any(x is o for o in of for x in r.a[2]) for r in rets if r is not None and r.op == 'alloc'), cf, 'both futures are returned, so that both are waited for before cleaning up')


def _items(t):
    return [x[1] if isinstance(x, tuple) else x for x in t.a[2]] if t.op == 'alloc' else list(t.a[0]) if t.op == 'tup' else []


def closures(ck, fl, rule, terms, opaque):
    """The functions that are passed around: [(flow, how the names they capture are bound here)]."""
    out = []
    for t in terms:
        for x in leaves(fl, t):
            if x.op == 'call' and x.a[0].op == 'glob' and x.a[0].a[0].rsplit('.', 1)[-1] == 'partial' and x.a[1]:
                x = x.a[1][0]
            f, env = None, {}
            if x.op in ('closure', 'lambda'):
                f = fl.g.lambdas[x.a[0]][0]
                env = captured(x)
            elif x.op == 'attr' and x.a[0].op == 'name' and x.a[0].a[0] == 'self' and fl.g.self_cls is not None:
                f = ck.repo.method(fl.g.self_cls, x.a[1])
            if ck.ok(rule, f is not None, fl, f'cannot tell what {x} does'):
                out.append((ck.F(f, opaque=opaque, cls=fl.g.self_cls), lambda u, env=env: bound(u, env)))
    return out


def captured(x):
    env = dict(x.a[1]) if len(x.a) > 1 and isinstance(x.a[1], tuple) else {}
    for v in list(env.values()):
        if isinstance(v, tm.T) and v.op in ('closure', 'lambda'):
            for k, w in captured(v).items():
                env.setdefault(k, w)
    return env


def bound(t, env):
    if isinstance(t, tm.T):
        if t.op in ('name', 'free') and t.a[0] in env:
            return env[t.a[0]]
        return tm.mk(t.op, *[bound(x, env) for x in t.a])
    if isinstance(t, tuple):
        return tuple(bound(x, env) for x in t)
    return t


def socket_of(fl, t):
    """The socket attribute a stream is about."""
    if t.op == 'call' and t.a[0].op in ('glob', 'attr') and str(t.a[0]).rsplit('.', 1)[-1] == 'ZMQStream' and t.a[1]:
        return t.a[1][0]
    for e in fl.all_effects():
        if e.kind == 'store' and t.op == 'attr' and e.a[0] is t.a[0] and e.a[1] == t.a[1] and e.a[2] is not tm.NONE:
            return socket_of(fl, e.a[2])
    return None


def table_of(ck, rule, fl, attr):
    """Constant dict stored in an attribute: {key: value term}."""
    out = {}
    st = [e for e in fl.all_effects() if e.kind == 'store' and fl.match('self', e.a[0]) is not None and e.a[1] == attr]
    ck.ok(rule, len(st) == 1, fl, f'{attr} is set')
    for e in st:
        for k, v, it in dict_sources(fl, e.a[2]):
            if k is not None and k.op == 'const':
                out[k.a[0]] = v
    return out


def dispatching(ck, names):
    su = ck.F(CM + '_setup_streams', opaque=names)
    want = {'_query_socket': '_dispatch_single_reply', '_control_socket': '_dispatch_single_reply', '_mux_socket': '_dispatch_reply', '_task_socket': '_dispatch_reply', '_broadcast_socket': '_dispatch_reply',
            '_iopub_socket': '_dispatch_iopub', '_notification_socket': '_dispatch_notification'}
    seen = {}
    for e, b in su.find(call('_.on_recv(*_)')):
        s = socket_of(su, e.a[0].a[0].a[0])
        if not ck.ok('dispatch.streams', s is not None and s.op == 'attr' and s.a[1] in want, e, 'which socket is received from'):
            continue
        cb = argof(e.a[0], 0, 'callback')
        ck.ok('dispatch.streams', su.match('self.' + want[s.a[1]], cb) is not None, e, f'what {s.a[1]} receives goes to {want[s.a[1]]}, not to {cb}')
        seen[s.a[1]] = e
        ck.ok('dispatch.streams', all(any(x is s for x in t.a) for t, p in su.guards()[e.node.id]), e, f'what {s.a[1]} receives is handled, if there is one')
    for k in want:
        ck.ok('dispatch.streams', k in seen, su, f'what {k} receives is handled')
    ck.every('dispatch.streams', su, dict(r=call('_.on_recv(*_)')), lambda t: t.count('r') >= 2, 'what is received is handled')
    init = ck.F(CM + '__init__', opaque=names)
    q = table_of(ck, 'dispatch.table', init, '_queue_handlers')
    ck.ok('dispatch.table', set(q) >= {'execute_reply', 'apply_reply'}, init, 'replies of both kinds have handlers')
    for k, m in (('execute_reply', '_handle_execute_reply'), ('apply_reply', '_handle_apply_reply')):
        if k in q:
            ck.ok('dispatch.table', init.match('self.' + m, q[k]) is not None, init, f'{k} goes to {m}')
    n = table_of(ck, 'dispatch.table', init, '_notification_handlers')
    for k, m in (('registration_notification', '_register_engine'), ('unregistration_notification', '_unregister_engine')):
        ck.ok('dispatch.table', k in n and init.match('self.' + m, n[k]) is not None, init, f'{k} goes to {m}')
    for a in ('_queue_handlers', '_notification_handlers'):
        sets = {e.node.id for e, b in init.find(store('self.' + a))}
        before = init._reach(init.g.entry, sets)
        for e, b in init.find(call('self._connect(*_)')):
            ck.ok('dispatch.table', e.node.id not in before or e.node.id in sets, e, 'handlers exist before the first message is received')
    T = "msg['header']['msg_type']"
    for d, tab in (('_dispatch_reply', '_queue_handlers'), ('_dispatch_notification', '_notification_handlers')):
        f = ck.F(CM + d, opaque=names)
        H = call(f'any_of(self.{tab}.get({T}, *_)(msg), self.{tab}[{T}](msg))')
        ck.ok('dispatch', bool(f.find(H)), f, 'the handler of its type is called with the message')
        ck.every('dispatch', f, dict(h=H, no=either(lit(f'{T} not in self.{tab}'), lit(f'self.{tab}.get({T}, *_) is None'))), lambda t: t.count('h') == (0 if 'no' in t else 1), 'each message of a known type is handled once')
    f = ck.F(CM + '_dispatch_single_reply', opaque=names)
    M = "any_of(msg['parent_header'].get('msg_id', *_), msg['parent_header']['msg_id'])"
    FUT = f'any_of(self._futures.get({M}, *_), self._futures[{M}], self._futures.pop({M}, *_))'
    H = call(f'{FUT}.set_result(msg)')
    ck.ok('dispatch.single', bool(f.find(H)) and len(f.find(H)) == len(f.find(call('_.set_result(*_)'))), f, 'a reply of the Hub is that to the request it answers')
    ck.every('dispatch.single', f, dict(h=H, no=either(lit(f'{M} not in self._futures'), lit(f'{FUT} is None'), lit(f'not {FUT}'), lit(f'{FUT}.done()'))), lambda t: t.count('h') == (0 if 'no' in t else 1), 'a reply of the Hub resolves its request')
    u = ck.F('client.client:unpack_message')
    contained(ck, 'dispatch.unpack', u, call('self.session.deserialize(*_)'), 'what cannot be understood is dropped')
    ck.every('dispatch.unpack', u, dict(h=call('f(self, self.session.deserialize(*_))'), d=call('self.session.deserialize(*_)'), c=caught()), lambda t: t.count('h') == (0 if 'c' in t else 1), 'everything else is dispatched once')
    for d in set(want.values()):
        fn = ck.repo.func(CM + d)
        ck.ok('dispatch.unpack', any('unpack_message' in ast.unparse(x) for x in fn.node.decorator_list), fn, f'{d} handles messages, not frames')
    sr = ck.F(CM + '_send_recv', opaque=names)
    for t in sr.traces(dict(w=call('self._send(*_, **_).wait(*_)')), retval=True):
        if t.end == 'return':
            ck.ok('dispatch.recv', t.ret is not None and sr.match('self._send(*args, **kwargs).result()', t.ret) is not None, sr, 'the reply is returned', path=t.path())
    # waiting for several futures
    mf = ck.F('client.futures:multi_future', opaque=ck.fnames('client.futures', 'multi_future'))
    FNEW = 'concurrent.futures.Future()'
    for t in mf.traces(dict(e=call(f'any_of(future_set_result_unless_cancelled({FNEW}, _), {FNEW}.set_result(_))'), no=lit('not children'), yes=lit('children')), retval=True):
        if t.end == 'return':
            ck.ok('multi', t.ret is not None and mf.match(FNEW, t.ret) is not None, mf, 'one future is returned', path=t.path())
            if 'no' in t:
                ck.ok('multi', t.count('e') == 1, mf, 'nothing to wait for: it is resolved', path=t.path())
    REG = call('any_of(future_add_done_callback(_f, _c), _f.add_done_callback(_c))')
    regs = mf.find(REG)
    ck.ok('multi', bool(regs), mf, 'each of them is waited for')
    for h in fl_loops(mf):
        if not covers(mf, h, 'children'):
            continue
        seenl = lit('_ in _')
        for t in mf.body_traces(h, dict(r=REG, seen=seenl)):
            ck.ok('multi', t.end == 'stop' and t.count('r') == (0 if 'seen' in t else 1), mf, 'each of them is waited for', path=t.path())
    cbs = [argof(e.a[0], 1, 'callback') if e.a[0].a[0].op != 'attr' or len(e.a[0].a[1]) > 1 else e.a[0].a[1][0] for e, b in regs]
    for f, up in closures(ck, mf, 'multi', cbs, ck.fnames('client.futures', 'multi_future')):
        SET = effect('resolved', lambda e: e.kind == 'call' and f.match('any_of(future_set_result_unless_cancelled(_, *_), future_set_exc_info(_, *_), _.set_result(*_), _.set_exception(*_))', e.a[0]) is not None)
        cnt = effect('one less', lambda e: e.kind == 'remove' and mf.match('set(children)', up(e.a[0])) is not None and f.match('f', e.a[1]) is not None)
        for t in f.traces(dict(cnt=cnt, left=lit('unfinished_children'), none=lit('not unfinished_children'), set=SET, done=lit('future.done()'), nd=lit('not future.done()')), exc='handled'):
            if t.end == 'return':
                ck.ok('multi', t.count('cnt') == 1 or not f.find(cnt), f, 'each counts once', path=t.path())
                if f.find(cnt):
                    ck.ok('multi', t.before('cnt', 'left') or t.before('cnt', 'none'), f, 'it is seen when none are left', path=t.path())
                if 'none' in t:
                    ck.ok('multi', 'set' in t or 'done' in t, f, 'when none are left, the future of all is resolved', path=t.path())
                elif 'left' in t:
                    ck.ok('multi', 'set' not in t, f, 'the future of all is not resolved before none are left', path=t.path())
    ad = ck.F('client.futures:future_add_done_callback')
    ck.every('multi', ad, dict(c=call('callback(future)'), r=call('future.add_done_callback(callback)')), lambda t: t.count('c') + t.count('r') == 1, 'callbacks are called once')
    sc = ck.F('client.futures:future_set_result_unless_cancelled')
    ck.every('multi', sc, dict(s=call('future.set_result(value)'), c=lit('future.cancelled()')), lambda t: t.count('s') == (0 if 'c' in t else 1), 'futures are resolved')
    mi = ck.F('client.futures:MessageFuture.__init__')
    TR = 'any_of(self.tracker, concurrent.futures.Future())'
    ck.every('future', mi, dict(tr=store('self.tracker', 'concurrent.futures.Future()'), s=call(f'{TR}.set_result(*_)'), on=lit('track'), off=lit('not track')), lambda t: t.count('tr') == 1 and t.count('s') == (1 if 'off' in t else 0), 'what is not tracked counts as sent, what is does not yet')
    wt = ck.F('client.futures:MessageFuture.wait', opaque=('done',))
    ck.every('future', mi, dict(cb=call('self.add_done_callback(_)')), lambda t: t.count('cb') == 1, 'waiting ends when the future is resolved')
    for t in wt.traces(dict(d=lit('self.done()'), w=call('self._evt.wait(*_)')), retval=True):
        if t.end == 'return':
            ok = 'd' in t or wt.match('any_of(self._evt.wait(timeout), self._evt.wait(timeout=timeout), self.done())', t.ret) is not None
            ck.ok('future', ok, wt, 'waiting tells whether the future is resolved', path=t.path())


def broadcast(ck):
    B = 'client.view:BroadcastView'
    names = ck.names(B)
    fl = ck.F(B + '._make_async_result', opaque=names + ck.fnames('client.futures') + ('create_message_futures',))
    ORIG = 'message_future.msg_id'
    PID = effect('', lambda e: False)

    def part(t):
        """original id, '_', engine"""
        ls = leaves(fl, t)
        return bool(ls) and all(x.op == 'fstr' and len(x.a[0]) == 3 and fl.match(ORIG, _unfmt(x.a[0][0])) is not None and x.a[0][1] in ('_', tm.const('_')) and fl.match('elem(s_idents)', _unfmt(x.a[0][2])) is not None for x in ls)

    NEW = [e for e in fl.all_effects() if e.kind == 'call' and fl.match('self.client.create_message_futures(*_)', e.a[0]) is not None]
    ck.ok('parts', bool(NEW), fl, 'each engine of a broadcast has a request of its own')
    isnew = effect('a request', lambda e: e in NEW)
    PART = 'any_of(self.client.create_message_futures(*_)[0])'
    for e in NEW:
        ck.ok('parts', part(argof(e.a[0], 0, 'msg_id')), e, 'the id of a part is that of the request and the engine, as schedulers number them')
        r = argof(e.a[0], 2, 'async_result')
        ck.ok('parts', r is tm.const(True), e, 'parts have output')
    co, nco = lit('self.is_coalescing'), lit('not self.is_coalescing')
    pa = dict(new=isnew, out=effect('outstanding', lambda e: e.kind == 'add' and fl.match('self.client.outstanding', e.a[0]) is not None and part(e.a[1])),
              eng=effect('on the engine', lambda e: e.kind == 'add' and fl.match('self.client._outstanding_dict[elem(s_idents)]', e.a[0]) is not None and part(e.a[1])),
              view=effect('in the view', lambda e: e.kind == 'add' and fl.match('self.outstanding', e.a[0]) is not None and part(e.a[1])),
              trk=store(f'{PART}.tracker', 'message_future.tracker'))
    heads = {fl.loop_of(e.node) for e in NEW}
    ck.ok('parts', None not in heads, fl, 'each engine of a broadcast has a request of its own')
    for h in heads - {None}:
        ck.ok('parts', covers(fl, h, 's_idents', ordered=True), fl, 'each engine of a broadcast has a request of its own')
        for t in fl.body_traces(h, pa):
            ck.ok('parts', t.end == 'stop' and all(t.count(k) == 1 for k in pa), fl, 'parts are outstanding, on their engine and in their view', path=t.path())
    kept = [e for e in fl.all_effects() if e.kind == 'add' and e.a[0].op == 'alloc' and fl.match(PART, e.a[1]) is not None]
    comps = [x for e in fl.all_effects() if e.kind == 'call' for x in fl.alts(e.a[0]) if False]
    ck.ok('parts', bool(kept), fl, 'the parts of a broadcast are kept in order')
    for e in kept:
        ck.ok('parts', e.a[-1] == 'append', e, 'the parts of a broadcast are kept in order')
    lists = {e.a[0] for e in kept}
    for e, b in fl.find(call('ipyparallel.client.asyncresult.AsyncResult(*_, **_)')):
        v = argof(e.a[0], 1, 'children')
        ls = leaves(fl, v) if v is not None else []
        ck.ok('parts', any(x in lists for x in ls) and all(x in lists or fl.match('message_future', x) is not None for x in ls), e, 'the result is that of all parts')
    ra = dict(co=co, nco=nco, rm=remove('self.outstanding', ORIG), out=lit(f'{ORIG} not in self.outstanding'), all=call('ipyparallel.client.futures.multi_future(_).add_done_callback(_)'), one=call('message_future.add_done_callback(_)'),
              mine=add('self.client.outstanding', ORIG), done=call('ipyparallel.client.asyncresult.AsyncResult(*_, **_).add_done_callback(_)'))
    ck.every('parts.original', fl, ra, lambda t: 'co' in t or ('rm' in t or 'out' in t), 'the view waits for the parts, not for the request')
    ck.every('parts.original', fl, ra, lambda t: t.count('all') == t.count('one') == (0 if 'co' in t else 1), 'the request is resolved with its parts')
    ck.every('coalesced', fl, ra, lambda t: t.count('mine') == t.count('done') == (1 if 'co' in t else 0), 'the request whose replies are combined is outstanding')
    cap = lambda up, p, t: all(fl.match(p, x) is not None for x in leaves(fl, up(t)))  # noqa: E731
    for e, b in fl.find(ra['all']):
        ck.ok('parts.original', e.a[0].a[0].a[0].a[1][0] in lists, e, 'all parts are waited for')
    for f, up in closures(ck, fl, 'parts.original', [e.a[0].a[1][0] for e, b in fl.find(ra['all'])], ()):
        DONE = effect('no longer outstanding', lambda e: e.kind == 'remove' and cap(up, 'self.client.outstanding', e.a[0]) and cap(up, ORIG, e.a[1]))
        ck.every('parts.original', f, dict(d=DONE), lambda t: t.count('d') == 1, 'the request is no longer outstanding when its parts are done')
        for what, p in (('result', 'message_future'), ('output', 'message_future.output')):
            hits = []
            for e in f.all_effects():
                if e.kind != 'call' or f.match('_.set_result(*_)', e.a[0]) is None:
                    continue
                o = up(e.a[0].a[0].a[0])
                if cap(up, p, o):
                    hits.append(e)
                elif o.op == 'elem':
                    src = _items(o.a[0]) if o.a[0].op in ('alloc', 'tup') else []
                    if any(fl.match(p, x) is not None for x in src):
                        hits.append(e)
            ck.ok('parts.original', bool(hits), f, f'the {what} of the request is complete when its parts are done')
            for e in hits:
                h = f.loop_of(e.node)
                a = dict(s=is_eff(e), done=_lit(lambda t, o=e.a[0].a[0].a[0]: t.op == 'truth' and f.match('_.done()', t.a[0]) is not None and t.a[0].a[0].a[0] is o))
                for t in (f.body_traces(h, a) if h is not None else f.traces(a)):
                    if t.end in ('stop', 'return'):
                        ck.ok('parts.original', t.count('s') == (0 if 'done' in t else 1), e, f'the {what} of the request is complete when its parts are done', path=t.path())
    for f, up in closures(ck, fl, 'parts.failed', [e.a[0].a[1][0] for e, b in fl.find(ra['one'])], ()):
        L = [h for h in fl_loops(f) if up(f.val(h, h.term)) in lists or f.val(h, h.term).op == 'copy' and up(f.val(h, h.term).a[0]) in lists]
        ck.ok('parts.failed', bool(L), f, 'if the request cannot be sent, so are its parts')
        for h in L:
            el = "any_of(elem(_))"
            a = dict(done=_lit(lambda t: t.op == 'truth' and f.match('elem(_).done()', t.a[0]) is not None), s=call('elem(_).set_result(_.result())'), o=call('elem(_).output.set_result(_)'), r=remove('self.client.outstanding', 'elem(_).msg_id'))
            for t in f.body_traces(h, a):
                ck.ok('parts.failed', t.end == 'stop' and ('done' in t or t.count('s') == t.count('o') == t.count('r') == 1), f, 'the parts of a request that was not sent are resolved', path=t.path())
    # combined replies
    eng = [e for e in fl.all_effects() if e.kind == 'add' and fl.match('self.client._outstanding_dict[elem(s_idents)]', e.a[0]) is not None and fl.match(ORIG, e.a[1]) is not None]
    ck.ok('coalesced', bool(eng), fl, 'the request is outstanding on each engine')
    for e in eng:
        h = fl.loop_of(e.node)
        ck.ok('coalesced', h is not None and covers(fl, h, 's_idents'), e, 'the request is outstanding on each engine')
        if h is not None:
            for t in fl.body_traces(h, dict(a=is_eff(e))):
                ck.ok('coalesced', t.end == 'stop' and t.count('a') == 1, e, 'the request is outstanding on each engine', path=t.path())
    for f, up in closures(ck, fl, 'coalesced', [e.a[0].a[1][0] for e, b in fl.find(ra['done'])], ()):
        rms = [e for e in f.all_effects() if e.kind == 'remove' and cap(up, ORIG, e.a[1])]
        ck.ok('coalesced', bool(rms), f, 'it is no longer when it is done')
        for e in rms:
            h = f.loop_of(e.node)
            ck.ok('coalesced', h is not None and any(fl.match('s_idents', x) is not None for x in leaves(fl, up(f.val(h, h.term)))) or h is not None and fl.match('self.client._outstanding_dict.values()', up(f.val(h, h.term))) is not None, e, 'it is no longer when it is done, on any engine')
            if h is not None:
                for t in f.body_traces(h, dict(r=is_eff(e), no=_lit(lambda t: t.op == 'cmp' and f.match('_ in self.client._outstanding_dict', t) is not None, False))):
                    ck.ok('coalesced', t.end == 'stop' and t.count('r') == (0 if 'no' in t else 1), e, 'it is no longer when it is done, on any engine', path=t.path())
    nid = ck.F('controller.scheduler:Scheduler.get_new_msg_id')
    for t in nid.traces({}, retval=True):
        if t.end == 'return':
            r = t.ret
            ok = r.op == 'fstr' and len(r.a[0]) == 3 and nid.match('original_msg_id', _unfmt(r.a[0][0])) is not None and r.a[0][1] in ('_', tm.const('_')) and all(nid.match("any_of(outgoing_id, outgoing_id.decode(*_))", x) is not None for x in leaves(nid, _unfmt(r.a[0][2])))
            ck.ok('parts.number', ok, nid, 'the id of a part is that of the request and the engine, as clients number them', path=t.path())


def _unfmt(t):
    return t.a[0] if isinstance(t, tm.T) and t.op == 'fmt' else t


def _lit(test, pol=True):
    def f(e, a, b):
        return {} if e.kind == 'lit' and e.a[1] == pol and test(e.a[0]) else None

    f.desc, f.lit = 'condition', True
    return f


def _concat(fl, v, old, new, depth=0):
    """old + new (old may be empty), possibly with parts dropped by a substitution of the whole."""
    for x in leaves(fl, v):
        m = fl.match('_p.sub(_r, _v)', x)
        if m is not None and depth < 3:
            if not _concat(fl, x.a[1][1], old, new, depth + 1):
                return False
            continue
        if x.op == 'fstr' and len(x.a[0]) == 2:
            l, r = (_unfmt(y) for y in x.a[0])
        elif x.op == 'bin' and x.a[0] == '+':
            l, r = x.a[1], x.a[2]
        else:
            return False
        if not all(fl.match(f"any_of({old}, {old} or '', '')", y) is not None for y in leaves(fl, l)) or not all(fl.match(new, y) is not None for y in leaves(fl, r)):
            return False
    return True


@prop('C02', 30)
def c02(ck):
    names = ck.names(C)
    fl = ck.F(CM + '_dispatch_iopub', opaque=tuple(names) + ('get_ipython',))
    MID = "msg['parent_header']['msg_id']"
    MD = f'self.metadata[{MID}]'
    T = "msg['header']['msg_type']"
    PAY = "msg['content']"
    # only own
    mine = either(lit("msg['parent_header']['session'] == self.session.session"), lit("any_of(msg['parent_header'].get('session', *_)) == self.session.session"))
    touches = effect('metadata', lambda e: e.kind in ('getitem', 'add', 'remove', 'call') and tm.mentions(e.a[0], lambda x: fl.match('any_of(self.metadata[_], self._output_futures.get(_, *_), self._output_futures[_], self._futures[_], self._futures.get(_, *_))', x) is not None)
                     or e.kind == 'getitem' and fl.match('any_of(self.metadata, self._output_futures, self._futures)', e.a[0]) is not None)
    ck.ok('output.own', bool(fl.find(touches)), fl, 'output is recorded')
    at = dict(mine=mine, touch=touches)
    for t in fl.traces(at):
        if 'touch' in t and not ck.ok('output.own', t.before('mine', 'touch'), fl, 'only output of requests of this client is recorded', path=t.path()):
            break
    for e in fl.all_effects():
        if e.kind in ('getitem', 'add', 'remove') and fl.match('any_of(self.metadata, self._output_futures, self._futures)', e.a[0]) is not None:
            ck.ok('output.request', fl.match(MID, e.a[1]) is not None, e, 'output belongs to the request that caused it')
        for x in (tm.subterms(e.a[0]) if isinstance(e.a[0], tm.T) else ()):
            if x.op == 'get' and fl.match('any_of(self._output_futures, self._futures, self.metadata)', x.a[0]) is not None:
                ck.ok('output.request', fl.match(MID, x.a[1]) is not None, e, 'output belongs to the request that caused it')
    is_ = lambda s: lit(f"{T} == '{s}'")  # noqa: E731
    NAME = f"{PAY}['name']"
    recs = dict(
        stream=[e for e in fl.all_effects() if e.kind == 'add' and fl.match(MD, e.a[0]) is not None and fl.match(NAME, e.a[1]) is not None],
        display_data=[e for e, b in fl.find(add(f"{MD}['outputs']", PAY))],
        error=[e for e, b in fl.find(add(MD, "'error'", f'self._unwrap_exception({PAY})'))],
        execute_input=[e for e, b in fl.find(add(MD, "'execute_input'", f"{PAY}['code']"))],
        execute_result=[e for e, b in fl.find(add(MD, "'execute_result'", PAY))],
        data_message=[e for e, b in fl.find(add(f"{MD}['data']", '_', '_'))],
    )
    SET = call(f"any_of(self._output_futures.get({MID}, *_), self._output_futures[{MID}]).set_result(_)")
    recs['status'] = [e for e, b in fl.find(SET)]
    recs = {k: [e for e in es if not (e.kind == 'add' and e.a[-1] == 'setdefault')] for k, es in recs.items()}
    for e in fl.all_effects():
        if e.kind == 'add' and fl.match(MD, e.a[0]) is not None and e.a[1] in (tm.const('engine_uuid'), tm.const('engine_id')):
            want = "any_of(msg['metadata']['engine'], msg['metadata'].get('engine', *_))"
            p = want if e.a[1] is tm.const('engine_uuid') else f'any_of(self._engines[{want}], self._engines.get({want}, *_))'
            ck.ok('output.engine', all(fl.match(p, x) is not None for x in leaves(fl, e.a[2])), e, 'the engine is the one that published the output')
    for k, es in recs.items():
        ck.ok('output.' + k, bool(es), fl, f'{k} messages are recorded')
    for e in recs['stream']:
        ck.ok('output.stream', _concat(fl, e.a[2], f'{MD}[{NAME}]', f"{PAY}['text']"), e, 'what is printed is added to what was printed before')
    for e in recs['display_data']:
        ck.ok('output.display_data', e.a[-1] == 'append', e, 'outputs are kept in order')
    for e in recs['data_message']:
        ck.ok('output.data_message', fl.match("any_of(_.deserialize_object(msg['buffers'])[0][_], _.deserialize_object(msg['buffers'])[0])", e.a[2]) is not None, e, 'published data are recorded')
    idle, busy = lit(f"{PAY}['execution_state'] == 'idle'"), lit(f"{PAY}['execution_state'] != 'idle'")
    OF = f"any_of(self._output_futures.get({MID}, *_), self._output_futures[{MID}])"
    none = either(lit(f'not {OF}'), lit(f'{OF} is None'), lit(f'{MID} not in self._output_futures'), lit(f'{OF}.done()'))
    at = {f'is_{k}': is_(k) for k in recs}
    at.update({f'do_{k}': effect(k, lambda e, es=es: e in es) for k, es in recs.items()})
    at.update(idle=idle, busy=busy, none=none, mine=mine, unknown=either(lit(f'{MID} not in self.metadata'), lit(f'{MID} not in self._futures')), c=caught(), cb=call('elem(_.iopub_callbacks)(msg)'), fut=either(lit(f'self._futures.get({MID}, *_)'), lit(f'self._futures.get({MID}, *_) is not None')))
    seen = set()
    for t in fl.traces(at):
        if t.end != 'return':
            continue
        kind = [k for k in recs if f'is_{k}' in t]
        done = [k for k in recs if f'do_{k}' in t]
        if len(kind) > 1:
            continue
        if not kind:
            if not ck.ok('output', not done, fl, 'what is recorded depends on the type of the message', path=t.path()):
                break
            continue
        k = kind[0]
        seen.add(k)
        if k == 'status':
            if 'unknown' in t and not done:
                continue
            want = 'idle' in t and 'none' not in t
            if not ck.ok('output.status', bool({'idle', 'busy', 'none'} & set(t.atoms)), fl, 'the output of a request is complete when its engine is idle again', path=t.path()):
                break
            if not ck.ok('output.status', t.count('do_status') == want and done in ([], ['status']), fl, 'the output of a request is complete when its engine is idle again, and not before', path=t.path()):
                break
        elif not ck.ok('output.' + k, t.count(f'do_{k}') >= 1 and done == [k] and ('c' in t or k in ('data_message',) or t.count(f'do_{k}') == 1), fl, f'{k} messages are recorded, once', path=t.path()):
            break
    ck.ok('output', seen == set(recs), fl, 'all types of messages are recorded')
    CB = call('elem(_.iopub_callbacks)(msg)')
    ck.ok('output.callbacks', bool(fl.find(CB)), fl, 'callbacks for output are called')
    for e, b in fl.find(CB):
        h = fl.loop_of(e.node)
        ck.ok('output.callbacks', h is not None and covers(fl, h, f'any_of(self._futures.get({MID}, *_), self._futures[{MID}]).iopub_callbacks'), e, 'callbacks for output are called')
    # errors
    ue = ck.F(CM + '_unwrap_exception', opaque=tuple(names) + tuple(ck.fnames('error')))
    E_ = 'ipyparallel.error.unwrap_exception(content)'
    for t in ue.traces({}, retval=True):
        if t.end == 'return':
            ck.ok('output.error', ue.match(E_, t.ret) is not None, ue, 'an error is the one that was reported', path=t.path())
    for e in ue.all_effects():
        if e.kind == 'add':
            ok = ue.match(f'{E_}.engine_info', e.a[0]) is not None and e.a[1] is tm.const('engine_id') and ue.match(f"any_of(self._engines.get(_u, *_), self._engines[_u])", e.a[2]) is not None
            key = e.a[2].a[1] if ok else None
            ck.ok('output.error', ok and ue.match(f"any_of({E_}.engine_info['engine_uuid'], {E_}.engine_info.get('engine_uuid', *_))", key) is not None, e, 'an error names the engine that it happened on')
            ck.guarded('output.error', ue, is_eff(e), [lit(f"'engine_id' not in {E_}.engine_info")], 'an error names the engine that it happened on')
    # what the reply says
    ex = ck.F(CM + '_extract_metadata', opaque=names + ck.fnames('util'))
    rets = [t.ret for t in ex.traces({}, retval=True) if t.end == 'return']
    ck.ok('metadata', bool(rets), ex, 'metadata are extracted')
    M, H, P = "msg['metadata']", "msg['header']", "msg['parent_header']"
    want = dict(msg_id=f"{P}['msg_id']", engine_uuid=f"any_of({M}.get('engine', *_), {M}['engine'], _)", follow=f"{M}.get('follow', *_)", after=f"{M}.get('after', *_)", status=f"{PAY}['status']", is_broadcast=f"{M}.get('is_broadcast', *_)",
                is_coalescing=f"{M}.get('is_coalescing', *_)", label=f"{M}.get('label', *_)", submitted=f"{P}['date']", started=f"any_of(_._parse_date({M}['started']), {M}['started'])", completed=f"{H}['date']", received='any_of(_.utcnow(), _.now(*_))')
    got = {}
    for r in {r for r in rets if r is not None}:
        for k, v, it in dict_sources(ex, r):
            if k is not None and k.op == 'const':
                got.setdefault(k.a[0], []).append(v)
    for k, p in want.items():
        vs = got.get(k, [])
        ck.ok('metadata', bool(vs) and all(ex.match(p.replace(', _)', ', _)'), x) is not None for v in vs for x in leaves(ex, v)), ex, f'{k} is what the reply says, not {[str(v)[:60] for v in vs]}')
    TG = f"any_of({M}.get('broadcast_targets', *_), {M}['broadcast_targets'])"
    eu = [v for v in got.get('engine_uuid', ())]
    ck.ok('metadata', any(ex.match(f"any_of({M}.get('engine', *_), {M}['engine'])", x) is not None for v in eu for x in leaves(ex, v)), ex, 'the engine is the one that replied')
    co = _lit(lambda t: t.op == 'truth' and ex.match(f"any_of({M}.get('is_coalescing', *_), _['is_coalescing'])", t.a[0]) is not None)
    multi = {k: effect(k, lambda e, k=k: e.kind == 'add' and e.a[1] is tm.const(k) and tm.mentions(e.a[2], lambda x: ex.match(TG, x) is not None)) for k in ('engine_uuid', 'engine_id')}
    ck.every('metadata', ex, dict(multi, co=co), lambda t: t.count('engine_uuid') == t.count('engine_id') == (1 if 'co' in t else 0), 'combined replies name all engines')
    for k, want in (('engine_uuid', ['u1', 'u2', 'u3']), ('engine_id', [3, 1, 2])):
        leaf = fold.leaves(ex, [(TG, [('u1', 3), ('u2', 1), ('u3', 2)])])
        for e, b in ex.find(multi[k]):
            v = fold.fold(e.a[2], leaf)
            ck.ok('metadata', v is fold.UNKNOWN or list(v) == want, e, f'combined replies name the {k} of all engines, in order')
    one = effect('engine_id', lambda e: e.kind == 'add' and e.a[1] is tm.const('engine_id') and ex.match(f"any_of(self._engines.get(_, *_), self._engines[_])", e.a[2]) is not None)
    for e, b in ex.find(one):
        key = e.a[2].a[1]
        ck.ok('metadata', ex.match(f"any_of({M}.get('engine', *_), {M}['engine'], _['engine_uuid'])", key) is not None, e, 'the id of the engine is that of the engine that replied')
    ck.ok('metadata', bool(ex.find(one)), ex, 'the id of the engine is known')
    dates = {k: effect(k, lambda e, k=k: e.kind == 'add' and e.a[1] is tm.const(k)) for k in ('submitted', 'started', 'completed')}
    cond = dict(submitted=f"'date' not in {P}", started=f"'started' not in {M}", completed=f"'date' not in {H}")
    ck.every('metadata', ex, dict(dates, **{'no_' + k: lit(c) for k, c in cond.items()}), lambda t: all(k in t or 'no_' + k in t or not ex.find(dates[k]) for k in dates), 'dates are those of the request and the reply')
    # each request has metadata of its own
    mi = ck.F('client.client:Metadata.__init__')
    fresh = [(k, v) for e in mi.all_effects() for x in [e.a[0]] if e.kind == 'call' and mi.match('self.update(_)', x) is not None for k, v, it in dict_sources(mi, x.a[1][0])]
    fresh += [(e.a[1], e.a[2]) for e in mi.all_effects() if e.kind == 'add' and mi.match('self', e.a[0]) is not None]
    have = {k.a[0]: v for k, v in fresh if k is not None and k.op == 'const'}
    for k in ('outputs', 'data'):
        ck.ok('metadata.own', k in have and have[k].op == 'alloc' and not have[k].a[2], mi, f'each request starts with {k} of its own, and none')
    for k in ('stdout', 'stderr'):
        ck.ok('metadata.own', have.get(k) is tm.const(''), mi, f'{k} starts empty')
    for k in ('engine_id', 'execute_input', 'execute_result', 'error', 'status', 'completed'):
        ck.ok('metadata.own', have.get(k) is tm.NONE, mi, f'{k} is unknown at first')
    no_shared_state(ck, 'metadata.own', 'client.client:Metadata')
    si = ck.F('client.client:Metadata.__setitem__')
    ck.every('metadata.strict', si, dict(s=call('dict.__setitem__(self, key, value)'), s2=call('super().__setitem__(key, value)'), has=lit('key in self'), no=lit('key not in self')), lambda t: t.count('s') + t.count('s2') == (1 if 'has' in t else 0), 'known fields can be set')
