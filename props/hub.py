"""Hub: client requests, engine registry, task records, stored results."""

from ipa import terms as tm

from .common import add, argof, awaited, call, contained, covers, dict_sources, each, either, enclosing, is_eff, keyed, lit, prop, raises, remove, ret, store

H = 'controller.hub:Hub.'


def sends(fl, stream='self.query'):
    """Replies sent on a stream: (effect, type term, content, parent, ident, buffers)."""
    out = []
    for e, b in fl.find(call(f'self.session.send({stream}, *_)')):
        t = e.a[0]
        out.append((e, argof(t, 1, 'msg_or_type'), argof(t, 2, 'content'), argof(t, 3, 'parent'), argof(t, 4, 'ident'), argof(t, 5, 'buffers')))
    return out


def handlers(ck, attr):
    """The dispatch table assigned to self.<attr> in Hub.__init__: {key: method name}."""
    fl = ck.F(H + '__init__', opaque=ck.names('controller.hub:Hub'))
    out = {}
    for e, b in fl.find(store(f'self.{attr}')):
        for k, v, it in dict_sources(fl, e.a[2]):
            if k is not None and k.op == 'const' and v is not None and v.op == 'attr':
                out[k.a[0]] = v.a[1]
    ck.ok('hub.table', bool(out), fl, f'{attr} must be set')
    return out, fl


REPLIES = ('queue_request', 'result_request', 'history_request', 'db_request', 'purge_request', 'load_request', 'resubmit_request',
           'shutdown_request', 'connection_request', 'become_dask_request', 'stop_distributed_request')


@prop('H01', 60)
def h01(ck):
    names = ck.names('controller.hub:Hub')
    hs, init = handlers(ck, 'query_handlers')
    for k in REPLIES + ('registration_request', 'unregistration_request'):
        ck.ok('hub.request-handled', k in hs, init, f'{k} must have a handler')
    # dispatch: an error anywhere is answered, exactly once
    dq = ck.F(H + 'dispatch_query', opaque=names)
    hcall = call('self.query_handlers[_](*_)')
    hcall2 = call('self.query_handlers.get(*_)(*_)')
    at = dict(ids=lit('truth(any_of(_, self.session.feed_identities(*_)[0]))'), err=call("self.session.send(self.query, 'hub_error', *_)"), run=either(hcall, hcall2))
    ck.every('hub.dispatch', dq, dict(err=at['err'], run=at['run']), lambda t: t.count('run') <= 1 and t.count('err') <= 1,
             'a request is handled at most once and answered with at most one error')
    ck.every('hub.dispatch', dq, dict(err=at['err'], run=at['run'], no=either(lit('not any_of(_, self.session.feed_identities(*_)[0])'), lit('len(self.session.feed_identities(*_)[0]) == 0'))),
             lambda t: 'run' in t or 'err' in t or 'no' in t, 'only a message that no client sent is not answered')
    runs = dq.find(at['run'])
    ck.ok('hub.dispatch', bool(runs), dq, 'the handler must be called')
    for e, b in runs:
        f, args, kw = e.a[0].a
        ck.ok('hub.dispatch', len(args) == 2 and dq.match('any_of(self.session.feed_identities(*_)[0], _)', args[0]) is not None
              and dq.match('self.session.deserialize(*_)', args[1]) is not None, e, 'the handler gets the client identity and the verified message')
        ck.ok('hub.dispatch', dq.match("any_of(self.query_handlers[_['header']['msg_type']], self.query_handlers.get(_['header']['msg_type'], *_))", f) is not None, e, 'the handler is chosen by message type')
    ck.exists('hub.dispatch', dq, awaited('any_of(self.query_handlers[_](*_), self.query_handlers.get(*_)(*_))'), 'a handler that has to wait is awaited, so that its errors are answered')
    errs = sends(dq)
    for e, ty, content, parent, ident, bufs in errs:
        ck.ok('hub.error-reply', content is not None and dq.match("any_of({'status': 'error'}, wrap_exception(*_))", content) is not None, e, 'errors are reported with their exception')
        ck.ok('hub.error-reply', parent is not None and ident is not None, e, 'an error reply is parented and routed to the client')
    contained(ck, 'hub.error-answered', dq, either(at['run'], awaited()), 'an exception in a handler is answered with hub_error', at['err'])
    unk = dict(err=at['err'], run=at['run'], miss=either(lit('_ not in self.query_handlers'), lit('self.query_handlers.get(*_) is None'), lit('not self.query_handlers.get(*_)')))
    ts = dq.traces(unk)
    ck.ok('hub.unknown-answered', any('miss' in t for t in ts) and all(t.count('err') == 1 and 'run' not in t for t in ts if 'miss' in t), dq, 'an unknown request is answered with hub_error')
    # each handler: exactly one reply per path
    for k in REPLIES:
        if k not in hs:
            continue
        fl = ck.F(H + hs[k], opaque=[n for n in names if n not in ('_extract_record', 'finish')])
        ps = fl.func.params
        cid, msg = ps[1], ps[2]
        rep = call('self.session.send(self.query, *_)')
        ck.every('hub.one-reply', fl, dict(reply=rep), lambda t: t.count('reply') == 1, f'{k} is answered exactly once on every path', ends=('return',), exc='handled')
        for e, ty, content, parent, ident, bufs in sends(fl):
            ck.ok('hub.reply-addressed', parent is not None and fl.match(msg, parent) is not None, e, f'the reply to {k} must be parented to the request')
            ck.ok('hub.reply-addressed', ident is not None and fl.match(f'any_of({cid}, {cid}[0])', ident) is not None, e, f'the reply to {k} must be routed to the requesting client')
            ck.ok('hub.reply-type', ty is not None and tm.is_str(ty) and (ty.a[0] == 'hub_error' or ty.a[0].endswith('_reply')), e, f'the reply to {k} must have a reply type')
            ok1 = content is not None and all(
                fl.match("any_of({'status': _}, wrap_exception(*_))", c) is not None for c in (fl.alts(content) if content.op == 'phi' else [content]) if c.op != 'phi')
            ck.ok('hub.reply-status', ok1, e, f'the reply to {k} must state its status')
    # errors inside handlers that are answered by the handler itself reach the reply
    for k in [x for x in ('queue_request', 'load_request') if x in hs]:
        fl = ck.F(H + hs[k], opaque=[n for n in names])
        contained(ck, 'hub.bad-target', fl, call('self._validate_targets(*_)'), 'invalid targets are answered with an error', call('self.session.send(self.query, *_)'))
    vt = ck.F(H + '_validate_targets', opaque=names)
    rets = vt.find(ret())
    for e, b in rets:
        if vt.match('any_of(self.ids, list(self.ids), sorted(self.ids))', e.a[0]) is not None:
            ck.ok('hub.targets', any(pol and vt.match('targets is None', t) is not None for t, pol in vt.guards().get(e.node.id, ())), e, 'all engines are meant only when no target is given')
            continue
        for x in [y for y in (vt.alts(e.a[0]) if e.a[0].op == 'phi' else [e.a[0]]) if y.op != 'phi']:
            if x.op == 'comp':
                ck.ok('hub.targets', x.a[4] == 0, e, 'no requested target may be left out')
            else:
                each(ck, 'hub.targets', vt, into(x), 'no requested target may be left out')
        bad = [t for t in vt.lit_count if t.op == 'truth' and t.a[0].op in ('comp', 'call', 'bin')] + [t for t in vt.lit_count if vt.match('_ in self.ids', t) is not None]
        ck.ok('hub.targets', any(tm.mentions(t, lambda x: x.op == 'attr' and x.a[1] == 'ids') for t in bad) or any(
            vt.match('_ in self.ids', x) is not None for t in bad if t.op == 'truth' and t.a[0].op == 'comp' for x, p in vt.comp_guards(t.a[0])), e, 'targets that are not registered are refused')
    refused(ck, vt)
    ck.exists('hub.targets', vt, raises('IndexError(*_)'), 'targets that are not registered are refused', n=1)
    for k in [x for x in ('result_request', 'db_request', 'history_request', 'resubmit_request', 'purge_request') if x in hs]:
        fl = ck.F(H + hs[k], opaque=[n for n in names if n not in ('_extract_record', 'finish')])
        dbc = [e for e in fl.all_effects() if e.kind == 'call' and e.a[0].a[0].op == 'attr' and fl.match('self.db', e.a[0].a[0].a[0]) is not None]
        ck.ok('hub.db-error-answered', bool(dbc), fl, f'{k} must consult the database')
        for e in dbc:
            contained(ck, 'hub.db-error-answered', fl, is_eff(e), f'a database error in {k} is answered as an error')


def refused(ck, vt):
    """One target that is not registered is enough."""
    for e, b in vt.find(raises('IndexError(*_)')):
        for t, pol in vt.guards().get(e.node.id, ()):
            if t.op == 'cmp' and t.a[0] != 'in' and tm.mentions(t, lambda x: x.op == 'comp' or x.op == 'call' and x.a[0].op == 'glob' and x.a[0].a[0] == 'len'):
                one = vt.match('any_of(0 < len(_), len(_) == 0, len(_) < 1, 1 <= len(_), 0 == len(_), len(_) <= 0)', t) is not None or vt.match('any_of(_ == [], [] == _)', t) is not None
                ck.ok('hub.targets', one, e, 'one target that is not registered is enough to refuse a request')


UTIL = ('ensure_timezone', 'extract_dates', 'utcnow', 'init_record', 'ensure_date_is_parsed', 'empty_record', 'wrap_exception')
ENG = "self.engines[msg['content']['id']]"


# ------------------------------------------------------------------ H02
@prop('H02', 40)
def h02(ck):
    names = ck.names('controller.hub:Hub')
    # ids
    ni = ck.F(H + 'new_engine_id')
    pend = 'self.incoming_registrations'
    at = dict(
        used=lit('requested_id in self.engines'), free=lit('requested_id not in self.engines'),
        pend=either(lit(f'requested_id in _'), lit('requested_id == elem(_).id')),
        inc=store('self._idcounter', 'self._idcounter + 1'), bump=store('self._idcounter', 'any_of(max(requested_id + 1, self._idcounter), max(self._idcounter, requested_id + 1))'),
    )
    for t in ni.traces(at, retval=True):
        if t.end != 'return':
            continue
        asked = t.ret is not None and ni.match('requested_id', t.ret) is not None
        if asked:
            ck.ok('registry.unique-id', 'free' in t and 'used' not in t and 'bump' in t, ni, 'a requested id is granted only if no registered engine has it, and is never handed out again', path=t.path())
        else:
            ck.ok('registry.unique-id', t.ret is not None and ni.match('any_of(self._idcounter, self._idcounter + 1)', t.ret) is not None and t.count('inc') == 1, ni,
                  'a new id is taken from the counter, which advances once', path=t.path())
    inpend = [t for t in ni.lit_count if ni.match('requested_id in _', t) is not None and tm.mentions(t, lambda x: x.op == 'attr' and x.a[1] == 'incoming_registrations')] + [
        t for t in ni.lit_count if tm.mentions(t, lambda x: x.op == 'attr' and x.a[1] == 'incoming_registrations') and tm.mentions(t, lambda x: x.op == 'attr' and x.a[1] == 'id')]
    ck.ok('registry.unique-id', bool(inpend), ni, 'a requested id that a pending registration holds is refused')
    for t in inpend:
        for x in tm.subterms(t):
            if x.op == 'comp' and x.a[2] is not None and x.a[0] != 'dict':
                ck.ok('registry.unique-id', ni.match('any_of(_.id, requested_id == _.id, _.id == requested_id)', x.a[2]) is not None, ni, 'a requested id is compared with the ids of pending registrations')
    for e in ni.all_effects():
        if e.kind == 'return' and ni.match('requested_id', e.a[0]) is not None:
            G = ni.guards().get(e.node.id, ())
            ck.ok('registry.unique-id', any(t in inpend and not pol for t, pol in G) or not _direct(inpend), e, 'a requested id that a pending registration holds is refused')
    # first half
    rg = ck.F(H + 'register_engine', opaque=[n for n in names])
    uuid = "msg['content']['uuid']"
    ra = dict(
        dup=either(lit(f'{uuid}.encode(*_) in self.by_ident'), lit(f'{uuid} == elem({pend}).uuid'), lit(f'{uuid} == {pend}[_].uuid'), lit(f'{uuid}.encode(*_) == elem({pend})'), lit(f'{uuid}.encode(*_) in {pend}')),
        has=lit(f"'uuid' in msg['content']"), hasnt=lit(f"'uuid' not in msg['content']"),
        reply=call("self.session.send(self.query, 'registration_reply', *_)"), put=add(pend, '_'), arm=call('any_of(self.loop.add_timeout, self.loop.call_later)(*_)'),
    )
    ck.every('registry.first-half', rg, ra, lambda t: (t.count('reply') == 1 if 'has' in t or 'hasnt' not in t else t.count('put') == 0) and ('dup' not in t or ('put' not in t and 'arm' not in t))
             and t.count('put') == t.count('arm') and ('put' not in t or t.before('reply', 'put')),
             'a registration is answered once; a uuid already in use is refused, every other becomes pending with a timeout')
    ck.ok('registry.first-half', any('dup' in t for t in rg.traces(ra)) and any('put' in t for t in rg.traces(ra)), rg, 'both outcomes must exist')
    pair = [e for e in rg.lit_count if rg.match(f'any_of({uuid} == {pend}[elem({pend})].uuid, {uuid}.encode(*_) in {pend}, {uuid}.encode(*_) == elem({pend}))', e) is not None]
    ck.ok('registry.pending-duplicate', bool(pair), rg, 'a uuid that is already registering is refused')
    known = [t for t in rg.lit_count if rg.match(f'any_of({uuid}.encode(*_) in self.by_ident, {uuid} == elem(self.engines).uuid, {uuid} == self.engines[_].uuid, {uuid}.encode(*_) == self.engines[_].ident)', t) is not None
             or t.op in ('truth', 'isnone') and rg.match(f'self.by_ident.get({uuid}.encode(*_))', t.a[0]) is not None
             or t.op == 'cmp' and tm.mentions(t, lambda x: x.op == 'comp' and any(rg.match('any_of(self.engines, self.engines.values(), self.engines.items())', i) is not None for i in x.a[3]))]
    ck.ok('registry.duplicate', bool(known), rg, 'a uuid that a registered engine has is refused')
    for e, b in rg.find(ra['put']):
        ck.ok('registry.pending', rg.match(f'{uuid}.encode(*_)', e.a[1]) is not None, e, 'a pending registration is filed under its heart')
        c = e.a[2]
        ck.ok('registry.pending', c is not None and rg.match(f'EngineConnector(id=self.new_engine_id(*_), ident={uuid}.encode(*_), uuid={uuid}, *_)', c) is not None, e, 'the pending engine has the new id and its own uuid')
    for e, ty, content, parent, ident, bufs in sends(rg):
        good = [c for c in (rg.alts(content) if content.op == 'phi' else [content]) if rg.match("{'status': 'ok'}", c) is not None]
        ck.ok('registry.reply', bool(good) and all(rg.match("{'id': self.new_engine_id(*_), 'status': 'ok', 'connection_info': self.engine_info}", c) is not None for c in good), e,
              'the reply gives the engine its id and the connection info')
        ck.ok('registry.reply', ident is not None and rg.match('reg', ident) is not None, e, 'the reply goes to the engine that asked')
    for e, b in rg.find(ra['arm']):
        a = e.a[0].a[1]
        hit = _cb(rg, a[1], a[2:], '_purge_stalled_registration', names) if len(a) > 1 else None
        ck.ok('registry.stalled', hit is not None and rg.match(f'{uuid}.encode(*_)', hit[0]) is not None, e, 'a stalled registration is purged')
    ps = ck.F(H + '_purge_stalled_registration')
    ck.every('registry.stalled', ps, dict(h=lit(f'heart in {pend}'), p=remove(pend, 'heart')), lambda t: ('h' in t) == ('p' in t) or 'p' in t, 'a pending registration that timed out is forgotten')
    # its first heartbeat may be there, not handled yet
    ck.every('registry.stalled', ps, dict(f=call('self.monitor.flush(*_)'), h=lit(f'heart in {pend}'), n=lit(f'heart not in {pend}'), p=remove(pend, 'heart')), lambda t: not any(x in t for x in 'hp') or 'f' in t and all(t.before('f', x) for x in 'hp' if x in t), 'a registration is not stalled when its heartbeat has arrived')
    # second half
    fr = ck.F(H + 'finish_registration', opaque=[n for n in names if n != '_save_engine_state'])
    ec = f'{pend}[heart]'
    fa = dict(known=lit(f'heart in {pend}'), unk=lit(f'heart not in {pend}'), pop=remove(pend, 'heart'),
              ids=add('self.ids', f'{ec}.id'), engines=add('self.engines', f'{ec}.id', ec), ident=add('self.by_ident', f'{ec}.ident', f'{ec}.id'),
              queues=add('self.queues', f'{ec}.id', 'new(list)'), tasks=add('self.tasks', f'{ec}.id', 'new(list)'), completed=add('self.completed', f'{ec}.id', 'new(list)'),
              hearts=add('self.hearts', 'heart', f'{ec}.id'), note=call("self.session.send(self.notifier, 'registration_notification', *_)"), silent=lit('not self.notifier'))
    maps = ('pop', 'ids', 'engines', 'ident', 'queues', 'tasks', 'completed', 'hearts')

    def second(t):
        if 'unk' in t and 'known' not in t:
            return not any(m in t for m in maps[1:]) and 'note' not in t
        return all(t.count(m) == 1 for m in maps) and ('silent' in t or t.count('note') == 1) and ('note' not in t or all(t.before(m, 'note') for m in maps))
    ck.every('registry.second-half', fr, fa, second, 'a registered engine is entered in every map before it is announced, once')
    for e, b in fr.find(fa['note']):
        c = argof(e.a[0], 2, 'content')
        ck.ok('registry.announced', c is not None and fr.match(f"{{'id': {ec}.id, 'uuid': {ec}.uuid}}", c) is not None, e, "the announcement carries the engine's id and uuid")
    _saves(ck, fr, 'self.engines')
    # hearts
    hm = ck.F(H + 'heartmonitor_message', opaque=names)
    for ev, m in (('new_heart', 'handle_new_heart'), ('stopped_heart', 'handle_stopped_heart')):
        hits = hm.find(call(f'self.{m}(*_)'))
        ck.ok('registry.hearts', bool(hits), hm, f'{ev} must be handled')
        for e, b in hits:
            ck.ok('registry.hearts', hm.match("elem(_['content']['hearts']).encode(*_)", e.a[0].a[1][0]) is not None, e, f'every heart reported by {ev} is handled')
            G = hm.guards().get(e.node.id, ())
            ck.ok('registry.hearts', any(pol and hm.match(f"_['header']['msg_type'] == '{ev}'", t) is not None for t, pol in G), e, f'{m} is for {ev} messages')
            each(ck, 'registry.hearts', hm, call(f'self.{m}(*_)'), 'every heart is handled once', over="_['content']['hearts']")
    nh = ck.F(H + 'handle_new_heart', opaque=names)
    ck.every('registry.hearts', nh, dict(k=lit(f'heart in {pend}'), u=lit(f'heart not in {pend}'), f=call('self.finish_registration(heart)')), lambda t: 'f' in t if 'k' in t else ('f' not in t or 'u' not in t), 'the first heartbeat completes a registration')
    sh = ck.F(H + 'handle_stopped_heart', opaque=names)
    un = call('self.unregister_engine(*_)')
    ck.every('registry.hearts', sh, dict(u=un, k=either(lit('heart in self.hearts'), lit('self.hearts.get(heart) is not None')), n=either(lit('heart not in self.hearts'), lit('self.hearts.get(heart) is None'))),
             lambda t: t.count('u') == (1 if 'k' in t else 0), 'an engine whose heart stopped is unregistered')
    for e, b in sh.find(un):
        m = argof(e.a[0], 1, 'msg')
        ck.ok('registry.hearts', m is not None and sh.match("{'content': {'id': any_of(self.hearts.get(heart, None), self.hearts[heart])}}", m) is not None, e, 'the engine of that heart is unregistered')
    # leaving
    ur = ck.F(H + 'unregister_engine', opaque=[n for n in names if n != '_save_engine_state'])
    eid = "msg['content']['id']"
    ua = dict(known=lit(f'{eid} in self.engines'), unk=lit(f'{eid} not in self.engines'), hearts=remove('self.hearts', f'{ENG}.ident'), ident=remove('self.by_ident', f'{ENG}.ident'),
              engines=remove('self.engines', eid), ids=remove('self.ids', eid), later=call('any_of(self.loop.add_timeout, self.loop.call_later)(*_)'), note=call("self.session.send(self.notifier, 'unregistration_notification', *_)"), silent=lit('not self.notifier'))
    rm = ('hearts', 'ident', 'engines', 'ids', 'later')

    def leaves(t):
        if 'known' in t and 'unk' not in t:
            return all(t.count(m) == 1 for m in rm) and ('silent' in t or t.count('note') == 1)
        return not any(m in t for m in rm + ('note',))
    ck.every('registry.leave', ur, ua, leaves, 'an engine that leaves is removed from every map, its stranded messages are settled later, and its loss announced once')
    for e, b in ur.find(ua['note']):
        c = argof(e.a[0], 2, 'content')
        ck.ok('registry.announced', c is not None and ur.match(f"{{'id': {eid}, 'uuid': {ENG}.uuid}}", c) is not None, e, "the announcement carries the engine's id and uuid")
    for e, b in ur.find(ua['later']):
        a = e.a[0].a[1]
        hit = _cb(ur, a[1], a[2:], '_handle_stranded_msgs', names) if len(a) > 1 else None
        ck.ok('registry.stranded', hit is not None and len(hit) == 2 and ur.match(eid, hit[0]) is not None and ur.match(f'{ENG}.uuid', hit[1]) is not None, e, 'stranded messages of this engine are settled')
        if len(a) > 1:
            for t, raw in ur.callback_calls(a[1], a[2:], opaque=tuple(names)):
                ck.ok('registry.stranded', raw is None or not tm.mentions(raw, lambda x: x.op == 'attr' and x.a[1] in STATE), e, 'which engine it was is known before it is forgotten')
    _saves(ck, ur, 'self.engines')
    canc = ur.find(remove(pend, '_'))
    ck.ok('registry.cancel', bool(canc), ur, 'unregistering an engine that is still registering cancels its registration')
    for e, b in canc:
        src = [x for x in (ur.alts(e.a[1]) if e.a[1].op == 'phi' else [e.a[1]]) if x.op != 'phi' and x is not tm.NONE]
        ck.ok('registry.cancel', bool(src) and all(ur.match(f'elem({pend})', x) is not None or (x.op == 'item' and x.a[0].op == 'comp' and ur.match(f'elem({pend})', x.a[0].a[2]) is not None) for x in src), e, 'only the matching pending registration is cancelled')
    ck.ok('registry.cancel', any(ur.match(f'any_of({pend}[elem({pend})].id == {eid})', t) is not None for t in ur.lit_count) or any(
        tm.mentions(t, lambda x: x.op == 'attr' and x.a[1] == 'id') and tm.mentions(t, lambda x: x.op == 'attr' and x.a[1] == 'incoming_registrations') for t in ur.lit_count), ur, 'the pending registration is found by id')
    zero(ck, names)
    # state file
    ld = ck.F(H + '_load_engine_state', opaque=names)
    sv = ck.F(H + '_save_engine_state', opaque=names)
    dumps = sv.find(call('json.dump(*_)')) or sv.find(call('json.dumps(*_)'))
    ck.ok('registry.state', bool(dumps), sv, 'the registry must be saved')
    for e, b in dumps:
        st = e.a[0].a[1][0]
        src = dict_sources(sv, st)
        keys = {k.a[0]: v for k, v, it in src if k is not None and k.op == 'const'}
        ck.ok('registry.state', 'engines' in keys and 'next_id' in keys and sv.match('self._idcounter', keys['next_id']) is not None, e, 'the saved state has the engines and the next id')
        if 'engines' in keys:
            es = dict_sources(sv, keys['engines'])
            ck.ok('registry.state', bool(es) and all(k is not None and sv.match('any_of(elem(self.engines), str(elem(self.engines)))', k) is not None and sv.match('self.engines[elem(self.engines)].uuid', v) is not None for k, v, it in es), e,
                  'every engine is saved as id → uuid')
    js = 'any_of(json.load(*_), json.loads(*_))'
    ent = f"elem({js}['engines'])"
    la = dict(put=add(pend, f"{js}['engines'][{ent}].encode(*_)"), fin=call(f"self.finish_registration({js}['engines'][{ent}].encode(*_))"))
    for h in ld.order:
        if h.kind == 'loop' and h.term is not None and ld.match(f"any_of({js}['engines'].items(), {js}['engines'])", ld.val(h, h.term)) is not None:
            for t in ld.body_traces(h, la):
                ck.ok('registry.restore', t.end == 'stop' and t.count('put') == 1 and t.count('fin') == 1 and t.before('put', 'fin'), ld, 'every saved engine is registered again', path=t.path())
            break
    else:
        ck.ok('registry.restore', False, ld, 'all saved engines must be restored')
    for e, b in ld.find(la['put']):
        ck.ok('registry.restore', ld.match(f"EngineConnector(id=int({ent}), uuid={js}['engines'][{ent}], ident={js}['engines'][{ent}].encode(*_), *_)", e.a[2]) is not None, e, 'a restored engine keeps its id and uuid')
    lb = dict(cnt=store('self._idcounter', f"{js}['next_id']"), fin=call('self.finish_registration(*_)'), gone=lit('not os.path.exists(self.engine_state_file)'), mute=store('self.notifier', 'None'), un=store('self.notifier', 'self.notifier'))
    ck.every('registry.restore', ld, lb, lambda t: 'gone' in t or (t.count('cnt') == 1 and t.atoms[-1] != 'fin' and ('mute' not in t or t.before('mute', 'un'))), 'ids of restored engines are not handed out again, and announcements resume')


def _none(isf):
    from .client import _lit

    return _lit(lambda x: x.op == 'truth' and isf(x.a[0]), False)


def zero(ck, names):
    """The first engine has id 0: whether there is an engine is not whether its id is true."""
    for m in sorted(names):
        f = ck.repo.method(ck.repo.cls('controller.hub:Hub'), m)
        if f is None:
            continue
        fl = ck.F(H + m, opaque=names)
        for t in fl.lit_count:
            if t.op == 'truth' and fl.match('any_of(self.by_ident.get(*_), self.by_ident[_], self.hearts.get(*_), self.hearts[_], self.hearts.pop(*_), self.by_ident.pop(*_))', t.a[0]) is not None:
                ck.ok('registry.zero', False, fl, 'the first engine, which has id 0, is an engine')
        ck.ok('registry.zero', True, fl, 'the first engine, which has id 0, is an engine')


def _direct(ts):
    return [t for t in ts if t.op == 'cmp' and t.a[0] == 'in']


def _saves(ck, fl, m):
    at = dict(ch=either(add(m), remove(m)), save=either(call('json.dump(*_)'), call('json.dumps(*_)')), off=lit('not self.engine_state_file'))
    ck.every('registry.saved', fl, at, lambda t: 'ch' not in t or 'off' in t or ('save' in t and len(t.atoms) - 1 - t.atoms[::-1].index('ch') < t.atoms.index('save')), 'the saved registry is updated after every change')


def _cb(fl, cb, extra, meth, opaque):
    for t, raw in fl.callback_calls(cb, extra, opaque=tuple(opaque)):
        if t.a[0].op == 'attr' and t.a[0].a[1] == meth:
            return t.a[1]
    return None


# ------------------------------------------------------------------ H03
SAVE = {b'in': 'save_queue_request', b'out': 'save_queue_result', b'intask': 'save_task_request', b'outtask': 'save_task_result', b'inbcast': 'save_broadcast_request',
        b'outbcast': 'save_broadcast_result', b'tracktask': 'save_task_destination', b'iopub': 'monitor_iopub_message', b'heartmonitor': 'heartmonitor_message'}
STATE = ('pending', 'all_completed', 'unassigned', 'queues', 'tasks', 'completed', 'engines', 'incoming_registrations', 'hearts', 'by_ident')


def changes_state(fl):
    def f(e, a, b):
        if e.kind in ('add', 'remove', 'clear') and isinstance(e.a[0], tm.T):
            return {} if tm.mentions(e.a[0], lambda x: x.op == 'attr' and x.a[1] in STATE and x.a[0].op == 'self') else None
        if e.kind == 'call' and fl.match('any_of(self.db.add_record(*_), self.db.update_record(*_))', e.a[0]) is not None:
            return {}
        return None
    f.desc = 'state change'
    return f


def _keeps_existing(ck, fl, new, old, upd):
    """What output recorded before the request arrived survives completing the record."""
    rule, msg = 'record.keeps-output', 'what was recorded before the request arrived must be kept'
    ups = [e for e, b in fl.find(upd)]
    for e in ups:
        rec = argof(e.a[0], 1, 'rec')
        if tm.mentions(rec, lambda x: x.op == 'comp') or tm.mentions(rec, lambda x: fl.match(old, x) is not None):
            ck.ok(rule, True, e, msg)
            return
    # values of the old record put into the new one
    keep = [e for e in fl.all_effects() if e.kind == 'add' and fl.match(new, e.a[0]) is not None
            and e.a[2] is not None and tm.mentions(e.a[2], lambda x: fl.match(old, x) is not None)]
    if not ck.ok(rule, bool(keep), ups[0] if ups else fl, msg):
        return
    for e in keep:
        h = fl.loop_of(e.node)
        if h is None:
            continue  # updated as a whole
        ck.ok(rule, covers(fl, h, old), e, msg + ' (every field)')
        atoms = dict(kept=is_eff(e), oldempty=lit(f'not {old}[elem({old})]'),
                     newset=either(lit(f'{new}.get(elem({old}), *_)'), lit(f'{new}[elem({old})]')), bufs=lit('_.endswith(*_)'),
                     skip=either(lit('_ == _'), lit('_ in _')))
        for t in fl.body_traces(h, atoms):
            if t.end == 'stop':
                ck.ok(rule, any(x in t for x in ('kept', 'oldempty', 'newset', 'bufs')), e, msg, path=t.path())
            elif t.end == 'return':
                ck.ok(rule, False, e, msg + ' (every field)', path=t.path())


@prop('H03', 70)
def h03(ck):
    names = ck.names('controller.hub:Hub')
    hs, init = handlers(ck, 'monitor_handlers')
    zero(ck, names)
    for k, m in SAVE.items():
        ck.ok('record.topics', k in hs, init, f'{k!r} traffic must be handled')
    dm = ck.F(H + 'dispatch_monitor_traffic', opaque=names)
    disp = dm.find(either(call('self.monitor_handlers[_](*_)'), call('self.monitor_handlers.get(*_)(*_)')))
    ck.ok('record.dispatch', bool(disp), dm, 'monitor traffic must be dispatched')
    for e, b in disp:
        f, args, kw = e.a[0].a
        ck.ok('record.dispatch', dm.match('any_of(self.monitor_handlers[msg[0]], self.monitor_handlers.get(msg[0], *_))', f) is not None and dm.match('self.session.feed_identities(msg[1:])[1]', args[1]) is not None, e,
              'the handler is chosen by topic and gets the rest of the message')
    D = 'self.session.deserialize(*_)'
    for k, m in SAVE.items():
        if k not in hs:
            continue
        fl = ck.F(H + hs[k], opaque=[n for n in names if n not in ('save_iopub_message',)] + list(UTIL))
        contained(ck, 'record.malformed', fl, call(D), f'an invalid {k.decode()} message is logged and dropped, changing nothing', changes_state(fl), n=0)
        dbs = [e for e, b in fl.find(either(call('self.db.add_record(*_)'), call('self.db.update_record(*_)')))]
        for e in dbs:
            contained(ck, 'record.db-error', fl, is_eff(e), 'a database error is logged and does not disturb the bookkeeping')
    O = [n for n in names] + list(UTIL)
    MID = f"any_of({D}['header']['msg_id'], init_record({D})['msg_id'], init_record({D})['header']['msg_id'])"
    PID = f"{D}['parent_header']['msg_id']"
    stored = either(call(f'self.db.add_record({MID}, *_)'), call(f'self.db.update_record({MID}, *_)'))
    # requests
    for k, un in ((b'in', False), (b'intask', True), (b'inbcast', False)):
        fl = ck.F(H + hs[k], opaque=O)
        ra = dict(valid=call('init_record(*_)'), pend=add('self.pending', MID), un=add('self.unassigned', MID), db=stored, get=call('self.db.get_record(*_)'))
        ck.every('record.request', fl, ra, lambda t: 'valid' not in t or (t.count('pend') == 1 and t.count('un') == (1 if un else 0)), f'every valid {k.decode()} request becomes pending' + (' and unassigned' if un else ''))
        ts = fl.traces(ra, exc='handled')
        ok1 = all(t.count('db') <= 1 for t in fl.traces(ra)) and any('db' in t for t in ts)
        ck.ok('record.request-stored', ok1, fl, f'the {k.decode()} request is stored once')
        for t in fl.traces(dict(valid=ra['valid'], pend=ra['pend'], un=ra['un']), exc='handled'):
            if not ck.ok('record.request', t.end != 'return' or 'valid' not in t or t.count('pend') == 1 and t.count('un') == (1 if un else 0), fl, 'a request is pending, whether it could be stored or not', path=t.path()):
                break
        for t in fl.traces(dict(valid=ra['valid'], pend=ra['pend'], un=ra['un']), exc='handled'):
            ck.ok('record.request', t.end != 'return' or 'valid' not in t or t.count('pend') == 1 and t.count('un') == (1 if un else 0), fl, 'a request is pending, whether it could be stored or not', path=t.path())
        for e, b in fl.find(stored):
            rec = argof(e.a[0], 1, 'rec')
            ck.ok('record.request-stored', fl.match(f'init_record({D})', rec) is not None, e, 'the stored record describes the request')
        ck.exists('record.request-fields', fl, add(f'init_record({D})', "'client_uuid'", f"{D}['header']['session']"), 'the record names the client session')
        if k == b'in':
            ck.exists('record.request-fields', fl, add(f'init_record({D})', "'engine_uuid'", '_.decode(*_)'), 'the record names the engine')
            qa = dict(pend=ra['pend'], q=add('self.queues[any_of(self.by_ident[idents[:2][0]], self.by_ident.get(idents[:2][0], *_), self.by_ident[idents[0]], self.by_ident.get(idents[0], *_))]', MID))
            ck.every('record.queued', fl, qa, lambda t: t.count('q') == t.count('pend'), "a request to an engine is entered in that engine's queue")
            ck.exists('record.queued', fl, qa['q'], "a request to an engine is entered in that engine's queue")
        if k in (b'in', b'intask'):
            contained(ck, 'record.db-error', fl, ra['get'], 'a database error is logged and does not disturb the bookkeeping')
            # iopub may have created the record first
            ts = fl.traces(dict(miss=lambda e, a, b: None, add=call(f'self.db.add_record({MID}, *_)'), upd=call(f'self.db.update_record({MID}, *_)')), exc='handled')
            ck.ok('record.upsert', any('add' in t for t in ts) and any('upd' in t for t in ts), fl, 'a record that output created first is completed, not duplicated')
            _keeps_existing(ck, fl, f'init_record({D})', f'self.db.get_record({MID})', call(f'self.db.update_record({MID}, *_)'))
    # results
    RES = ('result_header', 'result_metadata', 'result_content', 'result_buffers', 'started', 'completed', 'received')
    for k in (b'out', b'outtask', b'outbcast'):
        fl = ck.F(H + hs[k], opaque=O)
        inp, notp = lit(f'{PID} in self.pending'), lit(f'{PID} not in self.pending')
        ra = dict(p=inp, np=notp, rm=remove('self.pending', PID), done=add('self.all_completed', PID), db=call(f'self.db.update_record({PID}, *_)'), late=lit(f'{PID} in self.all_completed'))

        def once(t, k=k):
            if 'p' in t:
                return t.count('rm') == 1 and t.count('done') == 1 and t.count('db') == 1
            return 'rm' not in t and 'done' not in t and ('db' not in t or (k == b'out' and 'late' in t))
        ck.every('record.result', fl, ra, once, f'the {k.decode()} result of a pending request completes it once and is stored; anything else is not counted')
        ck.exists('record.result', fl, ra['rm'], 'results complete their request')
        for e, b in fl.find(ra['db']):
            src = dict_sources(fl, argof(e.a[0], 1, 'rec'))
            keys = {x[0].a[0]: x[1] for x in src if x[0] is not None and x[0].op == 'const'}
            for f in RES:
                ck.ok('record.result-fields', f in keys and _always(fl, e, argof(e.a[0], 1, 'rec'), f), e, f'{f} of a result must be stored')
            for f, part in (('result_header', 'header'), ('result_metadata', 'metadata'), ('result_content', 'content'), ('result_buffers', 'buffers')):
                if f in keys:
                    ck.ok('record.result-fields', fl.match(f"{D}['{part}']", keys[f]) is not None, e, f'{f} is the {part} of the reply')
            if 'completed' in keys:
                ck.ok('record.result-fields', fl.match(f"ensure_timezone({D}['header']['date'])", keys['completed']) is not None, e, 'completion time is the date of the reply')
            if 'started' in keys:
                ck.ok('record.result-fields', fl.match(f"extract_dates(any_of({D}['metadata'].get('started', *_), {D}['metadata']['started']))", keys['started']) is not None, e, 'start time is reported by the engine')
        if k == b'out':
            eid = 'any_of(self.by_ident[idents[:2][1]], self.by_ident.get(idents[:2][1], *_), self.by_ident[idents[1]], self.by_ident.get(idents[1], *_))'
            qa = dict(rm=ra['rm'], q=remove(f'self.queues[{eid}]', PID), c=add(f'self.completed[{eid}]', PID))
            ck.every('record.unqueued', fl, qa, lambda t: t.count('q') == t.count('rm') == t.count('c'), "a result leaves the engine's queue and is counted as completed")
        else:
            eng = f"any_of({D}['metadata'].get('engine', *_), {D}['metadata']['engine'])"
            eid = f'any_of(self.by_ident.get({eng}.encode(*_), *_), self.by_ident[{eng}.encode(*_)])'
            ck.exists('record.unqueued', fl, add(f'self.completed[{eid}]', PID), 'a result is counted for the engine that produced it')
            ck.ok('record.result-engine', all(any(x[0] is not None and x[0] is tm.const('engine_uuid') and fl.match(eng, x[1]) is not None for x in dict_sources(fl, argof(e.a[0], 1, 'rec'))) for e, b in fl.find(ra['db'])), fl, 'the record names the engine that produced the result')
            if k == b'outtask':
                qa = dict(p=inp, un=remove('self.unassigned', PID), isun=lit(f'{PID} in self.unassigned'), t=remove(f'self.tasks[{eid}]', PID), ist=lit(f'{PID} in self.tasks[{eid}]'))
                ck.every('record.unqueued', fl, qa, lambda t: t.count('un') >= t.count('isun') and t.count('t') >= t.count('ist'), 'a finished task is no longer unassigned nor on its engine')
                ck.exists('record.unqueued', fl, qa['un'], 'a finished task is no longer unassigned')
                ea = dict(p=inp, t=qa['t'], ist=qa['ist'], nt=lit(f'{PID} not in self.tasks[{eid}]'), no=either(lit(f'{eid} is None'), lit(f'{eid} not in any_of(self.engines, self.tasks, self.ids)'), lit(f'{eng}.encode(*_) not in self.by_ident')))
                ck.every('record.unqueued', fl, ea, lambda t: 'p' not in t or 't' in t or 'nt' in t or 'no' in t, 'a task is not on its engine any more when it has ended, whatever came of it')
                ck.exists('record.unqueued', fl, qa['t'], 'a finished task is no longer on its engine')
    # destination
    fl = ck.F(H + hs[b'tracktask'], opaque=O)
    C = f"{D}['content']"
    da = dict(t=add(f"self.tasks[self.by_ident[{C}['engine_id'].encode(*_)]]", f"{C}['msg_id']"), isun=lit(f"{C}['msg_id'] in self.unassigned"), un=remove('self.unassigned', f"{C}['msg_id']"), db=call(f"self.db.update_record({C}['msg_id'], *_)"),
              valid=lit(f"_ in self.by_ident"))
    ck.exists('record.destination', fl, da['t'], 'an assigned task is listed on its engine')
    ck.every('record.destination', fl, da, lambda t: t.count('un') >= t.count('isun') and t.count('t') == t.count('db'), 'an assigned task is listed on its engine and no longer unassigned')
    for e, b in fl.find(da['db']):
        ck.ok('record.destination', fl.match(f"{{'engine_uuid': {C}['engine_id']}}", argof(e.a[0], 1, 'rec')) is not None, e, 'the record names the engine')
    # stranded
    fl = ck.F(H + '_handle_stranded_msgs', opaque=O)
    m = 'elem(self.queues[eid])'
    sa = dict(rm=remove('self.pending', m), done=add('self.all_completed', m), db=call(f'self.db.update_record({m}, *_)'))
    for k2, a2 in sa.items():
        each(ck, 'record.stranded', fl, a2, 'every message on a lost engine is settled once', over='self.queues[eid]')
    contained(ck, 'record.stranded', fl, sa['db'], 'a database error does not stop the others')
    for e, b in fl.find(sa['db']):
        h = fl.loop_of(e.node)
        for t in fl.body_traces(h, dict(d=is_eff(e)), exc='handled') if h is not None else ():
            ck.ok('record.stranded', t.end != 'return', e, 'a database error does not stop the others', path=t.path())
    for e, b in fl.find(sa['db']):
        ck.ok('record.stranded', fl.match("{'result_content': wrap_exception(*_), 'completed': _, 'engine_uuid': uuid}", argof(e.a[0], 1, 'rec')) is not None, e, 'the record shows the engine error and completion')
    ck.exists('record.stranded', fl, raises('EngineError(*_)'), 'stranded messages fail with EngineError')
    # iopub
    fl = ck.F(H + 'save_iopub_message', opaque=[n for n in names] + list(UTIL))
    pid = "msg['parent_header']['msg_id']"
    mt = "msg['header']['msg_type']"
    rows = (('stream', "msg['content']['name']", "_ + msg['content']['text']"), ('error', "'error'", "msg['content']"), ('execute_input', "'execute_input'", "msg['content']['code']"),
            ('execute_result', f"any_of({mt}, 'execute_result')", "msg['content']"))
    for ty, key, val in rows:
        hits = fl.find(add('new(dict)', key, val))
        hits = [e for e, b in hits if _type_guard(fl, e, mt, ty)]
        ck.ok('record.output', bool(hits), fl, f'{ty} output must be stored under its own key')
    for e, b in fl.find(add('new(dict)', "msg['content']['name']")):
        v = e.a[2]
        lhs = v.a[1] if v.op == 'bin' else tm.NONE
        srcs = [x for x in (fl.alts(lhs) if lhs.op == 'phi' else [lhs]) if x.op != 'phi']
        ck.ok('record.output-appended', any(fl.match("self.db.get_record(_)[msg['content']['name']]", x) is not None for x in srcs) and all(fl.match("any_of('', self.db.get_record(_)[msg['content']['name']])", x) is not None or x is tm.NONE or (x.op == 'item' and x.a[0] is tm.NONE) for x in srcs), e,
              'stream output is appended to what was stored before')
    up = [e for e in fl.all_effects() if e.kind == 'call' and fl.match("any_of(self.db.add_record, self.db.update_record)", e.a[0].a[0]) is not None]
    ck.ok('record.output-stored', bool(up), fl, 'output must be stored')
    for e in up:
        ck.ok('record.output-stored', fl.match(pid, e.a[0].a[1][0]) is not None, e, 'output is stored on the record of its request')
    mi = ck.F(H + 'monitor_iopub_message', opaque=names)
    skip = either(lit(f"_['header']['msg_type'] in _"), lit("_['header']['msg_type'] == 'status'"))
    ck.exists('record.output-stored', mi, call('self.save_iopub_message(topics, _)'), 'output must be stored')
    for t in mi.lit_count:
        if t.op == 'cmp' and tm.mentions(t, lambda x: mi.match("_['header']['msg_type']", x) is not None):
            cs = {x.a[0] for x in tm.subterms(t) if tm.is_str(x)} - {'header', 'msg_type'}
            gone = [p for e, b in mi.find(call('self.save_iopub_message(topics, _)')) for u, p in mi.guards().get(e.node.id, ()) if u is t]
            ck.ok('record.output-stored', True in gone or not (cs & {'stream', 'error', 'execute_input', 'execute_result', 'display_data'}), mi, 'output must be stored')


def _always(fl, e, d, key):
    """Is the key set in the dict on every path to the effect?"""
    ds = [x for x in (fl.alts(d) if d.op == 'phi' else [d]) if x.op != 'phi']
    if all(x.op == 'alloc' and any(isinstance(p, tuple) and p[0] is tm.const(key) for p in x.a[2]) for x in ds):
        return True

    def put(ev, a, b):
        return {} if ev.kind == 'add' and ev.a[0] in ds and ev.a[1] is tm.const(key) else None

    put.desc = f'set {key}'
    return all('put' in t and t.before('put', 'use') for t in fl.traces(dict(put=put, use=is_eff(e))) if 'use' in t)


def _type_guard(fl, e, mt, ty):
    for t, pol in fl.guards().get(e.node.id, ()):
        if pol and fl.match(f"{mt} == '{ty}'", t) is not None:
            return True
        if pol and t.op == 'cmp' and t.a[0] == 'in' and fl.match(mt, t.a[1]) is not None and tm.mentions(t.a[2], lambda x: x is tm.const(ty)):
            return True
    return False


# ------------------------------------------------------------------ H04
def into(c, k='_', v=None):
    """add() to a container given as a term."""
    from ipa.terms import pat

    def f(e, a, b):
        if e.kind != 'add' or e.a[0] is not c:
            return None
        b = pat(k).match(e.a[1], a, b or {})
        if b is not None and v is not None:
            b = pat(v).match(e.a[2], a, b)
        return b

    f.desc = f'add({c},{k})'
    return f


def okreply(fl, content):
    return [c for c in (fl.alts(content) if content.op == 'phi' else [content]) if c.op == 'alloc' and fl.match("{'status': 'ok'}", c) is not None]


RESULT = ('header', 'metadata', 'result_metadata', 'result_header', 'result_content', 'received')
IO = ('execute_input', 'execute_result', 'error', 'stdout', 'stderr')


@prop('H04', 50)
def h04(ck):
    names = ck.names('controller.hub:Hub')
    O = [n for n in names if n not in ('_extract_record', 'finish')] + [u for u in UTIL if u != 'wrap_exception'] + ['wrap_exception']
    # --- results
    fl = ck.F(H + 'get_results', opaque=O)
    MS = "msg['content']['msg_ids']"
    E = f'elem({MS})'
    okd = [(e, d) for e, ty, content, parent, ident, bufs in sends(fl) for d in okreply(fl, content)]
    ck.ok('results.reply', bool(okd), fl, 'results must be sent')
    bufl = [bufs for e, ty, content, parent, ident, bufs in sends(fl) if okreply(fl, content)]
    reads = [v for e, d in okd for v in [keyed(fl, d)]]
    ck.ok('results.reply', all('pending' in r and 'completed' in r for r in reads) and all(b is not None for b in bufl), fl, 'the reply lists pending and completed ids and carries the buffers')
    if okd and bufl and all('pending' in r and 'completed' in r for r in reads):
        d = okd[0][1]
        pl, cl = reads[0]['pending'][0], reads[0]['completed'][0]
        bl = bufl[0]
        st = lit("any_of(msg['content'].get('status_only', *_), msg['content']['status_only'])")
        done = f'any_of(_[{E}], elem(_))'
        at = dict(inpend=lit(f'{E} in self.pending'), nopend=lit(f'{E} not in self.pending'), indone=lit(f'{E} in self.all_completed'), nodone=lit(f'{E} not in self.all_completed'),
                  recdone=either(lit(f"{done}['completed']"), lit(f"{done}['completed'] is not None")), recopen=either(lit(f"not {done}['completed']"), lit(f"{done}['completed'] is None")),
                  status=st, pend=into(pl, E), comp=into(cl, E), cont=into(d, E), bufs=into(bl), err=raises('KeyError(*_)'))
        heads = [h for h in fl.order if h.kind == 'loop' and h.term is not None and covers(fl, h, MS) and any(x.startswith(('pend', 'comp')) for t in fl.body_traces(h, at) for x in t.atoms)]
        ck.ok('results.partition', len(heads) >= 1, fl, 'every requested id is looked up')
        for h in heads[:1]:
            it = fl.val(h, h.term)
            srt = fl.find(either(call('sorted(_)'), call('_.sort()')))
            ck.ok('results.order', it.op == 'copy' and len(it.a) > 1 and (it.a[1].startswith('sorted') or bool(fl.find(call('_.sort()')))) and bool(srt), fl, 'buffers are sent in the order the client reads them: sorted by id')
            ck.ok('results.order', bool(fl.find(either(call(f'set({MS})'), call(f'dict.fromkeys({MS})'), call(f'frozenset({MS})')))) or any(
                x.op == 'comp' and x.a[0] == 'set' for e, b in srt for x in tm.subterms(e.a[0])), fl, 'each id is answered once even if it was requested twice')
            for t in fl.body_traces(h, at):
                if t.end == 'stop':
                    n = t.count('pend') + t.count('comp')
                    good = n == 1
                    if 'inpend' in t:
                        good = good and 'pend' in t
                    elif 'indone' in t:
                        good = good and 'comp' in t
                    elif 'recdone' in t:
                        good = good and 'comp' in t
                    elif 'recopen' in t:
                        good = good and 'pend' in t
                    else:
                        good = False
                    if 'pend' in t:
                        good = good and 'cont' not in t and 'bufs' not in t
                    elif 'status' not in t:
                        good = good and t.count('cont') == 1
                    good = good and ('bufs' not in t or 'cont' in t)
                    ck.ok('results.partition', good, fl, 'each id is reported once, as pending or as completed, and completed results are included with their buffers', path=t.path())
                elif t.end == 'return':
                    ck.ok('results.partition', 'pend' not in t and 'comp' not in t, fl, 'only an unknown id ends the lookup', path=t.path())
        for e, b in fl.find(into(d, E)):
            src = keyed(fl, e.a[2])
            for f in RESULT:
                ck.ok('results.fields', f in src and all(fl.match(f"_['{f}']", v) is not None and _own(fl, v, MS, E) for v in src[f]), e, f"{f} comes from the task's own record")
            io = keyed(fl, src['io'][0]) if 'io' in src else {}
            for f in IO:
                ck.ok('results.fields', f in io and all(fl.match(f"_['{f}']", v) is not None and _own(fl, v, MS, E) for v in io[f]), e, f"{f} comes from the task's own record")
        hits = fl.find(into(bl))
        ck.ok('results.buffers', bool(hits), fl, 'result buffers must be sent')
        for e, b in hits:
            ck.ok('results.buffers', e.a[2] is not None and _own(fl, e.a[2], MS, E) and tm.mentions(e.a[2], lambda x: x.op == 'item' and x.a[1] is tm.const('result_buffers')) or any(
                tm.mentions(x, lambda y: y.op == 'item' and y.a[1] is tm.const('result_buffers')) for x in _deep(fl, e.a[2])), e, "the buffers are the task's own result buffers")
            ck.ok('results.buffers', len(e.a) < 4 or e.a[3] not in ('insert', 'appendleft'), e, 'buffers are appended in order')
    qs = fl.find(call('self.db.find_records(*_)'))
    for e, b in qs:
        q = keyed(fl, argof(e.a[0], 0, 'query'))
        v = q.get('msg_id', [None])[0]
        inn = keyed(fl, v).get('$in', [None])[0] if v is not None else None
        ck.ok('results.lookup', inn is not None and set(q) == {'msg_id'}, e, 'records are looked up by id')
        for x in ([y for y in fl.alts(inn) if y.op != 'phi'] if inn is not None and inn.op == 'phi' else [inn]):
            if x is None:
                continue
            if x.op == 'comp':
                # ids whose state the hub knows may be left out, when no result is wanted
                def narrow(ev, a, b, x=x):
                    if ev is not e:
                        return None
                    sel = a(inn) if inn.op == 'phi' else [inn]
                    return {} if x in sel else None
                narrow.desc = 'narrowed lookup'
                ts = fl.traces(dict(n=narrow, st=lit("any_of(msg['content'].get('status_only', *_), msg['content']['status_only'])")))
                ck.ok('results.lookup', all('st' in t for t in ts if 'n' in t), e, 'results are only left out of the lookup for status requests')
            else:
                ck.ok('results.lookup', iter_ok(fl, x, MS), e, 'every requested result is looked up')
    # --- load / queue status
    for m, key in (('check_load', None), ('queue_status', 'queue')):
        fl = ck.F(H + m, opaque=O)
        tgt = 'elem(self._validate_targets(*_))'
        for e, ty, content, parent, ident, bufs in sends(fl):
            for d in okreply(fl, content):
                each(ck, 'status.targets', fl, into(d, f'str({tgt})'), 'every target is reported once', over='self._validate_targets(*_)')
                for x, b in fl.find(into(d, f'str({tgt})')):
                    v = x.a[2]
                    if m == 'check_load':
                        ck.ok('status.values', fl.match(f'any_of(len(self.queues[{tgt}]) + len(self.tasks[{tgt}]), len(self.tasks[{tgt}]) + len(self.queues[{tgt}]))', v) is not None, x, 'load is the number of queued requests and assigned tasks')
                    else:
                        src = keyed(fl, v)
                        for f, a in (('queue', 'queues'), ('completed', 'completed'), ('tasks', 'tasks')):
                            vals = [y for z in src.get(f, []) for y in (fl.alts(z) if z.op == 'phi' else [z]) if y.op != 'phi']
                            ck.ok('status.values', bool(vals) and all(fl.match(f'any_of(self.{a}[{tgt}], len(self.{a}[{tgt}]), list(self.{a}[{tgt}]))', y) is not None for y in vals), x, f"{f} counts the target's own {a}")
    # --- purge
    fl = ck.F(H + 'purge_results', opaque=O)
    IDS = "any_of(msg['content'].get('msg_ids', *_), msg['content']['msg_ids'])"
    drops = fl.find(call('self.db.drop_matching_records(*_)'))
    ck.ok('purge.queries', bool(drops), fl, 'purging must drop records')
    kinds = set()
    for e, b in drops:
        q = keyed(fl, e.a[0].a[1][0])
        G = fl.guards().get(e.node.id, ())
        alls = [pol for t, pol in G if fl.match(f"{IDS} == 'all'", t) is not None]
        done = 'completed' in q and keyed(fl, q['completed'][0]).get('$ne', [0])[0] is tm.NONE
        if 'msg_id' in q:
            kinds.add('ids')
            inn = keyed(fl, q['msg_id'][0]).get('$in', [None])[0]
            ck.ok('purge.queries', inn is not None and fl.match(IDS, inn) is not None and set(q) <= {'msg_id', 'completed'}, e, 'exactly the requested ids are dropped')
            ck.ok('purge.pending', any(_pending_test(fl, t, IDS) and not pol for t, pol in G), e, 'a task that is still pending is never dropped')
            ck.ok('purge.queries', alls == [False], e, 'only explicit ids are dropped by id')
        elif 'engine_uuid' in q:
            kinds.add('engine')
            ck.ok('purge.queries', fl.match("self.engines[elem(any_of(msg['content'].get('engine_ids', *_), msg['content']['engine_ids']))].uuid", q['engine_uuid'][0]) is not None and set(q) == {'engine_uuid', 'completed'}, e, "an engine's records are dropped by its uuid")
            ck.ok('purge.pending', done, e, 'unfinished tasks of an engine are kept')
        else:
            kinds.add('all')
            ck.ok('purge.pending', done and set(q) == {'completed'}, e, 'unfinished tasks are kept')
            ck.ok('purge.queries', alls == [True], e, "everything is dropped only for 'all'")
        for h in broad_reply(fl, e):
            ck.ok('purge.errors', h, e, 'a failed purge is reported')
    ck.ok('purge.queries', kinds == {'ids', 'engine', 'all'}, fl, 'purging by id, by engine and of everything must work')
    # --- resubmission
    fl = ck.F(H + 'resubmit_task', opaque=O)
    REC = 'self.db.find_records(*_)'
    R = f'elem({REC})'
    NEW = 'self.session.msg(*_)'
    nid = f"any_of({NEW}['msg_id'], {NEW}['header']['msg_id'])"
    for e, b in fl.find(call(REC)):
        q = keyed(fl, argof(e.a[0], 0, 'query'))
        inn = keyed(fl, q['msg_id'][0]).get('$in', [None])[0] if 'msg_id' in q else None
        ck.ok('resubmit.lookup', inn is not None and fl.match(MS, inn) is not None, e, 'the requested tasks are looked up')
        ks = argof(e.a[0], 1, 'keys')
        if ks is not None and ks.op == 'alloc':
            have = {x.a[0] for x in ks.a[2] if hasattr(x, 'op') and x.op == 'const'}
            ck.ok('resubmit.lookup', {'header', 'content', 'buffers'} <= have, e, 'everything needed to send the task again is looked up')
    send = call('self.session.send(self.resubmit, *_)')
    each(ck, 'resubmit.sent', fl, send, 'every task is sent again once', over=REC)
    at = dict(send=send, pend=add('self.pending', nid), db=call(f'self.db.add_record({nid}, *_)'), short=either(lit(f'len({REC}) < len({MS})'), lit(f'len({REC}) != len({MS})'), lit(f'len({REC}) == len({MS})', False)))
    for e, b in fl.find(send):
        m = e.a[0].a[1][1]
        bufs = argof(e.a[0], 5, 'buffers')
        ck.ok('resubmit.sent', fl.match(NEW, m) is not None and bufs is not None and fl.match(f"{R}['buffers']", bufs) is not None, e, 'the new message carries the original buffers')
        G = fl.guards().get(e.node.id, ())
        ck.ok('resubmit.missing', any(_fewer(fl, t, pol, REC, MS) for t, pol in G), e, 'nothing is sent again when a requested task is missing')
    ck.exists('resubmit.content', fl, add(NEW, "'content'", f"{R}['content']"), 'the new message has the original content')
    ck.exists('resubmit.content', fl, add(NEW, "'header'", f"{R}['header']"), 'the new message has the original header')
    ck.exists('resubmit.fresh', fl, add(f"{R}['header']", "'msg_id'", f"{NEW}['header']['msg_id']"), 'a resubmitted task has a fresh id')
    ck.exists('resubmit.fresh', fl, add(f"{R}['header']", "'date'", f"{NEW}['header']['date']"), 'a resubmitted task has a fresh date')
    for t in ('msg_id', 'date'):
        ck.every('resubmit.fresh', fl, dict(f=add(f"{R}['header']", f"'{t}'"), send=send), lambda tr: 'send' not in tr or tr.before('f', 'send'), f'the fresh {t} is set before sending')
    for h in [fl.loop_of(e.node) for e, b in fl.find(send)]:
        if h is not None:
            for t in fl.body_traces(h, at):
                if t.end == 'stop':
                    ck.ok('resubmit.recorded', t.count('pend') == 1 and t.count('db') == 1, fl, 'every resubmitted task is pending and stored under its new id', path=t.path())
    for e, b in fl.find(at['db']):
        ck.ok('resubmit.recorded', fl.match(f'init_record({NEW})', argof(e.a[0], 1, 'rec')) is not None, e, 'the record describes the new message')
    for e, ty, content, parent, ident, bufs in sends(fl):
        for d in okreply(fl, content):
            src = keyed(fl, d)
            ck.ok('resubmit.mapping', 'resubmitted' in src, e, 'the reply maps old ids to new ids')
            for v in src.get('resubmitted', []):
                pairs = [(k, x) for k, x, it in dict_sources(fl, v)]
                ck.ok('resubmit.mapping', bool(pairs) and all(k is not None and fl.match(f"{R}['msg_id']", k) is not None and fl.match(nid, x) is not None for k, x in pairs), e, 'the reply maps every old id to its own new id')
    # --- history and queries
    fl = ck.F(H + 'get_history', opaque=O)
    for e, ty, content, parent, ident, bufs in sends(fl):
        oks = okreply(fl, content)
        ck.ok('query.history', bool(oks) and all(fl.match("{'status': 'ok', 'history': self.db.get_history()}", d) is not None for d in oks), e, 'the history is the one in the database')
    fl = ck.F(H + 'db_query', opaque=O)
    Q = fl.find(call('self.db.find_records(*_)'))
    ck.ok('query.records', bool(Q), fl, 'queries go to the database')
    for e, b in Q:
        ck.ok('query.records', fl.match("any_of(extract_dates(any_of(msg['content'].get('query', *_), msg['content']['query'])), msg['content']['query'])", argof(e.a[0], 0, 'query')) is not None
              and fl.match("any_of(msg['content'].get('keys', *_), msg['content']['keys'])", argof(e.a[0], 1, 'keys')) is not None, e, "the client's query and keys are used")
    for e, ty, content, parent, ident, bufs in sends(fl):
        for d in okreply(fl, content):
            src = keyed(fl, d)
            ck.ok('query.records', 'records' in src and all(fl.match('self.db.find_records(*_)', v) is not None for v in src['records']), e, 'the records found are sent')
            order = {}
            for f, lk in (('buffers', 'buffer_lens'), ('result_buffers', 'result_buffer_lens')):
                if not ck.ok('query.buffers', lk in src and bufs is not None, e, f'{lk} must be sent'):
                    continue
                ll = src[lk][0]
                grow = into(bufs, '_', None)
                val = f"any_of(_, {R}.get('{f}', *_), {R}['{f}'])"

                def isf(x, f=f):
                    return tm.mentions(x, lambda y: (y.op == 'get' or y.op == 'item') and len(y.a) > 1 and y.a[1] is tm.const(f))
                ln = [x for x in fl.all_effects() if x.kind == 'add' and (x.a[0] is ll or (ll.op == 'phi' and x.a[0] in fl.alts(ll)))]
                ex = [x for x, b in fl.find(grow) if isf(x.a[1]) or (x.a[2] is not None and isf(x.a[2]))]
                ck.ok('query.buffers', bool(ln) and all(isf(x.a[1]) and x.a[1].op == 'call' and x.a[1].a[0].a[0] == 'len' for x in ln), e, f'{lk} has the number of {f} of each record')
                ck.ok('query.buffers', bool(ex), e, f'{f} must be sent')
                order[f] = (ln, ex)
                rm = fl.find(remove(R, f"'{f}'"))
                ck.ok('query.buffers', bool(rm), e, f'{f} are not sent inside the record')
                for x in ln:
                    for t, pol in fl.guards().get(x.node.id, ()):
                        ck.ok('query.buffers', not tm.mentions(t, isf) or len(ln) > 1, x, f'{lk} has a number for each record, also if it has no {f}')
                for x in ex:
                    at = {'ext': is_eff(x), 'empty': _none(isf)}
                    at.update({f'len{i}': is_eff(y) for i, y in enumerate(ln)})
                    h = fl.loop_of(x.node)
                    for hh in enclosing(fl, x.node)[-1:]:
                        for t in fl.body_traces(hh, at):
                            if t.end == 'stop':
                                ck.ok('query.buffers', t.count('ext') == sum(t.count(f'len{i}') for i in range(len(ln))) or 'empty' in t and 'ext' not in t, x, f'{f} are sent exactly when their number is', path=t.path())
            if len(order) == 2 and all(order[f][1] for f in order):
                at = dict(b=is_eff(order['buffers'][1][0]), r=is_eff(order['result_buffers'][1][0]))
                hh = enclosing(fl, order['buffers'][1][0].node)[-1:]
                for h in hh:
                    ck.ok('query.order', all(t.count('b') <= 1 and ('b' not in t or 'r' not in t or t.before('b', 'r')) for t in fl.body_traces(h, at)), e, 'buffers of a record come before its result buffers')
                    ck.ok('query.order', enclosing(fl, order['result_buffers'][1][0].node)[-1:] == [h], e, 'buffers are sent record by record')


def iter_ok(fl, t, p):
    from .common import iter_covers

    return iter_covers(fl, t, p)


def _deep(fl, t):
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        for y in (fl.alts(x) if x.op == 'phi' else [x]):
            if y.op != 'phi' and y not in out:
                out.append(y)
                for z in tm.subterms(y) if hasattr(tm, 'subterms') else []:
                    if z.op == 'phi' and z not in todo:
                        todo.append(z)
    return out


def _own(fl, v, ms, e):
    """v is read from the record of the current id (records[id]) or from the current record."""
    for x in _deep(fl, v):
        if fl.match(f'any_of(_[{e}], _[{e}][_], _[{e}][_][_], list(_[{e}][_]), list(_[{e}][_])[_])', x) is not None:
            return True
        if tm.mentions(x, lambda y: y.op == 'item' and fl.match(e, y.a[1]) is not None):
            return True
    return False


def _all_sorted(fl, t):
    xs = [x for x in (fl.alts(t) if t.op == 'phi' else [t]) if x.op != 'phi']
    return bool(xs) and all(tm.mentions(x, lambda y: y.op == 'call' and y.a[0].op == 'glob' and y.a[0].a[0] == 'sorted') for x in xs)


def _pending_test(fl, t, ids):
    if tm.mentions(t, lambda x: x.op == 'attr' and x.a[1] == 'pending'):
        return True
    c = t.a[0] if t.op == 'truth' else None
    return c is not None and c.op == 'comp' and len(c.a[3]) == 1 and fl.match(ids, c.a[3][0]) is not None and [
        p for x, p in fl.comp_guards(c) if fl.match(f'elem({ids}) in self.pending', x) is not None] == [True] and len(fl.comp_guards(c)) == 1


def _fewer(fl, t, pol, rec, ms):
    return (not pol and fl.match(f'len({rec}) < len({ms})', t) is not None) or (pol and fl.match(f'len({rec}) == len({ms})', t) is not None) or (
        not pol and fl.match(f'len({rec}) != len({ms})', t) is not None) or (not pol and t.op == 'truth' and tm.mentions(t, lambda x: fl.match(ms, x) is not None))


def broad_reply(fl, e):
    from .common import broad_handlers

    hs = broad_handlers(fl, e.node)
    return [True] * len(hs) or [False]
