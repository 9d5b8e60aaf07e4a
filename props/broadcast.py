"""Broadcast scheduler properties."""

from ipa import terms as tm

from .common import add, argof, calc, call, covers, dict_sources, each, either, enclosing, lit, no_shared_state, prop, remove

B = 'controller.broadcast_scheduler:BroadcastScheduler.'
SEND = ('append_new_msg_id_to_msg', 'get_new_msg_id')


@prop('S07', 40)
def s07(ck):
    spec = B[:-1]
    no_shared_state(ck, 'bcast.own-state', spec)
    c = ck.repo.cls(spec)
    names = ck.names(spec)
    # leaf: one message per target
    tl = ck.F(B + 'send_to_targets', opaque=SEND)
    each(ck, 'bcast.leaf-sends', tl, call('self.engine_stream.send_multipart(*_)'), 'each target gets the request exactly once', over='targets')
    for e, b in tl.find(call('self.engine_stream.send_multipart(*_)')):
        ck.ok('bcast.leaf-message', tl.match('self.append_new_msg_id_to_msg(self.get_new_msg_id(original_msg_id, elem(targets)), elem(targets), idents, msg)', e.a[0].a[1][0]) is not None, e,
              'each copy is addressed to its own target under its own id')
    _accumulator(ck, tl, 'elem(targets).encode(*_)', 'targets', 'leaf')
    _acc_guard(ck, tl)
    # inner node: one message per sub-scheduler
    sl = ck.F(B + 'send_to_sub_schedulers', opaque=SEND)
    sends = [e for e, b in sl.find(call('_.send_multipart(*_)'))]
    ck.ok('bcast.relay-sends', bool(sends), sl, 'requests must be relayed to the sub-schedulers')
    for e in sends:
        each(ck, 'bcast.relay-sends', sl, call('_.send_multipart(*_)'), 'each sub-scheduler gets the request exactly once')
        o = e.a[0].a[0].a[0]
        m = e.a[0].a[1][0]
        ck.ok('bcast.relay-aligned', sl.match('any_of(self.outgoing_streams[idx(self.connected_sub_scheduler_ids)], self.outgoing_streams[elem(range(_))], elem(self.outgoing_streams))', o) is not None, e,
              'the stream must be the one at the position of the sub-scheduler')
        okk = sl.match('self.append_new_msg_id_to_msg(self.get_new_msg_id(original_msg_id, _s), _s, idents, msg)', m)
        ck.ok('bcast.relay-message', okk is not None and sl.match('any_of(elem(self.connected_sub_scheduler_ids), self.connected_sub_scheduler_ids[_])', okk['_s']) is not None, e,
              'each copy is addressed to its own sub-scheduler under its own id')
        if o.op == 'item' and okk is not None and okk['_s'].op == 'item':
            ck.ok('bcast.relay-aligned', o.a[1] is okk['_s'].a[1], e, 'stream and sub-scheduler positions must agree')
    _accumulator(ck, sl, 'any_of(elem(self.connected_sub_scheduler_ids), self.connected_sub_scheduler_ids[_])', None, 'inner')
    _acc_guard(ck, sl)
    # the part of the targets each sub-scheduler gets
    parts = [e for e, b in sl.find(add("msg['metadata']", "'targets'"))]
    ck.ok('bcast.partition', bool(parts), sl, 'each sub-scheduler must be told its targets')
    mine = None
    for e in parts:
        mine = e.a[2]
        ck.ok('bcast.partition', sl.match('any_of(_[idx(self.connected_sub_scheduler_ids)], _[elem(range(_))], elem(_))', mine) is not None or _elt_of(sl, mine), e,
              'the targets must be those sorted for this sub-scheduler')
        each(ck, 'bcast.partition', sl, add("msg['metadata']", "'targets'"), 'each copy carries its own targets')
        t = sl.traces(dict(meta=add("msg['metadata']", "'targets'"), ser=call('self.append_new_msg_id_to_msg(*_)')), cap=3)
        for x in t:
            seq = [a for a in x.atoms]
            okk = all(a == ('meta' if i % 2 == 0 else 'ser') for i, a in enumerate(seq[:4]))
            ck.ok('bcast.partition-order', okk, e, 'the targets must be set before the copy is serialized', path=x.path())
    sorts = [e for e in sl.all_effects() if e.kind == 'add' and sl.match('elem(targets)', e.a[1]) is not None]
    ck.ok('bcast.partition-once', bool(sorts), sl, 'every target must be sorted to a sub-scheduler')
    if sorts:
        heads = {sl.loop_of(e.node).id: sl.loop_of(e.node) for e in sorts if sl.loop_of(e.node) is not None}
        atoms = dict(put=lambda e, a, b: {} if e in sorts else None)
        for h in heads.values():
            ck.ok('bcast.partition-once', sl.match('targets', sl.val(h, h.term)) is not None, sl, 'all targets must be sorted')
            for t in sl.body_traces(h, atoms):
                if t.end == 'stop':
                    ck.ok('bcast.partition-once', t.count('put') == 1, sl, 'every target is sorted to exactly one sub-scheduler', path=t.path())
    # the step taken at each level is a bit of (engine id mod number of leaves), highest first
    for e in sorts:
        idx = e.a[0].a[1] if e.a[0].op == 'item' else None
        if idx is None:
            continue
        wrong = None
        for md in range(1, 4):
            for d in range(md):
                for eid in range(4 * 2**md):
                    def leaf(t, md=md, d=d, eid=eid):
                        if t.op == 'attr' and t.a[1] in ('depth', 'max_depth') and t.a[0].op == 'param':
                            return d if t.a[1] == 'depth' else md
                        return eid if t.op == 'item' and t.a[1] is tm.const(1) and sl.match('elem(targets)', t.a[0]) is not None else None

                    got = calc(idx, leaf)
                    if got is None or bool(got) == got and got == (eid % 2**md) >> (md - 1 - d) & 1:
                        continue
                    wrong = wrong or (eid, d, md, got)
        ck.ok('bcast.path', wrong is None, e, f'engine, depth, levels {wrong and wrong[:3]}: sorted to sub-scheduler {wrong and wrong[3]}, whose leaves the engine is not connected to')
    # which children can answer
    atoms = dict(
        co=lit('is_coalescing'), noco=lit('not is_coalescing'),
        drop=remove('self.accumulated_replies[original_msg_id]', '_'),
        keep=add('self.accumulated_targets[original_msg_id]', '_'),
    )
    if mine is not None:
        def some(pol):
            def f(e, a, b):
                return {} if e.kind == 'lit' and e.a[1] == pol and e.a[0].op == 'truth' and (e.a[0].a[0] is mine or sl.match('any_of(_[idx(_)], elem(_))', e.a[0].a[0]) is not None) else None
            f.desc, f.lit = 'targets', True
            return f
        atoms.update(some=some(True), none=some(False))
        heads = [h for h in (sl.loop_of(e.node) for e in sends) if h is not None]
        seen = False
        for h in heads[:1]:
            for t in sl.body_traces(h, atoms):
                if t.end != 'stop':
                    continue
                if 'co' in t.atoms and 'noco' not in t.atoms:
                    seen = True
                    if 'none' in t.atoms:
                        ck.ok('bcast.expected', t.count('drop') == 1 and 'keep' not in t, sl, 'a sub-scheduler without targets is not expected to reply', path=t.path())
                    elif 'some' in t.atoms:
                        ck.ok('bcast.expected', 'drop' not in t and t.count('keep') == 1, sl, 'a sub-scheduler with targets is expected to reply', path=t.path())
                    elif _prefiltered(sl):
                        pass
                    else:
                        ck.ok('bcast.expected', 'keep' in t and 'drop' not in t, sl, 'expected replies must match the sub-schedulers that have targets', path=t.path())
    for e, b in sl.find(atoms['keep']):
        ck.ok('bcast.expected-targets', sl.match('any_of(elem(self.connected_sub_scheduler_ids), self.connected_sub_scheduler_ids[_])', e.a[1]) is not None and (mine is None or e.a[2] is mine or sl.match('elem(_)', mine) is not None), e,
              "a sub-scheduler's targets are remembered under its own id")
    # combining
    cr = ck.F(B + 'coalescing_reply')
    acc = 'self.accumulated_replies[original_msg_id]'
    ca = dict(
        put=add(acc, 'outgoing_id', "msg['buffers']"),
        popr=remove('self.accumulated_replies', 'original_msg_id'), popt=remove('self.accumulated_targets', 'original_msg_id'),
        send=call('self.client_stream.send_multipart(*_)'),
        done=either(lit('all(_)'), lit('not any(_)'), lit('None not in _')), wait=either(lit('not all(_)'), lit('any(_)'), lit('None in _')),
    )
    ck.every('bcast.combine', cr, ca, lambda t: t.count('put') == 1 and (t.count('send') == t.count('popr') == t.count('popt') == (1 if 'send' in t else 0))
             and ('send' not in t or t.before('put', 'send')),
             'each partial reply is recorded; the combined reply is sent once and the bookkeeping dropped with it')
    ck.ok('bcast.combine', any('send' in t for t in cr.traces(ca)), cr, 'the combined reply must be sent')
    ck.every('bcast.combine-complete', cr, ca, lambda t: ('send' in t) == ('done' in t) or not ({'done', 'wait'} & set(t.atoms)),
             'the combined reply is sent exactly when every expected reply has arrived')
    for e in cr.all_effects():
        if e.kind == 'add' and cr.match(acc, e.a[0]) is not None:
            ck.ok('bcast.combine', e.a[-1] != 'setdefault', e, "the sender's entry becomes the buffers of its reply")
    conds = [t for t in cr.lit_count if tm.mentions(t, lambda x: x.op == 'comp') or cr.match("None in _", t) is not None]
    ck.ok('bcast.combine-complete', bool(conds), cr, 'completeness must be decided over all expected replies')
    for t in conds:
        good = False
        for x in tm.subterms(t):
            if x.op == 'comp':
                cnd = x.a[2]
                src = x.a[3][0] if x.a[3] else None
                if src is not None and cr.match(f'any_of({acc}.values(), {acc}, {acc}.items(), copyof({acc}.values()))', src) is not None:
                    if cr.match(f'{acc}[elem({acc})]', _operand(cnd)) is not None and _operand(cnd) is not cnd:
                        good = True
        good = good or cr.match(f'None in any_of({acc}.values(), copyof({acc}.values()))', t) is not None
        ck.ok('bcast.combine-complete', good, cr, 'completeness means no expected reply is still None')
    # order of buffers and targets
    bufs = [e for e in cr.all_effects() if e.kind == 'add' and isinstance(e.a[1], tm.T) and cr.match(f'elem({acc}[elem({acc})])', e.a[1]) is not None]
    tgts = [e for e in cr.all_effects() if e.kind == 'add' and isinstance(e.a[1], tm.T) and cr.match(f'elem(self.accumulated_targets[original_msg_id][elem({acc})])', e.a[1]) is not None]
    ck.ok('bcast.order', bool(bufs) and bool(tgts), cr, 'buffers and targets of all replies must be concatenated in the order of the replies')
    bl = set()
    for e in bufs + tgts:
        ck.ok('bcast.order', e.a[-1] in ('all', 'elt', 'append'), e, 'concatenation must append at the end')
        hs = [h for h in enclosing(cr, e.node) if covers(cr, h, acc, ordered=True)]
        ck.ok('bcast.order', bool(hs), e, 'buffers and targets must be concatenated in the same order')
        if e in bufs:
            bl |= set(hs[:1])
        for h in enclosing(cr, e.node):
            if h not in hs:
                ck.ok('bcast.order', covers(cr, h, f'any_of({acc}[elem({acc})], self.accumulated_targets[original_msg_id][elem({acc})])', ordered=True), e, 'parts must be concatenated in order')
    for h in bl:
        for t in cr.body_traces(h, dict(b=lambda e, a, x: {} if e in bufs and cr.loop_of(e.node) is h else None, leaf=lit('self.is_leaf'), inner=lit('not self.is_leaf'),
                                       t=lambda e, a, x: {} if e in tgts else None)):
            if t.end == 'stop':
                direct = any(cr.loop_of(e.node) is h for e in bufs)
                ck.ok('bcast.order', (not direct or t.count('b') == 1) and t.count('t') == (0 if 'leaf' in t else 1 if 'inner' in t else t.count('t')), cr,
                      'every reply contributes its buffers once, and its targets once', path=t.path())
    ck.exists('bcast.leaf-targets', cr, add("_['metadata']", "'broadcast_targets'", 'self.accumulated_targets[original_msg_id]'), 'a leaf answers for exactly its targets')
    for e, b in cr.find(ca['send']):
        v = e.a[0].a[1][0]
        ok1 = cr.match('has(idents)', v) is not None and cr.match('has(self.session.serialize(*_))', v) is not None and any(
            cr.match('has(_b)', v, {'_b': x.a[0]}) is not None for x in bufs)
        ck.ok('bcast.reply-message', ok1, e, 'the combined reply carries the route back, the message and all buffers')
    # dispatch
    ds = ck.F(B + 'dispatch_submission', opaque=names)
    da = dict(leaf=lit('self.is_leaf'), inner=lit('not self.is_leaf'), tt=call('self.send_to_targets(*_)'), ts=call('self.send_to_sub_schedulers(*_)'),
              known=lit("'original_msg_id' in _['metadata']"), new=lit("'original_msg_id' not in _['metadata']"), setorig=add("_['metadata']", "'original_msg_id'"),
              dflt=lambda e, a, b: {} if e.kind == 'add' and e.a[-1] == 'setdefault' else None)
    ck.every('bcast.dispatch', ds, da, lambda t: (t.count('tt'), t.count('ts')) == ((1, 0) if 'leaf' in t else (0, 1) if 'inner' in t else (0, 0)),
             'each request goes to the engines at a leaf and to the sub-schedulers elsewhere, exactly once')
    ck.every('bcast.original-id', ds, da, lambda t: ('setorig' not in t or 'new' in t or 'dflt' in t) and ('new' not in t or t.count('setorig') == 1),
             'the original message id is set by the first scheduler and kept by the others')
    for e, b in ds.find(either(da['tt'], da['ts'])):
        a = e.a[0].a[1]
        mt = "self.session.deserialize(*_)"
        okk = len(a) == 5 and ds.match(mt, a[0]) is not None and ds.match(f"any_of({mt}['metadata']['original_msg_id'], {mt}['metadata'].setdefault('original_msg_id', _))", a[1]) is not None and ds.match(
            'self.session.feed_identities(*_)[0]', a[3]) is not None and ds.match(f"{mt}['metadata']['is_coalescing']", a[4]) is not None
        ck.ok('bcast.dispatch-args', okk, e, 'the request, its original id, route and mode must be passed on')
        tg = a[2] if len(a) > 2 else tm.NONE
        if ds.match('self.send_to_targets(*_)', e.a[0]) is not None:
            srcs = dict_sources(ds, tg)
            ck.ok('bcast.dispatch-args', bool(srcs) and all(ds.match(f"elem({mt}['metadata']['targets'])[0]", v) is not None for k, v, it in srcs if v is not None) or
                  any(ds.match(f"elem({mt}['metadata']['targets'])[0]", k) is not None for k, v, it in srcs if k is not None), e, 'a leaf addresses the engines by their identity')
        else:
            ck.ok('bcast.dispatch-args', ds.match(f"{mt}['metadata']['targets']", tg) is not None, e, 'an inner scheduler passes on all targets')
    for e, b in ds.find(da['setorig']):
        ck.ok('bcast.original-id', e.a[2] is not None and ds.match("_['header']['msg_id']", e.a[2]) is not None, e, "the original id is the request's own id")
    dr = ck.F(B + 'dispatch_result', opaque=names)
    ra = dict(co=lit("_['metadata']['is_coalescing']"), noco=lit("not _['metadata']['is_coalescing']"), cr=call('self.coalescing_reply(*_)'), relay=call('self.client_stream.send_multipart(*_)'))
    ck.every('bcast.result', dr, ra, lambda t: (t.count('cr'), t.count('relay')) == ((1, 0) if 'co' in t else (0, 1) if 'noco' in t else (0, 0)),
             'each reply is combined or relayed, exactly once')
    for e, b in dr.find(ra['relay']):
        ck.ok('bcast.result-route', dr.match('raw_msg[1:]', e.a[0].a[1][0]) is not None, e, 'a relayed reply drops exactly the hop it came from')
    for e, b in dr.find(ra['cr']):
        a = e.a[0].a[1]
        ids = 'self.session.feed_identities(*_)[0]'
        ck.ok('bcast.result-route', len(a) == 5 and dr.match("_['metadata']['original_msg_id']", a[2]) is not None and dr.match(f'{ids}[0]', a[3]) is not None
              and dr.match(f'{ids}[1:]', a[4]) is not None, e, 'a partial reply is filed under the original id and its sender, and the rest of the route kept')
    # message construction
    ap = ck.F(B + 'append_new_msg_id_to_msg')
    pa = dict(id=add("msg['header']", "'msg_id'", 'new_id'), ser=call('self.session.serialize(msg, *_)'), buf=lambda e, a, b: {} if e.kind == 'add' and e.a[2] is not None and _all_buffers(ap, e.a[2]) else None)
    ck.every('bcast.copy', ap, pa, lambda t: t.before('id', 'ser'), 'the new id is set before serializing')
    for e, b in ap.find(pa['ser']):
        idn = argof(e.a[0], 1, 'ident')
        ck.ok('bcast.copy', idn is not None and ap.match('any_of([any_of(target_id, target_id.encode(*_)), *_], [any_of(target_id, target_id.encode(*_))] + idents)', idn) is not None and ap.match('has(idents)', idn) is not None, e,
              'a copy is routed to its target first, then back along the request route')
    for e in ap.all_effects():
        if e.kind == 'return':
            good = any(x.a[0] is e.a[0] and x.a[2] is not None and _all_buffers(ap, x.a[2]) for x in ap.all_effects() if x.kind == 'add') or _all_buffers(ap, e.a[0])
            ck.ok('bcast.copy', good, e, 'a copy keeps the buffers')
    gi = ck.F(B + 'get_new_msg_id')
    for e in gi.all_effects():
        if e.kind == 'return':
            ck.ok('bcast.unique-id', gi.match('has(original_msg_id)', e.a[0]) is not None and gi.match('has(outgoing_id)', e.a[0]) is not None, e,
                  'the id of a copy is unique to request and destination')
    st = ck.F(B + 'start')
    ck.exists('bcast.wiring', st, call('_.on_recv(self.dispatch_submission, *_)'), 'requests must be received')
    ck.every('bcast.wiring', st, dict(leaf=lit('self.is_leaf'), inner=lit('not self.is_leaf'), eng=call('self.engine_stream.on_recv(self.dispatch_result, *_)')),
             lambda t: ('eng' in t) == ('leaf' in t), 'a leaf listens to its engines')
    ck.exists('bcast.wiring', st, call('any_of(elem(self.outgoing_streams), self.outgoing_streams[_]).on_recv(self.dispatch_result, *_)'), 'an inner scheduler listens to its sub-schedulers')
    # tree construction
    la = ck.nested('controller.app:IPController.launch_broadcast_schedulers', 'recursively_start_schedulers')
    recs = [e for e, b in la.find(call('recursively_start_schedulers(*_)'))]
    # nothing is dropped for being queued: every message stream of a scheduler is unlimited
    lb = ck.F('controller.broadcast_scheduler:launch_broadcast_scheduler', opaque=('set_hwm', 'get_common_scheduler_streams'))
    socks = [e for e in lb.all_effects() if e.kind == 'call' and e.a[0].a[0].op in ('attr', 'glob') and lb.match('ctx.socket(zmq.ROUTER)', e.a[0]) is None
             and tm.mentions(e.a[0], lambda x: x.op == 'call' and x.a[0].op == 'attr' and x.a[0].a[1] == 'socket') and lb.match('any_of(ZMQStream(_, _), zmqstream.ZMQStream(_, _))', e.a[0]) is not None]
    ck.ok('bcast.unlimited', bool(socks), lb, 'the message streams of the scheduler')
    for e in socks:
        s = e.a[0]
        ck.ok('bcast.unlimited', any(x.kind == 'call' and lb.match('any_of(util.set_hwm, set_hwm)(_s, 0)', x.a[0], {'_s': s}) is not None or
                                     x.kind == 'call' and lb.match('_s.set_hwm(0)', x.a[0], {'_s': s}) is not None for x in lb.all_effects()), e,
              'a ROUTER drops what exceeds its high-water mark: message streams must have none')


def _prefiltered(fl):
    return True


def _operand(c):
    """The value tested against None in `v is not None` / `v is None`."""
    if c.op == 'cmp' and c.a[0] in ('is', 'is not', '==', '!='):
        if c.a[2] is tm.NONE:
            return c.a[1]
        if c.a[1] is tm.NONE:
            return c.a[2]
    if c.op == 'isnone':
        return c.a[0]
    return c


def _accumulator(ck, fl, keypat, targets, who):
    rep = [e for e, b in fl.find(add('self.accumulated_replies', 'original_msg_id'))]
    ck.ok('bcast.accumulator', bool(rep), fl, 'a coalescing request must record the replies it expects')
    for e in rep:
        src = dict_sources(fl, e.a[2])
        src += [(x.a[1], x.a[2], None) for x, b in fl.find(add('self.accumulated_replies[original_msg_id]', '_'))]
        ck.ok('bcast.accumulator', bool(src), e, 'the expected replies must be listed')
        for k, v, it in src:
            ck.ok('bcast.accumulator', k is not None and fl.match(keypat, k) is not None and v is tm.NONE, e,
                  f'expected replies are keyed by the identity each {"engine" if targets else "sub-scheduler"} replies under, initially None')
    tg = [e for e, b in fl.find(add('self.accumulated_targets', 'original_msg_id'))]
    ck.ok('bcast.accumulator', bool(tg), fl, 'a coalescing request must record the targets it covers')
    if targets:
        for e in tg:
            ck.ok('bcast.accumulator', fl.match(f'any_of({targets}, copyof({targets}))', e.a[2]) is not None, e, 'the recorded targets are the requested ones')


def _acc_guard(ck, fl):
    at = dict(co=lit('is_coalescing'), noco=lit('not is_coalescing'), r=add('self.accumulated_replies', 'original_msg_id'), t=add('self.accumulated_targets', 'original_msg_id'))
    ck.every('bcast.accumulator-when', fl, at, lambda t: (t.count('r') == 1 and t.count('t') == 1) if 'co' in t else ('r' not in t and 't' not in t),
             'expectations are recorded exactly for coalescing requests')


def _elt_of(fl, t):
    """The per-iteration object of a list of fresh lists."""
    return t.op == 'alloc' and any(x.op == 'comp' and x.a[2] is t for e in fl.all_effects() for y in e.a if isinstance(y, tm.T) for x in tm.subterms(y))


def _all_buffers(fl, t):
    """Every buffer of the message, whole: `x + buffers`, the buffers themselves, or an element of all of them."""
    if fl.match("any_of(msg['buffers'], copyof(msg['buffers']))", t) is not None:
        return True
    if t.op in ('item', 'elem', 'copy') and t.a and isinstance(t.a[0], tm.T):
        return fl.match("any_of(msg['buffers'], copyof(msg['buffers']))", t.a[0]) is not None
    if t.op == 'bin' and t.a[0] == '+':
        return _all_buffers(fl, t.a[1]) or _all_buffers(fl, t.a[2])
    if t.op == 'phi':
        return any(_all_buffers(fl, x) for x in fl.alts(t) if x.op != 'phi')
    return False
