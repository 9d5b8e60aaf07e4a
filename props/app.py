"""The engine application and the nanny that watches it."""

from ipa import terms as tm
from ipa.terms import T

from . import engineval
from .common import add, argof, broad_handlers, call, caught, contained, dict_sources, is_eff, iter_covers, keyed, lit, prop, remove, ret, store  # noqa: F401

A = 'engine.app:IPEngine'
AM = A + '.'
N = 'engine.nanny:KernelNanny'
NM = N + '.'


def kwargs_of(t):
    return {k: v for k, v in t.a[2] if k}


def content_is(ck, rule, fl, e, i, want, msg, only=True):
    """The message content of a send has the given constant keys with values matching the patterns."""
    ks = keyed(fl, argof(e.a[0], i, 'content') or tm.NONE)
    for k, p in want.items():
        ck.ok(rule, bool(ks.get(k)) and all(fl.match(p, v) is not None for v in ks[k]), e, f'{msg}: {k}')
    return ks


def _literal_keys(t):
    return [x[0] for x in t.a[2] if isinstance(x, tuple)] if t is not None and t.op == 'alloc' else []


@prop('E02', 45)
def e02(ck):
    names = ck.names(A)
    rg = ck.F(AM + 'register', opaque=names)
    SOCK = 'self.context.socket(zmq.DEALER)'
    send = call(f"self.session.send(any_of({SOCK}, self.registrar), 'registration_request', *_)")
    ra = dict(sock=store('self.registrar', SOCK), ident=store('_.IDENTITY', 'self.bident'), ident2=call('_.setsockopt(zmq.IDENTITY, self.bident)'),
              conn=call(f'self.init_connector()[0]({SOCK}, self.registration_url)'), send=send,
              got=call('self.complete_registration(*_)'), abort=call('self.abort()'), exit=call('self.exit(*_)'))
    ck.every('register', rg, ra, lambda t: t.count('send') == 1 and t.count('conn') == 1 and t.before('conn', 'send'), 'an engine asks to be registered, once')
    ck.every('register', rg, ra, lambda t: t.count('ident') + t.count('ident2') >= 1 and (t.before('ident', 'conn') if 'ident' in t else t.before('ident2', 'conn')), 'the registration socket is named before it connects, so that the reply can be routed')
    ck.every('register', rg, ra, lambda t: 'sock' in t, 'the registration socket is kept, to unregister on')
    ck.every('register', rg, ra, lambda t: t.count('got') + t.count('abort') == 1, 'a reply completes the registration and no reply in time aborts it')
    for e, b in rg.find(send):
        ks = content_is(ck, 'register.content', rg, e, 2, dict(uuid='self.ident'), 'the request names the engine')
        ck.ok('register.content', bool(ks.get('id')) and all(rg.match('self.id', v) is not None for v in ks['id']), e, 'a requested id is sent')
        ck.every('register.content', rg, dict(none=lit('self.id is None'), some=lit('self.id is not None'), put=add('_', "'id'", 'self.id'), put2=call("_.update(id=self.id)")),
                 lambda t: 'none' in t or t.count('put') + t.count('put2') > 0 or bool(any(i.op == 'const' and i.a[0] == 'id' for i in _literal_keys(argof(e.a[0], 2, 'content')))), 'a requested id is sent, whatever it is')
    EV = 'any_of(_x, dict(_x))'
    for e, b in rg.find(ra['got']):
        ck.ok('register.reply', rg.match(f'{SOCK}.recv_multipart()', argof(e.a[0], 0, 'msg')) is not None and rg.match('self.init_connector()[0]', argof(e.a[0], 1, 'connect')) is not None
              and rg.match('self.init_connector()[1]', argof(e.a[0], 2, 'maybe_tunnel')) is not None, e, 'the registration is completed with the reply and over the same kind of connection')
    contained(ck, 'register.reply', rg, ra['got'], 'an engine whose registration fails exits', effect=call('self.exit(_c)'), n=1)
    for e, b in rg.find(call('self.exit(*_)')):
        v = argof(e.a[0], 0, 'exit_status')
        ck.ok('register.reply', v is not None and v.op == 'const' and bool(v.a[0]), e, 'a failed registration exits with an error status')
    for e, b in rg.find(call('_.poll(*_)')):
        v = argof(e.a[0], 0, 'timeout')
        ck.ok('register.timeout', v is not None and rg.match('any_of(int(self.timeout * 1000), self.timeout * 1000)', v) is not None, e, 'the engine waits for the configured time (in ms)')
    aw = [e for e in rg.all_effects() if e.kind == 'await']
    ck.ok('register.reply', any(tm.mentions(e.a[0], lambda y: y.op == 'attr' and y.a[1] == 'complete_registration') for e in aw), rg, 'the registration is awaited')

    def arrived(e, a, b):
        if e.kind != 'lit' or not tm.mentions(e.a[0], lambda y: y.op == 'call' and y.a[0].op == 'attr' and y.a[0].a[1] == 'poll'):
            return None
        c = e.a[0]
        pol = e.a[1] != (c.op == 'cmp' and (c.a[0] == '==' or c.a[0] == '<' and c.a[1].op != 'const'))
        return {} if pol else None

    arrived.lit = True
    for t in rg.traces(dict(ra, ev=arrived)):
        if t.end == 'return':
            ck.ok('register.reply', ('ev' in t) == ('got' in t), rg, 'the registration is completed exactly when a reply arrived', path=t.path())
    ab = ck.F(AM + 'abort', opaque=names)
    aa = dict(un=call("self.session.send(self.registrar, 'unregistration_request', *_)"), exit=call('sys.exit(_c)'), exit2=call('self.exit(_c)'))
    ts = ab.traces(aa)
    ck.ok('abort', bool(ts) and all(t.count('un') == 1 and ('exit' in t or 'exit2' in t) and (t.before('un', 'exit') or t.before('un', 'exit2')) for t in ts), ab, 'an engine that gives up says so and exits')
    ck.ok('abort', not any(t.end == 'return' and 'exit2' not in t for t in ts), ab, 'an engine that gives up exits')
    for a in ('exit', 'exit2'):
        for e, b in ab.find(aa[a]):
            v = e.a[0].a[1][0]
            ck.ok('abort', v.op == 'const' and v.a[0] not in (0, None), e, 'giving up is an error')
    for e, b in ab.find(aa['un']):
        content_is(ck, 'abort', ab, e, 2, dict(id='self.id'), 'the unregistration names the engine')
    # ---- completing the registration
    cr = ck.F(AM + 'complete_registration', opaque=names)
    MSG = 'self.session.deserialize(self.session.feed_identities(msg)[1])'
    ok = lit(f"{MSG}['content']['status'] == 'ok'")
    NANNY = 'self.start_nanny(*_)'
    ca = dict(ok=ok, id=store('self.id', f"{MSG}['content']['id']"), kern=call('Kernel.instance(*_)'), kern2=call('IPythonParallelKernel.instance(*_)'), hb=call('self.start_heartbeat(*_)'), start=call('self.kernel.start()'),
              nanny=call(NANNY), otherid=store('self.id'), patch=store('self.session.send'), redirect=call('self.redirect_output(*_)'))
    ts = [t for t in cr.traces(ca) if t.end == 'return']
    ck.ok('complete', bool(ts) and all('ok' in t for t in ts), cr, 'an engine that was not accepted stops')
    ck.every('complete', cr, ca, lambda t: t.count('id') == t.count('otherid') == 1, 'the engine takes the id it was assigned')
    ck.every('complete', cr, ca, lambda t: t.count('hb') == 1 and t.count('start') == 1 and t.count('kern') + t.count('kern2') == 1, 'an accepted engine starts its kernel and its heart')
    ck.every('complete', cr, ca, lambda t: ('nanny' not in t or t.before('id', 'nanny')) and (t.before('id', 'kern') or t.before('id', 'kern2')), 'the id is known before it is passed on')
    ck.every('complete', cr, ca, lambda t: t.before('patch', 'kern') or t.before('patch', 'kern2'), 'all messages of the kernel carry the engine uuid')
    INF = 'self.connection_info'

    def url(key):
        return lambda t: t.op == 'fstr' and len(t.a[0]) == 3 and t.a[0][1] is tm.const(':') and cr.match(f"{INF}['interface']", t.a[0][0]) is not None and cr.match(f"{INF}['{key}']", t.a[0][2]) is not None

    def leaf(t):
        """the broadcast address of this engine"""
        for y in (cr.alts(t) if t.op == 'phi' else [t]):
            m = cr.match('_u[self.id % len(_u)]', y)
            if m is not None and y.op == 'item' and y.a[1].op == 'bin' and engineval.exact(y.a[1].a[1]):
                src = m['_u']
                if src.op == 'comp' and len(src.a[3]) == 1 and not src.a[4]:
                    el = src.a[2]
                    if cr.match(f"{INF}['broadcast']", src.a[3][0]) is not None and el.op == 'fstr' and cr.match(f"{INF}['interface']", el.a[0][0]) is not None and el.a[0][1] is tm.const(':') and el.a[0][2] is tm.elem(src.a[3][0]):
                        return True
            if y.op == 'fstr' and len(y.a[0]) == 3 and cr.match(f"{INF}['broadcast'][self.id % len({INF}['broadcast'])]", y.a[0][2]) is not None:
                return True
        return False

    engineval.requested(ck, cr)
    engineval.kept(ck, cr, NANNY)
    conns = cr.find(call('connect(*_)'))
    seen = []
    for e, b in conns:
        t = argof(e.a[0], 1, 'url') or tm.NONE
        xs = [t]
        h = cr.loop_of(e.node)
        if t.op == 'elem' and h is not None:
            it = t.a[0]
            it = it.a[0] if it.op == 'copy' else it
            xs = list(it.a[2]) if it.op == 'alloc' else list(it.a[0]) if it.op == 'tup' else [t]
            if it.op == 'alloc':
                for x in cr.all_effects():
                    if x.kind == 'add' and x.a[0].op == 'alloc' and x.a[0].a[0] == it.a[0]:
                        xs.append(x.a[1])
                        ck.every('complete.connects', cr, dict(c=is_eff(e), x=is_eff(x)), lambda t: t.count('x') == 1, 'the engine connects to every address, always')
            for tr in cr.body_traces(h, dict(c=is_eff(e))):
                ck.ok('complete.connects', tr.end == 'stop' and tr.count('c') == 1, e, 'the engine connects to every address', path=tr.path())
        seen += [(x, e) for x in xs]
    for key in ('mux', 'task', 'iopub'):
        ck.ok('complete.connects', sum(url(key)(x) for x, e in seen) == 1, cr, f'the engine connects to {key}')
    ck.ok('complete.leaf', sum(leaf(x) for x, e in seen) == 1, cr, 'the engine connects to the broadcast leaf that serves its id: id modulo the number of leaves')
    # control: directly, or through the nanny, each with its own key
    ctl = [e for x, e in seen if any(url('control')(y) for y in (cr.alts(x) if x.op == 'phi' else [x]))]
    if ck.ok('complete.connects', bool(ctl), cr, 'the engine connects to control'):

        def direct(x, a, b):
            if x.kind != 'call' or cr.match('connect(*_)', x.a[0]) is None:
                return None
            u, k = argof(x.a[0], 1, 'url'), argof(x.a[0], 2, 'curve_serverkey')
            us = [y for y in a(u) if y.op != 'phi'] if u.op == 'phi' else [u]
            return {} if any(url('control')(y) for y in us) and (k is None or any(cr.match('self.curve_serverkey', y) is not None for y in (a(k) if k.op == 'phi' else [k]) if y.op != 'phi')) else None

        def via(x, a, b):
            if x.kind != 'call' or cr.match('connect(*_)', x.a[0]) is None:
                return None
            u, k = argof(x.a[0], 1, 'url'), argof(x.a[0], 2, 'curve_serverkey')
            us = [y for y in a(u) if y.op != 'phi'] if u.op == 'phi' else [u]
            if k is None:
                return None
            ks = [y for y in a(k) if y.op != 'phi'] if k.op == 'phi' else [k]
            return {} if any(cr.match(f'{NANNY}[0]', y) is not None for y in us) and any(cr.match('self.curve_publickey', y) is not None for y in ks) else None

        direct.desc = 'connect to control'
        via.desc = 'connect to the nanny'
        ck.every('complete.control', cr, dict(nanny=call(NANNY), direct=direct, via=via, on=lit('self.enable_nanny'), off=lit('not self.enable_nanny')),
                 lambda t: (t.count('via'), t.count('direct')) == ((1, 0) if 'nanny' in t else (0, 1)) and ('on' in t) == ('nanny' in t),
                 'with a nanny, control goes through it with its key, otherwise to the controller')
        for n, b in cr.find(call(NANNY)):
            v = argof(n.a[0], 0, 'control_url')
            ck.ok('complete.control', v is not None and url('control')(v), n, 'the nanny relays the control address of the controller')
    sa = dict(s=lambda e, a, b: {} if e.kind == 'call' and cr.match('self.context.socket(_)', e.a[0]) is not None else None,
              i=call('_.setsockopt(zmq.IDENTITY, self.bident)'), i2=store('_.identity', 'self.bident'), i3=store('_.IDENTITY', 'self.bident'), c=call('connect(*_)'))

    def named(t):
        n = m = 0
        for x in t.atoms:
            n += x == 's'
            m += x in ('i', 'i2', 'i3')
            if x == 'c' and m < n:
                return False
        return n == m == 3

    # the loop over addresses may repeat the connect: names come first all the same
    ck.every('complete.identity', cr, sa, named, 'every socket carries the identity of the engine before it connects', cap=4)
    for e, b in cr.find(ca['hb']):
        v = e.a[0]
        for i, k in ((0, 'hb_ping'), (1, 'hb_pong')):
            x = argof(v, i, k)
            ck.ok('complete.heart', x is not None and x.op == 'call' and cr.match('maybe_tunnel', x.a[0]) is not None and url(k)(x.a[1][0]), e, f'the heart connects to {k}')
        ck.ok('complete.heart', cr.match(f"{MSG}['content']['hb_period']", argof(v, 2, 'hb_period')) is not None, e, 'the heartbeat of the hub is checked at its period')
        ck.ok('complete.heart', cr.match('self.bident', argof(v, 3, 'identity')) is not None, e, 'the heart beats under the identity the engine registered')
    for k in ('kern', 'kern2'):
        for e, b in cr.find(ca[k]):
            kw = kwargs_of(e.a[0])
            for n, p in (('engine_id', f"any_of(self.id, {MSG}['content']['id'])"), ('ident', 'self.ident'), ('session', 'self.session')):
                v = kw.get(n)
                if n == 'session' and v is None:
                    v = next((y for x, y in e.a[0].a[2] if x == n), None)
                ck.ok('complete.kernel', v is not None and cr.match(p, v) is not None, e, f'the kernel has the {n} of the engine')
    for e, b in cr.find(call(NANNY)):
        ck.ok('complete.nanny', bool([x for x in cr.all_effects() if x.kind == 'store' and cr.match('self', x.a[0]) is not None and cr.match(f'any_of({NANNY}[1], {NANNY})', x.a[2]) is not None]), e, 'the pipe to the nanny is kept open as long as the engine')
    # ---- every message names the engine
    sm = ck.nested(AM + 'complete_registration', 'send_with_metadata')
    for t in sm.traces(dict(md=add("_", "'engine'", 'self.ident'), md2=call("_.setdefault('engine', self.ident)"), has=lit("'engine' in _"), snd=call('original_send(*_)')), retval=True):
        if t.end == 'return':
            ck.ok('session.metadata', t.count('snd') == 1 and ('md' in t or 'md2' in t or 'has' in t), sm, 'every message is sent once, with the uuid of the engine', path=t.path())
            ck.ok('session.metadata', t.ret is not None and sm.match('original_send(*_)', t.ret) is not None, sm, 'the sent message is returned', path=t.path())
    for e, b in sm.find(call('original_send(*_)')):
        for i, k in enumerate(('stream', 'msg_or_type', 'content', 'parent', 'ident', 'buffers', 'track', 'header')):
            v = argof(e.a[0], i, k)
            ck.ok('session.forward', v is not None and sm.match(k, v) is not None, e, f'{k} is passed on')
        v = argof(e.a[0], 8, 'metadata')
        ck.ok('session.forward', v is not None and sm.match('any_of(metadata, _)', v) is not None and tm.mentions(v, lambda y: y.op == 'param' and y.a[0] == 'metadata'), e, 'metadata is passed on')
    # ---- heartbeats of the hub
    hm = ck.F(AM + '_hb_monitor', opaque=names)
    MISS = 'self._hb_last_monitored > self._hb_last_pinged'
    ha = dict(miss=lit(MISS), good=lit('self._hb_last_monitored <= self._hb_last_pinged'), inc=store('self._hb_missed_beats', 'self._hb_missed_beats + 1'), reset=store('self._hb_missed_beats', '0'),
              many=lit('self._hb_missed_beats >= self.max_heartbeat_misses'), few=lit('self._hb_missed_beats < self.max_heartbeat_misses'),
              un=call("self.session.send(self.registrar, 'unregistration_request', *_)"), stop=call('self.loop.stop()'), mark=store('self._hb_last_monitored'), flush=call('self._hb_listener.flush()'))

    def beat(t):
        if ('miss' in t) == ('good' in t) or ('many' in t) == ('few' in t):
            return False
        if (t.count('inc'), t.count('reset')) != ((1, 0) if 'miss' in t else (0, 1)):
            return False
        if t.count('mark') != 1:
            return False
        i = t.atoms.index('inc' if 'miss' in t else 'reset')
        j = t.atoms.index('many' if 'many' in t else 'few')
        if j < i:
            return False
        return (t.count('un'), t.count('stop')) == ((1, 1) if 'many' in t else (0, 0))

    ck.every('hub-heartbeat', hm, ha, beat, 'the engine stops, and says so, exactly when it missed the allowed number of pings in a row')
    ck.every('hub-heartbeat', hm, ha, lambda t: 'flush' in t and t.atoms.index('flush') < min(t.atoms.index(x) for x in t.atoms if x in ('miss', 'good')), 'pings that arrived are seen before the check')
    ck.every('hub-heartbeat', hm, ha, lambda t: t.atoms.index('mark') > min(t.atoms.index(x) for x in t.atoms if x in ('miss', 'good')), 'the check compares with the time of the previous check')
    for e, b in hm.find(ha['un']):
        content_is(ck, 'hub-heartbeat', hm, e, 2, dict(id='self.id'), 'the unregistration names the engine')
    rp = ck.F(AM + '_report_ping', opaque=names)
    ck.every('hub-heartbeat', rp, dict(s=store('self._hb_last_pinged')), lambda t: t.count('s') == 1, 'every ping is noted')
    CLK = 'any_of(time.time(), time.monotonic(), monotonic())'
    clocks = set()
    for fl, a in ((hm, store('self._hb_last_monitored')), (rp, store('self._hb_last_pinged'))):
        for e, b in fl.find(a):
            ck.ok('hub-heartbeat', fl.match(CLK, e.a[2]) is not None, e, 'the current time is noted')
            clocks.add(str(e.a[2]))
    ck.ok('hub-heartbeat', len(clocks) == 1, hm, 'pings and checks use the same clock')
    sh = ck.F(AM + 'start_heartbeat', opaque=names)
    on = lit('self.max_heartbeat_misses > 0')
    ta = dict(on=on, heart=call('Heart(*_)'), go=call('Heart(*_).start()'), recv=call('self._hb_listener.on_recv(self._report_ping)'), sub=call("_.setsockopt(zmq.SUBSCRIBE, b'')"),
              per=call('_.PeriodicCallback(self._hb_monitor, *_)'), perstart=call('self._hb_reporter.start()'))
    ck.every('heart', sh, ta, lambda t: t.count('heart') == t.count('go') == 1, 'the heart of the engine beats')
    ck.every('heart', sh, ta, lambda t: all((t.count(k) == 1) == ('on' in t) for k in ('recv', 'sub', 'per', 'perstart')), 'the pings of the hub are checked exactly when that is enabled')
    for e, b in sh.find(ta['heart']):
        for i, k, p in ((0, 'in_addr', 'hb_ping'), (1, 'out_addr', 'hb_pong'), (6, 'heart_id', 'identity'), (7, 'curve_serverkey', 'self.curve_serverkey'), (8, 'curve_secretkey', 'self.curve_secretkey'), (9, 'curve_publickey', 'self.curve_publickey')):
            v = argof(e.a[0], i, k)
            ck.ok('heart', v is not None and sh.match(p, v) is not None, e, f'the heart gets its {k}')
    for e, b in sh.find(ta['per']):
        v = argof(e.a[0], 1, 'callback_time')
        P = 'any_of(hb_period + _p, hb_period)'
        if v is not None and sh.match('self.hb_check_period', v) is not None:
            vs = [x.a[2] for x, _ in sh.find(store('self.hb_check_period'))]
        else:
            vs = [v]
        ck.ok('heart', bool(vs) and all(x is not None and sh.match(P, x) is not None for x in vs), e, 'the check is not more frequent than the pings of the hub')
        for x in vs:
            m = sh.match('hb_period + _p', x) if x is not None else None
            ck.ok('heart', m is None or m['_p'].op == 'const' and isinstance(m['_p'].a[0], (int, float)) and m['_p'].a[0] >= 0, e, 'the check is not more frequent than the pings of the hub')
    # ---- logging
    fw = ck.F(AM + 'forward_logging', opaque=names)
    for e, b in fw.find(call('EnginePUBHandler(*_)')):
        ck.ok('logging', fw.match('self', argof(e.a[0], 0, 'engine')) is not None, e, 'an engine that forwards its log starts')
    # ---- the nanny gets what it needs
    sn = ck.F(AM + 'start_nanny', opaque=list(names) + list(ck.fnames('engine.nanny')))
    for e, b in sn.find(call('start_nanny(*_)')):
        kw = kwargs_of(e.a[0])
        for k, p in (('engine_id', 'self.id'), ('identity', 'self.bident'), ('control_url', 'control_url'), ('registration_url', 'self.registration_url'),
                     ('curve_serverkey', 'self.curve_serverkey'), ('curve_secretkey', 'self.curve_secretkey'), ('curve_publickey', 'self.curve_publickey')):
            ck.ok('nanny.arguments', k in kw and sn.match(p, kw[k]) is not None, e, f'the nanny is given {k}')
    ck.exists('nanny.arguments', sn, call('start_nanny(*_)'), 'the nanny is started')


@prop('E03', 25)
def e03(ck):
    names = ck.names(N)
    fin = ck.F(NM + 'finish', opaque=names)
    fa = dict(done=lit('self._finish_called'), notify=call('self.notify_exit()'), mark=store('self._finish_called', 'True'), stop=call('self.loop.add_callback(self.loop.stop)'), stop2=call('self.loop.stop()'))
    ck.every('exit.once', fin, fa, lambda t: (t.count('notify') == 0 if 'done' in t else t.count('notify') == 1 and t.count('mark') == 1 and t.count('stop') + t.count('stop2') == 1), 'the exit of the engine is reported exactly once, and then the nanny stops')
    ck.every('exit.once', fin, fa, lambda t: 'notify' not in t or 'done' in t or t.before('mark', 'notify') or t.before('notify', 'mark'), 'the exit of the engine is reported exactly once')
    ini = ck.F(NM + '__init__', opaque=names)
    ck.every('exit.once', ini, dict(s=store('self._finish_called', 'False')), lambda t: 's' in t, 'nothing was reported at the start')
    ne = ck.F(NM + 'notify_exit', opaque=names)
    SOCK = 'self.context.socket(zmq.DEALER)'
    na = dict(conn=call(f'{SOCK}.connect(self.registration_url)'), send=call(f"self.session.send({SOCK}, 'unregistration_request', *_)"), close=call(f'{SOCK}.close(*_)'))
    ck.every('exit.report', ne, na, lambda t: t.count('conn') == t.count('send') == 1 and t.before('conn', 'send') and (t.count('close') == 0 or t.before('send', 'close')), 'the hub is told that the engine is gone')
    for e, b in ne.find(na['send']):
        content_is(ck, 'exit.report', ne, e, 2, dict(id='self.engine_id'), 'the report names the engine')
    cs = [e for e in ne.all_effects() if e.kind == 'call' and ne.match(f'{SOCK}.connect(self.registration_url)', e.a[0]) is not None]
    ck.ok('exit.report', bool(cs), ne, 'the report goes to the hub')
    for k in ('serverkey', 'secretkey', 'publickey'):
        at = [call(f'{SOCK}.setsockopt(zmq.CURVE_{k.upper()}, self.curve_{k})'), store(f'{SOCK}.curve_{k}', f'self.curve_{k}')]
        ck.ok('exit.report', any(ne.find(a) for a in at), ne, f'the report is encrypted with the {k}')
    for e in ne.all_effects():
        if e.kind == 'store' and e.a[1] == 'LINGER' or e.kind == 'call' and ne.match(f'{SOCK}.close(linger=_)', e.a[0]) is not None:
            v = e.a[2] if e.kind == 'store' else dict(e.a[0].a[2])['linger']
            ck.ok('exit.report', v.op == 'const' and v.a[0] != 0, e, 'the report is not dropped when the nanny exits')
    ck.every('exit.report', ne, dict(k=call(f'{SOCK}.setsockopt(zmq.CURVE_SERVERKEY, self.curve_serverkey)'), on=lit('self.curve_serverkey'), conn=na['conn']), lambda t: 'on' not in t or t.before('k', 'conn'), 'the report is encrypted when the controller is')
    # ---- ways to notice
    wt = ck.F(NM + 'wait_for_parent_thread', opaque=names)
    WAIT = call('self.parent_process.wait(*_)')
    wa = dict(fin=call('self.loop.add_callback(self.finish)'), fin2=call('self.loop.add_callback_from_signal(self.finish)'), direct=call('self.finish()'), tick=caught('TimeoutExpired'))
    ck.every('exit.noticed', wt, wa, lambda t: t.count('fin') == 1, 'when the engine exits, it is reported from the event loop')
    ck.never('exit.noticed', wt, wa['direct'], 'the watching thread must not touch the sockets of the event loop')
    for e, b in wt.find(WAIT):
        if e.a[0].a[1] or e.a[0].a[2]:
            hs = [s for s, l in e.node.succ if l == 'exc' and s.kind == 'dispatch']
            ck.ok('exit.noticed', bool(hs), e, 'a wait that times out is handled')
    w = call('self.parent_process.wait(*_)')
    w.attempt = True
    for t in wt.traces(dict(w=w, tick=caught('TimeoutExpired'), fin=wa['fin'], fin2=wa['fin2']), cap=3, exc='handled'):
        ck.ok('exit.noticed', t.end != 'return' or 'w' in t, wt, 'the engine is watched', path=t.path())
        bad = [i for i, x in enumerate(t.atoms) if x == 'tick' and t.atoms[:i].count('w') < 3 and 'w' not in t.atoms[i:]]
        ck.ok('exit.noticed', not bad, wt, 'the engine is watched until it exits', path=t.path())
    engineval.watching(ck, wt)
    engineval.exiting(ck, names, NM)
    ph = ck.F(NM + 'pipe_handler', opaque=names)
    engineval.closed(ck, ph)
    pa = dict(fin=call('self.finish()'), rm=call('self.loop.remove_handler(fd)'))
    ts = ph.traces(pa, exc='handled')
    ck.ok('exit.noticed', all(t.count('fin') == 1 and t.count('rm') == 1 for t in ts if t.end == 'return') and any(t.end == 'return' for t in ts), ph, 'a closed pipe is reported, once')
    ck.ok('exit.noticed', bool([1 for e, b in ph.find(call('fd.close()')) if any(l == 'exc' and s.kind == 'dispatch' for s, l in e.node.succ)]) or not ph.find(call('fd.close()')), ph, 'a pipe that is already broken is no obstacle')
    for e, b in ph.find(call('self.parent_process.wait(*_)')):
        ck.ok('exit.noticed', any(l == 'exc' and s.kind == 'dispatch' for s, l in e.node.succ), e, 'an engine that is still there is no obstacle')
    # ---- control messages
    dc = ck.F(NM + 'dispatch_control', opaque=list(names) + list(ck.fnames('error')))
    MSG = 'self.session.deserialize(self.session.feed_identities(raw_msg)[1], *_)'
    HND = f"any_of(self.control_handlers.get({MSG}['header']['msg_type'], *_), self.control_handlers.get({MSG}['msg_type'], *_), self.control_handlers[{MSG}['header']['msg_type']])"
    da = dict(own=call(f"{HND}({MSG}['content'])"), relay=call('self.parent_stream.send_multipart(*_)'), reply=call('self.session.send(stream, *_)'), none=lit(f'{HND} is None'), some=lit(f'{HND} is not None'), bad=caught('Exception'),
              nohave=lit("_ not in self.control_handlers"))
    ts = dc.traces(da, exc='member')
    for t in ts:
        if t.end == 'return':
            ck.ok('control', (t.count('relay'), t.count('own'), t.count('reply')) == ((1, 0, 0) if 'none' in t or 'nohave' in t else (0, 1, 1)), dc, 'a control message is either handled and answered or relayed, once', path=t.path())
    ck.exists('control', dc, da['relay'], 'messages for the engine are relayed')
    for e, b in dc.find(da['relay']):
        ck.ok('control.relay', dc.match('raw_msg', argof(e.a[0], 0, 'msg_parts')) is not None, e, 'the message is relayed unchanged')
    contained(ck, 'control', dc, da['own'], 'a request that fails is answered too', effect=da['reply'], n=1)
    contained(ck, 'control', dc, call(f'{MSG}'), 'a message that cannot be read is no obstacle')
    contained(ck, 'control', dc, call('self.session.feed_identities(raw_msg)'), 'a message that cannot be read is no obstacle')
    for t in dc.traces(da, exc='handled', retval=True):
        if t.end == 'return' and 'own' not in t and 'reply' in t:
            pass
    for e, b in dc.find(da['reply']):
        ck.ok('control.reply', dc.match('self.session.feed_identities(raw_msg)[0]', argof(e.a[0], 4, 'ident')) is not None, e, 'the reply is routed to the requester')
        ck.ok('control.reply', dc.match(MSG, argof(e.a[0], 3, 'parent')) is not None, e, 'the reply answers the request')
        c = argof(e.a[0], 2, 'content')
        for y in ([x for x in dc.alts(c) if x.op != 'phi'] if c.op == 'phi' else [c]):
            ck.ok('control.reply', dc.match(f"{HND}({MSG}['content'])", y) is not None or dc.match('wrap_exception(*_)', y) is not None or dc.match('error.wrap_exception(*_)', y) is not None, e, 'the reply is the outcome of the request or its error')
    dp = ck.F(NM + 'dispatch_parent', opaque=names)
    ck.every('control.relay', dp, dict(s=call('self.control_stream.send_multipart(raw_msg)'), o=call('self.control_stream.send_multipart(*_)')), lambda t: t.count('s') == t.count('o') == 1, 'replies of the engine are relayed unchanged, once')
    for e, b in ini.find(store('self.control_handlers')):
        ks = keyed(ini, e.a[2])
        ck.ok('signal', any(ini.match('self.signal_request', v) is not None for v in ks.get('signal_request', ())), e, 'signals are handled')
    ck.exists('signal', ini, store('self.control_handlers'), 'signals are handled')
    sr = ck.F(NM + 'signal_request', opaque=names)
    SIG = "content['sig']"
    sa = dict(s=call(f'self.parent_process.send_signal(any_of({SIG}, signal.__getattr__({SIG}), getattr(signal, {SIG})))'), o=call('_.send_signal(*_)'), name=lit(f'isinstance({SIG}, str)'))
    ck.every('signal', sr, sa, lambda t: t.count('s') == t.count('o') == 1, 'the signal is sent once, to the engine')
    for e, b in sr.find(sa['o']):
        v = argof(e.a[0], 0, 'sig')
        alts_ = [x for x in sr.alts(v) if x.op != 'phi'] if v.op == 'phi' else [v]
        ck.ok('signal', any(sr.match(SIG, y) is not None for y in alts_) and any(sr.match(f'getattr(signal, {SIG})', y) is not None for y in alts_), e, 'signals may be given by number and by name')
    for t in sr.traces({}, retval=True):
        if t.end == 'return':
            ks = keyed(sr, t.ret)
            ck.ok('signal', any(v.op == 'const' and v.a[0] == 'ok' for v in ks.get('status', ())), sr, 'a signal that was sent is confirmed', path=t.path())
    for e, b in sr.find(sa['o']):
        ck.ok('signal', not broad_handlers(sr, e.node), e, 'a signal that could not be sent is an error')
    engineval.confirmed(ck, sr)
    # ---- start
    st = ck.F(NM + 'start', opaque=names)
    ga = dict(watch=call('Thread(*_)'), go=call('self._watcher_thread.start()'), ident=store('self.control_socket.identity', 'self.identity'), ident2=call('self.control_socket.setsockopt(zmq.IDENTITY, self.identity)'), ident3=store('self.control_socket.IDENTITY', 'self.identity'),
              conn=call('self.control_socket.connect(self.control_url)'), ctl=call('self.control_stream.on_recv_stream(self.dispatch_control)'), par=call('self.parent_stream.on_recv_stream(self.dispatch_parent)'),
              bind=call("self.parent_socket.bind_to_random_port(*_)"), tell=call('self.pipe.write(*_)'), sig=call('signal.signal(signal.SIGINT, signal.SIG_IGN)'), curve=lit('self.curve_secretkey'), key=call('self.parent_socket.setsockopt(zmq.CURVE_SECRETKEY, self.curve_secretkey)'),
              srv=call('self.parent_socket.setsockopt(zmq.CURVE_SERVER, 1)'))
    ck.every('start', st, ga, lambda t: t.count('watch') == t.count('go') == 1, 'the engine is watched')
    ck.every('start', st, ga, lambda t: t.count('ctl') == t.count('par') == t.count('conn') == t.count('bind') == t.count('tell') == 1 and t.before('bind', 'tell'), 'control messages are relayed in both directions')
    ck.every('start', st, ga, lambda t: any(t.before(k, 'conn') for k in ('ident', 'ident2', 'ident3')), 'the nanny receives what is addressed to its engine')
    ck.every('start', st, ga, lambda t: 'sig' in t, 'an interrupt of the process group does not stop the nanny')
    ck.every('start.curve', st, ga, lambda t: 'curve' not in t or t.before('key', 'bind') and t.before('srv', 'bind'), 'the relay is encrypted when the controller is')
    for e, b in st.find(ga['watch']):
        ck.ok('start', st.match('self.wait_for_parent_thread', argof(e.a[0], 1, 'target')) is not None, e, 'the engine is watched')
    # ---- the process
    sn = ck.F('engine.nanny:start_nanny')
    PIPE = call('any_of(subprocess.Popen(*_), Popen(*_))')
    ck.ok('start.process', any(e.kind == 'add' and sn.match("'pid'", e.a[1]) is not None and sn.match('os.getpid()', e.a[2]) is not None for e in sn.all_effects()) or bool([e for e, b in sn.find(call("kwargs.update(pid=os.getpid())"))]) or any(
        any(sn.match("'pid'", k) is not None and sn.match('os.getpid()', v) is not None for k, v, _ in dict_sources(sn, e.a[0].a[1][0])) for e, b in sn.find(call('pickle.dumps(_)'))), sn, 'the nanny watches the process that started it')
    for e, b in sn.find(PIPE):
        kw = kwargs_of(e.a[0])
        ck.ok('start.process', 'start_new_session' in kw and kw['start_new_session'] is tm.const(True), e, 'the nanny does not get the signals of the engine')
    pa = dict(p=PIPE, args=call('_.stdin.write(pickle.dumps(_))'), eof=call('_.stdin.close()'), url=call('_.stdout.readline()'))
    ck.every('start.process', sn, pa, lambda t: t.count('p') == 1 and t.before('p', 'args') and t.before('args', 'eof') and t.before('eof', 'url'), 'the nanny gets its arguments and then tells its address')
    for t in sn.traces(pa, retval=True):
        if t.end == 'return':
            ck.ok('start.process', t.ret.op == 'tup' and len(t.ret.a[0]) == 2 and tm.mentions(t.ret.a[0][0], lambda y: y.op == 'attr' and y.a[1] == 'readline') and sn.match('any_of(subprocess.Popen(*_), Popen(*_))', t.ret.a[0][1]) is not None, sn, 'the address of the nanny and its process are returned', path=t.path())
