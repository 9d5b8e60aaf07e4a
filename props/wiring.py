"""How the controller is put together: sockets, addresses, processes."""

from ipa import terms as tm

from . import fold
from .client import leaves
from .common import add, argof, call, dict_sources, is_eff, keyed, lit, loop_heads, prop, store
from .app import kwargs_of

C = 'controller.app:IPController'
CM = C + '.'
BP = "any_of(_.port_name, 'broadcast')"
# helpers of other modules that stay symbolic
EXT = ['disambiguate_url', 'set_hwm', 'launch_broadcast_scheduler', 'launch_scheduler', 'start_heartmonitor', 'select_random_ports']


def url(kind, channel, index=None):
    i = f', {index}' if index else ''
    k = f', index={index}' if index else ''
    return f"any_of(self.{kind}_url({channel}{i}), self.{kind}_url({channel}{k}), self.construct_url('{kind}', {channel}{i}), self.construct_url('{kind}', {channel}{k}))"


def alts_of(fl, t):
    return [x for x in fl.alts(t) if x.op != 'phi'] if t is not None and t.op == 'phi' else [t] if t is not None else []


@prop('W01', 90)
def w01(ck):
    names = ck.names(C)
    op = list(names) + EXT
    ih = ck.F(CM + 'init_hub', opaque=op)
    # ---- the addresses
    calls = {'engine': 0, 'client': 0, None: 0}
    for e in ih.all_effects():
        if e.kind == 'call' and ih.match('self.next_port(*_)', e.a[0]) is not None:
            v = argof(e.a[0], 0, 'pool_name')
            k = None if v is None else v.a[0] if v.op == 'const' else '?'
            calls[k] = calls.get(k, 0) + 1
    infos = {}
    for name, pool, chans in (('engine_info', 'engine', ('control', 'mux', 'task', 'iopub', 'hb_ping', 'hb_pong')), ('client_info', 'client', ('control', 'mux', 'task', 'iopub', 'notification'))):
        for e, b in ih.find(store('self.' + name)):
            ks = keyed(ih, e.a[2])
            infos[name] = (e, ks)
            for c in chans:
                ck.ok('ports', bool(ks.get(c)) and all(ih.match(f"self.next_port('{pool}')", v) is not None for v in ks[c]), e, f'{c} of {name} has a port of its own from the {pool} pool')
            if name == 'client_info':
                vs = [y for v in ks.get('task_scheme', ()) for y in alts_of(ih, v)]
                ck.ok('ports', bool(vs) and all('scheme_name' in str(v) for v in vs), e, 'clients are told the scheme of the task scheduler')
            for v in ks.get('interface', [tm.NONE]):
                ck.ok('ports', v.op == 'fstr' and [ih.match(p, x) is not None for p, x in zip((f'self.{pool}_transport', "'://'", f'self.{pool}_ip'), v.a[0])] == [True] * 3, e, f'the {pool} interface is its transport and ip')
            bc = [v for k, v, it in dict_sources(ih, e.a[2]) if k is not None and (ih.match(BP, k) is not None)]
            if pool == 'client':
                ck.ok('ports', bool(bc) and all(ih.match("self.next_port('client')", v) is not None for v in bc), e, 'clients broadcast through one address')
            else:
                good = bool(bc)
                for v in bc:
                    if v.op == 'comp':
                        good = good and ih.match("self.next_port('engine')", v.a[2]) is not None and len(v.a[3]) == 1 and not v.a[4] and ih.match('range(self.number_of_leaf_schedulers)', v.a[3][0]) is not None
                ck.ok('ports', good, e, 'every leaf of the broadcast tree has a port of its own')
            fresh = lit(f'self.{name}')
            old = lit(f'not self.{name}')
            for t in ih.traces(dict(w=is_eff(e), fresh=fresh, old=old)):
                if t.end == 'return':
                    ck.ok('ports.reuse', ('w' in t) != ('fresh' in t), e, 'addresses of an earlier run are used exactly when there are any', path=t.path())
        ck.ok('ports', name in infos, ih, f'{name} is made')
    if len(infos) == 2:
        re_, rc = (infos[n][1].get('registration', []) for n in ('engine_info', 'client_info'))
        ck.ok('ports.registration', len(re_) == 1 and len(rc) == 1 and re_[0] is rc[0], ih, 'engines and clients register on the same port')
        for v in re_:
            ck.ok('ports.registration', any(ih.match("self.engine_info['registration']", y) is not None for y in alts_of(ih, v)) and any(ih.match("self.next_port('engine')", y) is not None for y in alts_of(ih, v)), ih, 'the registration port of an earlier run is used again')
    ck.ok('ports.distinct', calls.get('engine', 0) >= 8 and calls.get('client', 0) >= 6, ih, 'no two channels share a port')
    for e, b in ih.find(store('self.monitor_url')):
        v = e.a[2]
        ck.ok('ports', v.op == 'fstr' and len(v.a[0]) == 5 and ih.match('self.monitor_transport', v.a[0][0]) is not None and ih.match('self.monitor_ip', v.a[0][2]) is not None and ih.match('self.next_port(*_)', v.a[0][4]) is not None, e, 'the monitor has an address of its own')
    # ---- sockets of the hub
    Q = '_.ZMQStream(self.context.socket(zmq.ROUTER), self.loop)'
    N = '_.ZMQStream(self.context.socket(zmq.PUB), self.loop)'
    R = '_.ZMQStream(self.context.socket(zmq.DEALER), self.loop)'
    S = 'self.context.socket(zmq.SUB)'
    SS = f'_.ZMQStream({S}, self.loop)'

    def sock(q, s):
        s = s.replace('_.ZMQStream', 'any_of(_.ZMQStream, ZMQStream)')
        return q.replace('@', s)

    ha = dict(
        reg=call(sock(f"self.bind(@, {url('client', chr(39) + 'registration' + chr(39))})", Q)),
        reg2=call(sock(f"self.bind(@, {url('engine', chr(39) + 'registration' + chr(39))})", Q)),
        note=call(sock(f"self.bind(@, {url('client', chr(39) + 'notification' + chr(39))})", N)),
        mon=call(f'self.bind(any_of({S}, {SS}), self.monitor_url)'),
        sub=call(f"any_of({S}, {SS}).setsockopt(zmq.SUBSCRIBE, b'')"),
        sub2=call(f"any_of({S}, {SS}).subscribe(b'')"),
        res=call(f"self.connect({R}, any_of(disambiguate_url({url('client', chr(39) + 'task' + chr(39))}), _.disambiguate_url({url('client', chr(39) + 'task' + chr(39))}), {url('client', chr(39) + 'task' + chr(39))}))"),
        same=lit('self.client_ip == self.engine_ip'), differ=lit('self.client_ip != self.engine_ip'),
        same2=lit(f"{url('client', repr('registration'))} == {url('engine', repr('registration'))}"), differ2=lit(f"{url('client', repr('registration'))} != {url('engine', repr('registration'))}"),
        hub=call('any_of(Hub(*_), _.Hub(*_))'),
    )
    for k, n in (('reg', 'registrations of clients'), ('note', 'notifications'), ('mon', 'the traffic of the schedulers'), ('res', 'resubmitted tasks')):
        ck.every('hub.sockets', ih, {k: ha[k], 'hub': ha['hub']}, lambda t: t.count(k) == 1 and t.count('hub') == 1 and t.before(k, 'hub'), f'the hub has a socket for {n}')
    ck.every('hub.sockets', ih, {k: ha[k] for k in ('sub', 'sub2', 'mon')}, lambda t: t.count('sub') + t.count('sub2') == 1, 'the hub sees all traffic')
    ck.every('hub.registration', ih, {k: ha[k] for k in ('reg', 'reg2', 'same2', 'differ2')}, lambda t: 'reg2' in t or 'same2' in t, 'the hub listens on the registration address of the engines, unless it is that of the clients')
    for e, b in ih.find(ha['hub']):
        kw = kwargs_of(e.a[0])
        for k, p in (('monitor', SS), ('query', Q), ('notifier', N), ('resubmit', R), ('db', f'any_of(self.db, self.db_class(*_))'), ('engine_info', 'self.engine_info'), ('client_info', 'self.client_info'),
                     ('heartmonitor_period', 'any_of(HeartMonitor(parent=self).period, _.HeartMonitor(parent=self).period)'), ('registration_timeout', 'self.registration_timeout'), ('session', 'self.session'), ('parent', 'self')):
            ck.ok('hub.parts', k in kw and ih.match(p.replace('_.ZMQStream', 'any_of(_.ZMQStream, ZMQStream)'), kw[k]) is not None, e, f'the hub has its {k}')
    for hw, o in ((S, 'RCVHWM'), (N, 'SNDHWM')):
        at = [store(f'any_of({hw}, _.ZMQStream({hw}, _)).{o}', '0'), store(f'any_of({hw}, {hw}.socket).{o}', '0'), call(f'any_of({hw}, {hw}.socket, _.ZMQStream({hw}, _)).setsockopt(zmq.{o}, 0)'), call(f'_.set_hwm(any_of({hw}, _.ZMQStream({hw}, _)), 0)'), call(f'set_hwm(any_of({hw}, _.ZMQStream({hw}, _)), 0)')]
        ck.ok('hub.hwm', any(ih.find(a) for a in at), ih, f'messages of the schedulers and notifications are never dropped ({o})')
        early = ha['mon'] if hw is S else ha['note']
        for t in ih.traces(dict({f'w{i}': a for i, a in enumerate(at)}, b=early)):
            if 'b' in t:
                ck.ok('hub.hwm', t.atoms[0] != 'b', ih, f'the limit is lifted before anyone can connect ({o})', path=t.path())
    for e, b in ih.find(call('self.db_class(*_)')):
        ck.ok('hub.parts', ih.match('any_of(self.session.session, self.session)', kwargs_of(e.a[0]).get('session', tm.NONE)) is not None, e, 'the database belongs to this session')
    # ---- heart monitor
    for e, b in ih.find(call('any_of(multiprocessing.Process(*_), Process(*_))')):
        kw = kwargs_of(e.a[0])
        if not tm.mentions(kw.get('target', tm.NONE), lambda y: y.op in ('glob', 'func', 'attr') and 'start_heartmonitor' in str(y.a)):
            continue
        ks = keyed(ih, kw.get('kwargs', tm.NONE))
        for k, p in (('ping_url', url('engine', repr('hb_ping'))), ('pong_url', url('engine', repr('hb_pong'))), ('monitor_url', 'any_of(disambiguate_url(self.monitor_url), _.disambiguate_url(self.monitor_url))')):
            ck.ok('heart', bool(ks.get(k)) and all(ih.match(p, v) is not None for v in ks[k]), e, f'the heart monitor has its {k}')
        cf = ks.get('config', [tm.NONE])[0]
        ck.ok('heart', any(x.kind == 'store' and x.a[1] == 'key' and ih.match('self.session.key', x.a[2]) is not None and tm.mentions(x.a[0], lambda y: y is cf) for x in ih.all_effects()) or ih.match('self.config', cf) is not None, e, 'the heart monitor signs with the key of the cluster')
        if ih.match('self.config', cf) is None:
            def mkey(x, alts, b, cf=cf):
                return {} if x.kind == 'store' and x.a[1] == 'key' and ih.match('self.session.key', x.a[2]) is not None and tm.mentions(x.a[0], lambda y: y is cf) else None

            def msess(x, alts, b, cf=cf):
                return {} if x.kind in ('add', 'store') and x.a[0] is cf and (x.a[1] == 'Session' or x.a[1] is tm.const('Session')) else None
            mkey.desc, msess.desc = 'key', 'configuration'
            for t in ih.traces(dict(k=mkey, s=msess, p=is_eff(e))):
                if 'p' in t:
                    ck.ok('heart', 'k' in t and t.before('k', 'p') and [a for a in t.atoms if a in 'ks'][-1] == 'k', e, 'the heart monitor signs with the key of the cluster, whatever is configured', path=t.path())
        ck.ok('heart', ih.match('self.config', cf) is not None or any(x.kind == 'add' and x.a[0] is cf and (ih.match("'HeartMonitor'", x.a[1]) is not None and ih.match("self.config['HeartMonitor']", x.a[2]) is not None) for x in ih.all_effects())
              or any(x.kind == 'store' and x.a[0] is cf and x.a[1] == 'HeartMonitor' and ih.match('self.config.HeartMonitor', x.a[2]) is not None for x in ih.all_effects()), e, 'the configured heartbeat is used')
    ck.ok('heart', bool(ih.find(store('self.heartmonitor_process'))), ih, 'there is a heart monitor')
    # ---- connection files
    wr = lit('self.write_connection_files')
    for side, f, info in (('client', 'self.client_json_file', 'self.client_info'), ('engine', 'self.engine_json_file', 'self.engine_info')):
        sv = call(f'self.save_connection_dict({f}, _)')
        ck.every('files', ih, dict(sv=sv, wr=wr), lambda t: t.count('sv') == ('wr' in t), f'the {side} connection file is written exactly when it should be')
        for e, b in ih.find(sv):
            d = argof(e.a[0], 1, 'cdict')
            src = dict_sources(ih, d)
            ck.ok('files', any(k is not None and k.op == 'elem' and ih.match(info, k.a[0]) is not None for k, v, _ in src) or ih.match(info, d) is not None or (d.op == 'copy' and ih.match(info, d.a[0]) is not None), e, f'the {side} connection file has the {side} addresses')
            ks = keyed(ih, d)
            for k, p in (('location', 'self.location'), ('pack', 'self.session.packer'), ('unpack', 'self.session.unpacker'), ('signature_scheme', 'self.session.signature_scheme'), ('ssh', 'self.ssh_server' if side == 'client' else 'self.engine_ssh_server')):
                ck.ok('files', bool(ks.get(k)) and all(ih.match(p, v) is not None for v in ks[k]), e, f'the {side} connection file has the {k}')
            order = {}
            for x in ih.all_effects():
                if x.kind == 'add' and x.a[0] is d or x.kind == 'add' and d.op == 'alloc' and x.a[0].op == 'alloc' and x.a[0].a[0] == d.a[0]:
                    k, v = x.a[1], x.a[2]
                    src = [k.a[0]] if k is not None and isinstance(k, tm.T) and k.op == 'elem' else []
                    what = 'info' if any(ih.match(info, y) is not None for y in src) else 'base' if k is not None and (k is tm.const('key') or any(tm.mentions(y, lambda z: z is tm.const('key')) for y in src)) else None
                    if what:
                        order.setdefault(what, []).append(x)
            if 'info' in order and 'base' in order:
                for t in ih.traces({**{f'i{n}': is_eff(x) for n, x in enumerate(order['info'])}, **{f'b{n}': is_eff(x) for n, x in enumerate(order['base'])}}):
                    if len(t.atoms) > 1:
                        ck.ok('files', not any(a[0] == 'i' for a in t.atoms[t.atoms.index(next((a for a in t.atoms if a[0] == 'b'), t.atoms[-1])):]), e, f'what this controller uses goes before what was in the {side} connection file', path=t.path())
            ck.ok('files', bool(ks.get('key')) and all(ih.match("any_of(self.session.key.decode(*_), self.session.key)", v) is not None for v in ks['key']), e, f'the {side} connection file has the key of this session')
    ra = dict(hub=ha['hub'], load=call('self.hub._load_engine_state()'), f=store('self.hub.engine_state_file'), on=lit('self.restore_engines'))
    ck.every('restore', ih, ra, lambda t: t.count('load') == ('on' in t) and ('load' not in t or t.before('f', 'load') and t.before('hub', 'load')), 'engines are restored, from the state file of this cluster, exactly when that is asked for')
    # ---- addresses to urls
    cu = ck.F(CM + 'construct_url', opaque=names)
    for kind, info in (('engine', 'self.engine_info'), ('client', 'self.client_info'), ('internal', 'self.internal_info')):
        for t in cu.traces(dict(k=lit(f"kind == '{kind}'"), idx=lit('index is not None')), retval=True):
            if t.end == 'return' and 'k' in t:
                r = t.ret
                port = f'{info}[channel][index]' if 'idx' in t else f'{info}[channel]'
                ck.ok('urls', r.op == 'fstr' and cu.match(f"{info}['interface']", r.a[0][0]) is not None and cu.match(port, r.a[0][-1]) is not None, cu, f'the {kind} url is the interface and the port of the channel', path=t.path())
    for kind in ('client', 'engine', 'internal'):
        u = ck.F(f'{CM}{kind}_url', opaque=names)
        for t in u.traces({}, retval=True):
            if t.end == 'return':
                ck.ok('urls', u.match(f"any_of(self.construct_url('{kind}', channel, index), self.construct_url('{kind}', channel, index=index))", t.ret) is not None, u, f'the url of a {kind} channel is one of that kind', path=t.path())
    # ---- ports
    from . import traits

    traits.ports(ck)
    np_ = ck.F(CM + 'next_port', opaque=list(names) + EXT)
    for pool, lst, idx in (('client', 'client_ports', 'client_port_index'), ('engine', 'engine_ports', 'engine_port_index'), (None, 'ports', 'port_index')):
        GET = f'self.{lst}[self.{idx}]'
        pa = dict(inc=store(f'self.{idx}', f'self.{idx} + 1'), other=store(f'self.{idx}'), left=lit(f'self.{idx} < len(self.{lst})'), pool=lit(f"pool_name == '{pool}'"))
        for t in np_.traces(pa, retval=True):
            if t.end != 'return':
                continue
            took = np_.match(GET, t.ret) is not None
            if took:
                ck.ok('ports.pool', 'left' in t and (not pool or 'pool' in t), np_, f'a port of {lst} is used for its pool, while there are any', path=t.path())
            ck.ok('ports.once', ('inc' in t) == took and t.count('other') == t.count('inc'), np_, f'a port of {lst} is used at most once', path=t.path())
        for e in np_.all_effects():
            if e.kind == 'getitem' and np_.match(f'self.{lst}', e.a[0]) is not None:
                ck.ok('ports.once', np_.match(f'self.{idx}', e.a[1]) is not None, e, f'the next port of {lst} is used')
    sp = ck.F(CM + '_scheduler_ports_assigned', opaque=names)
    for lst, i in (('client_ports', 0), ('engine_ports', 1)):
        pa = dict(a=add(f'self.{lst}', f'change.new[{i}]'), a2=add(f'self.{lst}', f"change['new'][{i}]"), o=add(f'self.{lst}'))
        ck.every('ports.pairs', sp, pa, lambda t: t.count('o') == 1 and t.count('a') + t.count('a2') == 1, f'a configured port pair feeds {lst}')
    # ---- the queues
    is_ = ck.F(CM + 'init_schedulers', opaque=op)
    MQ = '_mq({0}, {1}, zmq.PUB, {2}, {3})'
    MON = 'any_of(disambiguate_url(self.monitor_url), _.disambiguate_url(self.monitor_url))'
    pure = lit("_ == 'pure'")
    for name, types, pre, ins, outs in (
        ('iopub', ('zmq.SUB', 'zmq.PUB'), ("b'iopub'", '_'), 'engine', 'client'),
        ('mux', ('zmq.ROUTER', 'zmq.ROUTER'), ("b'in'", "b'out'"), 'client', 'engine'),
        ('control', ('zmq.ROUTER', 'zmq.ROUTER'), ("b'incontrol'", "b'outcontrol'"), 'client', 'engine'),
        ('task', ('zmq.ROUTER', 'zmq.DEALER'), ("b'intask'", "b'outtask'"), 'client', 'engine'),
    ):
        q = MQ.format(*types, *pre)
        qa = dict(new=call(q), bin=call(f"{q}.bind_in({url(ins, repr(name))})"), bout=call(f"{q}.bind_out({url(outs, repr(name))})"), bin0=call(f'{q}.bind_in(*_)'), bout0=call(f'{q}.bind_out(*_)'),
                  mon=call(f'{q}.connect_mon({MON})'), child=add('self.children', q), pure=pure)
        keys = ('new', 'bin', 'bout', 'bin0', 'bout0', 'mon', 'child')

        def wired(t):
            n = ('pure' in t) if name == 'task' else 1
            return all(t.count(k) == n for k in keys) and (not n or t.before('new', 'bin'))

        ck.every('queues', is_, qa, wired, f'{name} messages are relayed between clients and engines and copied to the hub')
        if name == 'iopub':
            ck.every('queues', is_, dict(s=call(f"{q}.setsockopt_in(zmq.SUBSCRIBE, b'')")), lambda t: t.count('s') == 1, 'all output of engines is relayed')
    relay_hwm(ck, is_, MQ)
    TA = 'self.get_python_scheduler_args(*_)'
    sa = dict(go=call(f"self.launch_python_scheduler(_, {TA}, self.children)"), pure=pure, none=lit("_ == 'none'"), bc=call(f'self.launch_broadcast_schedulers({MON}, self.children)'))
    ck.every('schedulers', is_, sa, lambda t: t.count('go') == (0 if 'pure' in t or 'none' in t else 1) and t.count('bc') == 1, 'the task and broadcast schedulers are started')
    for e, b in is_.find(call(TA)):
        for i, (k, p) in enumerate((('scheduler_name', "'task'"), ('scheduler_class', 'any_of(TaskScheduler, _.TaskScheduler)'), ('monitor_url', MON))):
            ck.ok('schedulers', is_.match(p, argof(e.a[0], i, k) or tm.NONE) is not None, e, f'the task scheduler has its {k}')
    ck.every('schedulers.key', is_, dict(k=store('self.config.Session.key', 'self.session.key'), go=sa['go'], bc=sa['bc']), lambda t: 'k' in t and t.atoms[0] == 'k', 'the schedulers share the key of the session')
    # ---- arguments of the Python schedulers
    ga = ck.F(CM + 'get_python_scheduler_args', opaque=op)
    for t in ga.traces(dict(idn=lit('identity is None'), idk=lit('identity is not None')), retval=True):
        if t.end != 'return':
            continue
        ks = keyed(ga, t.ret)
        for k, p in (('scheduler_class', 'scheduler_class'), ('in_addr', f"any_of(in_addr, in_addr or {url('client', 'scheduler_name')}, {url('client', 'scheduler_name')})"), ('out_addr', f"any_of(out_addr, out_addr or {url('engine', 'scheduler_name')}, {url('engine', 'scheduler_name')})"), ('mon_addr', 'monitor_url'),
                     ('not_addr', f"any_of(_.disambiguate_url({url('client', repr('notification'))}), disambiguate_url({url('client', repr('notification'))}))"), ('reg_addr', f"any_of(_.disambiguate_url({url('client', repr('registration'))}), disambiguate_url({url('client', repr('registration'))}))"),
                     ('config', 'any_of(dict(self.config), self.config, copy(self.config), self.config.copy())'), ('log_url', 'self.log_url')):
            vs = [y for v in ks.get(k, ()) for y in alts_of(ga, v)]
            ck.ok('schedulers.args', bool(vs) and all(ga.match(p, v) is not None or v.op == 'copy' and ga.match(p, v.a[0]) is not None for v in vs), ga, f'a scheduler is given its {k}', path=t.path())
        for k, kind in (('in_addr', 'client'), ('out_addr', 'engine')):
            ck.ok('schedulers.args', any(tm.mentions(y, lambda z: ga.match(url(kind, 'scheduler_name'), z) is not None) for v in ks.get(k, ()) for y in alts_of(ga, v)), ga, f'a scheduler serves its {kind} address', path=t.path())
        vs = [y for v in ks.get('identity', ()) for y in alts_of(ga, v)]
        ck.ok('schedulers.args', bool(vs) and ('idk' not in t or any(ga.match('identity', v) is not None for v in vs)), ga, 'a scheduler has the identity it is given', path=t.path())
    # ---- process or thread
    lp = ck.F(CM + 'launch_python_scheduler', opaque=op)
    la = dict(p=call('any_of(multiprocessing.Process(*_), Process(*_))'), child=add('children', 'any_of(multiprocessing.Process(*_), Process(*_))'), th=add('scheduler_args', "'in_thread'", 'True'), run=call('any_of(launch_scheduler(*_), _.launch_scheduler(*_))'))
    ck.every('launch', lp, la, lambda t: (t.count('p'), t.count('child'), t.count('th'), t.count('run')) in ((1, 1, 0, 0), (0, 0, 1, 1)) and ('th' not in t or t.before('th', 'run')), 'a scheduler runs in a process or in this one')
    for e, b in lp.find(la['p']):
        kw = kwargs_of(e.a[0])
        ck.ok('launch', lp.match('scheduler_args', kw.get('kwargs', tm.NONE)) is not None and 'launch_scheduler' in str(kw.get('target')), e, 'the process runs the scheduler')
    launch_scheduler(ck)
    # ---- lifetime
    st = ck.F(CM + 'start', opaque=names)
    hs = [h for h in loop_heads(st, 'self.children')]
    ck.ok('start', bool(hs), st, 'all schedulers are started')
    for h in hs[:1]:
        for t in st.body_traces(h, dict(s=call('elem(self.children).start()'))):
            ck.ok('start', t.end == 'stop' and t.count('s') == 1, st, 'all schedulers are started', path=t.path())
    sa = dict(hm=call('self.heartmonitor_process.start()'), sig=call('self.init_signal()'), loop=call('self.loop.start()'), clean=call('self.cleanup_connection_files()'))
    ck.every('start', st, sa, lambda t: t.count('hm') == 1 and t.count('loop') == 1 and t.before('hm', 'loop') and t.before('hm', 'sig') and t.before('sig', 'loop'), 'the heart monitor is started, then signals are handled')
    fa = dict(loop=_attempt('self.loop.start()'), clean=_attempt('self.cleanup_connection_files()'), cl=call('self.loop.close(*_)'), cl0=_attempt('self.loop.close(*_)'))
    for t in st.traces(fa, exc='all'):
        if 'loop' in t and ('cl' in t or 'cl0' not in t):
            ck.ok('start.cleanup', 'clean' in t, st, 'connection files are cleaned up however the controller ends', path=t.path())
    reuse(ck, names)
    tc = ck.F(CM + 'terminate_children', opaque=names)
    ck.exists('terminate', tc, call('_.terminate()'), 'children are terminated')
    for e, b in tc.find(call('_.terminate()')):
        ck.ok('terminate', any(l == 'exc' and s.kind == 'dispatch' for s, l in e.node.succ), e, 'a child that is already dead is no obstacle')
        h = tc.loop_of(e.node)
        ck.ok('terminate', h is not None, e, 'every child is terminated')
        if h is not None:
            for t in tc.body_traces(h, dict(t=_attempt('_.terminate()')), exc='handled'):
                ck.ok('terminate', 't' in t and t.end == 'stop' or not tc.match('_', tc.val(h, h.term)) is not None, e, 'every child is terminated', path=t.path())
    ck.ok('terminate', any(tm.mentions(x, lambda y: y.op == 'attr' and y.a[1] == 'heartmonitor_process') for e in tc.all_effects() for x in e.a if isinstance(x, tm.T)) or any(h.term is not None and tm.mentions(tc.val(h, h.term), lambda y: y.op == 'attr' and y.a[1] == 'heartmonitor_process') for h in tc.order if h.kind == 'loop'), tc, 'the heart monitor is terminated too')
    sg = ck.F(CM + 'handle_signal', opaque=names)
    ck.every('terminate', sg, dict(t=call('self.terminate_children()'), s=call('self.loop.add_callback_from_signal(self.loop.stop)')), lambda t: t.count('t') == t.count('s') == 1, 'a signal stops the children and the controller')


def relay_hwm(ck, fl, MQ):
    """No relay drops a message: its sides have no limit."""
    loops = [(h, x) for h in fl.order if h.kind == 'loop' and h.term is not None for x in [fl.val(h, h.term)] if fl.match('any_of(self.children, self.children[1:])', x) is not None]
    for name, types, options in (
        ('iopub', ('zmq.SUB', 'zmq.PUB'), ('in RCVHWM', 'out SNDHWM')),
        ('mux', ('zmq.ROUTER', 'zmq.ROUTER'), ('in SNDHWM', 'in RCVHWM', 'out SNDHWM', 'out RCVHWM', 'mon SNDHWM')),
        ('control', ('zmq.ROUTER', 'zmq.ROUTER'), ('in SNDHWM', 'in RCVHWM', 'out SNDHWM', 'out RCVHWM', 'mon SNDHWM')),
    ):
        pre = {'iopub': "b'iopub'", 'mux': "b'in'", 'control': "b'incontrol'"}[name]
        q = MQ.format(*types, pre, '_')
        if name == 'iopub':
            q = f'any_of({q}, self.children[0])'
        for o in options:
            side, opt = o.split()
            one = call(f'{q}.setsockopt_{side}(any_of(zmq.{opt}, zmq.HWM), 0)')
            old = lit("not hasattr(zmq, _)")
            good = False
            ts = [t for t in fl.traces(dict(one=one, old=old)) if t.end == 'return']
            good = bool(ts) and all('one' in t or 'old' in t for t in ts)
            for h, x in loops:
                if good or name == 'iopub' and fl.match('self.children', x) is None:
                    continue
                bt = fl.body_traces(h, dict(one=call(f'elem(_).setsockopt_{side}(any_of(zmq.{opt}, zmq.HWM), 0)'), other=lit('not hasattr(elem(_), _)'), other2=lit('not isinstance(elem(_), _)')))
                good = bool(bt) and all(t.end == 'stop' and ('one' in t or 'other' in t or 'other2' in t) for t in bt)
            ck.ok('queues.hwm', good, fl, f'{name} messages are never dropped ({side} {opt})')


def reuse(ck, names):
    """Connection files of an earlier run."""
    lj = ck.F(CM + 'load_config_from_json', opaque=names)

    def of(side):
        return lambda v: tm.mentions(v, lambda y: y.op == 'attr' and y.a[1] == side + '_json_file') and not tm.mentions(v, lambda y: y.op == 'attr' and y.a[1].endswith('_json_file') and y.a[1] != side + '_json_file')

    for side in ('client', 'engine'):
        at = store(f'self.{side}_info')
        ck.every('reuse', lj, dict(s=at), lambda t: t.count('s') == 1, f'the {side} addresses are those of the file')
        for e, b in lj.find(at):
            ck.ok('reuse', of(side)(e.a[2]) and e.a[2].op == 'call', e, f'the {side} addresses are those of the {side} connection file')
        for what, i in (('transport', 0), ('ip', 1)):
            for e, b in lj.find(store(f'_.{side}_{what}')):
                v = e.a[2]
                ck.ok('reuse', of(side)(v) and lj.match(f"any_of(_['interface'].split('://', *_)[{i}], _['interface'].partition('://')[{2 * i}])", v) is not None, e, f'the {side} {what} is that of the {side} connection file')
    for e, b in lj.find(store('_.Session.key')):
        ck.ok('reuse', all(y is tm.NONE or lj.match("any_of(_['key'].encode(*_), _.get('key').encode(*_), bytes(_['key'], *_))", y) is not None for x in leaves(lj, e.a[2]) for y in (x.a[1] if x.op == 'bool' else (x,))), e, 'messages are signed with the key of the connection files')
    cc = ck.F(CM + 'cleanup_connection_files', opaque=names)
    kept = lit('self.reuse_files')
    hs = [h for h in cc.order if h.kind == 'loop' and cc.find(call('any_of(os.remove(_), os.unlink(_))'))]
    if hs:
        for e, b in cc.find(call('any_of(os.remove(_), os.unlink(_))')):
            h = cc.loop_of(e.node)
            if h is not None:
                for t in cc.body_traces(h, dict(r=_attempt('any_of(os.remove(_), os.unlink(_))')), exc='handled'):
                    ck.ok('cleanup', 'r' in t and t.end == 'stop', cc, 'one connection file that cannot be removed does not keep the other', path=t.path())
    else:
        rm = dict(kept=kept)
        for side in ('client', 'engine'):
            a = call(f'any_of(os.remove(_), os.unlink(_))')

            def f(x, alts, b, side=side, a=a):
                return {} if x.kind == 'call' and cc.match('any_of(os.remove(_f), os.unlink(_f))', x.a[0]) is not None and tm.mentions(x.a[0], lambda y: y.op == 'attr' and y.a[1] == side + '_json_file') else None
            f.desc = f'{side} file removed'
            f.attempt = True
            rm[side] = f
        for t in cc.traces(rm, exc='handled'):
            if t.end == 'return':
                ck.ok('cleanup', ('kept' in t) == ('client' not in t) and ('kept' in t) == ('engine' not in t), cc, 'both connection files are removed, unless they are kept', path=t.path())
    sg = ck.F(CM + 'init_signal', opaque=names)
    got = set()
    for e in sg.all_effects():
        if e.kind == 'call' and e.a[0].op == 'call' and len(e.a[0].a[1]) == 2 and sg.match('any_of(signal(_, self.handle_signal), _.signal(_, self.handle_signal))', e.a[0]) is not None:
            v = e.a[0].a[1][0]
            for y in sg.alts(v) if v.op == 'phi' else [v]:
                while y.op == 'elem':
                    y = y.a[0]
                got |= {str(z.a[-1]).rsplit('.', 1)[-1] for z in tm.subterms(y) if z.op in ('glob', 'attr')}
    ck.ok('signals', {'SIGINT', 'SIGTERM'} <= got, sg, 'the controller ends properly when it is interrupted or terminated')
    ls = ck.F(CM + 'load_secondary_config', opaque=names)
    la = dict(l=_attempt('self.load_config_from_json()'), no=lit('not self.reuse_files'))
    for t in ls.traces(dict(la, w=store('self.write_connection_files', '_'), done=call('self.load_config_from_json()')), exc='handled'):
        if t.end == 'return':
            ck.ok('reuse', ('l' in t) != ('no' in t), ls, 'connection files are read exactly when they are to be reused', path=t.path())
            ck.ok('reuse', 'w' not in t or 'done' in t, ls, 'connection files that cannot be used are written anew', path=t.path())


@prop('W02', 15)
def w02(ck):
    names = ck.names(C)
    op = list(names) + EXT
    ih = ck.F(CM + 'init_hub', opaque=op)
    # ---- ids of the inner schedulers
    for e, b in ih.find(store('self.internal_info')):
        for k, v, it in dict_sources(ih, e.a[2]):
            if k is None or ih.match(BP, k) is None:
                continue
            if v.op == 'comp' and v.a[0] == 'dict':
                kt, vt = v.a[2].a[0]
                ck.ok('tree.ports', ih.match('self.next_port(*_)', vt) is not None, e, 'every inner broadcast scheduler has a port of its own')
                src = kt.a[0] if kt.op == 'elem' else None
                elts = [kt] if src is None else [x.a[1] for x in ih.all_effects() if x.kind == 'add' and src.op == 'alloc' and x.a[0].op == 'alloc' and x.a[0].a[0] == src.a[0]] if src.op == 'alloc' else []
                for t in elts:
                    m = ih.match('format(_i, _f)', t)
                    if m is None or m['_f'].op != 'fstr' or m['_i'].op != 'elem':
                        continue  # another way to write down the ids: not decided
                    f = m['_f'].a[0]
                    r = m['_i'].a[0]
                    d = f[1] if len(f) == 3 else tm.NONE
                    n = ih.match('range(2 ** _d)', r)
                    ck.ok('tree.ids', len(f) == 3 and f[0] is tm.const('0') and f[2] is tm.const('b') and n is not None and ih.match('_d + 1', d, n) is not None, e, 'the ids of one depth are all binary numbers of one more digit')
                    if n is not None and n['_d'].op == 'elem':
                        ck.ok('tree.ids', ih.match('range(1, self.broadcast_scheduler_depth + 1)', n['_d'].a[0]) is not None, e, 'every depth below the root has its ids')
    # ---- the nodes
    tree(ck, names, op)
    for m, p in (('get_number_of_leaf_schedulers', 'any_of(2 ** self.broadcast_scheduler_depth, 1 << self.broadcast_scheduler_depth, pow(2, self.broadcast_scheduler_depth))'),):
        nl = ck.F(CM + m, opaque=names)
        for t in nl.traces({}, retval=True):
            if t.end == 'return':
                ck.ok('tree', nl.match(p, t.ret) is not None, nl, 'a complete tree has 2**depth leaves', path=t.path())
    launch_broadcast(ck)


def _attempt(p):
    a = call(p)
    a.attempt = True
    return a


def node_cases(ck, fl, e, depth, ident, root):
    """The addresses of every node of the trees of depth 0 to 6."""
    if ident.op == 'const' or depth.op == 'const' or fl is root:
        return

    def leaf_for(m, d, i):
        def leaf(t):
            if t is ident:
                return i
            if t is depth:
                return d
            if t.op == 'attr' and fl.match('self.broadcast_scheduler_depth', t) is not None:
                return m
            if t.op in ('attr', 'glob') and fl.match(BP, t) is not None:
                return 'broadcast'
            if t.op == 'call' and t.a[0].op == 'attr' and t.a[0].a[1] in ('client_url', 'engine_url', 'internal_url', 'construct_url'):
                kind = t.a[0].a[1][: -len('_url')]
                if kind == 'construct':
                    v = argof(t, 0, 'kind')
                    kind = fold.fold(v, leaf) if v is not None else fold.UNKNOWN
                    v = argof(t, 2, 'index')
                else:
                    v = argof(t, 1, 'index')
                n = None if v is None else fold.fold(v, leaf)
                return fold.UNKNOWN if fold.UNKNOWN in (kind, n) else (kind, n)
            return fold.UNKNOWN

        return leaf

    def outs(x):
        return x.a[2] if x.kind == 'add' and x.a[2] is not None and isinstance(x.a[1], tm.T) and x.a[1] is tm.const('out_addrs') else None

    def has_outs(x, alts, b):
        return {} if outs(x) is not None else None

    has_outs.desc = 'addresses of the children'
    bad = set()
    for m in range(7):
        for d in range(m + 1):
            for n in {0, 2**d - 1, (2**d) // 2, min(5, 2**d - 1)}:
                i = '0' + format(n, 'b').zfill(d) if d else '0'
                leaf = leaf_for(m, d, i)
                for t in fold.cases(fl, leaf, dict(new=is_eff(e), outs=has_outs), {'new': lambda x: argof(x.a[0], 4, 'in_addr') if x is e else None, 'outs': outs}):
                    for k, want in (('new', ('client', None) if d == 0 else ('internal', i)), ('outs', [('engine', n)] if d == m else [('internal', i + '0'), ('internal', i + '1')])):
                        for v in t.values(k):
                            got = fold.fold(v, leaf) if v is not None else fold.UNKNOWN
                            if got is fold.UNKNOWN or k in bad:
                                continue
                            if isinstance(got, (list, tuple)) and k == 'outs':
                                got = list(got)
                            if got != want:
                                bad.add(k)
                            ck.ok('tree.cases', got == want, e, f'the {"parent" if k == "new" else "children"} of node {i} of a tree of depth {m} are at {want}, not {got}', path=t.path())


def tree(ck, names, op):
    lb = ck.repo.func(CM + 'launch_broadcast_schedulers')
    cands = []
    for g in ck.repo.nested_funcs(lb):
        fl = ck.F(g, opaque=op)
        if fl.find(call('self.get_python_scheduler_args(*_)')):
            cands.append(fl)
    root = ck.F(CM + 'launch_broadcast_schedulers', opaque=op)
    if not cands:
        cands = [root]
    # the recursion starts at the root
    for fl in cands:
        ARGS = 'self.get_python_scheduler_args(*_)'
        found = fl.find(call(ARGS))
        ck.ok('tree', len(found) == 1, fl, 'a scheduler is started per node of the tree')
        for e, b in found:
            d = e.a[0]
            ks = keyed(fl, d)
            outs = ks.get('outgoing_ids', [tm.NONE])[0]
            items = list(outs.a[2]) if outs.op == 'alloc' else list(outs.a[0]) if outs.op == 'tup' else []
            depth = ks.get('depth', [None])[0]
            ident = argof(e.a[0], 3, 'identity')
            if depth is None:
                ck.ok('tree', False, e, 'a broadcast scheduler knows its depth')
                continue
            if ident is None:
                ck.ok('tree', False, e, 'a broadcast scheduler has its identity')
                continue

            def child(n):
                def test(t):
                    return t is tm.mk('fstr', (ident, tm.const(n))) or fl.match(f"_i + '{n}'", t, {'_i': ident}) is not None or t.op == 'fstr' and len(t.a[0]) == 2 and t.a[0][0] is ident and t.a[0][1] is tm.const(n) or t.op == 'const' and ident.op == 'const' and t.a[0] == ident.a[0] + n

                return test

            ck.ok('tree', len(items) == 2 and child('0')(items[0]) and child('1')(items[1]), e, 'the children of a node are its id followed by 0 and by 1')
            leaf = ks.get('is_leaf', [tm.NONE])[0]
            env = {'_d': depth}
            ck.ok('tree', fl.match('any_of(_d == self.broadcast_scheduler_depth, _d >= self.broadcast_scheduler_depth)', leaf, env) is not None, e, 'leaves are the nodes at the full depth')
            ck.ok('tree', any(fl.match('self.broadcast_scheduler_depth', v) is not None for v in ks.get('max_depth', ())), e, 'a broadcast scheduler knows the depth of the tree')
            for i, (k, p) in enumerate((('scheduler_name', BP), ('scheduler_class', 'any_of(BroadcastScheduler, _.BroadcastScheduler)'), ('monitor_url', 'monitor_url'))):
                ck.ok('tree', fl.match(p, argof(e.a[0], i, k) or tm.NONE) is not None, e, f'a broadcast scheduler has its {k}')
            node = e.node

            def is_leaf(pol):
                def a(x, alts, b):
                    if x.kind != 'lit':
                        return None
                    t, p = x.a[0], x.a[1]
                    if fl.match('_d == self.broadcast_scheduler_depth', t, env) is not None or fl.match('truth(_d == self.broadcast_scheduler_depth)', t, env) is not None:
                        return {} if p == pol else None
                    if fl.match('_d < self.broadcast_scheduler_depth', t, env) is not None:
                        return {} if p != pol else None
                    return None

                a.lit = True
                a.desc = 'leaf'
                return a

            def is_root(x, alts, b):
                if x.kind != 'lit':
                    return None
                t = x.a[0]
                if not x.a[1]:
                    return {} if fl.match('any_of(truth(_d), _d, _d != 0, _d > 0)', t, env) is not None else None
                return {} if fl.match('_d == 0', t, env) is not None or fl.match("_i == '0'", t, {'_i': ident}) is not None else None

            is_root.lit = True
            is_root.desc = 'root'

            def has(kind, v):
                def a(x, alts, b):
                    if x.kind != 'add' or not isinstance(x.a[1], tm.T) or x.a[1] is not tm.const('out_addrs') or x.a[2] is None:
                        return None
                    for y in alts(x.a[2]) if x.a[2].op == 'phi' else [x.a[2]]:
                        its = list(y.a[2]) if y.op == 'alloc' else []
                        if kind == 'leaf' and len(its) == 1 and fl.match(url('engine', BP, 'int(_i, 2)'), its[0], {'_i': ident}) is not None:
                            return {}
                        if kind == 'inner' and len(its) == 2:
                            good = True
                            for z, n in zip(its, '01'):
                                m = fl.match(url('internal', BP, '_k'), z)
                                good = good and m is not None and child(n)(m['_k'])
                            if good:
                                return {}
                        if kind == 'any':
                            return {}
                    return None

                a.desc = f'addresses of {kind}'
                return a

            atoms = dict(leaf=is_leaf(True), inner=is_leaf(False), oleaf=has('leaf', 0), oinner=has('inner', 0), oany=has('any', 0), new=call(ARGS))
            ts = [t for t in fl.traces(atoms) if t.end in ('return', 'stop') and 'new' in t]
            ck.ok('tree.addresses', bool(ts), fl, 'a broadcast scheduler is started')
            for t in ts:
                ck.ok('tree.addresses', t.count('oany') == 1 and (t.count('oleaf') == 1 if 'leaf' in t else t.count('oinner') == 1), fl, 'a leaf serves the engines of its number, an inner node its two children', path=t.path())

            def inaddr(kind):
                def a(x, alts, b):
                    if x.kind != 'call' or fl.match(ARGS, x.a[0]) is None:
                        return None
                    v = argof(x.a[0], 4, 'in_addr')
                    p = url('client', BP) if kind == 'root' else url('internal', BP, '_i')
                    for y in alts(v) if v is not None and v.op == 'phi' else [v]:
                        if y is not None and y.op != 'phi' and fl.match(p, y, {'_i': ident}) is not None:
                            return {}
                    return None

                a.desc = f'in_addr of {kind}'
                return a

            for t in fl.traces(dict(root=is_root, r=inaddr('root'), i=inaddr('inner'), new=call(ARGS))):
                if t.end == 'return' and 'new' in t and fl is not root:
                    ck.ok('tree.addresses', ('r' in t) if 'root' in t else ('i' in t), fl, 'the root is reached by clients, any other node by its parent', path=t.path())
            node_cases(ck, fl, e, depth, ident, root)
            # both children are started below every inner node

            def sub(n):
                def a(x, alts, b):
                    xs = x.a[0].a[1] if x.kind == 'call' else x.a[1].a[0] if x.kind == 'add' and isinstance(x.a[1], tm.T) and x.a[1].op == 'tup' else ()
                    if x.kind == 'call':
                        xs = tuple(xs) + tuple(v for k, v in x.a[0].a[2])
                    return {} if any(child(n)(y) for y in xs if isinstance(y, tm.T)) and any(fl.match('_d + 1', y, env) is not None for y in xs if isinstance(y, tm.T)) else None

                a.desc = f'child {n}'
                return a

            if fl is not root or any(fl.find(sub(n)) for n in '01'):
                for t in fl.traces(dict(leaf=atoms['leaf'], inner=atoms['inner'], a=sub('0'), b=sub('1'), new=atoms['new'])):
                    if t.end == 'return' and 'new' in t:
                        ck.ok('tree.children', (t.count('a'), t.count('b')) == ((0, 0) if 'leaf' in t else (1, 1)) or fl is root, fl, 'both children of every inner node are started, one level deeper', path=t.path())
            la = dict(p=call('any_of(multiprocessing.Process(*_), Process(*_))'), child=add('children', 'any_of(multiprocessing.Process(*_), Process(*_))'), run=call('any_of(launch_broadcast_scheduler(*_), _.launch_broadcast_scheduler(*_))'), th=add('_', "'in_thread'", 'True'))
            for t in fl.traces(dict(la, new=atoms['new'])):
                if t.end == 'return' and 'new' in t and fl is not root:
                    ck.ok('tree.launch', (t.count('p'), t.count('child'), t.count('th'), t.count('run')) in ((1, 1, 0, 0), (0, 0, 1, 1)), fl, 'a broadcast scheduler runs in a process or in this one, once', path=t.path())
    ok = False
    for e in root.all_effects():
        if e.kind == 'call' and root.match('self.get_python_scheduler_args(*_)', e.a[0]) is not None:
            i = argof(e.a[0], 3, 'identity')
            ok = ok or i is not None and (i.op != 'const' or i.a[0] == '0')
    ck.ok('tree', ok, root, 'the tree starts at the root')


# ---------------------------------------------------------------- the processes of the schedulers

NEW = 'any_of(ZMQStream(_x.socket({0}), _l), _.ZMQStream(_x.socket({0}), _l))'


def params_of(fl, t):
    """Keyword arguments of a constructor call, through ** of a dict: {name: [values]}."""
    out = {}
    for k, v in t.a[2]:
        if k is None:
            for n, vs in keyed(fl, v).items():
                out.setdefault(n, []).extend(vs)
        elif k != '@':
            out.setdefault(k, []).append(v)
    return out


def on(fl, socket, *pats):
    """A call on exactly this socket (or on the stream around it)."""
    envs = [{'_s': socket}]
    if socket.op == 'call' and socket.a[1]:
        envs.append({'_s': socket.a[1][0]})

    def a(x, alts, b):
        if x.kind != 'call':
            return None
        return {} if any(fl.match(p, x.a[0], dict(v)) is not None for p in pats for v in envs) else None

    a.desc = ' or '.join(pats)
    return a


def hwm0(fl, socket):
    u = on(fl, socket, 'set_hwm(_s, 0)', '_.set_hwm(_s, 0)', 'set_hwm(_s)', '_.set_hwm(_s)', '_s.set_hwm(0)', '_s.setsockopt(zmq.SNDHWM, 0)', '_s.setsockopt(zmq.HWM, 0)', '_s.socket.setsockopt(zmq.SNDHWM, 0)')

    def a(x, alts, b):
        if x.kind == 'store' and x.a[0] is socket and x.a[1] in ('hwm', 'HWM', 'sndhwm', 'SNDHWM') and x.a[2] is tm.const(0):
            return {}
        return u(x, alts, b)

    a.desc = 'HWM 0'
    return a


def streams(ck, rule, fl, ctor, roles, hwm):
    """Every stream of a scheduler is a socket of its own, of the right type, at the right address."""
    out = {}
    for e, b in ctor:
        ks = params_of(fl, e.a[0])
        seen = []
        for role, typ, how, addr in roles:
            vs = ks.get(role, [])
            ck.ok(rule, len(vs) == 1 and vs[0].op == 'call' and fl.match(NEW.format(typ), vs[0]) is not None, e, f'the {role} is a {typ} socket')
            if len(vs) != 1 or vs[0].op != 'call':
                continue
            s = vs[0]
            ck.ok(rule, all(s is not x for x in seen), e, f'the {role} is a socket of its own')
            seen.append(s)
            out[role] = s
            l = argof(s, 1, 'io_loop')
            ck.ok(rule, l is not None and all(l is v for v in ks.get('loop', ())), e, f'the {role} is served by the loop of the scheduler')
            if how is None:
                continue
            A = dict(good=on(fl, s, f'_s.{how}({addr})'), any=on(fl, s, '_s.bind(*_)', '_s.connect(*_)'), new=is_eff(e), sub=on(fl, s, "_s.setsockopt(zmq.SUBSCRIBE, b'')", "_s.subscribe(b'')", "_s.setsockopt(zmq.SUBSCRIBE, '')", "_s.setsockopt_string(zmq.SUBSCRIBE, '')"))
            for t in fl.traces(A):
                if 'new' in t:
                    ck.ok(rule, t.count('good') == t.count('any') == 1 and t.before('good', 'new'), e, f'the {role} is at its address ({how} {addr})', path=t.path())
                    ck.ok(rule, typ != 'zmq.SUB' or 'sub' in t, e, f'the {role} receives everything', path=t.path())
            if role in hwm:
                for t in fl.traces(dict(h=hwm0(fl, s), new=is_eff(e))):
                    ck.ok(rule + '.hwm', 'new' not in t or 'h' in t, e, f'the {role} never drops a message', path=t.path())
        for k in ('loop', 'log', 'config'):
            ck.ok(rule, len(ks.get(k, ())) == 1, e, f'the scheduler has its {k}')
    return out


def replaced(t, old, new):
    if t is old:
        return new
    if isinstance(t, tm.T):
        return tm.mk(t.op, *[replaced(x, old, new) for x in t.a])
    if isinstance(t, tuple):
        return tuple(replaced(x, old, new) for x in t)
    return t


def runs(ck, rule, fl, e):
    A = dict(new=is_eff(e), s=call('scheduler_class(*_, **_).start()'), thread=lit('in_thread'), loop=call('_.start()'))
    for t in fl.traces(A):
        if t.end == 'return':
            ck.ok(rule, t.count('new') == t.count('s') == 1 and t.count('loop') == (1 if 'thread' in t else 2), fl, 'the scheduler is started, with its loop unless it shares the loop of its parent', path=t.path())


COMMON = (
    ('mon_stream', 'zmq.PUB', 'connect', 'mon_addr'),
    ('notifier_stream', 'zmq.SUB', 'connect', 'not_addr'),
    ('query_stream', 'zmq.DEALER', 'connect', 'reg_addr'),
)
SOPQ = ['set_hwm', 'connect_logger', 'local_logger', 'get_id_with_prefix', 'curve_keypair', 'integer_loglevel']


def launch_scheduler(ck):
    fl = ck.F('controller.scheduler:launch_scheduler', opaque=SOPQ)
    ctor = fl.find(call('scheduler_class(*_, **_)'))
    ck.ok('scheduler', len(ctor) == 1, fl, 'the scheduler is made')
    streams(ck, 'scheduler', fl, ctor, (('client_stream', 'zmq.ROUTER', 'bind', 'in_addr'), ('engine_stream', 'zmq.ROUTER', 'bind', 'out_addr')) + COMMON, ('client_stream', 'engine_stream', 'mon_stream'))
    for e, b in ctor:
        runs(ck, 'scheduler', fl, e)


def launch_broadcast(ck):
    fl = ck.F('controller.broadcast_scheduler:launch_broadcast_scheduler', opaque=SOPQ)
    ctor = fl.find(call('scheduler_class(*_, **_)'))
    ck.ok('node', len(ctor) == 1, fl, 'the scheduler is made')
    got = streams(ck, 'node', fl, ctor, (('client_stream', 'zmq.ROUTER', None, None),) + COMMON, ('mon_stream',))
    sid = None
    for e, b in ctor:
        runs(ck, 'node', fl, e)
        ks = params_of(fl, e.a[0])
        for k, p in (('depth', 'depth'), ('max_depth', 'max_depth'), ('name', 'identity')):
            ck.ok('node', len(ks.get(k, ())) == 1 and fl.match(p, ks[k][0]) is not None, e, f'a broadcast scheduler knows its {k}')
        s = got.get('client_stream')
        if s is None:
            continue
        A = dict(bind=on(fl, s, '_s.bind(in_addr)'), conn=on(fl, s, '_s.connect(in_addr)'), idn=on(fl, s, '_s.setsockopt(zmq.IDENTITY, _)'), root=lit('depth == 0'), root2=lit('not depth'), new=is_eff(e), h=hwm0(fl, s))
        for t in fl.traces(A):
            if 'new' in t:
                root = 'root' in t or 'root2' in t
                ck.ok('node.in', t.count('bind') == root and t.count('conn') == (not root), e, 'the root listens for clients, every other node connects to its parent', path=t.path())
                ck.ok('node.in', t.count('idn') == 1 and t.before('idn', 'bind' if root else 'conn'), e, 'a node connects under its identity', path=t.path())
                ck.ok('node.in', 'h' in t, e, 'a node never drops a request', path=t.path())
        for x in fl.all_effects():
            if x.kind == 'call' and on(fl, s, '_s.setsockopt(zmq.IDENTITY, _)')(x, fl.alts, {}) is not None:
                sid = x.a[0].a[1][1]
        # outgoing
        hs = loop_heads(fl, 'out_addrs')
        outs = [x for x in ks.get('outgoing_streams', ()) for x in alts_of(fl, x)]
        ck.ok('node.out', bool(hs) or any(x.op == 'comp' for x in outs), fl, 'a node listens at each of its outgoing addresses')
        for h in hs[:1]:
            bound = set()
            for x in fl.all_effects():
                if x.kind == 'call' and fl.loop_of(x.node) is h and fl.match('_s.bind(*_)', x.a[0]) is not None:
                    bound.add(fl.match('_s.bind(*_)', x.a[0])['_s'])
            ck.ok('node.out', len(bound) == 1, fl, 'a node listens with one socket per outgoing address')
            for o in list(bound)[:1]:
                ck.ok('node.out', fl.match(NEW.format('zmq.ROUTER'), o) is not None and o is not s, fl, 'outgoing sockets are routers of their own')
                A = dict(bind=on(fl, o, '_s.bind(elem(out_addrs))'), h=hwm0(fl, o), idn=on(fl, o, '_s.setsockopt(zmq.IDENTITY, _)'), keep=lambda x, alts, b: {} if x.kind == 'add' and x.a[1] is o else None)
                for t in fl.body_traces(h, A):
                    ck.ok('node.out', t.end == 'stop' and t.count('bind') == t.count('keep') == 1 and 'h' in t, fl, 'every outgoing socket is bound, kept, and never drops a message', path=t.path())
                for x in fl.all_effects():
                    if x.kind == 'add' and x.a[1] is o:
                        ck.ok('node.out', all(y is x.a[0] for y in outs), x, 'the sockets of a node are its outgoing streams, in order')
                        for y in ks.get('engine_stream', [tm.NONE]):
                            m = fl.match('_o[0]', y)
                            ck.ok('node.leaf', m is not None and m['_o'] is x.a[0], e, 'a leaf serves its engines at its one address')
        lists = [y for x in ks.get('connected_sub_scheduler_ids', [tm.NONE]) for y in alts_of(fl, x)]
        for y in lists:
            elts = []
            if y.op == 'comp':
                elts = [y.a[2]]
                ck.ok('node.ids', len(y.a[3]) == 1 and not y.a[4] and fl.match('outgoing_ids', y.a[3][0]) is not None, e, 'a node knows all its children')
            elif y.op == 'alloc':
                elts = [x.a[1] for x in fl.all_effects() if x.kind == 'add' and x.a[0] is y]
            for z in elts:
                if sid is not None:
                    ck.ok('node.ids', replaced(sid, tm.mk('param', 'identity'), tm.elem(tm.mk('param', 'outgoing_ids'))) is z, e, 'children are addressed by the identities they connect with')
        LEAF = dict(leaf=lit('is_leaf'), es=add('_', "'engine_stream'"), ids=add('_', "'connected_sub_scheduler_ids'"), os=add('_', "'outgoing_streams'"), il=add('_', "'is_leaf'", 'True'), new=is_eff(e))
        if fl.find(LEAF['es']):
            for t in fl.traces(LEAF):
                if 'new' in t:
                    l = 'leaf' in t
                    ck.ok('node.leaf', t.count('es') == t.count('il') == l and t.count('ids') == t.count('os') == (not l), e, 'a leaf has engines, an inner node has children', path=t.path())
