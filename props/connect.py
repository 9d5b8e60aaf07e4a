"""How clients and engines use the connection information they are given."""

import ast
import itertools

from ipa import terms as tm
from ipa.terms import T

from .client import closures
from .common import Only, call, prop  # noqa: F401
from .fold import UNKNOWN, fold, literal

C = 'client.client:Client'
A = 'engine.app:IPEngine'
KEYS = ('control', 'task', 'mux', 'iopub', 'notification', 'registration', 'broadcast')
HERE, AWAY = '127.0.0.1', '10.0.0.5'


def last(t):
    """Last name of a called function."""
    f = t.a[0]
    return str(f.a[0] if f.op in ('glob', 'name', 'param') else f.a[1] if f.op == 'attr' else '').rsplit('.', 1)[-1]


class Info(dict):
    """A dict whose entries that are None are as good as absent."""

    def __contains__(self, k):
        return self.get(k) is not None


class Case:
    """The values of one case: parameters, attributes of self, functions by name; dicts change while a trace is followed."""

    def __init__(self, ck, fl, names, attrs, funs):
        self.ck, self.fl, self.names, self.attrs, self.funs = ck, fl, dict(names), dict(attrs), funs
        self.start = None
        self.grown = {}
        for e in fl.all_effects():
            if e.kind == 'add' and e.a[0].op == 'alloc' and e.a[-1] == 'all' and isinstance(e.a[2], T) and e.a[2].op == 'item' and e.a[2].a[1] is e.a[1]:
                self.grown.setdefault(e.a[0], []).append(e.a[2].a[0])

    def reset(self):
        copy = lambda d: {k: type(v)(v) if isinstance(v, dict) else v for k, v in d.items()}  # noqa: E731
        if self.start is None:
            self.start = copy(self.names), copy(self.attrs)
        self.names, self.attrs = copy(self.start[0]), copy(self.start[1])
        self.made, self.later = {}, {}

    def __call__(self, t):
        if t.op in ('param', 'name') and t.a[0] in self.names:
            return self.names[t.a[0]]
        if t.op == 'attr':
            b = path(t)
            if b in self.attrs:
                return self.attrs[b]
        if t.op == 'glob':
            if t.a[0] in self.attrs:
                return self.attrs[t.a[0]]
            return self.ck_global(t.a[0])
        if t.op == 'alloc' and t.a[1] == 'dict' and t in self.made:
            return self.made[t]
        if t.op in ('alloc', 'call') and (last(t) == 'dict' if t.op == 'call' else t.a[1] == 'dict'):
            v = fold(t, lambda x: UNKNOWN if x is t else self(x)) if t.op == 'alloc' else self.built(t)
            if v is not UNKNOWN and isinstance(v, dict):
                for y in self.grown.get(t, ()) if t.op == 'alloc' else ():
                    base = [b for b in (fold(z, self) for z in (sorted(self.fl.alts(y), key=lambda z: z.op not in ('param', 'name')) if y.op == 'phi' else [y])) if isinstance(b, dict)]
                    if not base:
                        return UNKNOWN
                    v = Info(v, **base[0], __copied__=True)
                    self.later[id(base[0])] = v
                self.made[t] = v
            return v
        if t.op == 'copy':
            v = fold(t.a[0], self)
            if isinstance(v, dict):
                return self.copied(t, v)
        if t.op in ('item', 'get') and t.a[1].op != 'slice':
            d, k = fold(t.a[0], self), fold(t.a[1], self)
            while id(d) in self.later and d is not self.later[id(d)]:
                d = self.later[id(d)]
            if isinstance(d, dict) and k is not UNKNOWN and k in d:
                return d[k]
        if t.op == 'call':
            f = self.funs.get(last(t))
            if f is not None:
                return f(t, self)
            if last(t) in ('copy', 'deepcopy') and not t.a[2]:
                o = t.a[1][0] if t.a[1] else t.a[0].a[0] if t.a[0].op == 'attr' else None
                v = fold(o, self) if o is not None else UNKNOWN
                if isinstance(v, dict):
                    return self.copied(t, v)
            if t.a[0].op == 'attr' and t.a[0].a[1] in ('get', 'setdefault', 'pop') and not t.a[2] and t.a[1]:
                o, k = fold(t.a[0].a[0], self), fold(t.a[1][0], self)
                if isinstance(o, dict) and k is not UNKNOWN:
                    return o[k] if k in o else fold(t.a[1][1], self) if len(t.a[1]) > 1 else None
        return UNKNOWN

    def copied(self, t, v):
        """Entries of a copy and of what it was copied from look the same to the engine: the copy is the one that changes."""
        if t not in self.made:
            self.made[t] = self.later[id(v)] = Info(v, __copied__=True)
        return self.made[t]

    def built(self, t):
        """dict(x, **y) of known dicts."""
        d = {}
        if t in self.made:
            return self.made[t]
        for x in t.a[1]:
            v = fold(x, self)
            if not isinstance(v, dict):
                return UNKNOWN
            d.update(v, __copied__=True)
        for k, x in t.a[2]:
            v = fold(x, self) if isinstance(x, T) else UNKNOWN
            if k == '@':
                continue
            if v is UNKNOWN:
                return UNKNOWN
            if k is None:
                d.update(v, __copied__=True)
            else:
                d[k] = v
        return d

    def ck_global(self, name):
        mod, _, n = name.rpartition('.')
        m = self.ck.repo.modules.get(mod)
        if m is None or n not in m.globals:
            return UNKNOWN
        v = m.globals[n]
        v = v[-1] if isinstance(v, list) and v else v
        v = getattr(v, 'value', v)
        try:
            return ast.literal_eval(v) if isinstance(v, ast.AST) else UNKNOWN
        except ValueError:
            return UNKNOWN

    def follow(self, tr, see):
        """Replay a trace: changes of dicts and attributes are applied, everything that is noted is given to see."""
        self.reset()
        for x in tr.atoms:
            if not isinstance(x, tuple):
                see(x, None, None)
                continue
            name, t = x
            if name == '=':
                continue
            vs = t.a[0]
            if name == 'put':
                for k, v in self.spread(vs):
                    d = fold(vs[0], self)
                    if isinstance(d, dict) and k is not UNKNOWN:
                        if vs[3].a[0] == 'setdefault' and k in d:
                            continue
                        see('put', (d, k), v)
                        d[k] = v
            elif name == 'store':
                p = path(tm.mk('attr', vs[0], vs[1].a[0]))
                v = fold(vs[2], self)
                see('store', p, v)
                if p is not None:
                    self.attrs[p] = v
            else:
                see(name, vs, None)

    def spread(self, vs):
        k = fold(vs[1], self)
        if k is UNKNOWN and vs[1].op == 'elem':
            over = fold(vs[1].a[0], self)
            if isinstance(over, (tuple, list, set, dict)):
                out = []
                for x in over:
                    def one(t, x=x):
                        return x if t is vs[1] else self(t)
                    out.append((x, fold(vs[2], one)))
                return out
            if over is UNKNOWN and vs[1].a[0].op == 'comp' and vs[1].a[0].a[0] == 'dict':
                return []
        return [(k, fold(vs[2], self))]


def path(t):
    """self.a.b of an attribute."""
    out = []
    while t.op == 'attr':
        out.append(t.a[1])
        t = t.a[0]
    return 'self.' + '.'.join(reversed(out)) if t.op in ('param', 'name') and t.a[0] == 'self' else t.a[0] + '.' + '.'.join(reversed(out)) if t.op == 'glob' else None


def noted(extra=()):
    """What a replay needs: changes of dicts, stores, and the calls of these functions."""
    tup = lambda *xs: tm.mk('tup', tuple(xs))  # noqa: E731
    vals = {
        'put': lambda e: tup(e.a[0], e.a[1], e.a[2], tm.const(e.a[-1] if isinstance(e.a[-1], str) else '')) if e.kind == 'add' and isinstance(e.a[1], T) and isinstance(e.a[2], T) else None,
        'store': lambda e: tup(e.a[0], tm.const(e.a[1]), e.a[2]) if e.kind == 'store' and isinstance(e.a[2], T) else None,
    }
    for n in extra:
        vals[n] = lambda e, n=n: tup(e.a[0]) if e.kind == 'call' and e.a[0].op == 'call' and last(e.a[0]) == n else None
    return vals


def given(t, i, name):
    """Argument of a call."""
    kw = dict((k, v) for k, v in t.a[2] if k)
    return kw.get(name, t.a[1][i] if i is not None and len(t.a[1]) > i else None)


def keywords(case, t):
    out = {}
    for k, v in t.a[2]:
        if k == '@':
            continue
        x = fold(v, case)
        if k is None:
            if not isinstance(x, dict):
                return None
            out.update(x)
        else:
            out[k] = x
    return out


def arg(case, t, i, name):
    x = given(t, i, name)
    if x is None:
        kw = keywords(case, t)
        return kw.get(name, UNKNOWN) if kw is not None else UNKNOWN
    return fold(x, case)


def same(a, b):
    return a is not UNKNOWN and a == b


def joined(t, case):
    xs = [UNKNOWN if t.a[0].op == 'attr' else fold(x, case) for x in t.a[1]]
    return UNKNOWN if any(x is UNKNOWN for x in xs) else '/'.join(xs)


def opened(t):
    """The path that a stream was opened for."""
    for x in tm.subterms(t):
        if x.op == 'call' and last(x) == 'open' and (x.a[1] or x.a[0].op == 'attr'):
            return x.a[1][0] if x.a[0].op != 'attr' else x.a[0].a[0]
        if x.op == 'call' and last(x) in ('read_text', 'read_bytes'):
            return x.a[0].a[0]
    return None


INFO = dict(interface='tcp://*', location='there', ssh='', pack='P', unpack='U', key='K', signature_scheme='S', task_scheme='lru', curve_serverkey=None, **{k: 10 + i for i, k in enumerate(KEYS)})


def info(**kw):
    return Info(INFO, **kw)


@prop('E04', 60)
def e04(ck):
    client(ck)
    engine(ck)
    addresses(ck)


# ------------------------------------------------------------------ client
def client(ck):
    names = (*ck.names(C), 'disambiguate_ip_address', 'ip_for_host', 'is_url', '_disable_session_extract_dates')
    fl = ck.F(C + '.__init__', opaque=names)
    vals = noted(('Session', '_connect', 'connect', 'tunnel_connection', 'try_passwordless_ssh', 'sleep'))
    n = 0
    for given_, cid, exists, loc, ssharg, sshcfg, near, pw in settings():
        n += 1
        addr = HERE if near else AWAY
        case = Case(ck, fl, dict(connection_info={None: None, 'file': '/x.json', 'dict': info(interface='tcp://*', location=loc, ssh=sshcfg)}[given_], cluster_id=cid, sshserver=ssharg, sshkey=None, password=pw, paramiko=None, timeout=10, profile=None, profile_dir=None, ipython_dir=None, context=None, debug=False, cluster=None, extra_args=dict(packer='X', unpacker='X', key=b'X', signature_scheme='X', config='CONF')),
                    {'self._profile_dir': 'PD', 'self._profile_dir.security_dir': '/sec', 'self.curve_publickey': b'', 'self.curve_secretkey': b'', 'self.debug': False}, {})
        local = loc == 'here'
        want = '/sec/ipcontroller-c1-client.json' if cid else '/sec/ipcontroller-client.json'
        src = {None: want, 'file': '/x.json', 'dict': 'given'}[given_]
        ssh = ssharg or (None if loc and near and local else sshcfg)
        use = bool(ssh or pw)
        # unused: what a tunnel to the address itself would need
        server = ssh if ssh or not use or ssh is not None else addr
        case.attrs['self._ssh'] = use
        case.funs = dict(
            join=joined, pjoin=joined,
            exists=lambda t, c: exists, isfile=lambda t, c: exists,
            load=lambda t, c: c.made.setdefault(t, info(location=loc, ssh=sshcfg, __from__=fold(opened(t), c))) if opened(t) is not None else UNKNOWN,
            loads=lambda t, c: c.made.setdefault(t, info(location=loc, ssh=sshcfg, __from__=fold(opened(t), c))) if opened(t) is not None else UNKNOWN,
            disambiguate_ip_address=lambda t, c: addr if fold(t.a[1][0], c) in ('*', addr) and same(arg(c, t, 1, 'location'), loc) else UNKNOWN,
            localhost=lambda t, c: HERE,
            ip_for_host=lambda t, c: 'ip:' + loc if loc and same(fold(t.a[1][0], c), loc) else UNKNOWN,
            is_local_ip=lambda t, c: local if loc and fold(t.a[1][0], c) in ('ip:' + loc, loc) else UNKNOWN,
            is_url=lambda t, c: False, gethostname=lambda t, c: 'me', get_ipython=lambda t, c: None, curve_keypair=lambda t, c: (b'p', b's'),
        )
        case.reset()
        ts = fl.traces({}, exc='none', world=literal(case), values=vals, retval=True)
        ck.ok('client.kept', any(t.end == 'return' for t in ts) or not exists and given_ != 'dict', fl, 'connection information that is complete is enough')
        for t in ts:
            check(ck, fl, case, t, dict(src=src, exists=exists, addr=addr, ssh=ssh, server=server, use=use, info=info(location=loc, ssh=sshcfg), given=given_))
    waits(ck, fl, ('timeout',))
    # the other ways to name a connection file
    for n in ('url_file', 'url_or_file'):
        case = Case(ck, fl, dict({'connection_info': None, 'timeout': 10, n: '/y.json'}, extra_args={} if n in params(fl) else {n: '/y.json'}), {}, dict(exists=lambda t, c: True, is_url=lambda t, c: False, load=lambda t, c: info(__from__=fold(opened(t), c)) if opened(t) is not None else UNKNOWN))
        case.reset()
        for t in fl.traces({}, exc='none', world=literal(case), values=noted(), retval=True):
            got = []
            case.follow(t, lambda k, p, v: got.append(v) if k == 'store' and p == 'self._config' else None)
            for v in got:
                ck.ok('client.file', isinstance(v, dict) and v.get('__from__') == '/y.json', fl, f'a connection file given as {n} is the one that is used', path=t.path())


def params(fl):
    a = fl.func.node.args
    return {x.arg for x in a.args + a.kwonlyargs}


def settings():
    for g, cid, ex in ((None, None, True), (None, 'c1', True), (None, None, False), ('file', 'c1', True), ('file', None, False), ('dict', None, True)):
        for loc, near in (('here', True), ('there', True), (None, True), ('there', False), ('here', False), (None, False)):
            for ssharg, sshcfg, pw in ((None, '', None), (None, 'cfg', None), ('arg', 'cfg', None), (None, '', 'pw')):
                if (g, cid, ex) == ('file', 'c1', True) or (loc, near, ssharg, sshcfg) == ('there', True, None, 'cfg'):
                    yield g, cid, ex, loc, ssharg, sshcfg, near, pw


def check(ck, fl, case, t, w):
    p = t.path()
    ev = []
    state = {}

    def see(k, x, v):
        if k == 'put':
            d, key = x
            if d is case.names.get('connection_info'):
                ck.ok('client.given', False, fl, 'connection information that is given as a dict is not changed', path=p)
            ev.append(('put', key, v, d))
        elif k == 'store':
            ev.append(('store', x, v, None))
        elif k in ('connect', 'tunnel_connection'):
            c = x[0]
            url = arg(case, c, 0 if k == 'connect' else 1, 'addr')
            ev.append((k, url, arg(case, c, 2, 'server') if k != 'connect' else None, c))
        elif k == '_connect':
            ev.append((k, arg(case, x[0], 0, 'sshserver'), None, x[0]))
        elif k == 'Session':
            ev.append((k, keywords(case, x[0]), None, x[0]))
        elif k == 'try_passwordless_ssh':
            ev.append((k, arg(case, x[0], 0, 'server'), None, x[0]))

    case.follow(t, see)
    if t.end == 'raise':
        return
    if t.end != 'return':
        return
    if not w['exists'] and w['given'] != 'dict':
        ck.ok('client.missing', False, fl, 'without a connection file there is no client', path=p)
        return
    kinds = [e[0] if e[0] != 'store' else e[1] for e in ev]
    cfg = [e[2] for e in ev if e[0] == 'store' and e[1] == 'self._config']
    if not ck.ok('client.kept', bool(cfg) and isinstance(cfg[-1], dict), fl, 'the client keeps its connection information', path=p):
        return
    cfg = cfg[-1]
    ck.ok('client.file', cfg.get('__from__', 'given') == w['src'], fl, 'the connection information is the one that was asked for, else that of the cluster of the profile', path=p)
    if w['given'] == 'dict':
        ck.ok('client.given', '__copied__' in cfg, fl, 'connection information that is given as a dict is not changed', path=p)
    base = 'tcp://' + w['addr']
    for k in KEYS:
        ck.ok('client.urls', same(cfg.get(k), f"{base}:{w['info'][k]}"), fl, f'the address of the {k} channel is the one of the connection information', path=p)
    for e in ev:
        if e[0] in ('connect', 'tunnel_connection'):
            ck.ok('client.urls', same(e[1], f"{base}:{w['info']['registration']}"), fl, 'the client connects to the controller where it says it is', path=p)
    ck.ok('client.urls', sum(e[0] in ('connect', 'tunnel_connection') for e in ev) == 1, fl, 'the client connects to the hub once', path=p)
    ck.ok('client.ssh', ('tunnel_connection' in kinds) == w['use'], fl, 'connections are tunneled exactly if ssh is asked for', path=p)
    for e in ev:
        if e[0] == 'tunnel_connection':
            ck.ok('client.ssh', same(e[2], w['server']), fl, 'tunnels lead through the ssh server that was asked for', path=p)
        if e[0] == '_connect':
            ck.ok('client.ssh', not w['use'] and e[1] is not UNKNOWN and not e[1] or same(e[1], w['server']), fl, 'tunnels lead through the ssh server that was asked for, else through that of the connection information for a controller elsewhere', path=p)
        if e[0] == 'store' and e[1] == 'self._ssh':
            ck.ok('client.ssh', same(e[2], w['use']), fl, 'ssh is used exactly if it is asked for', path=p)
        if e[0] == 'store' and e[1] == 'self._task_scheme':
            ck.ok('client.scheme', same(e[2], w['info']['task_scheme']), fl, 'the client knows the scheme of the scheduler', path=p)
    ck.ok('client.scheme', 'self._task_scheme' in kinds, fl, 'the client knows the scheme of the scheduler', path=p)
    ss = [e for e in ev if e[0] == 'Session']
    if ck.ok('client.session', len(ss) == 1 and ss[0][1] is not None, fl, 'there is one session', path=p):
        for k, v in dict(packer='P', unpacker='U', key=b'K', signature_scheme='S').items():
            ck.ok('client.session', same(ss[0][1].get(k), v), fl, f'the {k} of messages is that of the connection information', path=p)
    order = [k for k in kinds if k in ('self.session', '_connect', 'connect', 'tunnel_connection')]
    ck.ok('client.session', bool(order) and order[0] == 'self.session' and '_connect' in order, fl, 'the session is there before anything is connected', path=p)


def waits(ck, fl, limits):
    """Waiting for a file ends when it is there or the time is up."""
    for e in fl.all_effects():
        if e.kind != 'call' or e.a[0].op != 'call' or last(e.a[0]) != 'sleep':
            continue
        h = fl.loop_of(e.node)
        lits = fl.guards().get(e.node.id, ())
        ck.ok('wait', h is not None, e, 'waiting looks again')
        limit = lambda y: y.op in ('param', 'attr', 'name') and str(y.a[-1]) in limits  # noqa: E731
        ck.ok('wait', any(p and t.op == 'cmp' and t.a[0] == '<' and tm.mentions(t.a[2], limit) or not p and t.op == 'cmp' and t.a[0] == '<' and tm.mentions(t.a[1], limit) for t, p in lits), e, 'waiting for a connection file ends when the time is up')
        ex = lambda t: t.op == 'truth' and tm.mentions(t, lambda y: y.op == 'call' and last(y) in ('exists', 'isfile', 'is_file'))  # noqa: E731
        ck.ok('wait', any(not p and ex(t) for t, p in lits), e, 'nothing is waited for that is there')


# ------------------------------------------------------------------ engine
def engine(ck):
    names = ck.names(A)
    fl = ck.F(A + '.load_connection_file', opaque=(*names, 'disambiguate_ip_address', '_disable_session_extract_dates'))
    vals = noted(('Session', '_disable_session_extract_dates', '_ensure_curve_keypair'))
    for env, cli, sshself, sshcfg, key, cfgkey, curve, envcurve in itertools.product((False, True), (False, True), ('', 'arg'), ('', 'cfg'), ('K', ''), (False, True), (None, 'C'), (b'', b'E')):
        case = Case(ck, fl, {}, {'self.connection_info_env': 'ENV' if env else '', 'self.url_file': '/e.json', 'self.sshserver': sshself, 'self.location': 'cli' if cli else 'old', 'self.curve_serverkey': envcurve,
                                 'self.cli_config': ('IPEngine.location', 'location') if cli else (), 'self.config.Session': {'key': 1} if cfgkey else {}}, {})
        mk = lambda c, s: info(ssh=sshcfg, key=key, curve_serverkey=curve, __from__=s)  # noqa: E731
        loc = 'cli' if cli else 'there'
        ip = {'cli': '10.0.0.6', 'there': AWAY}
        case.funs = dict(load=lambda t, c: c.made.setdefault(t, mk(c, fold(opened(t), c))) if opened(t) is not None else UNKNOWN,
                         loads=lambda t, c: c.made.setdefault(t, mk(c, fold(t.a[1][0], c) if t.a[1] and opened(t) is None else fold(opened(t), c))),
                         disambiguate_ip_address=lambda t, c: ip.get(arg(c, t, 1, 'location'), UNKNOWN) if fold(t.a[1][0], c) == '*' else UNKNOWN)
        case.reset()
        ts = fl.traces({}, exc='none', world=literal(case), values=vals, retval=True)
        ck.ok('engine.load', any(t.end == 'return' for t in ts), fl, 'connection information that is complete is enough')
        for t in ts:
            if t.end != 'return':
                continue
            p = t.path()
            seq, got = [], {}

            def see(k, x, v):
                if k == 'store':
                    got[x] = v
                    seq.append(x)
                elif k == 'put':
                    if x[0] is case.attrs.get('self.config.Session'):
                        got['self.config.Session.' + str(x[1])] = v
                        seq.append('self.config.Session.' + str(x[1]))
                elif k in vals:
                    seq.append(k)

            case.follow(t, see)
            d = got.get('self.connection_info', UNKNOWN)
            ok = lambda c, msg, r='engine.load': ck.ok(r, c, fl, msg, path=p)  # noqa: E731,B023
            ok(isinstance(d, dict) and d.get('__from__') == ('ENV' if env else '/e.json'), 'connection information of the environment comes first, else that of the file is used')
            ok(same(got.get('self.location', 'cli' if cli else UNKNOWN), loc), 'the location of the controller is that of the connection information, unless it was given')
            ok(same(got.get('self.sshserver', sshself) or '', sshself or sshcfg), 'the ssh server is that of the connection information, unless it was given', 'engine.ssh')
            base = 'tcp://' + ip[loc]
            ok(same(got.get('self.registration_url'), f"{base}:{INFO['registration']}"), 'the engine registers where its connection information says', 'engine.url')
            for k, v in dict(packer='P', unpacker='U', signature_scheme='S').items():
                ok(same(got.get('self.config.Session.' + k), v), f'the {k} of messages is that of the connection information', 'engine.session')
            k = got.get('self.config.Session.key', None)
            ok(same(k, b'K') if key else (k is None if cfgkey else same(k, b'')), 'the key of the connection information is used, a configured one only if there is none', 'engine.session')
            ck_ = got.get('self.curve_serverkey', envcurve)
            ok(same(ck_, curve.encode() if curve else envcurve), 'the server key is that of the connection information, else the given one', 'engine.session')
            ok(('_ensure_curve_keypair' in seq) == bool(curve or envcurve), 'an engine has keys of its own exactly for encrypted connections', 'engine.session')
            si = seq.index('Session') if 'Session' in seq else -1
            ok(si >= 0 and seq.count('Session') == 1 and 'self.session' in seq[si:], 'there is one session', 'engine.session')
            ok(all(seq.index(x) < si for x in seq if x.startswith('self.config.Session.') or x == '_disable_session_extract_dates') and '_disable_session_extract_dates' in seq, 'the session is made when it is configured', 'engine.session')
    for e in fl.all_effects():
        if e.kind == 'call' and e.a[0].op == 'call' and last(e.a[0]) == 'Session':
            ck.ok('engine.session', fl.match('self', given(e.a[0], None, 'parent')) is not None or fl.match('any_of(self.config, _x)', given(e.a[0], None, 'config')) is not None, e, 'the session has the configuration of the engine')

    # where it is looked for
    ff = ck.F(A + '.find_connection_file', opaque=names)
    for have in (True, False):
        case = Case(ck, ff, {}, {'self.url_file': '/e.json' if have else '', 'self.profile_dir.security_dir': '/sec', 'self.url_file_name': 'n.json'}, dict(join=joined, pjoin=joined))
        case.reset()
        for t in ff.traces({}, exc='none', world=literal(case), values=noted(), retval=True):
            case.follow(t, lambda *a: None)
            if t.end == 'return':
                ck.ok('engine.find', same(case.attrs['self.url_file'], '/e.json' if have else '/sec/n.json'), ff, 'a connection file that was given is used, else that of the profile', path=t.path())
    cc = ck.F(A + '._cluster_id_changed', opaque=names)
    for new in ('', 'c1'):
        case = Case(ck, cc, {'change': {'new': new, 'old': 'x', 'name': 'cluster_id'}}, {'self.cluster_id': new}, {})
        case.reset()
        for t in cc.traces({}, exc='none', world=literal(case), values=noted(), retval=True):
            case.follow(t, lambda *a: None)
            ck.ok('engine.find', same(case.attrs.get('self.url_file_name', UNKNOWN), f'ipcontroller-{new}-engine.json' if new else 'ipcontroller-engine.json'), cc, 'an engine of a cluster looks for the connection file of that cluster', path=t.path())
    en = ck.F(A + '._default_connection_file_env', opaque=names)
    for e in en.all_effects():
        if e.kind == 'return':
            ck.ok('engine.find', tm.mentions(e.a[0], lambda y: y.op == 'const' and y.a[0] == 'IPP_CONNECTION_INFO'), e, 'connection information of the environment is looked for')

    ie = ck.F(A + '.init_engine', opaque=names)
    starts(ck, ie)
    waits(ck, ie, ('wait_for_url_file',))


def starts(ck, ie):
    ld, find = call('self.load_connection_file(*_)'), call('self.find_connection_file(*_)')
    for env, exists, wait in itertools.product((True, False), (True, False), (0, 10)):
        case = Case(ck, ie, {}, {'self.connection_info_env': 'E' if env else '', 'self.url_file': '/e', 'self.wait_for_url_file': wait, 'self.startup_script': 'S', 'self.startup_command': 'X'}, dict(exists=lambda t, c: exists, isfile=lambda t, c: exists))
        case.reset()
        for t in ie.traces(dict(ld=ld, find=find, out=call('self.exit(*_)'), out2=call('sys.exit(*_)')), exc='none', world=literal(case), values=noted(('exit', 'exists')), retval=True, cap=1):
            if t.end not in ('return', 'raise'):
                continue
            p = t.path()
            gone = 'out' in t or 'out2' in t
            if env:
                ck.ok('engine.start', 'ld' in t and not gone, ie, 'connection information of the environment needs no file', path=p)
            elif exists:
                ck.ok('engine.start', t.before('find', 'ld') and not gone, ie, 'the connection file is found before it is loaded', path=p)
            else:
                ck.ok('engine.start', gone and (t.before('out', 'ld') or t.before('out2', 'ld') or 'ld' not in t), ie, 'without a connection file there is no engine', path=p)
            for x in t.values('exit'):
                v = fold(x.a[0][0].a[1][0], case) if x.a[0][0].a[1] else arg(case, x.a[0][0], 0, 'exit_status')
                ck.ok('engine.start', v is not UNKNOWN and bool(v), ie, 'an engine that cannot start exits with an error status', path=p)


# ------------------------------------------------------------------ addresses
def addresses(ck):
    names = ck.fnames('util')
    di = ck.F('util:disambiguate_ip_address', opaque=('ip_for_host', 'is_ip'))
    for ip, loc, own, host, pubs in itertools.product(('0.0.0.0', '*', HERE, '10.1.1.1', 'name'), (None, '', '10.9.9.9', 'me', 'other'), (True, False), (True, False), (True, False)):
        # own: the location is one of this machine; pubs: the addresses of this machine are known
        name = loc in ('me', 'other')
        lip = 'ip:' + loc if name else loc
        case = Case(ck, di, dict(ip=ip, location=loc), {}, dict(
            localhost=lambda t, c: HERE, is_ip=lambda t, c: not name, gethostname=lambda t, c: 'me',
            ip_for_host=lambda t, c: ('ip:' + loc if name else loc) if same(fold(t.a[1][0], c), loc) else UNKNOWN,
            is_public_ip=lambda t, c: own if same(fold(t.a[1][0], c), lip) else UNKNOWN, public_ips=lambda t, c: ['10.3.3.3'] if pubs else []))
        case.reset()
        want = ip if ip not in ('0.0.0.0', '*') else HERE if not loc or loc == 'me' or own else lip
        n = 0
        for t in di.traces({}, exc='none', world=literal(case), values=noted(), retval=True):
            if t.end == 'return':
                n += 1
                v = fold(t.ret, case)
                ck.ok('address', same(v, want), di, f'{ip} of a controller at {loc} ({"this" if own else "another"} machine) is {want}', path=t.path())
        ck.ok('address', n > 0, di, f'{ip} of a controller at {loc} has an address')
    du = ck.F('util:disambiguate_url', opaque=('disambiguate_ip_address',))
    for url, ok in (('tcp://*:5', True), ('tcp://10.0.0.5:5', True), ('ipc:///tmp/x', False), ('inproc://x', False)):
        case = Case(ck, du, dict(url=url, location='L'), {}, dict(disambiguate_ip_address=lambda t, c: AWAY if fold(t.a[1][0], c) in ('*', AWAY) and same(arg(c, t, 1, 'location'), 'L') else UNKNOWN))
        case.reset()
        for t in du.traces({}, exc='handled', world=literal(case), values=noted(), retval=True):
            v = fold(t.ret, case) if t.end == 'return' else None
            if t.end != 'return' and not ok and not any('raise' in x for x in t.path()):
                continue
            if t.end == 'return' and any('raises' in x for x in t.path()) and ok:
                continue
            ck.ok('address', same(v, 'tcp://10.0.0.5:5' if ok else url), du, f'{url} leads to the machine of the controller', path=t.path())
