"""Heartbeats between the controller and the engines."""

from ipa import terms as tm
from ipa.checker import A_lit

from .common import add, argof, call, caught, each, enclosing, is_eff, keyed, lit, prop, remove, store

M = 'controller.heartmonitor:HeartMonitor.'
MODULE = 'controller.heartmonitor:'
H, R = 3, 6  # hearts, responses; 1 = only hearts, 2 = both, 4 = only responses
OPS = {'intersection': lambda a, b: a & b, 'difference': lambda a, b: a & ~b, 'union': lambda a, b: a | b, 'symmetric_difference': lambda a, b: a ^ b}
BIN = {'&': 'intersection', '-': 'difference', '|': 'union', '^': 'symmetric_difference'}
COPY = {'set', 'list', 'tuple', 'frozenset', 'sorted', 'iter'}


def region(fl, t):
    """Which hearts a set expression contains, as a bit set; None when it is something else."""
    if fl.match('self.hearts', t) is not None:
        return H
    if fl.match('self.responses', t) is not None:
        return R
    if t.op == 'copy':
        return region(fl, t.a[0])
    if t.op == 'phi':
        rs = {region(fl, x) for x in fl.alts(t) if x.op != 'phi'}
        return rs.pop() if len(rs) == 1 else None
    if t.op == 'bin' and t.a[0] in BIN:
        a, b = region(fl, t.a[1]), region(fl, t.a[2])
        return None if a is None or b is None else OPS[BIN[t.a[0]]](a, b)
    if t.op == 'comp' and t.a[0] in ('list', 'set', 'gen') and len(t.a[3]) == 1 and same(fl, t.a[2], tm.elem(t.a[3][0])):
        r = region(fl, t.a[3][0])
        return None if r is None else _filter(fl, r, t.a[2], fl.comp_guards(t) if t.a[4] else (), comp_node(fl, t))
    if t.op == 'alloc' and t.a[1] in ('list', 'set') and not t.a[2]:
        out = 0
        for e in fl.all_effects():
            if e.kind == 'add' and e.a[0] is t:
                r = member(fl, e.a[1], e.node)
                if r is None:
                    return None
                out |= r
        return out or None
    if t.op == 'call':
        f, args, kw = t.a
        if f.op == 'attr' and f.a[1] in OPS and len(args) == 1:
            a, b = region(fl, f.a[0]), region(fl, args[0])
            return None if a is None or b is None else OPS[f.a[1]](a, b)
        if f.op == 'attr' and f.a[1] == 'copy':
            return region(fl, f.a[0])
        if f.op == 'glob' and f.a[0] in COPY and args:
            return region(fl, args[0])
    return None


def comp_node(fl, t):
    for n in fl.order:
        if n.kind == 'ev' and getattr(n.ev, 'comp', (None,))[0] == t.a[1]:
            return n
    return None


def names_of(fl, x):
    return {x} | {y for y in (fl.alts(x) if x.op == 'phi' else ()) if y.op != 'phi'}


def same(fl, x, y):
    """x and y are the same loop variable."""
    a, b = names_of(fl, x), names_of(fl, y)
    return x is y or {z for z in a if z.op != 'phi'} == {z for z in b if z.op != 'phi'}


def hearts_at(fl, node):
    """self.hearts as seen at a node: the new hearts may have been added already."""
    for e in fl.all_effects():
        if e.kind == 'add' and fl.match('self.hearts', e.a[0]) is not None and node.id in fl._reach(e.node):
            return H | R
    return H


def _filter(fl, r, x, guards, node):
    for l, p in guards:
        if l.op == 'cmp' and l.a[0] == 'in' and same(fl, l.a[1], x):
            s = region(fl, l.a[2])
            if node is not None and fl.match('self.hearts', l.a[2]) is not None:
                s = hearts_at(fl, node)
            if s is not None:
                r &= s if p else ~s
    return r


def member(fl, x, node):
    """Region of an element drawn from a loop or comprehension."""
    if x is None:
        return None
    r = None
    for h in enclosing(fl, node) if node is not None else ():
        if h.term is not None:
            it = fl.val(h, h.term)
            if same(fl, tm.elem(it), x):
                r = region(fl, it)
                break
    if r is None:
        srcs = {region(fl, y.a[0]) if y.op == 'elem' else None for y in names_of(fl, x) if y.op != 'phi'}
        if len(srcs) != 1:
            return None
        r = srcs.pop()
    if r is None:
        return None
    return _filter(fl, r, x, fl.guards().get(node.id, ()) if node is not None else (), node)


def over(fl, x):
    """What a list of hearts is drawn from: [(element term, source term)]"""
    if x.op == 'comp':
        return x.a[2], x.a[3][0] if len(x.a[3]) == 1 and not x.a[4] else None
    return None, None


@prop('H05', 45)
def h05(ck):
    bt = ck.F(M + 'beat')
    COUNTP = 'self.on_probation.get(_h, 0) + 1'
    # ---- lifetime and ping
    PING = "self.ping_stream.send(str(self.lifetime).encode('ascii'))"
    pa = dict(last=store('self.last_ping', 'self.lifetime'), otherlast=store('self.last_ping'), life=store('self.lifetime'), tic=store('self.tic'), ping=call(PING), otherping=call('self.ping_stream.send(*_)'),
              reset=store('self.responses', 'new(set)'), otherreset=store('self.responses'))
    ck.every('ping', bt, pa, lambda t: t.count('ping') == t.count('otherping') == 1, 'every beat pings exactly once, with the new lifetime')
    ck.every('ping', bt, pa, lambda t: t.count('life') == 1 and t.before('life', 'ping'), 'the lifetime advances before it is sent')
    ck.every('ping', bt, pa, lambda t: t.count('last') == t.count('otherlast') == 1 and t.before('last', 'life'), 'the previous ping is remembered before the lifetime advances')
    ck.every('ping', bt, pa, lambda t: t.count('tic') == 1, 'the clock of the beat is kept')
    for e, b in bt.find(store('self.lifetime')):
        ck.ok('ping', bt.match('self.lifetime + (monotonic() - self.tic)', e.a[2]) is not None or bt.match('self.lifetime + (time.monotonic() - self.tic)', e.a[2]) is not None, e, 'the lifetime advances by the time since the last beat')
    for e, b in bt.find(store('self.tic')):
        ck.ok('ping', bt.match('any_of(time.monotonic(), monotonic())', e.a[2]) is not None, e, 'the clock of the beat is kept')
    ck.every('responses', bt, pa, lambda t: t.count('reset') == t.count('otherreset') == 1, 'responses are collected anew for every ping')
    ck.every('responses', bt, dict(flush=call('self.pong_stream.flush(*_)'), reset=pa['reset']), lambda t: 'reset' not in t or t.before('flush', 'reset'), 'answers that have arrived are received before they are evaluated')
    # nothing reads the responses after they were reset
    for e in bt.all_effects():
        if e.kind == 'call' and tm.mentions(e.a[0], lambda y: bt.match('self.responses', y) is not None):
            ck.every('responses', bt, dict(use=is_eff(e), reset=store('self.responses')), lambda t: 'use' not in t or t.before('use', 'reset'), 'responses are evaluated before they are reset', where=e)
    # ---- new hearts
    sends = {}
    for kind in ('new_heart', 'stopped_heart'):
        s = call(f"self.session.send(self.monitor_stream, '{kind}', *_)")
        ck.exists('notify', bt, s, f'the hub learns of a {kind}')
        for e, b in bt.find(s):
            ks = keyed(bt, argof(e.a[0], 2, 'content'))
            ck.ok('notify', len(ks.get('hearts', ())) == 1, e, 'the notification lists hearts')
            for v in ks.get('hearts', ()):
                el, src = over(bt, v)
                if not ck.ok('notify', src is not None, e, 'the notification lists all hearts'):
                    continue
                ck.ok('notify', bt.match("_h.decode(*_)", el) is not None and tm.mentions(el, lambda y: y is tm.elem(src)), e, 'the notification carries the names of the hearts')
                sends.setdefault(kind, []).append((e, src))
            idt = argof(e.a[0], 4, 'ident')
            first = idt.a[0][0] if idt is not None and idt.op == 'tup' and idt.a[0] else idt.a[2][0] if idt is not None and idt.op == 'alloc' and idt.a[2] else idt
            ck.ok('notify', first is not None and first.op == 'const' and first.a[0] == b'heartmonitor', e, 'the hub recognises the notification')
        for t in bt.traces(dict(s=s), exc='member'):
            ck.ok('notify', t.count('s') <= 1, bt, 'one notification per beat', path=t.path())
    for e, src in sends.get('new_heart', ()):
        ck.ok('new', region(bt, src) == 4, e, 'exactly the responses of unknown hearts are new hearts')
    known = [e for e, b in bt.find(add('self.hearts'))]
    ck.ok('new', bool(known), bt, 'new hearts are remembered')
    for e in known:
        h = bt.loop_of(e.node)
        ck.ok('new', member(bt, e.a[1], e.node) in (4, 6), e, 'exactly the new hearts are remembered')
        if h is not None:
            each(ck, 'new', bt, is_eff(e), 'every new heart is remembered')
        else:
            ck.ok('new', e.a[-1] == 'all', e, 'every new heart is remembered')
    ck.every('new', bt, dict(k=add('self.hearts'), s=call("self.session.send(self.monitor_stream, 'new_heart', *_)"), new=_nonempty(bt, 4)), lambda t: 'new' not in t or 's' in t, 'new hearts are reported')
    ck.ok('new', any(True for _ in bt.find(call("self.session.send(self.monitor_stream, 'new_heart', *_)"))), bt, 'new hearts are reported')
    # ---- missed beats
    fails, prob = set(), set()
    for e in bt.all_effects():
        if e.kind == 'store' and e.a[1] == 'on_probation':
            prob |= {x for x in (bt.alts(e.a[2]) if e.a[2].op == 'phi' else [e.a[2]])}
    ck.every('missed', bt, dict(s=store('self.on_probation')), lambda t: t.count('s') == 1, 'the missed beats are counted anew on every beat, so that they are consecutive')
    for e, src in sends.get('stopped_heart', ()):
        fails |= {x for x in (bt.alts(src) if src.op == 'phi' else [src])}
    G = bt.guards()
    counted = 0
    over_lim = lit(f'{COUNTP} > self.max_heartmonitor_misses')
    under = lit(f'{COUNTP} <= self.max_heartmonitor_misses')
    sites = []
    for e in bt.all_effects():
        if e.kind != 'add' or e.a[0].op != 'alloc':
            continue
        if e.a[0] in fails or e.a[0] in prob:
            r = member(bt, e.a[1], e.node)
            good = e.a[0] in fails
            what = 'stopped' if good else 'on probation'
            ck.ok('missed', r == 1, e, f'exactly the known hearts that did not respond are {what}')
            if not good:
                m = bt.match(COUNTP, e.a[2])
                ck.ok('missed', m is not None and same(bt, m['_h'], e.a[1]), e, 'every missed beat is counted')
            lits_ = G.get(e.node.id, ())
            ok = False
            for l, p in lits_:
                a = over_lim if good else under
                b = a(A_lit((l, p)), bt.alts, {})
                if b is not None and same(bt, b.get('_h', e.a[1]), e.a[1]):
                    ok = True
            ck.ok('missed', ok, e, 'a heart has stopped exactly when it missed more beats than allowed')
            sites.append(e)
            counted |= 1 if good else 2
    # comprehension forms
    for x in list(fails) + list(prob):
        if x.op == 'comp':
            counted |= 1 if x in fails else 2
            it = x.a[3][0]
            ck.ok('missed', region(bt, it) == 1, bt, 'exactly the known hearts that did not respond are counted')
            a = over_lim if x in fails else under
            ck.ok('missed', any(a(A_lit(l), bt.alts, {}) is not None for l in bt.comp_guards(x)), bt, 'a heart has stopped exactly when it missed more beats than allowed')
    ck.ok('missed', counted == 3, bt, 'missed beats are counted and hearts that missed too many are stopped')
    heads = {}
    for e in sites:
        h = bt.loop_of(e.node)
        if ck.ok('missed', h is not None, e, 'every missed heart is considered'):
            heads[h.id] = h
    for h in heads.values():
        r = region(bt, bt.val(h, h.term)) if h.term is not None else None
        ck.ok('missed', r is not None and r & 1 == 1, bt, 'every missed heart is considered')
        at = {f's{i}': is_eff(e) for i, e in enumerate(sites)}
        for t in bt.body_traces(h, dict(at, other=_not_in(bt, 1))):
            skip = 'other' in t
            if t.end == 'stop':
                ck.ok('missed', sum(t.count(k) for k in at) == (0 if skip else 1), bt, 'every missed heart is either counted or stopped', path=t.path())
            elif t.end == 'return':
                ck.ok('missed', False, bt, 'every missed heart is considered (the loop is left early)', path=t.path())
    gone = [e for e, b in bt.find(remove('self.hearts'))]
    ck.ok('stopped', bool(gone), bt, 'stopped hearts are forgotten')
    for e in gone:
        h = bt.loop_of(e.node)
        x = e.a[1]
        ck.ok('stopped', x.op == 'elem' and (x.a[0] in fails or any(y in fails for y in (bt.alts(x.a[0]) if x.a[0].op == 'phi' else ()))), e, 'exactly the stopped hearts are forgotten')
        if h is not None:
            for t in bt.body_traces(h, dict(r=is_eff(e), k=caught('KeyError'))):
                ck.ok('stopped', t.end == 'stop' and ('r' in t or 'k' in t), e, 'every stopped heart is forgotten', path=t.path())
    # ---- pongs
    hp = ck.F(M + 'handle_pong')
    ENC = "str({}).encode('ascii')"
    cur, last = ENC.format('self.lifetime'), ENC.format('self.last_ping')
    qa = dict(add=add('self.responses', 'msg[0]'), other=add('self.responses'), cur=lit(f'msg[1] == {cur}'), last=lit(f'msg[1] == {last}'), ncur=lit(f'msg[1] != {cur}'), nlast=lit(f'msg[1] != {last}'),
              inn=lit(f'msg[1] in ({cur}, {last})'), inn2=lit(f'msg[1] in ({last}, {cur})'))

    def pong(t):
        good = any(k in t for k in ('cur', 'last', 'inn', 'inn2'))
        bad = 'ncur' in t and 'nlast' in t
        if t.count('add') != t.count('other'):
            return False
        return t.count('add') == 1 if good else t.count('add') == 0 if bad else t.count('add') == 0

    ck.every('pong', hp, qa, pong, 'a response to the current or the last ping counts, for the heart that sent it, and no other does')
    ck.exists('pong', hp, qa['add'], 'responses are recorded')
    # ---- start
    st = ck.F(M + 'start')
    sa = dict(sub=call('self.monitor_stream.socket.recv_multipart()'), recv=call('self.pong_stream.on_recv(self.handle_pong)'), tic=store('self.tic'), go=call('_.start()'))
    ck.every('start', st, sa, lambda t: t.count('sub') == t.count('recv') == t.count('tic') == t.count('go') == 1 and t.before('recv', 'go') and t.before('tic', 'go') and t.before('sub', 'go'),
             'beating starts once the hub listens, with responses handled and the clock set')
    for e in st.all_effects():
        if e.kind == 'call' and st.match('tornado.ioloop.PeriodicCallback(*_)', e.a[0]) is not None or e.kind == 'call' and st.match('ioloop.PeriodicCallback(*_)', e.a[0]) is not None:
            ck.ok('start', st.match('self.beat', argof(e.a[0], 0, 'callback')) is not None and st.match('self.period', argof(e.a[0], 1, 'callback_time')) is not None, e, 'the heart beats at the configured period')
    # ---- sockets
    su = ck.F(MODULE + '_setup_heartmonitor', opaque=ck.fnames('util', 'disambiguate_url'))
    made = None
    for e, b in su.find(call('HeartMonitor(*_)')):
        made = e
        for name, typ, url in (('ping_stream', 'zmq.PUB', 'ping_url'), ('pong_stream', 'zmq.ROUTER', 'pong_url'), ('monitor_stream', 'zmq.XPUB', 'monitor_url')):
            v = argof(e.a[0], None, name)
            m = su.match(f'any_of(ZMQStream(ctx.socket({typ}), *_))', v) if v is not None else None
            ck.ok('sockets', m is not None, e, f'{name} is a {typ} socket')
        ck.ok('sockets', any(k is None or k == '**' for k, _ in e.a[0].a[2]) or 'heart_monitor_kwargs' in str(e.a[0]), e, 'the configuration reaches the heart monitor')
    ck.ok('sockets', made is not None, su, 'a heart monitor is made')
    ck.every('sockets', su, dict(m=call('HeartMonitor(*_)'), s=call('_.start()')), lambda t: t.count('m') == 1 and t.count('s') == 1, 'the heart monitor is started')
    for typ, url, fn in (('zmq.PUB', 'ping_url', 'bind'), ('zmq.ROUTER', 'pong_url', 'bind'), ('zmq.XPUB', 'monitor_url', 'connect')):
        a = call(f'{fn}(ctx.socket({typ}), {url}, *_)')
        ck.every('sockets', su, dict(b=a), lambda t: t.count('b') == 1, f'{url} is served by the {typ} socket')
        for e, b in su.find(a):
            ck.ok('sockets.curve', su.match('curve_publickey', argof(e.a[0], 2 if fn == 'bind' else 3, 'curve_publickey') or tm.NONE) is not None
                  and su.match('curve_secretkey', argof(e.a[0], 3 if fn == 'bind' else 4, 'curve_secretkey') or tm.NONE) is not None, e, f'{url} is encrypted with the keys of the controller')
            if fn == 'connect':
                ck.ok('sockets.curve', su.match('curve_publickey', argof(e.a[0], 2, 'curve_serverkey') or tm.NONE) is not None, e, 'the monitor connection is encrypted')
    # ---- the heart of an engine
    hi = ck.F(MODULE + 'Heart.__init__')
    HID = 'any_of(heart_id, uuid4().bytes, uuid.uuid4().bytes)'
    ia = dict(ident=call(f'self.device.setsockopt_out(zmq.IDENTITY, {HID})'), sub=call("self.device.setsockopt_in(zmq.SUBSCRIBE, b'')"), issub=lit('in_type == zmq.SUB'),
              inn=call('self.device.connect_in(in_addr)'), out=call('self.device.connect_out(out_addr)'), id=store('self.id', HID),
              curve=lit('curve_serverkey'), ki=call('self.device.setsockopt_in(zmq.CURVE_SERVERKEY, curve_serverkey)'), ko=call('self.device.setsockopt_out(zmq.CURVE_SERVERKEY, curve_serverkey)'))
    ck.every('heart', hi, ia, lambda t: all(t.count(k) == 1 for k in ('ident', 'inn', 'out', 'id')), 'a heart is connected to both addresses and beats under its own name')
    ck.every('heart', hi, ia, lambda t: ('sub' in t) == ('issub' in t), 'a heart receives every ping')
    ck.every('heart', hi, ia, lambda t: 'curve' not in t or 'ki' in t and 'ko' in t, 'a heart is encrypted when the controller is')
    ck.guarded('heart', hi, call('uuid4()') if hi.find(call('uuid4()')) else call('uuid.uuid4()'), [lit('heart_id is None')], 'a heart keeps the name it was given', missing_ok=True)


def _not_in(fl, reg):
    """A test that is only passed by hearts outside the region."""

    def f(e, a, b):
        if e.kind != 'lit':
            return None
        t, p = e.a
        if t.op == 'cmp' and t.a[0] == 'in':
            s = region(fl, t.a[2])
            if s is not None and not (s if p else ~s) & reg:
                return {}
        return None

    f.lit = True
    f.desc = 'outside'
    return f


def _nonempty(fl, reg):
    def f(e, a, b):
        if e.kind != 'lit':
            return None
        t, p = e.a
        if p and t.op == 'truth' and region(fl, t.a[0]) == reg:
            return {}
        return None

    f.lit = True
    f.desc = 'nonempty'
    return f
