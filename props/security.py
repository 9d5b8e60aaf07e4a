"""Encryption of sockets, CURVE keys, connection files, signatures of messages."""

import ast

from ipa import terms as tm
from ipa.atoms import argof
from ipa.checker import _baseline
from ipa.load import AnalysisBroken

from . import connect
from .client import _lit, leaves, same
from .common import call, dict_sources, is_eff, keyed, lit, prop, store

C = 'controller.app:IPController'
E = 'engine.app:IPEngine'
K = 'client.client:Client'
KEYS = {'curve_serverkey': {'server', 'public'}, 'curve_publickey': {'public'}, 'curve_secretkey': {'secret'}}
ROLE = {'curve_serverkey': 'server', 'curve_publickey': 'public', 'curve_secretkey': 'secret'}
OPTS = {'CURVE_SERVERKEY': 'curve_serverkey', 'CURVE_PUBLICKEY': 'curve_publickey', 'CURVE_SECRETKEY': 'curve_secretkey', 'CURVE_SERVER': 'curve_server'}
RAW = {'bind': 'bind', 'connect': 'connect', 'bind_to_random_port': 'bind', 'tunnel_connection': 'connect'}
FULL = {'bind': ('curve_server', 'curve_secretkey'), 'connect': ('curve_serverkey', 'curve_secretkey', 'curve_publickey')}


def DEVICE(name):
    k, _, side = str(name).partition('_')
    return (k, side) if k in ('bind', 'connect') and side in ('in', 'out', 'mon') else None


@prop('X01', 150)
def x01(ck):
    flows = [flow_of(ck, f) for f in analysed(ck, lambda m: m in RAW or 'curve' in m.lower() or DEVICE(m) is not None)]
    n = 0
    for fl in flows:
        n += sites(ck, fl)
        roles_ok(ck, fl)
        if fl.func.cls is not None and fl.func.cls.qual.endswith(C):
            conditional(ck, fl)
        server(ck, fl)
    ck.ok('sites', n >= 20, 'ipyparallel', f'{n} bound or connected sockets')
    scheduler_args(ck)
    control(ck)
    keypairs(ck)
    files(ck)
    messages(ck)


def all_names():
    base = _baseline()
    return {n for v in base.values() for n in v}


def known(f):
    k = f.cls.qual if f.cls is not None else f.module.name + ':'
    k = k.replace('ipyparallel.', '', 1)
    return f.name in _baseline().get(k, ())


def flow_of(ck, f, keep=False):
    names = all_names()
    return ck.F(f, opaque=tuple(sorted(names | {'bind', 'connect'} if keep else names - {'bind', 'connect'})), cls=f.cls)


def analysed(ck, touches, keep=False):
    """Functions that touch sockets or keys, with new helpers seen through their callers."""
    todo, mentions = [], {}
    for f in ck.repo.all_funcs():
        if '.tests.' in f.module.name or f.module.name.endswith('.tests'):
            continue
        ms = set()
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute):
                ms.add(x.attr)
            elif isinstance(x, ast.Name):
                ms.add(x.id)
            elif isinstance(x, ast.keyword) and x.arg:
                ms.add(x.arg)
            elif isinstance(x, ast.arg):
                ms.add(x.arg)
            elif isinstance(x, ast.Constant) and isinstance(x.value, str) and 'curve' in x.value[:40]:
                ms.add('curve')
        mentions[f] = ms
        todo.append(f)
    hot = {f for f in todo if any(map(touches, mentions[f]))}
    fresh = {f.name for f in hot if not known(f)}
    while True:
        more = {f for f in todo if f not in hot and mentions[f] & fresh}
        if not more:
            break
        hot |= more
        fresh |= {f.name for f in more if not known(f)}
    base = [f for f in todo if f in hot and known(f) and f.parent is None]
    rest = [f for f in todo if f in hot and not (known(f) and f.parent is None)]
    seen = set()
    for f in base:
        fl = flow_of(ck, f, keep)
        seen |= {x.qual for x in fl.g.inlined}
        yield f
    for f in rest:
        if f.qual not in seen:
            seen |= {x.qual for x in flow_of(ck, f, keep).g.inlined}
            yield f


# -- keys ---------------------------------------------------------------------
def roles(fl, t, depth=0):
    """What kind of key a value may be."""
    if t is None or depth > 12:
        return {'?'}
    out = set()
    for x in leaves(fl, t):
        out |= role1(fl, x, depth)
    return out


def role1(fl, x, depth):
    if x is tm.NONE or x.op == 'const' and not x.a[0]:
        return {'none'}
    if x.op in ('param', 'free', 'attr', 'glob'):
        nm = str(x.a[-1] if x.op == 'attr' else x.a[0]).rpartition('.')[2]
        return {ROLE[nm]} if nm in ROLE else {'?'}
    if x.op == 'item':
        o, k = x.a
        if fl.match('any_of(_.curve_keypair(), curve_keypair())', o) is not None and k.op == 'const':
            return {('public', 'secret')[k.a[0]]} if k.a[0] in (0, 1) else {'?'}
        if k.op == 'const' and isinstance(k.a[0], str):
            nm = k.a[0].lower().replace('ipp_', '')
            return {ROLE[nm]} if nm in ROLE else {'?'}
        return {'?'}
    if x.op == 'get':
        k = x.a[1]
        if k.op == 'const' and isinstance(k.a[0], str):
            nm = k.a[0].lower().replace('ipp_', '')
            return ({ROLE[nm]} if nm in ROLE else {'?'}) | (roles(fl, x.a[2], depth + 1) if len(x.a) > 2 and x.a[2] is not None else set())
        return {'?'}
    if x.op == 'call':
        f = x.a[0]
        if f.op == 'attr' and f.a[1] in ('encode', 'decode'):
            return roles(fl, f.a[0], depth + 1)
        if f.op == 'attr' and f.a[1] in ('get', 'pop') and x.a[1]:
            return roles(fl, tm.mk('item', f.a[0], x.a[1][0]), depth + 1)
        if f.op == 'glob' and f.a[0].endswith(('environ.get', 'getenv')) and x.a[1]:
            return role1(fl, tm.mk('item', f, x.a[1][0]), depth + 1)
        return {'?'}
    if x.op in ('bool', 'or', 'and'):
        out = set()
        for c in tm.children(x):
            out |= roles(fl, c, depth + 1)
        return out
    return {'?'}


def option(fl, e):
    """(socket, side, key name, value) of an effect that sets a CURVE option."""
    if e.kind == 'store' and e.a[1] in ('curve_server',) + tuple(KEYS):
        return e.a[0], None, e.a[1], e.a[2]
    if e.kind != 'call':
        return None
    f, args, kw = e.a[0].a
    if f.op != 'attr' or not str(f.a[1]).startswith(('setsockopt', 'set')):
        return None
    if len(args) < 1:
        return None
    for o in leaves(fl, args[0]):
        nm = str(o.a[-1] if o.op == 'attr' else o.a[0] if o.op in ('glob', 'free') else '').rpartition('.')[2]
        if nm in OPTS:
            side = f.a[1].rpartition('_')[2] if '_' in f.a[1] else None
            return f.a[0], side, OPTS[nm], args[1] if len(args) > 1 else None
    return None


def bare(fl, s):
    """The socket behind a stream."""
    out = set()
    for x in leaves(fl, s):
        if fl.match('any_of(_.ZMQStream(_, *_), ZMQStream(_, *_))', x) is not None:
            out |= bare(fl, x.a[1][0])
        elif x.op == 'attr' and x.a[1] == 'socket' and x.a[0].op != 'param':
            out |= bare(fl, x.a[0]) | {x}
        else:
            out.add(x)
    return out


def site(fl, e):
    """(kind, socket) of an effect that binds or connects a zmq socket."""
    if e.kind != 'call':
        return None
    f, args, kw = e.a[0].a
    if f.op == 'attr' and DEVICE(f.a[1]) is not None:
        return DEVICE(f.a[1])[0], f.a[0], DEVICE(f.a[1])[1]
    if f.op == 'attr' and f.a[1] in RAW:
        if f.a[1] == 'tunnel_connection':
            s = args[0] if args else dict(kw).get('socket')
        else:
            s = f.a[0]
            if f.a[0].op == 'param' and str(f.a[0].a[0]) == 'self':
                return None
        return (RAW[f.a[1]], s, None) if s is not None else None
    if f.op == 'glob' and f.a[0].rpartition('.')[2] == 'tunnel_connection' and args:
        return 'connect', args[0], None
    return None


def plain(fl, s):
    """Not a socket of the cluster: a data base, an ordinary socket, a channel of log messages."""
    for x in bare(fl, s):
        if x.op == 'call' and x.a[0].op == 'glob' and x.a[0].a[0] in ('socket.socket', 'socket'):
            return True
        if x.op in ('glob', 'free') and str(x.a[0]).rpartition('.')[2] in ('sqlite3', 'util', 'socket'):
            return True
        for e in fl.all_effects():
            if e.kind in ('call', 'new') and e.a[0].op == 'call' and tm.mentions(e.a[0].a[0], lambda y: y.op in ('glob', 'attr') and 'PUBHandler' in str(y.a)) and e.a[0].a[1] and any(same(fl, y, x) for y in e.a[0].a[1]):
                return True
    return False


def disabled(fl, t, kind):
    """Does the falsity of t mean that there is no encryption?"""
    if t.op != 'truth':
        return False
    return off(fl, t.a[0], kind)


def off(fl, v, kind, have=frozenset()):
    os = operands(fl, v)
    if os is not None:
        G = fl.guards()
        return all(off(fl, x, kind, G.get(p, frozenset())) for p, x in os)
    if v is tm.NONE:
        return any(not pol and l.op == 'truth' and off(fl, l.a[0], kind) for l, pol in have)
    if v.op == 'attr' and v.a[1] == 'enable_curve':
        return True
    r = roles(fl, v)
    ok = {'server'} | ({'secret'} if kind == 'bind' else {'public'})
    return bool(r) and r <= ok | {'none'} and bool(r & ok) and 'none' not in r


def confirm(fl, e, avoid, kind, side, p):
    """Is the path feasible? The sockets of a device are made when it starts, with the options it has then."""
    def opt(x, a, b):
        return {} if x.node is not None and x.node.id in avoid and x.kind not in ('lit', 'iter', 'done') else None

    opt.desc = 'option'
    at = dict(site=is_eff(e), opt=opt, off=_lit(lambda t: disabled(fl, t, kind), False))
    try:
        trs = fl.traces(at)
    except AnalysisBroken:
        return p
    for t in trs:
        if 'site' not in t or 'off' in t and (side is not None or t.before('off', 'site')):
            continue
        if 'opt' not in t or side is None and not t.before('opt', 'site'):
            if side is None or t.end == 'return':
                return t.path()
    return None


def path_to(fl, start, goal, avoid, kind):
    """A path on which encryption is neither set up nor known to be disabled."""
    prev = {start.id: None}
    stack = [start]
    while stack:
        n = stack.pop()
        if n.id in goal:
            out = []
            while n is not None:
                if getattr(n, 'line', None):
                    out.append(n.line)
                n = prev[n.id]
            return sorted(set(out))
        if n.id in avoid:
            continue
        for s, lab in n.succ:
            if s.id in prev:
                continue
            ls = fl._elits.get((n.id, lab)) or ()
            if any(not pol and disabled(fl, t, kind) for t, pol in ls):
                continue
            if any(fl.decide(t, {}) is (not pol) for t, pol in ls):
                continue
            prev[s.id] = n
            stack.append(s)
    return None


def sites(ck, fl):
    n = 0
    opts = [(e, option(fl, e)) for e in fl.all_effects()]
    opts = [(e, o) for e, o in opts if o is not None]
    G = fl.guards()
    for e in fl.all_effects():
        st = site(fl, e)
        if st is None or plain(fl, st[1]) or e.node.id not in G:
            continue
        kind, s, side = st
        if fl.func.module.name.endswith('apps.logwatcher') or s.op == 'param' and str(s.a[0]) == 'cls':
            continue
        n += 1
        mine = bare(fl, s)
        for key in FULL[kind]:
            avoid = {o[0].node.id for o in opts if o[1][2] == key and o[1][1] == side and bare(fl, o[1][0]) & mine}
            p = path_to(fl, fl.g.entry, {e.node.id}, avoid, kind)
            if p is not None:
                p = confirm(fl, e, avoid, kind, side, p)
            ck.ok('sites', p is None, e, f'the socket can be {"bound" if kind == "bind" else "connected"} without {key} while encryption is enabled', path=p)
    for e, (s, side, key, v) in opts:
        if e.kind == 'store' and s.op == 'param' and str(s.a[0]) == 'self' or e.node.id not in G or e.kind == 'store' and s.op == 'attr' and s.a[1] == 'config':
            continue
        good = any(pol and t.op == 'truth' and (roles(fl, t.a[0]) & {'server', 'secret', 'public'} or tm.mentions(t, lambda y: y.op == 'attr' and y.a[1] == 'enable_curve')) for t, pol in G[e.node.id])
        ck.ok('sites.plain', good, e, f'{key} is set on a socket although encryption may be disabled')
        if key == 'curve_server':
            ck.ok('sites.server', v is not None and v.op == 'const' and v.a[0] in (1, True), e, 'sockets that are bound are servers')
    return n


def target(ck, f):
    """The repository function behind a called name."""
    if f.op not in ('glob', 'func', 'free'):
        return None
    if not hasattr(ck, '_targets'):
        ck._targets = {}
        for g in ck.repo.all_funcs():
            if g.parent is None and (g.cls is None or g.name == '__init__') and known(g):
                ck._targets.setdefault(g.name if g.cls is None else g.cls.name, g)
    return ck._targets.get(str(f.a[0]).rpartition('.')[2])


def params(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def wanted(g):
    """The keys a function needs."""
    if g.name in ('bind', 'connect'):
        return []
    if g.name == 'start_nanny':
        return list(KEYS)
    return [p for p in params(g) if p in KEYS]


def origin(fl, v):
    """Where a key comes from, without which of the two keys it is (None: cannot be told)."""
    out = set()
    for x in leaves(fl, v):
        while x.op == 'call' and x.a[0].op == 'attr' and x.a[0].a[1] in ('encode', 'decode'):
            x = x.a[0].a[0]
        if x is tm.NONE:
            continue
        if x.op == 'item' and fl.match('any_of(_.curve_keypair(), curve_keypair())', x.a[0]) is not None:
            out.add(('pair', x.a[0]))
            continue
        nm, base = (x.a[1], x.a[0]) if x.op == 'attr' else (str(x.a[0]), None) if x.op in ('param', 'free', 'name') else (x.a[1].a[0], x.a[0]) if x.op in ('item', 'get') and x.a[1].op == 'const' and isinstance(x.a[1].a[0], str) else (None, None)
        for w in ('publickey', 'secretkey'):
            if nm is not None and nm.lower().endswith(w):
                out.add((nm.lower()[: -len(w)], base))
                break
        else:
            return None
    return out


def matching(ck, fl):
    """The two keys of a socket belong together."""
    got = {}
    for e in fl.all_effects():
        o = option(fl, e)
        if o is not None and o[2] in ('curve_publickey', 'curve_secretkey') and o[3] is not None:
            got.setdefault((o[0], o[1]), {}).setdefault(o[2], []).append((e, origin(fl, o[3])))
    for d in got.values():
        if len(d) == 2:
            pubs, secs = ([x for _, x in d[k]] for k in ('curve_publickey', 'curve_secretkey'))
            if None not in pubs + secs:
                ck.ok('roles.pair', set().union(*pubs) == set().union(*secs), d['curve_secretkey'][0][0], 'the two keys of a socket are not of one pair')


def roles_ok(ck, fl):
    """Every key goes where its kind belongs."""
    matching(ck, fl)
    for e in fl.all_effects():
        o = option(fl, e)
        if o is not None and o[2] in KEYS:
            r = roles(fl, o[3])
            if not (e.kind == 'store' and fl.func.name == '__init__' and r == {'?'}):
                ck.ok('roles', bool(r) and r <= KEYS[o[2]] | {'none'}, e, f'{o[2]} is set to something else: {sorted(r)}')
        if e.kind in ('call', 'new') and e.a[0].op in ('call', 'new'):
            f, args, kw = e.a[0].a[:3]
            seen = {}
            for k, v in kw:
                if k in KEYS:
                    seen[k] = v
            g = target(ck, f)
            if g is not None:
                ps = [a.arg for a in g.node.args.posonlyargs + g.node.args.args]
                if ps[:1] == ['self']:
                    ps = ps[1:]
                for i, a in enumerate(args):
                    if i < len(ps) and ps[i] in KEYS:
                        seen[ps[i]] = a
                want = wanted(g)
                for k, v in kw:
                    if k is None and v.op != 'param':
                        seen.update((x, y[0]) for x, y in keyed(fl, v).items() if x in KEYS)
                        if not keyed(fl, v):
                            want = []
                    elif k is None:
                        want = [p for p in want if p in params(fl.func)]
                ck.ok('roles.passed', all(p in seen for p in want), e, f'{g.name} is not given {[p for p in want if p not in seen]}')
            ks = dict(kw)
            if 'target' in ks and 'kwargs' in ks and target(ck, ks['target']) is not None:
                src = dict_sources(fl, ks['kwargs'])
                got = [k.a[0] for k, v, it in src if k is not None and k.op == 'const']
                if src and all(k is not None and k.op == 'const' for k, v, it in src):
                    want = wanted(target(ck, ks['target']))
                    ck.ok('roles.passed', all(p in got for p in want), e, f'the process is not given {[p for p in want if p not in got]}')
            for k, v in seen.items():
                r = roles(fl, v)
                ck.ok('roles', bool(r) and r <= KEYS[k] | {'none'}, e, f'{k} is given something else: {sorted(map(str, r))}')
        if e.kind in ('call', 'return', 'add', 'store') or e.kind == 'yield':
            for t in e.a:
                if isinstance(t, tm.T):
                    for d in tm.subterms(t):
                        if d.op == 'alloc' and d.a[1] == 'dict':
                            for x in d.a[2]:
                                if isinstance(x, tuple) and x[0] is not None and x[0].op == 'const' and x[0].a[0] in KEYS:
                                    r = roles(fl, x[1])
                                    ck.ok('roles', bool(r) and r <= KEYS[x[0].a[0]] | {'none'}, e, f'{x[0].a[0]} is something else: {sorted(map(str, r))}')


def enabled(fl, have, pol):
    for t, p in have:
        if t.op != 'truth' or p is not pol:
            continue
        v = t.a[0]
        if v.op == 'attr' and v.a[1] == 'enable_curve':
            return True
        if operands(fl, v) is not None and switched(fl, v, frozenset()):
            return True
    return False


def operands(fl, v):
    """[(predecessor, value)] of a value that depends on the path."""
    if v.op == 'phi':
        return fl.phi_ops.get(v)
    if v.op == 'item' and v.a[0].op == 'phi' and v.a[1].op == 'const' and v.a[0] in fl.phi_ops:
        out = []
        for p, d in fl.phi_ops[v.a[0]]:
            if d.op != 'alloc' or d.a[1] != 'dict':
                return None
            out.append((p, (keyed(fl, d).get(v.a[1].a[0]) or [tm.NONE])[0]))
        return out
    return None


def switched(fl, v, have):
    """Is the value a key exactly if encryption is enabled?"""
    os = operands(fl, v)
    if os is not None:
        G = fl.guards()
        return all(p not in G or switched(fl, x, G[p] | have) for p, x in os)
    if v is tm.NONE:
        return enabled(fl, have, False)
    return enabled(fl, have, True)


def conditional(ck, fl):
    """The controller has keys, but uses them only if it should."""
    if fl.func.name in ('_ensure_curve_keypair', '_uses_curve_key') or 'default' in fl.func.name or fl.func.parent is not None and fl.func.name != 'add_auth':
        return
    G = fl.guards()
    for e in fl.all_effects():
        have = G.get(e.node.id)
        if have is None:
            continue
        vs = []
        o = option(fl, e)
        if o is not None and o[2] in KEYS and not (e.kind == 'store' and e.a[0].op == 'param'):
            vs.append(o[3])
        if e.kind in ('call', 'new') and e.a[0].op == 'call':
            vs += [v for k, v in e.a[0].a[2] if k in KEYS]
        for t in e.a:
            if isinstance(t, tm.T) and e.kind in ('call', 'return', 'add', 'store'):
                for d in tm.subterms(t):
                    if d.op == 'alloc' and d.a[1] == 'dict':
                        vs += [x[1] for x in d.a[2] if isinstance(x, tuple) and x[0] is not None and x[0].op == 'const' and x[0].a[0] in KEYS]
        for v in vs:
            ck.ok('enabled', switched(fl, v, have), e, 'the controller uses its keys exactly if encryption is enabled')


def server(ck, fl):
    """Engines and clients encrypt for the controller."""
    outside = fl.func.module.name.startswith(('ipyparallel.engine', 'ipyparallel.client'))
    if not outside and 'curve_serverkey' not in params(fl.func):
        return
    for e in fl.all_effects():
        if outside and e.kind in ('call', 'new') and e.a[0].op == 'call' and target(ck, e.a[0].a[0]) is not None:
            for k, v in e.a[0].a[2]:
                if k == 'curve_serverkey':
                    ck.ok('server', roles(fl, v) == {'server'}, e, 'the controller decrypts what is sent')
        o = option(fl, e)
        if o is not None and o[2] == 'curve_serverkey' and not (e.kind == 'store' and o[0].op == 'param' and o[0].a[0] == 'self'):
            want = {'public'} if o[1] == 'mon' else {'server'}
            ck.ok('server', roles(fl, o[3]) == want, e, f"{'the local monitor' if o[1] == 'mon' else 'the controller'} decrypts what is sent")


def via(fl, goal, lit):
    """Does every path to the node take an edge with such a condition?"""
    seen, stack = {fl.g.entry.id}, [fl.g.entry]
    while stack:
        n = stack.pop()
        if n.id == goal:
            return False
        for s, lab in n.succ:
            if s.id not in seen and not any(lit(t, p) for t, p in fl._elits.get((n.id, lab)) or ()):
                seen.add(s.id)
                stack.append(s)
    return True


def scheduler_args(ck):
    """Schedulers have the keys of the controller."""
    g = ck.F(C + '.get_python_scheduler_args', opaque=ck.names(C))
    for t in g.traces({}, retval=True):
        if t.end == 'return':
            ks = keyed(g, t.ret)
            ck.ok('roles.passed', 'curve_secretkey' in ks and 'curve_publickey' in ks, g, 'schedulers have the keys of the controller', path=t.path())


def control(ck):
    """The control channel of an engine leads to its nanny, if it has one."""
    n = 0
    for fn in analysed(ck, lambda m: m == 'curve_serverkey', True):
        if fn.cls is None or not fn.cls.qual.endswith(E):
            continue
        fl = flow_of(ck, fn, True)
        G = fl.guards()
        for e in fl.all_effects():
            if e.kind != 'call' or e.a[0].op != 'call':
                continue
            f, args, kw = e.a[0].a
            kw = dict(kw)
            if 'curve_serverkey' not in kw or len(args) < 2 or target(ck, f) is not None:
                continue
            n += 1

            def nanny(at, pol):
                return at is not None and via(fl, at, lambda t, p: p is pol and t.op == 'truth' and t.a[0].op == 'attr' and t.a[0].a[1] == 'enable_nanny')

            def good(v, at):
                if v.op == 'phi' and v in fl.phi_ops:
                    return all(p not in G or good(x, p) for p, x in fl.phi_ops[v])
                r = roles(fl, v)
                return r == {'public'} and nanny(at, True) or r in ({'server'}, {'none'}) and nanny(at, False)

            ck.ok('control', good(kw['curve_serverkey'], None), e, 'control messages are encrypted for the nanny exactly if there is one')
    ck.ok('control', n == 1, E, f'{n} connections to the nanny')


def keypairs(ck):
    for spec in (C, E):
        fl = ck.F(spec + '._ensure_curve_keypair', opaque=ck.names(spec))
        pair = 'any_of(zmq.curve_keypair(), curve_keypair(), _.curve_keypair())'
        at = dict(pub=store('self.curve_publickey', f'{pair}[0]'), sec=store('self.curve_secretkey', f'{pair}[1]'), pub0=store('self.curve_publickey'), sec0=store('self.curve_secretkey'),
                  nopub=_lit(lambda t: fl.match('self.curve_publickey', t.a[0]) is not None and t.op == 'truth', False), nosec=_lit(lambda t: t.op == 'truth' and fl.match('self.curve_secretkey', t.a[0]) is not None, False))
        ck.every('pair', fl, at, lambda t: t.end != 'return' or (t.count('pub') == t.count('sec') == t.count('pub0') == t.count('sec0') == (1 if 'nopub' in t or 'nosec' in t else 0)), 'an incomplete pair of keys is replaced as a whole, and a complete one kept')
    for f in ck.repo.all_funcs():
        n = sum(1 for x in ast.walk(f.node) if isinstance(x, ast.Call) and (isinstance(x.func, ast.Attribute) and x.func.attr == 'curve_keypair' or isinstance(x.func, ast.Name) and x.func.id == 'curve_keypair'))
        if n and '.tests.' not in f.module.name:
            m = sum(1 for g in ck.repo.nested_funcs(f) for x in ast.walk(g.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'curve_keypair')
            ck.ok('pair', n - m <= 1, f, 'the two keys come from one pair')
    names = ck.names(C)
    ens = call('self._ensure_curve_keypair()')
    d = ck.F(C + '._default_enable_curve', opaque=names)
    on = _lit(lambda t: any(y.op == 'const' and y.a[0] == 'IPP_ENABLE_CURVE' for y in tm.subterms(t)), True)
    ck.every('pair.enabled', d, dict(ens=ens, on=on), lambda t: t.end != 'return' or ('ens' in t) == ('on' in t), 'there are keys if encryption is enabled')
    o = ck.F(C + '._enable_curve_changed', opaque=names)
    ck.every('pair.enabled', o, dict(ens=ens, on=lit('change.new')), lambda t: t.end != 'return' or ('ens' in t) == ('on' in t), 'there are keys when encryption is enabled')
    names = ck.names(E)
    l = ck.F(E + '.load_connection_file', opaque=names)
    at = dict(ens=ens, off=lit('not self.curve_serverkey'), given=store('self.curve_serverkey', "any_of(_['curve_serverkey'], _.get('curve_serverkey', *_)).encode(*_)"), any=store('self.curve_serverkey'),
              no=_lit(lambda t: t.op == 'truth' and l.match("any_of(_['curve_serverkey'], _.get('curve_serverkey', *_))", t.a[0]) is not None, False))
    ck.every('key', l, at, lambda t: t.end != 'return' or (('given' in t) != ('no' in t) and t.count('any') == t.count('given') and ('ens' in t) != ('off' in t) and ('given' not in t or 'ens' not in t or t.before('given', 'ens'))), 'an engine uses the key of the controller, with a pair of its own')
    # the session of an engine is that of the connection file
    connect.engine(connect.Only(ck, 'engine.session'))
    key = "any_of(_['key'], _.get('key', *_))"
    c = ck.F(C + '.load_config_from_json', opaque=names_of(ck))

    def keyed_lit(t, p):
        return p and t.op == 'truth' and (c.match(key, t.a[0]) is not None or c.match('self._uses_curve_key(_)', t.a[0]) is not None)
    for e, b in c.find(store('_.Session.key')):
        ck.ok('signed', via(c, e.node.id, keyed_lit), e, 'an empty key of an earlier controller is used only if messages are encrypted as they were')
        ck.ok('signed', c.match(f'any_of({key}.encode(*_), {key})', e.a[2]) is not None, e, 'the key of an earlier controller is used')
    ck.ok('signed', bool(c.find(store('_.Session.key'))), c, 'the key of an earlier controller is used')
    k = ck.F(K + '.__init__', opaque=ck.names(K))
    w = store('self.curve_serverkey', "any_of(_['curve_serverkey'], _.get('curve_serverkey', *_)).encode(*_)")
    ck.ok('key', bool(k.find(w)), k, 'a client uses the key of the controller')
    G = k.guards()
    for e, b in k.find(store('self.curve_serverkey')):
        ck.ok('key', k.match("any_of(_['curve_serverkey'], _.get('curve_serverkey', *_)).encode(*_)", e.a[2]) is not None, e, 'a client uses the key of the controller')
        have = G.get(e.node.id, ())
        ck.ok('key', len([1 for t, p in have if t.op == 'truth' and k.match("any_of(_['curve_serverkey'], _.get('curve_serverkey', *_))", t.a[0]) is not None and p]) > 0, e, 'a client uses the key of the controller if there is one')
        # its own pair
        for h, key, i in (('self.curve_publickey', 'curve_publickey', 0), ('self.curve_secretkey', 'curve_secretkey', 1)):
            avoid = {x.node.id for x, _ in k.find(store(h))}

            p = unset(k, e.node, avoid, h)
            ck.ok('key', p is None, e, f'a client has a {key}', path=p)
    # an empty key for signatures
    for f in analysed(ck, lambda m: m == 'key'):
        fl = flow_of(ck, f)
        G = None
        for e in fl.all_effects():
            if e.kind == 'store' and e.a[1] == 'key' and any(x.op == 'const' and not x.a[0] for x in leaves(fl, e.a[2])):
                G = G or fl.guards()
                have = G.get(e.node.id, ())
                good = fl.func.cls is not None and fl.func.cls.qual.endswith(C) and any(p and (t.op == 'truth' and fl.match('change.new', t.a[0]) is not None or any(y.op == 'const' and y.a[0] == 'IPP_ENABLE_CURVE' for y in tm.subterms(t)) or tm.mentions(t, lambda y: y.op == 'attr' and y.a[1] == 'enable_curve')) for t, p in have)
                ck.ok('signed', good, e, 'messages are signed unless they are encrypted')
                ck.ok('signed', any(not p and t.op == 'in' and t.a[0].op == 'const' and t.a[0].a[0] == 'key' for t, p in have) or any(not p and any(y.op == 'const' and y.a[0] == 'key' for y in tm.subterms(t)) for t, p in have), e, 'a key for signatures that was configured is used')


def unset(fl, start, avoid, h):
    """A path from the node to the end on which the attribute may stay empty."""
    prev = {start.id: None}
    stack = [start]
    while stack:
        n = stack.pop()
        out = [(s, lab) for s, lab in n.succ if lab != 'exc']
        if not out and n.kind not in ('raise', 'exc'):
            p = []
            while n is not None:
                if getattr(n, 'line', None):
                    p.append(n.line)
                n = prev[n.id]
            return sorted(set(p))
        if n.id in avoid:
            continue
        for s, lab in out:
            if s.id in prev:
                continue
            ls = fl._elits.get((n.id, lab)) or ()
            if any(p and t.op == 'truth' and fl.match(h, t.a[0]) is not None for t, p in ls):
                continue
            prev[s.id] = n
            stack.append(s)
    return None


def files(ck):
    names = ck.names(C)
    ih = ck.F(C + '.init_hub', opaque=names)
    n = 0
    G = ih.guards()
    for e, b in ih.find(call('self.save_connection_dict(_, _)')):
        n += 1
        d = argof(e.a[0], 1, 'cdict')
        ks = keyed(ih, d)
        vs = ks.get('curve_serverkey', [])
        ck.ok('files', bool(vs), e, 'connection files have the key of the controller')
        for v in vs:
            ck.ok('files', roles(ih, v) <= {'public', 'none'} and 'public' in roles(ih, v), e, 'connection files have the public key of the controller')
            for x in leaves(ih, v):
                ck.ok('files', x is tm.NONE or ih.match('any_of(self.curve_publickey.decode(*_), str(self.curve_publickey, *_))', x) is not None, e, 'connection files have the public key of the controller as text')
            ck.ok('files', switched(ih, v, G.get(e.node.id, frozenset())), e, 'connection files have a key exactly if encryption is enabled')
        for k, v, it in dict_sources(ih, d):
            ck.ok('files.secret', v is None or not any(y.op == 'attr' and y.a[1] == 'curve_secretkey' for y in tm.subterms(v)), e, 'the secret key stays with the controller')
    ck.ok('files', n == 2, ih, f'{n} connection files')
    sv = ck.F(C + '.save_connection_dict', opaque=names)
    fn = [t for e in sv.all_effects() if e.kind == 'call' and sv.match('any_of(open(*_), _.open(*_), os.open(*_))', e.a[0]) is not None for t in e.a[0].a[1][:1]]
    ck.ok('files.mode', bool(fn), sv, 'connection files are written')
    wr = call('any_of(_.write(*_), json.dump(*_), _.dump(*_))')

    def owner(e, a, b):
        if e.kind != 'call' or sv.match('any_of(os.chmod(*_), _.chmod(*_), os.fchmod(*_))', e.a[0]) is None:
            return None
        m = e.a[0].a[1][-1] if e.a[0].a[1] else dict(e.a[0].a[2]).get('mode')
        if m is None or not private(sv, m):
            return None
        p = e.a[0].a[1][0]
        return {} if any(same(sv, p, x) for x in fn) or p.op == 'call' else None

    owner.desc = 'chmod 600'
    ck.every('files.mode', sv, dict(wr=wr, own=owner), lambda t: t.end != 'return' or 'own' in t and 'wr' in t, 'connection files are readable by their owner only')
    # files that are reused
    uses = ck.F(C + '._uses_curve_key', opaque=names) if ck.repo.cls(C).methods.get('_uses_curve_key') else None
    ld = ck.F(C + '.load_secondary_config', opaque=tuple(n for n in names if n != '_uses_curve_key'))
    for e, b in ld.find(store('self.write_connection_files')):
        v = e.a[2]
        good = any(y.op == 'attr' and y.a[1] == 'curve_publickey' for y in subs(ld, v)) and any(y.op == 'const' and y.a[0] == 'curve_serverkey' for y in subs(ld, v))
        ck.ok('files.reuse', good, e, 'files with another key than that of the controller are written again')
    ck.ok('files.reuse', bool(ld.find(store('self.write_connection_files'))), ld, 'files are reused')
    if uses is not None:
        for t in uses.traces(dict(on=lit('self.enable_curve'), off=lit('not self.enable_curve')), retval=True):
            if t.end == 'return':
                r = t.ret
                p = "any_of(info.get('curve_serverkey', *_), info['curve_serverkey'])"
                on = uses.match(f"{p} == self.curve_publickey.decode(*_)", r) is not None
                off = uses.match(f"{p} == None", r) is not None or uses.match(f"{p} is None", r) is not None
                on, off = on and r.op == 'cmp', off and r.op in ('cmp', 'isnone')
                ck.ok('files.reuse', on and 'off' not in t or off and 'on' not in t, uses, 'the key of a file is that of the controller, or neither has one', path=t.path())


def names_of(ck):
    return tuple(sorted(set(ck.names(C)) | {'_uses_curve_key'}))


def subs(fl, v, seen=None):
    seen = set() if seen is None else seen
    for x in tm.subterms(v):
        yield x
        if x.op == 'phi' and x not in seen:
            seen.add(x)
            for y in leaves(fl, x):
                yield from subs(fl, y, seen)
            for p, o in fl.phi_ops.get(x, ()):
                yield from subs(fl, o, seen)


def private(fl, m):
    """A file mode without rights for others."""
    if m.op == 'const':
        return m.a[0] in (0o600, 0o400)
    names = [str(y.a[-1] if y.op == 'attr' else y.a[0]).rpartition('.')[2] for y in tm.subterms(m) if y.op in ('attr', 'glob')]
    return bool(names) and set(n for n in names if n != 'stat') <= {'S_IRUSR', 'S_IWUSR'} and not any(y.op == 'const' for y in tm.subterms(m))


def messages(ck):
    n = 0
    for f in analysed(ck, lambda m: m == 'unpack'):
        fl = flow_of(ck, f)
        for e in fl.all_effects():
            if e.kind == 'call' and fl.match('any_of(_.session.unpack(_), session.unpack(_), _.unpack(_))', e.a[0]) is not None and tm.mentions(e.a[0].a[0], lambda y: 'session' in str(y.a[-1]) + str(y.a[0])):
                n += 1
                t = e.a[0].a[1][0]
                stored = any(y.op == 'attr' and y.a[1] == 'raw_msg' for y in subs(fl, t)) or any(y.op == 'const' and y.a[0] == 'result_content' for y in subs(fl, t))
                ck.ok('verified', stored, e, 'the content of a message is used only if its signature was verified')
    ck.ok('verified', n >= 1, 'ipyparallel', 'messages are read')
    for f in analysed(ck, lambda m: m == 'feed_identities'):
        fl = flow_of(ck, f)
        at = fl.find(call('_.feed_identities(*_)'))
        for e in fl.all_effects():
            if e.kind != 'call':
                continue
            g = e.a[0].a[0]
            nm = str(g.a[-1] if g.op == 'attr' else g.a[0]).rpartition('.')[2]
            if nm in ('loads', 'load', 'unpack', 'literal_eval', 'eval') and g.op != 'param':
                for t in e.a[0].a[1]:
                    raw = any(y.op == 'call' and fl.match('_.feed_identities(*_)', y) is not None for y in subs(fl, t))
                    ver = any(y.op == 'call' and fl.match('_.deserialize(*_)', y) is not None for y in subs(fl, t)) or any(y.op == 'attr' and y.a[1] == 'raw_msg' for y in subs(fl, t))
                    ck.ok('verified', not raw or ver, e, 'the content of a message is used only if its signature was verified')
        ck.ok('verified', bool(at), fl, 'messages are read')
