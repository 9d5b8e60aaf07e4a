"""The client's view of the cluster: which engines there are, what targets mean, and waiting for engines."""

import ast

from ipa import terms as tm

from . import connect, fold
from .client import _lit, closures, effect, leaves, same
from .common import add, broad_handlers, call, covers, is_eff, iter_covers, keyed, lit, prop, raises, ret, store
from .queries import C, CM, opaque

SOCKETS = {'_mux_socket': 'mux', '_task_socket': 'task', '_broadcast_socket': 'broadcast', '_notification_socket': 'notification', '_control_socket': 'control', '_iopub_socket': 'iopub'}
PORTS = ('control', 'task', 'mux', 'iopub', 'notification', 'registration', 'broadcast')


@prop('C08', 60)
def c08(ck):
    names = opaque(ck)
    registry(ck, names)
    reverse(ck)
    targets(ck, names)
    views(ck, names)
    engines(ck, names)
    connecting(ck, names)
    closing(ck, names)


def writers(ck, cls, attrs):
    """Methods that change these attributes, or what is in them."""
    out = {}
    for name, m in ck.repo.cls(cls).methods.items():
        for n in ast.walk(m.node):
            t = None
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                t = [x.value if isinstance(x, ast.Subscript) else x for y in ts for x in (y.elts if isinstance(y, ast.Tuple) else [y])]
            elif isinstance(n, ast.Delete):
                t = [x.value if isinstance(x, ast.Subscript) else x for x in n.targets]
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'remove', 'pop', 'clear', 'update', 'insert', 'extend', 'sort', 'reverse', 'setdefault', 'popitem', 'discard', 'add'):
                t = [n.func.value]
            for x in t or []:
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self' and x.attr in attrs:
                    out.setdefault(name, n)
    return out


def registry(ck, names):
    known = set(ck.names(C))
    w = writers(ck, C, ('_ids', '_engines'))
    for m in w:
        f = ck.repo.method(ck.repo.cls(C), m)
        ck.ok('registry', m in ('_update_engines', '_unregister_engine') or m not in known, f, 'engines are known and forgotten where that is accounted for')
    fl = ck.F(CM + '_update_engines', opaque=names)
    es = [e for e in fl.all_effects() if e.kind == 'add' and fl.match('self._engines', e.a[0]) is not None]
    up = [e for e in fl.all_effects() if e.kind == 'call' and fl.match('self._engines.update(_)', e.a[0]) is not None]
    ck.ok('registry.new', bool(es) or bool(up), fl, 'engines are known by their ids')
    ids = [e for e in fl.all_effects() if e.kind == 'add' and fl.match('self._ids', e.a[0]) is not None]
    st = [e for e in fl.all_effects() if e.kind == 'store' and e.a[1] == '_ids']
    for e in es:
        h = fl.loop_of(e.node)
        ck.ok('registry.new', h is not None and covers(fl, h, 'engines'), e, 'all engines are known')
        ck.ok('registry.new', fl.match('int(elem(engines))', e.a[1]) is not None and fl.match('engines[elem(engines)]', e.a[2]) is not None, e, 'the uuid of an engine is known by its id, which is an integer')
        if h is not None:
            for t in fl.body_traces(h, dict(e=is_eff(e), i=effect('id', lambda x: x in ids), new=_lit(lambda x: fl.match('int(elem(engines)) in self._engines', x) is not None or fl.match('int(elem(engines)) in self._ids', x) is not None, False))):
                ck.ok('registry.new', t.end in ('exc', 'raise') or t.end == 'stop' and t.count('e') == 1, e, 'all engines are known', path=t.path())
                ck.ok('registry.new', 'i' not in t or t.before('e', 'i'), e, 'an engine that is a target is known: its uuid comes before its id', path=t.path())
                ck.ok('registry.new', 'i' not in t or 'new' in t, e, 'an engine is there once', path=t.path())
                ck.ok('registry.new', not ids or ('i' in t) == ('new' in t) or t.end != 'stop', e, 'all ids are known', path=t.path())
    for e in ids:
        ck.ok('registry.new', fl.match('int(elem(engines))', e.a[1]) is not None, e, 'ids are integers')
    for e in st:
        v = e.a[2]
        srt = v.op == 'copy' and len(v.a) > 1 and v.a[1].startswith('sorted')
        ck.ok('registry.sorted', srt, e, 'ids are in order')
        ck.ok('registry.sorted', bool(ids) and fl.match('any_of(self._ids, copyof(self._ids))', v) is not None or not ids and tm.mentions(v, lambda x: fl.match('self._engines', x) is not None) or not ids and tm.mentions(v, lambda x: fl.match('engines', x) is not None) and tm.mentions(v, lambda x: fl.match('self._ids', x) is not None), e, 'all ids are known')
    sorts = [e for e in fl.all_effects() if e.kind == 'call' and fl.match('self._ids.sort()', e.a[0]) is not None]
    ins = [e for e in ids if e.a[-1] == 'insert']
    ck.ok('registry.sorted', bool(st or sorts or ins), fl, 'ids are in order')
    last = dict(s=effect('sorted', lambda x: x in st or x in sorts), i=effect('id', lambda x: x in ids))
    if not ins:
        ck.every('registry.sorted', fl, last, lambda t: 's' in t and not t.before('s', 'i') if 'i' in t else 's' in t, 'ids are in order')
    pure(ck, fl)
    fu = ck.F(CM + '_unregister_engine', opaque=names)
    EID = "any_of(int(msg['content']['id']), msg['content']['id'])"
    ri = [e for e in fu.all_effects() if e.kind == 'remove' and fu.match('self._ids', e.a[0]) is not None]
    re = [e for e in fu.all_effects() if e.kind == 'remove' and fu.match('self._engines', e.a[0]) is not None]
    for es, k in ((ri, '_ids'), (re, '_engines')):
        ck.ok('registry.gone', bool(es) and all(fu.match(EID, e.a[1]) is not None for e in es), fu, f'an engine that is gone is not in {k}')
    S = 'self._handle_stranded_msgs(*_, **_)'
    at = dict(i=effect('id', lambda x: x in ri), e=effect('engine', lambda x: x in re), s=call(S), n=_lit(lambda x: fu.match(f'{EID} in self._ids', x) is not None or fu.match(f'{EID} in self._engines', x) is not None, False))
    for t in fu.traces(at):
        if t.end != 'return':
            continue
        if not ck.ok('registry.gone', ('n' in t) or t.count('i') == t.count('e') == t.count('s') == 1, fu, 'an engine that is gone is forgotten, and so is what was sent to it', path=t.path()):
            break
        if not ck.ok('registry.gone', 'n' not in t or not (t.count('i') or t.count('e')), fu, 'only engines that are known are forgotten', path=t.path()):
            break
        if not ck.ok('registry.gone', 's' not in t or t.before('i', 's'), fu, 'nothing is sent to an engine any more when what was sent is given up', path=t.path()):
            break
        if not ck.ok('registry.gone', 'e' not in t or t.before('i', 'e'), fu, 'an engine that is a target is known: its id goes before its uuid', path=t.path()):
            break
    for e, b in fu.find(call(S)):
        a, k = e.a[0].a[1], dict(e.a[0].a[2])
        eid, uuid = k.get('eid') or (a[0] if a else tm.NONE), k.get('uuid') or (a[1] if len(a) > 1 else tm.NONE)
        ck.ok('registry.gone', fu.match(EID, eid) is not None and fu.match(f"any_of(self._engines[{EID}], self._engines.pop({EID}), self._engines.get({EID}), msg['content']['uuid'])", uuid) is not None, e, 'what was sent to that engine is given up')
    pure(ck, fu)
    fr = ck.F(CM + '_register_engine', opaque=names)
    U = "self._update_engines(_)"
    ck.every('registry.new', fr, dict(u=call(U)), lambda t: t.count('u') == 1, 'an engine that registers is known')
    for e, b in fr.find(call(U)):
        a = e.a[0].a[1][0]
        ok = a.op == 'alloc' and a.a[1] == 'dict'
        src = _dict(fr, a)
        ck.ok('registry.new', ok and len(src) == 1 and fr.match(EID, src[0][0]) is not None and fr.match("msg['content']['uuid']", src[0][1]) is not None, e, 'an engine that registers is known by its id and uuid')
    for f, kind in ((fr, 'register'), (fu, 'unregister')):
        cbs = [e for e in f.all_effects() if e.kind == 'call' and e.a[0].a[0].op == 'elem' and f.loop_of(e.node) is not None and tm.mentions(e.a[0].a[0], lambda x: f.match('self._registration_callbacks', x) is not None)]
        if not ck.ok('registry.callbacks', len(cbs) == 1, f, 'who waits for engines is told'):
            continue
        e = cbs[0]
        h = f.loop_of(e.node)
        it = f.val(h, h.term) if h is not None else tm.NONE
        ck.ok('registry.callbacks', h is not None and all(f.match('any_of(copyof(self._registration_callbacks), self._registration_callbacks.copy(), self._registration_callbacks[:])', x) is not None and f.match('self._registration_callbacks', x) is None or x.op == 'copy' and iter_covers(f, x, 'self._registration_callbacks') for x in leaves(f, it)), e, 'everybody is told, also if some stop waiting then')
        if h is not None:
            for t in f.body_traces(h, dict(c=is_eff(e))):
                ck.ok('registry.callbacks', t.end in ('exc', 'raise') or t.end == 'stop' and t.count('c') == 1, e, 'everybody is told once', path=t.path())
        ev = e.a[0].a[1][0]
        m = keyed(f, ev)
        ck.ok('registry.callbacks', bool(m.get('event')) and all(f.match(f"'{kind}'", v) is not None for v in m['event']), e, 'what happened is told')
        whole = any(x.kind == 'call' and f.match("_.update(msg['content'])", x.a[0]) is not None and x.a[0].a[0].a[0] is ev for x in f.all_effects()) or any(k is None and f.match("msg['content']", v) is not None for k, v in _dict(f, ev))
        ck.ok('registry.callbacks', whole or bool(m.get('id')), e, 'which engine it was is told')
        at = dict(c=is_eff(h), u=call(U) if f is fr else effect('forgotten', lambda x: x in ri))
        at['c'] = effect('told', lambda x: x.kind in ('iter', 'done') and x.node is h)
        at['c'].edge = True
        for t in f.traces(at):
            ck.ok('registry.callbacks', t.end != 'return' or 'c' in t, e, 'everybody is told', path=t.path())
            ck.ok('registry.callbacks', 'c' not in t or 'u' not in t or t.before('u', 'c'), e, 'who is told can see it', path=t.path())
            ck.ok('registry.callbacks', f is fu or 'c' not in t or 'u' in t, e, 'who is told can see it', path=t.path())
    # both ends agree
    hub = {}
    for name, m in ck.repo.cls('controller.hub:Hub').methods.items():
        for n in ast.walk(m.node):
            if isinstance(n, ast.Constant) and n.value in ('registration_notification', 'unregistration_notification', 'shutdown_notification'):
                hub.setdefault(n.value, m)
    init = ck.F(CM + '__init__', opaque=names)
    ts = [e for e in init.all_effects() if e.kind == 'store' and e.a[1] == '_notification_handlers']
    ck.ok('registry.notifications', len(ts) == 1, init, 'notifications have handlers')
    for e in ts:
        m = keyed(init, e.a[2])
        for k, f in hub.items():
            ck.ok('registry.notifications', k in m, e, f'{k}, which the hub sends, is handled')
        for k, want in (('registration_notification', 'self._register_engine'), ('unregistration_notification', 'self._unregister_engine')):
            ck.ok('registry.notifications', k in hub, e, f'the hub sends {k}')
            ck.ok('registry.notifications', k in m and all(init.match(want, v) is not None for v in m[k]), e, f'{k} is handled')
        for x in m.get('shutdown_notification', []):
            g = closures(ck, init, 'registry.notifications', [x], names)
            for fg, u in g:
                ck.every('registry.notifications', fg, dict(c=effect('close', lambda y: y.kind == 'call' and init.match('self.close(*_, **_)', u(y.a[0])) is not None)), lambda t: t.count('c') == 1, 'a client of a hub that is gone is closed')


def _dict(fl, a):
    """Keys and values of a dict, as far as they are known."""
    out = []
    for x in a.a[2] if a.op == 'alloc' and len(a.a) > 2 else ():
        if isinstance(x, tm.T) and x.op == 'kv':
            out.append((x.a[0], x.a[1]))
        elif isinstance(x, tuple) and len(x) == 2:
            out.append(x)
        elif isinstance(x, tm.T) and x.op == 'tup' and len(x.a[0]) == 2:
            out.append((x.a[0][0], x.a[0][1]))
        elif isinstance(x, tm.T) and x.op == 'star':
            out.append((None, x.a[0]))
    for e in fl.all_effects():
        if e.kind == 'add' and e.a[0] is a and e.a[-1] == 'key':
            out.append((e.a[1], e.a[2]))
    return out


def pure(ck, fl):
    """Tasks are not sent any more when the scheduler does not know that an engine is gone."""
    es = fl.find(call('self._stop_scheduling_tasks()'))
    ck.ok('registry.pure', bool(es), fl, 'a pure scheduler is not used after engines have left')
    for e, b in es:
        g = fl.guards()[e.node.id]
        ck.ok('registry.pure', any(fl.match("'pure' == self._task_scheme", t) is not None and p for t, p in g), e, 'other schedulers go on when engines leave')
        ck.ok('registry.pure', any(t.op in ('truth', 'isnone', 'cmp') and fl.match('self._task_socket', t.a[0] if t.op != 'cmp' else t.a[1]) is not None for t, p in g), e, 'a scheduler is stopped once')


def reverse(ck):
    RD = 'util:ReverseDict'
    fs = ck.F(RD + '.__setitem__', cls=RD)
    fw = effect('forward', lambda e: e.kind == 'call' and (fs.match('dict.__setitem__(self, key, value)', e.a[0]) is not None or fs.match('super().__setitem__(key, value)', e.a[0]) is not None))
    bw = add('self._reverse', 'value', 'key')
    ck.every('reverse', fs, dict(f=fw, b=bw), lambda t: t.count('f') == t.count('b') == 1, 'an engine is found by its id and by its uuid')
    ck.every('reverse', fs, dict(r=lit('key in self._reverse')), lambda t: 'r' not in t, 'an id is not a uuid')
    fp = ck.F(RD + '.pop', cls=RD)
    V = 'any_of(dict.pop(self, key, *_), super().pop(key, *_))'
    ck.every('reverse', fp, dict(f=call(V), b=effect('reverse', lambda e: e.kind == 'remove' and fp.match('self._reverse', e.a[0]) is not None and fp.match(V, e.a[1]) is not None)), lambda t: t.count('f') == t.count('b') == 1, 'an engine that is gone is found by neither')
    for e, b in fp.find(ret()):
        ck.ok('reverse', fp.match(V, e.a[0]) is not None, e, 'what was known is returned')
    fg = ck.F(RD + '.__getitem__', cls=RD)
    vals = [e.a[0] for e, b in fg.find(ret())]
    F, B = 'any_of(dict.__getitem__(self, key), super().__getitem__(key), dict.get(self, key))', 'any_of(self._reverse[key])'
    ck.ok('reverse', vals and all(fg.match(F, x) is not None or fg.match(B, x) is not None for v in vals for x in leaves(fg, v)), fg, 'an engine is found by its id and by its uuid')
    ck.ok('reverse', any(fg.match(F, x) is not None for v in vals for x in leaves(fg, v)) and any(fg.match(B, x) is not None for v in vals for x in leaves(fg, v)), fg, 'an engine is found by its id and by its uuid')
    fd = ck.F(RD + '.get', cls=RD, opaque=('__getitem__',))
    vals = [x for e, b in fd.find(ret()) for x in leaves(fd, e.a[0])]
    ck.ok('reverse', vals and all(fd.match('any_of(self[key], self.__getitem__(key), default)', x) is not None for x in vals) and any(fd.match('default', x) is not None for x in vals), fd, 'what is not known has the default')
    ck.never('reverse', fd, raises('KeyError(*_)'), 'what is not known has the default')
    fi = ck.F(RD + '.__init__', cls=RD)
    ck.exists('reverse', fi, store('self._reverse'), 'there is a way back')


def targets(ck, names):
    fl = ck.F(CM + '_build_targets', opaque=names)
    IDS = 'any_of(self.ids, copyof(self._ids), self._ids[:], self._ids.copy())'
    none, nnone = lit('targets is None'), lit('targets is not None')
    n = {}
    isstr, isint, isall = lit('isinstance(targets, str)'), lit('isinstance(targets, int)'), _lit(lambda x: fl.match("'all' == any_of(targets.lower(), targets, targets.casefold())", x) is not None, True)
    notall = _lit(lambda x: fl.match("'all' == any_of(targets.lower(), targets, targets.casefold())", x) is not None, False)
    sl = _lit(lambda x: x.op == 'truth' and fl.match('isinstance(_, slice)', x.a[0]) is not None, True)
    there = _lit(lambda x: fl.match('_ in any_of(self._ids, self.ids, self._engines)', x) is not None, True)
    miss = _lit(lambda x: fl.match('_ in any_of(self._ids, self.ids, self._engines)', x) is not None, False)
    neg, pos = lit('targets < 0'), lit('targets >= 0')
    many = either_lit(fl, ('self._ids', 'self.ids', 'self._engines'), True)
    at = dict(none=none, str=isstr, all=isall, notall=notall, int=isint, sl=sl, there=there, miss=miss, neg=neg, pos=pos, many=many, noeng=raises('ipyparallel.error.NoEnginesRegistered(*_)'), te=raises('TypeError(*_)'), ie=raises('IndexError(*_)'))
    every = [y.a[0] if y.op == 'copy' and len(y.a) == 1 else y for e, b in fl.find(ret()) if e.a[0].op == 'tup' and len(e.a[0].a[0]) == 2 for x in leaves(fl, e.a[0].a[0][1]) for z in ([x.a[0]] if x.op == 'copy' and len(x.a) == 1 else [x]) for y in leaves(fl, z)]
    for t in fl.traces(at, retval=True):
        if t.end != 'return' or t.ret is None or sum(k in t for k in ('none', 'str', 'int', 'sl')) > 1 and not ('str' in t and 'none' in t and 'all' in t and 'int' not in t and 'sl' not in t):
            continue  # a value has one type
        ck.ok('targets', 'many' in t, fl, 'without engines there are no targets', path=t.path())
        v = t.ret
        if not ck.ok('targets', v.op == 'tup' and len(v.a[0]) == 2, fl, 'targets have idents and ids', path=t.path()):
            continue
        ident, ids = v.a[0]
        ids = ids.a[0] if ids.op == 'copy' and len(ids.a) == 1 else ids
        src, elt = mapped(fl, ident)
        ok = src is not None
        if src is not None and src.op == 'copy' and len(src.a) == 1:
            src = src.a[0]
        ck.ok('targets.idents', ok and (src is ids or same(fl, src, ids) or any(same(fl, x, y) for x in leaves(fl, src) for y in every)), fl, 'each target has its ident, in the same order', path=t.path())
        if ok:
            el = tm.elem(src)
            ck.ok('targets.idents', any(fl.match(p, x) is not None for x in [elt] for p in ('self._engines[_].encode(*_)', "ipyparallel.util.asbytes(self._engines[_])", 'bytes(self._engines[_], _)')) and tm.mentions(elt, lambda x: x.op in ('item', 'get') and (x.a[1] is el or x.a[1].op in ('elem', 'item'))), fl, 'the ident of a target is the uuid of its engine', path=t.path())
        live = any(x is not None and x.op == 'attr' and x.a[1] == '_ids' for x in (v.a[0][1], src))
        ck.ok('targets.moment', not live, fl, 'targets are those of one moment: ids are copied before they are looked up', path=t.path())
        kind = 'all' if 'str' in t else 'none' if 'none' in t else 'int' if 'int' in t else 'slice' if 'sl' in t else 'list'
        n[kind] = n.get(kind, 0) + 1
        if kind in ('none', 'all'):
            ck.ok('targets.all', fl.match(IDS, ids) is not None or fl.match('self._ids', ids) is not None, fl, 'all engines are all', path=t.path())
            ck.ok('targets.all', kind != 'all' or 'all' in t and 'notall' not in t, fl, 'a name is no target', path=t.path())
        elif kind == 'int':
            one = ids.op in ('alloc', 'tup')
            ck.ok('targets.one', one and 'there' in t and 'miss' not in t, fl, 'a single target is an engine that is there', path=t.path())
            els = ids.a[2] if ids.op == 'alloc' else ids.a[0] if ids.op == 'tup' else ()
            want = f'{IDS}[targets]' if 'neg' in t else 'targets'
            ck.ok('targets.one', len(els) == 1 and all(fl.match(want, x) is not None or fl.match(f'any_of(self.ids, self._ids)[targets]', x) is not None and 'neg' in t for x in els), fl, 'negative targets count from the end', path=t.path())
        elif kind == 'slice':
            ok = fl.match(f'{IDS}[targets]', ids) is not None or fl.match('self._ids[targets]', ids) is not None or ids.op == 'comp' and len(ids.a[3]) == 1 and not fl.comp_guards(ids) and fl.match('any_of(self.ids, self._ids, copyof(self._ids))[_]', ids.a[2]) is not None and fl.match('any_of(range(len(any_of(self.ids, self._ids, copyof(self._ids))))[targets], copyof(range(len(_))[targets]))', ids.a[3][0]) is not None and ids.a[2].a[1] is tm.elem(ids.a[3][0])
            ck.ok('targets.slice', ok, fl, 'a slice is one of the engines that are there', path=t.path())
        else:
            ck.ok('targets.list', fl.match('any_of(targets, copyof(targets))', ids) is not None, fl, 'targets are those that are given', path=t.path())
    for k in ('none', 'all', 'int', 'slice', 'list'):
        ck.ok('targets', n.get(k, 0) > 0, fl, f'targets can be given as {k}')
    ck.exists('targets', fl, at['noeng'], 'without engines there are no targets')
    for e, b in fl.find(at['noeng']):
        g = fl.guards()[e.node.id]
        ck.ok('targets', any(t.op == 'truth' and not p and fl.match('any_of(self.ids, self._ids)', t.a[0]) is not None for t, p in g), e, 'with engines there are targets')
    for e, b in fl.find(at['ie']):
        g = fl.guards()[e.node.id]
        ck.ok('targets.one', any(fl.match('_ in any_of(self._ids, self.ids, self._engines)', t) is not None and not p for t, p in g), e, 'an engine that is there is a target')
    fi = ck.F(CM + 'ids', opaque=names)
    for e, b in fi.find(ret()):
        ck.ok('targets.moment', all(x.op == 'copy' and fi.match('copyof(self._ids)', x) is not None or x.op != 'attr' and fi.match('any_of(self._ids[:], self._ids.copy())', x) is not None for x in leaves(fi, e.a[0])), e, 'ids do not change under who looks at them')


def mapped(fl, v):
    """What a list has an element for each of, and which."""
    if v.op == 'comp' and v.a[0] == 'list' and len(v.a[3]) == 1 and not fl.comp_guards(v):
        return v.a[3][0], v.a[2]
    if v.op == 'alloc' and v.a[1] == 'list' and not v.a[2]:
        es = [e for e in fl.all_effects() if e.kind == 'add' and e.a[0].op == 'alloc' and e.a[0].a[0] == v.a[0]]
        h = fl.loop_of(es[0].node) if len(es) == 1 and es[0].a[-1] == 'append' else None
        if h is not None and all(t.end in ('exc', 'raise') or t.end == 'stop' and t.count('a') == 1 for t in fl.body_traces(h, dict(a=is_eff(es[0])))):
            return fl.val(h, h.term), es[0].a[1]
    return None, None


def either_lit(fl, ps, pol):
    return _lit(lambda x: x.op == 'truth' and any(fl.match(p, x.a[0]) is not None or fl.match(f'len({p})', x.a[0]) is not None for p in ps), pol)


def views(ck, names):
    B = 'self._build_targets(targets)[1]'
    for m, cls, sock in (('direct_view', 'DirectView', '_mux_stream'), ('load_balanced_view', 'LoadBalancedView', '_task_stream'), ('broadcast_view', 'BroadcastView', '_broadcast_stream')):
        fl = ck.F(CM + m, opaque=names)
        V = f'ipyparallel.client.view.{cls}(*_, **_)'
        al, noal, none, some = lit("targets == 'all'"), lit("targets != 'all'"), lit('targets is None'), lit('targets is not None')
        isint, noint = lit('isinstance(targets, int)'), lit('not isinstance(targets, int)')
        at = dict(al=al, noal=noal, none=none, int=isint, noint=noint)
        n = 0
        for t in fl.traces(at, retval=True):
            if t.end != 'return' or t.ret is None:
                continue
            if 'al' in t and 'int' in t or 'none' in t and ('int' in t or 'al' in t):
                continue
            n += 1
            v = t.ret
            if not ck.ok('views', fl.match(V, v) is not None, fl, f'{m} gives a {cls}', path=t.path()):
                continue
            k = dict((x, y) for x, y in v.a[2] if x)
            ck.ok('views', fl.match('self', k.get('client', tm.NONE)) is not None and fl.match(f'self.{sock}', k.get('socket', tm.NONE)) is not None, fl, f'a {cls} sends with {sock}', path=t.path())
            ck.ok('views', any(x is None and fl.match('kwargs', y) is not None for x, y in v.a[2]), fl, 'what else was asked for is passed on', path=t.path())
            tg = k.get('targets', tm.NONE)
            if m == 'load_balanced_view':
                ok = tg is tm.NONE or 'al' not in t and fl.match('targets', tg) is not None if 'al' in t or 'none' in t else fl.match(B, tg) is not None
            elif m == 'direct_view':
                ok = (fl.match("any_of(targets, 'all')", tg) is not None) if 'al' in t else fl.match(B + '[0]', tg) is not None if 'int' in t else fl.match(B, tg) is not None and 'noint' in t
            else:
                ok = fl.match(B, tg) is not None
            ck.ok('views.targets', ok, fl, 'a view has the targets that were asked for, one if that is what was asked for, all if none were', path=t.path())
        ck.ok('views', n > 0, fl, f'{m} gives a {cls}')
        if m == 'broadcast_view':
            co = effect('coalescing', lambda e: e.kind == 'store' and e.a[1] == 'is_coalescing' and fl.match(V, e.a[0]) is not None and fl.match('is_coalescing', e.a[2]) is not None)
            passed = [e for e, b in fl.find(call(V)) if fl.match('is_coalescing', dict((x, y) for x, y in e.a[0].a[2] if x).get('is_coalescing', tm.NONE)) is not None]
            if not passed:
                ck.every('views', fl, dict(c=co), lambda t: t.count('c') == 1, 'replies are coalesced exactly when that is asked for')
    fe = ck.F(CM + 'executor', opaque=names)
    for e, b in fe.find(ret()):
        ck.ok('views', fe.match('any_of(self.load_balanced_view(targets), self.load_balanced_view(targets=targets)).executor', e.a[0]) is not None, e, 'an executor has the targets that were asked for')
    fn = ck.F(CM + '__len__', opaque=names)
    for e, b in fn.find(ret()):
        ck.ok('views', fn.match('any_of(len(self.ids), len(self._ids))', e.a[0]) is not None, e, 'the length is the number of engines')
    ft = ck.F(CM + '__iter__', opaque=names)
    ys = [e for e in ft.all_effects() if e.kind == 'yield']
    ck.ok('views', bool(ys), ft, 'engines can be iterated over')
    for e in ys:
        h = ft.loop_of(e.node)
        ck.ok('views', ft.match('any_of(self.direct_view(elem(_)), self[elem(_)])', e.a[0]) is not None and h is not None and iter_covers(ft, ft.val(h, h.term), 'self.ids', True), e, 'each engine has a view, in order')
    fg = ck.F(CM + '__getitem__', opaque=names)
    for e, b in fg.find(ret()):
        ck.ok('views', fg.match('any_of(self.direct_view(key), self.direct_view(targets=key))', e.a[0]) is not None, e, 'targets are those that are asked for')


def engines(ck, names):
    fl = ck.F(CM + 'wait_for_engines', opaque=names)
    ENOUGH = 'len(any_of(self.ids, self._ids, self)) < n'
    enough = lambda u=None: _lit(lambda x: fl.match(ENOUGH, u(x) if u else x) is not None, False)  # noqa: E731
    few = lambda u=None: _lit(lambda x: fl.match(ENOUGH, u(x) if u else x) is not None, True)  # noqa: E731
    block, nblock = lit('block'), lit('not block')
    # what is returned
    main = set()
    for e, b in fl.find(ret()):
        for x in leaves(fl, e.a[0]):
            if x.op == 'call' and x.a[0].op == 'attr' and x.a[0].a[1] == 'result':
                ck.ok('engines.wait', not x.a[1] and not [k for k in x.a[2] if k[0] != '@'], e, 'waiting ends when there are enough engines, or with an error')
                main.add(x.a[0].a[0])
            elif fl.match('any_of(concurrent.futures.Future(), ipyparallel.client.asyncresult.Future())', x) is not None:
                main.add(x)
            else:
                ck.ok('engines.wait', x is tm.NONE, e, 'a future or nothing')
    done0 = [x for x in main if any(e.kind == 'call' and fl.match('_.set_result(_)', e.a[0]) is not None and e.a[0].a[0].a[0] is x for e in fl.all_effects())]
    waits = [x for x in main if x not in done0] or list(main)
    if not ck.ok('engines.wait', len(waits) == 1, fl, 'there is something to wait for'):
        return
    F = waits[0]
    isF = lambda t, u: u(t) is F  # noqa: E731
    regs = [e for e in fl.all_effects() if e.kind == 'add' and fl.match('self._registration_callbacks', e.a[0]) is not None]
    at = dict(enough=enough(), few=few(), block=block, nblock=nblock, reg=effect('registered', lambda e: e in regs), wait=effect('wait', lambda e: e.kind == 'call' and e.a[0].a[0].op == 'attr' and e.a[0].a[0].a[1] == 'result' and e.a[0].a[0].a[0] is F), set=effect('resolved', lambda e: e.kind == 'call' and fl.match('_.set_result(None)', e.a[0]) is not None), now=lit('timeout >= 0'), loop=call('self._io_loop.add_callback(*_)'))
    for t in fl.traces(at, retval=True):
        if t.end != 'return':
            continue
        if 'few' not in t:
            ok = 'enough' in t and 'reg' not in t and 'wait' not in t and ('nblock' not in t or 'set' in t and t.ret in main and t.ret is not F) and ('block' not in t or t.ret is None or t.ret is tm.NONE)
            ck.ok('engines.now', ok, fl, 'nothing is waited for when there are enough engines', path=t.path())
        else:
            ck.ok('engines.wait', t.count('reg') == 1 and 'enough' not in t or t.count('reg') == 1, fl, 'who waits is told about engines', path=t.path())
            ck.ok('engines.wait', ('wait' in t) == ('block' in t) and ('block' not in t or t.before('reg', 'wait')), fl, 'waiting blocks exactly if asked to', path=t.path())
            ck.ok('engines.wait', 'block' in t or t.ret is F, fl, 'who does not block has a future', path=t.path())
    NS = tuple(names)
    funcs = []

    def get(rule, t):
        return closures(ck, fl, rule, [t], NS)

    def inner(rule, g, u, t):
        """A closure within a closure."""
        out = []
        x = t
        if x.op == 'free' or x.op == 'name':
            x = u(x)
            return [(h, (lambda y, w=w: w(y))) for h, w in closures(ck, fl, rule, [x], NS)]
        for h, w in closures(ck, g, rule, [x], NS):
            out.append((h, (lambda y, w=w: u(w(y)))))
        return out

    def notdone(g, u, e):
        return any(t.op == 'truth' and not p and fl.match('_.done()', u(t.a[0])) is not None and u(t.a[0]).a[0].a[0] is F for t, p in g.guards().get(e.node.id, ()))

    def settles(rule, g, u):
        """Everything that ends the waiting."""
        out = []
        for e in g.all_effects():
            if e.node.id in g.guards() and e.kind == 'call' and e.a[0].a[0].op == 'attr' and e.a[0].a[0].a[1] in ('set_result', 'set_exception') and isF(e.a[0].a[0].a[0], u):
                out.append(e)
                ck.ok('engines.once', notdone(g, u, e), e, 'waiting ends once')
                if e.a[0].a[0].a[1] == 'set_result':
                    ck.ok('engines.enough', any(fl.match(ENOUGH, u(t)) is not None and not p for t, p in g.guards().get(e.node.id, ())), e, 'waiting ends well only when there are enough engines')
        return out

    def sure(rule, g, u, cond, kinds, msg):
        """If the condition holds, and nothing ended the waiting before, it ends."""
        es = settles(rule, g, u)
        good = [e for e in es if any(k(e) for k in kinds)]
        at = dict(cond=cond(u), s=effect('ended', lambda e: e in good), done=_lit(lambda x: x.op == 'truth' and fl.match('_.done()', u(x.a[0])) is not None and u(x.a[0]).a[0].a[0] is F, True), few=few(u))
        seen = False
        for t in g.traces(at):
            if t.end == 'return' and 'cond' in t:
                seen = seen or 's' in t
                ck.ok(rule, 's' in t or 'done' in t, g, msg, path=t.path())
        ck.ok(rule, seen, g, msg)
        return good

    res = lambda e: e.a[0].a[0].a[1] == 'set_result' and fl.match('_.set_result(None)', e.a[0]) is not None  # noqa: E731
    exc = lambda p: lambda e: e.a[0].a[0].a[1] == 'set_exception' and fl.match(p, e.a[0].a[1][0]) is not None  # noqa: E731
    EE, TE = 'ipyparallel.error.EngineError(*_)', 'any_of(TimeoutError(*_), ipyparallel.error.TimeoutError(*_))'
    for e in regs:
        for g, u in get('engines.wait', e.a[1]):
            sure('engines.wait', g, u, lambda u: _lit(lambda x: fl.match(ENOUGH, u(x)) is not None, False), (res, exc(EE)), 'waiting ends as soon as there are enough engines')
            gone = _lit(lambda x: fl.match("'unregister' == any_of(_['event'], _.get('event', *_))", u(x)) is not None, True)
            sure('engines.lost', g, u, lambda u: gone, (exc(EE),), 'an engine that is gone ends the waiting with an error')
    # an engine may have registered in between
    again = []
    for e, b in fl.find(call('self._io_loop.add_callback(*_)')):
        again += [(e, g, u) for g, u in get('engines.again', e.a[0].a[1][0])]
    looks = [(e, g, u) for e, g, u in again if any(fl.match(ENOUGH, u(t)) is not None for n_ in g.order for t, p in g.guards().get(n_.id, ()))]
    direct = [e for e in fl.all_effects() if e.kind == 'call' and e.a[0].a[0].op in ('closure',) and any(e.a[0].a[0] is r.a[1] for r in regs)]
    if ck.ok('engines.again', bool(looks) or bool(direct), fl, 'engines that registered before are counted'):
        for e, g, u in looks[:1]:
            good = sure('engines.again', g, u, lambda u: _lit(lambda x: fl.match(ENOUGH, u(x)) is not None, False), (res,), 'engines that registered before are counted')
            at = dict(s=effect('ended', lambda e: e in good), done=_lit(lambda x: x.op == 'truth' and fl.match('_.done()', u(x.a[0])) is not None and u(x.a[0]).a[0].a[0] is F, True), few=_lit(lambda x: fl.match(ENOUGH, u(x)) is not None, True))
            for t in g.traces(at):
                ck.ok('engines.again', t.end != 'return' or 's' in t or 'done' in t or 'few' in t, g, 'engines that registered before are counted', path=t.path())
            for t in fl.traces(dict(reg=effect('registered', lambda x: x in regs), again=is_eff(e))):
                ck.ok('engines.again', t.end != 'return' or 'reg' not in t or 'again' in t and t.before('reg', 'again'), e, 'engines that registered before are counted', path=t.path())
    # timeouts
    sched = []
    for e, g, u in again:
        for x in g.all_effects():
            if x.kind == 'call' and x.a[0].a[0].op == 'attr' and x.a[0].a[0].a[1] in ('add_timeout', 'call_at', 'call_later'):
                sched.append((e, g, u, x))
    ck.never('engines.thread', fl, call('self._io_loop.add_timeout(*_)'), 'timeouts are set in the thread of the loop')
    ck.never('engines.thread', fl, call('self._io_loop.call_later(*_)'), 'timeouts are set in the thread of the loop')
    if ck.ok('engines.timeout', len(sched) >= 1, fl, 'waiting does not take longer than asked for'):
        for e, g, u, x in sched:
            a = x.a[0].a[1]
            when = u(a[0])
            later = x.a[0].a[0].a[1] == 'call_later'
            ck.ok('engines.timeout', fl.match('timeout' if later else '(self._io_loop.time() + timeout)', when) is not None, x, 'waiting takes as long as asked for')
            for h, w in inner('engines.timeout', g, u, a[1]):
                sure('engines.timeout', h, w, lambda w: _lit(lambda y: fl.match(ENOUGH, w(y)) is not None, True), (exc(TE),), 'waiting for too long is an error')
                sure('engines.timeout', h, w, lambda w: _lit(lambda y: fl.match(ENOUGH, w(y)) is not None, False), (res,), 'waiting for too long is no error if there are enough engines')
            for t in fl.traces(dict(s=is_eff(e), yes=lit('timeout >= 0'), no=lit('timeout < 0'), reg=effect('registered', lambda x: x in regs))):
                ck.ok('engines.timeout', t.end != 'return' or 'reg' not in t or ('s' in t) == ('yes' in t and 'no' not in t) or ('s' in t) == ('no' not in t), e, 'there is a timeout if one is asked for', path=t.path())
    # nothing is left behind
    dones = [(e, g, u) for e in fl.all_effects() if e.kind == 'call' and e.a[0].a[0].op == 'attr' and e.a[0].a[0].a[1] == 'add_done_callback' and e.a[0].a[0].a[0] is F for g, u in get('engines.cleanup', e.a[0].a[1][0])]
    clean = [1 for e, g, u in dones for x in g.all_effects() if x.kind == 'remove' and fl.match('self._registration_callbacks', u(x.a[0])) is not None and any(u(x.a[1]) is r.a[1] or str(u(x.a[1])) == str(r.a[1]) for r in regs)]
    ck.ok('engines.cleanup', bool(clean), fl, 'who does not wait any more is not told')
    # engine sets that stop
    stops = [e for e in fl.all_effects() if e.kind == 'call' and e.a[0].a[0].op == 'attr' and e.a[0].a[0].a[1] == 'on_stop']
    ck.ok('engines.stopped', bool(stops), fl, 'engines that stop end the waiting')
    for e in stops:
        h = fl.loop_of(e.node)
        ck.ok('engines.stopped', h is not None and iter_covers(fl, fl.val(h, h.term), 'self.cluster.engines'), e, 'all sets of engines are watched')
        for g, u in get('engines.stopped', e.a[0].a[1][0]):
            via = [x for x in g.all_effects() if x.kind == 'call' and x.a[0].a[0].op == 'attr' and x.a[0].a[0].a[1] == 'set_result']
            if settles('engines.stopped', g, u):
                continue
            ok = False
            for x in via:
                other = u(x.a[0].a[0].a[0])
                for y in fl.all_effects():
                    if y.kind == 'call' and y.a[0].a[0].op == 'attr' and y.a[0].a[0].a[1] == 'add_done_callback' and y.a[0].a[0].a[0] is other:
                        for g2, u2 in get('engines.stopped', y.a[0].a[1][0]):
                            ok = ok or any(exc(EE)(z) for z in settles('engines.stopped', g2, u2))
            ck.ok('engines.stopped', ok, e, 'engines that stop end the waiting with an error')
    # how many
    for t in fl.traces(dict(none=lit('n is None'), nocl=lit('self.cluster is None'), te=raises('TypeError(*_)'))):
        ck.ok('engines.number', t.end != 'return' or not ('none' in t and 'nocl' in t), fl, 'how many engines to wait for is known', path=t.path())
    ns = [v for v in fl.phi_ops if v.op == 'phi' and any(fl.match('n', x) is not None and x.op == 'param' for _, x in fl.phi_ops[v])]
    for n, has, cl, want in [(n, h, c, w) for n, c, w in ((0, 4, 0), (2, 4, 2), (3, 0, 3), (None, 4, 4), (0, 0, 0)) for h in range(6)]:
        leaf = fold.leaves(fl, [('n', n), ('any_of(self.ids, self._ids)', list(range(has))), ('any_of(len(self.ids), len(self._ids))', has), ('self.cluster.n', cl), ('self.cluster', fold.Rec(n=cl)), ('block', False)])
        for t in fl.traces(dict(reg=effect('registered', lambda x: x in regs), te=raises('TypeError(*_)')), world=fold.literal(leaf)):
            ck.ok('engines.number', 'te' not in t and (t.end != 'return' or ('reg' in t) == (has < want)), fl, f'{want} engines are waited for when {n} are asked for, of a cluster of {cl}, and there are {has}', path=t.path())
    for v in ns:
        for x in leaves(fl, v):
            ok = x.op == 'param' or fl.match('self.cluster.n', x) is not None or fl.match('sum(_)', x) is not None and tm.mentions(x, lambda y: y.op == 'comp' and y.a[2].op == 'attr' and y.a[2].a[1] == 'n' and iter_covers(fl, y.a[3][0], 'self.cluster.engines') and not fl.comp_guards(y)) or x is tm.NONE
            ck.ok('engines.number', ok, fl, f'the number of engines is that of the cluster, not {x}')


def connecting(ck, names):
    fl = ck.F(CM + '_connect', opaque=names)
    cfg = 'self._config'
    for s, k in SOCKETS.items():
        con = effect(f'connect {s}', lambda e, s=s: e.kind == 'call' and (fl.match(f'self.{s}.connect(_)', e.a[0]) is not None or fl.match(f'ipyparallel.util.connect(self.{s}, *_, **_)', e.a[0]) is not None or fl.match(f'zmq.ssh.tunnel.tunnel_connection(self.{s}, *_, **_)', e.a[0]) is not None))
        es = fl.find(con)
        ck.ok('connect', bool(es), fl, f'{s} is connected')
        for e, b in es:
            a = e.a[0].a[1]
            url = a[0] if len(a) == 1 else a[1]
            ck.ok('connect', fl.match(f"{cfg}['{k}']", url) is not None, e, f'{s} is connected to the {k} channel')
        ck.every('connect', fl, dict(c=con, was=lit('self._connected')), lambda t: t.count('c') == 1 or 'was' in t and not t.count('c'), f'{s} is connected once')
        mk = [e for e in fl.all_effects() if e.kind == 'store' and e.a[1] == s]
        want = 'SUB' if k in ('notification', 'iopub') else 'DEALER'
        ck.ok('connect', len(mk) == 1 and fl.match(f'_.socket(zmq.{want})', mk[0].a[2]) is not None, fl, f'{s} is a {want}')
        if want == 'SUB':
            at = dict(sub=effect('subscribe', lambda e, s=s: e.kind == 'call' and (fl.match(f"self.{s}.setsockopt(zmq.SUBSCRIBE, b'')", e.a[0]) is not None or fl.match(f"self.{s}.subscribe(b'')", e.a[0]) is not None)), hwm=effect('no limit', lambda e, s=s: e.kind == 'store' and fl.match(f'self.{s}', e.a[0]) is not None and e.a[1] in ('RCVHWM', 'rcvhwm', 'hwm', 'HWM') and e.a[2] is tm.const(0) or e.kind == 'call' and (fl.match(f'self.{s}.setsockopt(zmq.RCVHWM, 0)', e.a[0]) is not None or fl.match(f'self.{s}.set_hwm(0)', e.a[0]) is not None)), c=con, was=lit('self._connected'))
            ck.every('connect.all', fl, at, lambda t: 'was' in t and 'c' not in t or t.count('sub') == 1 and t.before('sub', 'c') and t.before('hwm', 'c'), f'nothing that {s} is sent is lost')
    U, T = 'self._update_engines(_)', 'self._start_io_thread()'
    REPLY = 'self.session.recv(self._query_socket, *_, **_)'
    ok = f"{REPLY}[1]['content']['status']"
    at = dict(u=call(U), t=call(T), good=lit(f"{ok} == 'ok'"), bad=lit(f"{ok} != 'ok'"), was=lit('self._connected'), q=call("self.session.send(self._query_socket, 'connection_request', *_, **_)"), none=_lit(lambda x: x.op == 'truth' and fl.match('_.poll(*_)', x.a[0]) is not None, False), r=call(REPLY), con=store('self._connected', 'True'), dis=store('self._connected', 'False'))
    for t in fl.traces(at):
        if t.end == 'return':
            good = 'was' in t and 'q' not in t and 't' not in t or t.count('q') == t.count('r') == t.count('u') == t.count('t') == 1 and 'good' in t and 'bad' not in t and 'none' not in t and t.before('u', 't') and 'con' in t
            ck.ok('connect.reply', good, fl, 'a client is connected when the hub has answered, and knows the engines before it hears about changes', path=t.path())
        elif t.end == 'raise':
            ck.ok('connect.reply', 't' not in t, fl, 'what the hub refuses is an error', path=t.path())
    for e, b in fl.find(call(U)):
        v = e.a[0].a[1][0]
        ck.ok('connect.reply', fl.match(f"any_of({REPLY}[1]['content']['engines'], copyof({REPLY}[1]['content']['engines']))", v) is not None, e, 'the engines are those that the hub knows')
    for e, b in fl.find(call('_.poll(*_)')):
        a = e.a[0].a[1]
        ck.ok('connect.reply', bool(a) and fl.match('any_of((timeout * 1000), int((timeout * 1000)))', a[0]) is not None, e, 'the hub is waited for as long as asked for: in milliseconds')
    fi = ck.F(CM + '__init__', opaque=names)
    connect.client(connect.Only(ck, 'client.urls', 'client.session', 'client.given', 'client.kept'))
    CON = call('self._connect(*_, **_)')
    hs = fi.find(CON)
    ck.ok('connect.failed', len(hs) == 1, fi, 'a client connects once')
    for e, b in hs:
        to = broad_handlers(fi, e.node)
        ck.ok('connect.failed', bool(to), e, 'a client that could not connect leaves nothing behind')
        for h in to:
            for t in fi.traces(dict(x=call('self.close(*_, **_)')), start=h):
                ck.ok('connect.failed', t.count('x') == 1 and t.end in ('raise', 'exc'), e, 'a client that could not connect leaves nothing behind, and says so', path=t.path())


def closing(ck, names):
    fl = ck.F(CM + 'close', opaque=names)
    cl = [e for e in fl.all_effects() if e.kind == 'call' and e.a[0].a[0].op == 'attr' and e.a[0].a[0].a[1] == 'close' and fl.loop_of(e.node) is not None]
    at = dict(was=lit('self._closed'), stop=call('self._stop_io_thread()'), done=store('self._closed', 'True'), c=effect('sockets', lambda e: e in cl))
    for t in fl.traces(at):
        if t.end == 'return':
            ck.ok('close', 'was' in t and not t.count('stop') and not t.count('done') or t.count('stop') == t.count('done') == 1, fl, 'a client is closed once', path=t.path())
        ck.ok('close', 'c' not in t or t.before('stop', 'c'), fl, 'sockets are not closed while they are used', path=t.path())
    ck.ok('close', bool(cl), fl, 'all sockets are closed')
    hs = {fl.loop_of(e.node) for e in cl}
    suffix = None
    for h in hs:
        it = fl.val(h, h.term)
        src = [x for x in leaves(fl, it)]
        for x in src:
            if x.op == 'comp' and len(x.a[3]) == 1:
                g = list(fl.comp_guards(x))
                ck.ok('close', fl.match('any_of(self.trait_names(), self.traits())', x.a[3][0]) is not None and len(g) == 1 and g[0][1] and fl.match("elem(_).endswith('socket')", g[0][0].a[0]) is not None, fl, 'all sockets are closed')
                suffix = 'socket'
        other = _lit(lambda x: x.op == 'truth' and fl.match("elem(any_of(self.trait_names(), self.traits())).endswith('socket')", x.a[0]) is not None, False)
        shut = _lit(lambda x: x.op == 'truth' and fl.match('any_of(getattr(self, elem(_)).closed, _.closed)', x.a[0]) is not None, True)
        gone = _lit(lambda x: fl.match('getattr(self, _) is None', x) is not None, True)
        for t in fl.body_traces(h, dict(c=effect('close', lambda e: e in cl), shut=shut, gone=gone, other=other)):
            suffix = 'socket' if 'other' in t else suffix
            ck.ok('close', t.end not in ('stop', 'return') or t.end == 'stop' and (t.count('c') == 1) == ('shut' not in t and 'gone' not in t and 'other' not in t), fl, 'all sockets are closed', path=t.path())
    if suffix:
        for m in ('__init__', '_connect'):
            f = ck.F(CM + m, opaque=names)
            for e in f.all_effects():
                if e.kind == 'store' and f.match('self', e.a[0]) is not None and isinstance(e.a[2], tm.T) and f.match('_.socket(*_)', e.a[2]) is not None:
                    traits = {t.id for n in ck.repo.cls(C).node.body if isinstance(n, (ast.Assign, ast.AnnAssign)) for t in (n.targets if isinstance(n, ast.Assign) else [n.target]) if isinstance(t, ast.Name)}
                    ck.ok('close', e.a[1].endswith(suffix) and e.a[1] in traits, e, f'{e.a[1]} is closed with the others')
    fs = ck.F(CM + '_stop_io_thread', opaque=names)
    for t in fs.traces(dict(j=call('self._io_thread.join(*_)'), here=_lit(lambda x: fs.match('self._io_thread is threading.current_thread()', x) is not None or fs.match('threading.current_thread() is self._io_thread', x) is not None or fs.match('threading.get_ident() == self._io_thread.ident', x) is not None, True), no=_lit(lambda x: fs.match('self._io_thread', x.a[0] if x.op in ('truth',) else tm.NONE) is not None, False), nol=_lit(lambda x: x.op == 'truth' and fs.match('self._io_loop', x.a[0]) is not None, False), s=either_call(fs, ('self._io_loop.add_callback(self._io_loop.stop)', 'self._io_loop.add_callback_from_signal(self._io_loop.stop)')))):
        if t.end == 'return':
            ck.ok('close.thread', ('j' in t) == ('here' not in t and 'no' not in t), fs, 'the thread has ended, unless it is this one', path=t.path())
            ck.ok('close.thread', ('s' in t) == ('nol' not in t), fs, 'the loop ends', path=t.path())
            ck.ok('close.thread', 'j' not in t or 's' not in t or t.before('s', 'j'), fs, 'the loop ends', path=t.path())
    fm = ck.F(CM + '_io_main', opaque=names)
    EV = effect('ready', lambda e: e.kind == 'call' and fm.match('start_evt.set()', e.a[0]) is not None)
    at = dict(l=store('self._io_loop'), s=call('self._setup_streams()'), e=EV, r=call('self._io_loop.start()'), no=lit('not start_evt'), none=lit('start_evt is None'))
    ck.every('io', fm, at, lambda t: t.count('l') == t.count('s') == t.count('r') == 1 and t.before('l', 's') and t.before('s', 'r') and ('e' in t or 'no' in t or 'none' in t) and ('e' not in t or t.before('s', 'e') and t.before('e', 'r')), 'streams are there when the loop runs and before anybody uses them')
    ft = ck.F(CM + '_start_io_thread', opaque=names)
    at = dict(t=store('self._io_thread'), d=effect('daemon', lambda e: e.kind == 'store' and e.a[1] == 'daemon' and e.a[2] is tm.const(True) or e.kind == 'call' and dict((a, b) for a, b in e.a[0].a[2] if a).get('daemon') is tm.const(True)), s=call('self._io_thread.start()'), yes=_lit(lambda x: x.op == 'truth' and ft.match('any_of(_.wait(*_), _.is_set())', x.a[0]) is not None, True), up=either_call(ft, ()))
    for t in ft.traces(at):
        if t.end == 'return':
            ck.ok('io', t.count('s') == 1 and 'yes' in t and 'd' in t and t.before('d', 's') and t.before('s', 'yes'), ft, 'a client is used when its thread runs, which does not keep the process alive', path=t.path())
    ths = [e for e in ft.all_effects() if e.kind == 'store' and e.a[1] == '_io_thread']
    for e in ths:
        kw = dict((a, b) for a, b in e.a[2].a[2] if a) if e.a[2].op == 'call' else {}
        ck.ok('io', ft.match('self._io_main', kw.get('target', tm.NONE)) is not None and 'args' in kw, e, 'the thread runs the loop')


def either_call(fl, ps):
    return effect('/'.join(ps), lambda e: e.kind == 'call' and any(fl.match(p, e.a[0]) is not None for p in ps))
