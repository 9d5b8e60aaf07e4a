"""Serialization: what arrives is what was sent."""

import ast

from ipa import terms as tm
from ipa.terms import pat

from .client import _lit, effect, leaves
from .common import add, argof, call, contained, covers, dict_sources, either, enclosing, is_eff, iter_covers, lit, prop, remove, store
from .result import listing, rets

S = 'serialize.serialize:'
K = 'serialize.canning:'
SER = 'any_of(ipyparallel.serialize.serialize.serialize_object, ipyparallel.serialize.serialize_object)'
KINDS = ('list', 'tuple', 'set', 'dict')


@prop('C07', 60)
def c07(ck):
    names = tuple(x for x in sorted(set(ck.fnames('serialize.serialize')) | set(ck.fnames('serialize.canning'))) if x not in ('_nbytes', '_has_canned'))
    buffers(ck)
    packing(ck, names)
    messages(ck, names)
    canning(ck, names)
    functions(ck, names)
    arrays(ck, names)
    partials(ck, names)
    others(ck, names)
    maps(ck, names)
    libraries(ck, names)
    interactive(ck)
    dependents(ck)


def bare(t):
    while t.op == 'copy' and len(t.a) == 1:
        t = t.a[0]
    return t


def kinds_of(ck, t):
    """The names of the types that t stands for."""
    if t.op == 'glob':
        mod, _, n = t.a[0].rpartition('.')
        for m in ck.repo.modules.values():
            if n in m.globals and (mod.endswith(m.name) or m.name.endswith(mod) and mod):
                v = m.globals[n]
                if isinstance(v, (ast.Tuple, ast.List, ast.Set)):
                    return {ast.unparse(x).rsplit('.', 1)[-1] for x in v.elts}
        return {n or t.a[0]}
    if t.op == 'alloc':
        return {k for x in t.a[2] for k in kinds_of(ck, x)}
    if t.op in ('star', 'copy'):
        return kinds_of(ck, t.a[0])
    if t.op == 'bin' and t.a[0] == '+':
        return kinds_of(ck, t.a[1]) | kinds_of(ck, t.a[2])
    if t.op in ('tup', 'tuple'):
        return {k for x in t.a[0] for k in kinds_of(ck, x)}
    return {str(t).rsplit('.', 1)[-1]}


def excludes(ck, fl, subject, kind):
    """It is known that the subject is not of this kind."""

    def test(e):
        if e.kind != 'lit':
            return None
        t, p = e.a
        if t.op == 'truth':
            t = t.a[0]
        if t.op == 'call' and len(t.a[1]) == 2 and str(t.a[0]).rsplit('.', 1)[-1] in ('istype', 'isinstance') and subject(t.a[1][0]):
            return (kind in kinds_of(ck, t.a[1][1])) != p
        if t.op == 'cmp' and t.a[0] in ('is', '==', 'in'):
            for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if x.op == 'call' and x.a[0].op == 'glob' and x.a[0].a[0] == 'type' and len(x.a[1]) == 1 and subject(x.a[1][0]):
                    return (kind in kinds_of(ck, y)) != p
        return None

    f = effect(f'not a {kind}', lambda e: test(e) is True)
    f.lit = True
    return f


# -- buffers --------------------------------------------------------------


def buffers(ck):
    B = 'obj.buffers'
    fx = ck.F(S + '_extract_buffers')
    fr = ck.F(S + '_restore_buffers')
    for fl in (fx, fr):
        hs = [h for h in fl.order if h.kind == 'loop' and h.term is not None and covers(fl, h, B)]
        ok = ck.ok('buffers', bool(hs) and all(covers(fl, h, B, True) for h in hs), fl, 'all buffers are visited, in order')
        if not ok:
            return
    big = _lit(lambda t: t.op == 'cmp' and t.a[0] in ('<', '<=') and (fx.match('threshold', t.a[1]) is not None))
    at = dict(big=big, small=_lit(lambda t: t.op == 'cmp' and t.a[0] in ('<', '<=') and fx.match('threshold', t.a[1]) is not None, False),
              none=add(B, f'idx({B})', 'None'), out=effect('a buffer is sent apart', lambda e: e.kind == 'add' and e.a[0].op == 'alloc' and e.a[-1] == 'append' and fx.match(f'elem({B})', e.a[1]) is not None),
              oth=effect('other', lambda e: e.kind == 'add' and fx.match(B, e.a[0]) is not None and not (fx.match(f'any_of(elem({B}), elem({B}).tobytes(), bytes(elem({B})), None)', e.a[2]) is not None and fx.match(f'idx({B})', e.a[1]) is not None)))
    for h in [h for h in fx.order if h.kind == 'loop' and h.term is not None and covers(fx, h, B)]:
        for t in fx.body_traces(h, at):
            ck.ok('buffers.extract', t.end == 'stop' and t.count('none') == t.count('out') <= 1 and 'oth' not in t, fx, 'a buffer is either sent apart or stays', path=t.path())
    outs = [e.a[0] for e, _ in fx.find(at['out'])]
    for t in rets(fx, at):
        ck.ok('buffers.extract', any(bare(t.ret) is o for o in outs), fx, 'buffers that were taken out are sent', path=t.path())
    can = either(lit('not isinstance(obj, _)'), lit('not obj.buffers'))
    done = effect('', lambda e: e.kind == 'done' and covers(fr, e.node, B))
    done.edge = True
    for t in rets(fr, dict(no=can, done=done)):
        ck.ok('buffers.restore', 'no' in t or 'done' in t, fr, 'buffers that were taken out are put back', path=t.path())
    gone, there = either(lit(f'elem({B}) is None')), either(lit(f'elem({B}) is not None'))
    POP = 'any_of(buffers[0], buffers.pop(0), buffers.popleft())'
    at = dict(gone=gone, there=there, pop=remove('buffers', '0'), put=effect('put back', lambda e: e.kind == 'add' and fr.match(B, e.a[0]) is not None and fr.match(f'idx({B})', e.a[1]) is not None and fr.match(POP, e.a[2]) is not None), oth=effect('other', lambda e: e.kind == 'add' and fr.match(B, e.a[0]) is not None and fr.match(POP, e.a[2]) is None), opop=effect('', lambda e: e.kind == 'remove' and fr.match('buffers', e.a[0]) is not None and fr.match('0', e.a[1]) is None))
    for h in [h for h in fr.order if h.kind == 'loop' and h.term is not None and covers(fr, h, B)]:
        for t in fr.body_traces(h, at):
            n = 1 if 'gone' in t else 0
            ck.ok('buffers.restore', t.end == 'stop' and t.count('pop') == t.count('put') == n and 'oth' not in t and 'opop' not in t and ('gone' in t or 'there' in t), fr, 'buffers are put back where they were, in order', path=t.path())


def packing(ck, names):
    fl = ck.F(S + 'serialize_object', opaque=names)
    de = ck.F(S + 'deserialize_object', opaque=names)
    DUMPS = 'any_of(pickle.dumps(*_), ipyparallel.serialize.serialize.pickle.dumps(*_))'
    EXT = 'ipyparallel.serialize.serialize._extract_buffers(*_)'
    CAN = 'any_of(ipyparallel.serialize.canning.can(_), ipyparallel.serialize.can(_))'
    subject = lambda t: fl.match('obj', t) is not None
    dumps = fl.find(call(DUMPS))
    exts = fl.find(call(EXT))
    if not ck.ok('pack', bool(dumps) and bool(exts), fl, 'objects are pickled, but for their buffers'):
        return
    pre = either(lit('isinstance(obj, ipyparallel.serialize.serialize.PrePickled)'))
    big = _lit(lambda t: t.op == 'cmp' and t.a[0] in ('<', '<=') and fl.match('len(obj)', t.a[1]) is not None and fl.match('item_threshold', t.a[2]) is not None, False)
    at = dict(pre=pre, big=big, dump=call(DUMPS), ext=call(EXT))
    for k in KINDS:
        at['no_' + k] = excludes(ck, fl, subject, k)

    def canned_seq(y):
        y = bare(y)
        return fl.match('any_of(ipyparallel.serialize.canning.can_sequence(obj))', y) is not None or y.op == 'call' and len(y.a[1]) == 1 and fl.match('type(obj)', y.a[0]) is not None and listing(fl, y.a[1][0], 'ipyparallel.serialize.canning.can(elem(obj))', 'obj')

    def canned_dict(y):
        y = bare(y)
        if fl.match('any_of(ipyparallel.serialize.canning.can_dict(obj))', y) is not None:
            return True
        if y.op not in ('alloc', 'comp'):
            return False
        src = dict_sources(fl, y)
        if not src or not all(k is not None and fl.match('any_of(elem(obj), elem(_))', k) is not None and fl.match('any_of(ipyparallel.serialize.canning.can(obj[elem(obj)]))', v) is not None for k, v, it in src):
            return False
        return True

    # what is extracted, and where from
    loops = {}
    single = set()
    R, top = set(), set()
    for t in rets(fl, at):
        if 'pre' in t:
            ck.ok('pack.prepickled', bare(t.ret) is not t.ret and fl.match('obj.buffers', bare(t.ret)) is not None or fl.match('any_of(copyof(obj.buffers), obj.buffers[:], obj.buffers.copy())', t.ret) is not None, fl, 'what was pickled before can be sent any number of times', path=t.path())
        else:
            todo = [bare(t.ret)]
            while todo:
                r = todo.pop()
                R.add(r)
                if r.op == 'bin' and r.a[0] == '+':
                    todo.append(bare(r.a[2]))
                elif r.op == 'alloc':
                    todo += [bare(x.a[0]) for x in r.a[2] if isinstance(x, tm.T) and x.op == 'star']
            top.add(bare(t.ret))
    for e, _ in exts:
        c = e.a[0].a[1][0]
        h = fl.loop_of(e.node)
        th = argof(e.a[0], 1, 'threshold')
        ck.ok('pack.threshold', th is not None and fl.match('buffer_threshold', th) is not None, e, 'buffers are sent apart from the size that was asked for')
        if h is None or h.term is None:
            single.add(c)
            ck.ok('pack', all(fl.match(CAN, x) is not None for x in leaves(fl, c)), e, 'buffers are taken out of what is pickled')
        else:
            it = fl.val(h, h.term)
            seq = c.op == 'elem' and canned_seq(c.a[0])
            if seq:
                ck.ok('pack.order', _ordered(it, c.a[0]), e, 'buffers are taken out in the order of the elements')
            else:
                # values of a dict
                ok = fl.match('any_of(ipyparallel.serialize.canning.can(obj[elem(obj)]))', c) is not None and covers(fl, h, 'obj', True)
                if not ok and c.op == 'item':
                    ok = canned_dict(c.a[0]) and _ordered(it, c.a[0])
                if not ok:
                    ck.ok('pack.order', not (fl.match('any_of(ipyparallel.serialize.canning.can(obj[elem(obj)]))', c) is not None and covers(fl, h, 'obj')), e, 'keys of a dict are not compared with each other')
                ck.ok('pack.order', ok, e, 'buffers are taken out of what is pickled, in the order of the elements')
            loops[h.id] = (h, seq)
            out = effect('sent', lambda x, e=e: _sends(x, e.a[0], R))
            for t in fl.body_traces(h, dict(e=is_eff(e), o=out, d=effect('kept', lambda x: x.kind == 'add' and x.a[-1] == 'key' and x.a[2] is c))):
                ck.ok('pack', t.end == 'stop' and t.count('e') == 1 and t.count('d') <= 1, e, 'buffers of each element are taken out', path=t.path())
    nout = {}
    for e, _ in exts:
        sends = [x for x in fl.all_effects() if _sends(x, e.a[0], R)]
        ck.ok('pack', len(sends) >= 1, e, 'buffers that were taken out are sent, in order')
        nout[id(e)] = sends
    dones = {}
    for i, (h, seq) in loops.items():
        d = effect('', lambda e, h=h: e.kind == 'done' and e.node is h)
        d.edge = True
        at[f'done{i}'] = d
        dones[f'done{i}'] = seq
    allsends = [x for v in nout.values() for x in v]
    at['out'] = effect('sent', lambda x: x in allsends)
    at['one'] = effect('', lambda e: e.kind == 'call' and any(e is x for x, _ in exts) and e.a[0].a[1][0] in single)
    first = effect('first', lambda x: x.kind == 'add' and x.a[-1] == 'insert' and fl.match(DUMPS, x.a[1]) is not None and x.a[2] is tm.const(0))
    at['first'] = first

    for nm, test in (('pseq', canned_seq), ('pdict', canned_dict), ('pone', lambda y: fl.match(CAN, y) is not None), ('praw', lambda y: fl.match('obj', bare(y)) is not None)):
        at[nm] = _given(DUMPS, 0, test)
    for t in fl.traces(at):
        if t.end != 'return' or 'pre' in t:
            continue
        may = {k for k in KINDS if f'no_{k}' not in t}
        ck.ok('pack', t.count('dump') == 1, fl, 'an object is pickled once', path=t.path())
        seqs = [i for i, s in dones.items() if i in t and s]
        dicts = [i for i, s in dones.items() if i in t and not s]
        L = list(t.atoms)
        for x in ('one', *dones):
            ck.ok('pack.before', x not in t or L.index('dump') > max(i for i, y in enumerate(L) if y == x), fl, 'buffers are taken out before the object is pickled', path=t.path())
        if 'pseq' in t:
            ck.ok('pack.kind', not dicts and 'one' not in t, fl, 'buffers are taken out of what is pickled', path=t.path())
            ck.ok('pack.set', not seqs or 'set' not in may, fl, 'sets come in a different order: their elements keep their buffers', path=t.path())
        elif 'pdict' in t:
            ck.ok('pack.kind', not seqs and 'one' not in t, fl, 'buffers are taken out of what is pickled', path=t.path())
        elif 'pone' in t:
            ck.ok('pack.kind', not seqs and not dicts, fl, 'buffers are taken out of what is pickled', path=t.path())
            ck.ok('pack.kind', not may or 'big' in t, fl, 'elements of containers are canned', path=t.path())
        else:
            ck.ok('pack.kind', False, fl, 'what is pickled can be pickled', path=t.path())
    for r in top:
        ins = [e for e in fl.all_effects() if first(e, fl.alts, {}) is not None and bare(e.a[0]) is r]
        lead = r.op == 'alloc' and r.a[2] and fl.match(DUMPS, r.a[2][0]) is not None
        cat = r.op == 'bin' and r.a[0] == '+' and r.a[1].op == 'alloc' and len(r.a[1].a[2]) == 1 and fl.match(DUMPS, r.a[1].a[2][0]) is not None
        ck.ok('pack.first', bool(ins) or lead or cat, fl, 'the object comes first, then its buffers')
        for e in ins:
            L = [x for x in fl.all_effects() if _sends(x, None, {r})]
            for t in fl.traces(dict(f=is_eff(e), o=effect('', lambda x: x in L))):
                if t.end == 'return' and 'f' in t:
                    ck.ok('pack.first', t.count('f') == 1, e, 'the object comes first, then its buffers', path=t.path())
    pp = ck.F(S + 'PrePickled.__init__', opaque=names)
    ck.every('pack.prepickled', pp, dict(s=store('self.buffers', f'{SER}(obj)')), lambda t: t.end != 'return' or t.count('s') == 1, 'an object is pickled beforehand')
    restoring(ck, de)


def _ordered(it, c):
    """it goes through c in order."""
    it = bare(it)
    if it.op == 'call' and it.a[0].op == 'attr' and it.a[0].a[1] in ('values', 'items', 'keys') and not it.a[1]:
        it = bare(it.a[0].a[0])
    if it.op == 'call' and it.a[0].op == 'glob' and it.a[0].a[0] in ('iter', 'enumerate') and it.a[1]:
        it = bare(it.a[1][0])
    return it is bare(c)


def _sends(x, src, R):
    """All of what src gives is appended to the message."""
    if x.kind != 'add' or bare(x.a[0]) not in R:
        return False
    v = x.a[1]
    if x.a[-1] in ('all', 'append') and v.op == 'elem':
        return src is None or bare(v.a[0]) is src
    return False


def _given(cp, i, test):
    def f(e, a, b):
        if e.kind != 'call' or pat(cp).match(e.a[0], a) is None or len(e.a[0].a[1]) <= i:
            return None
        v = e.a[0].a[1][i]
        return {} if any(test(y) for y in (a(v) if v.op == 'phi' else [v]) if y.op != 'phi') else None

    f.desc = 'given'
    return f


def restoring(ck, de):
    L = 'any_of(pickle.loads(_), ipyparallel.serialize.serialize.pickle.loads(_))'
    loads = [e for e, _ in de.find(call(L))]
    if not ck.ok('unpack', len({e.a[0] for e in loads}) == 1, de, 'the object is unpickled'):
        return
    obj = loads[0].a[0]
    src = obj.a[1][0]
    ck.ok('unpack.first', de.match('any_of(buffers[0], copyof(buffers)[0], copyof(buffers).pop(0))', src) is not None, loads[0], 'the object comes first, then its buffers')
    own = lambda t: t is obj
    RES = 'ipyparallel.serialize.serialize._restore_buffers(*_)'
    res = [e for e, _ in de.find(call(RES))]
    if not ck.ok('unpack', bool(res), de, 'buffers are put back'):
        return
    at = {'no_' + k: excludes(ck, de, own, k) for k in KINDS}
    rest = {e.a[0].a[1][1] for e in res if len(e.a[0].a[1]) > 1}
    ck.ok('unpack.rest', len(rest) == 1, de, 'all buffers are taken from the same list')

    def is_single(y):
        return de.match('ipyparallel.serialize.canning.uncan(_, g)', y) is not None and y.a[1][0] is obj

    def is_seq(y):
        if de.match('any_of(ipyparallel.serialize.canning.uncan_sequence(_, g))', y) is not None:
            return y.a[1][0] is obj
        return y.op == 'call' and len(y.a[1]) == 1 and de.match('type(_)', y.a[0]) is not None and y.a[0].a[1][0] is obj and y.a[1][0].op in ('comp', 'alloc', 'copy') and listing(de, y.a[1][0], 'ipyparallel.serialize.canning.uncan(elem(_), g)', '_')

    def is_dict(y):
        if de.match('any_of(ipyparallel.serialize.canning.uncan_dict(_, g))', y) is not None:
            return y.a[1][0] is obj
        if y.op not in ('alloc', 'comp'):
            return False
        src = dict_sources(de, y)
        return bool(src) and all(k is not None and k.op == 'elem' and k.a[0] is obj and de.match('ipyparallel.serialize.canning.uncan(_, g)', v) is not None and v.a[1][0].op == 'item' and v.a[1][0].a[0] is obj and v.a[1][0].a[1] is k for k, v, it in src)

    loops = {}
    for e in res:
        c = e.a[0].a[1][0]
        h = de.loop_of(e.node)
        if h is None or h.term is None:
            ck.ok('unpack', c is obj, e, 'buffers are put back into the object')
            continue
        it = de.val(h, h.term)
        seq = c.op == 'elem' and c.a[0] is obj
        dic = c.op == 'item' and c.a[0] is obj and c.a[1].op == 'elem' and c.a[1].a[0] is obj
        ck.ok('unpack.order', (seq or dic) and _ordered(it, obj), e, 'buffers are put back in the order of the elements')
        if seq or dic:
            loops[h.id] = (h, dic)
        for t in de.body_traces(h, dict(r=is_eff(e), u=call('ipyparallel.serialize.canning.uncan(*_)'))):
            ck.ok('unpack.order', t.end == 'stop' and t.count('r') == 1 and not t.before('u', 'r'), e, 'buffers of each element are put back, before it is used', path=t.path())
    for i, (h, dic) in loops.items():
        d = effect('', lambda e, h=h: e.kind == 'done' and e.node is h)
        d.edge = True
        at[f"{'dict' if dic else 'seq'}{i}"] = d
    at['one'] = effect('', lambda e: any(e is x for x in res) and e.a[0].a[1][0] is obj)
    at['plain'] = _lit(lambda t: t.op == 'truth' and de.match('any(_)', t.a[0]) is not None and t.a[0].a[1][0].op == 'comp' and t.a[0].a[1][0].a[4] == 0 and de.match('isinstance(_, ipyparallel.serialize.canning.CannedObject)', t.a[0].a[1][0].a[2]) is not None, False)
    at['use'] = call('any_of(ipyparallel.serialize.canning.uncan(*_), ipyparallel.serialize.canning.uncan_sequence(*_), ipyparallel.serialize.canning.uncan_dict(*_))')
    for t in rets(de, at):
        r = t.ret
        ok = r.op in ('tup', 'tuple') and len(r.a[0]) == 2
        if not ck.ok('unpack', ok, de, 'the object and the remaining buffers are returned', path=t.path()):
            return
        new, left = r.a[0]
        ck.ok('unpack.rest', left in rest and de.match('copyof(buffers)', left) is not None or left in rest and de.match('any_of(buffers[1:], copyof(buffers[1:]))', left) is not None, de, 'the remaining buffers are returned', path=t.path())
        may = {k for k in KINDS if f'no_{k}' not in t}
        ds, ss = [x for x in t.atoms if isinstance(x, str) and x.startswith('dict')], [x for x in t.atoms if isinstance(x, str) and x.startswith('seq')]
        vs = [new] if new.op != 'phi' else leaves(de, new)
        for v in vs:
            if is_single(v):
                ck.ok('unpack.kind', not may or 'plain' in t, de, 'elements of containers are restored, however many there are', path=t.path())
                ck.ok('unpack.kind', t.count('one') == 1 and not ds and not ss and t.before('one', 'use'), de, 'buffers are put back before the object is used', path=t.path())
            elif is_seq(v):
                ck.ok('unpack.kind', 'dict' not in may and len(ss) == 1 and not ds and t.before(ss[0], 'use'), de, 'buffers are put back before the elements are used', path=t.path())
            elif is_dict(v):
                ck.ok('unpack.kind', may <= {'dict'} and len(ds) == 1 and not ss, de, 'buffers are put back before the elements are used', path=t.path())
            else:
                ck.ok('unpack.kind', False, de, f'an object is what was sent, not {str(v)[:80]}', path=t.path())


# -- messages -------------------------------------------------------------


def _src(t):
    """(what is gone through, in which order)"""
    order = ''
    while True:
        if t.op == 'copy':
            if len(t.a) > 1:
                order = str(t.a[1:])
            t = t.a[0]
        elif t.op == 'call' and t.a[0].op == 'attr' and t.a[0].a[1] in ('keys', 'items') and not t.a[1]:
            t = t.a[0].a[0]
        elif t.op == 'call' and t.a[0].op == 'glob' and t.a[0].a[0] in ('sorted', 'reversed') and t.a[1]:
            order = t.a[0].a[0]
            t = t.a[1][0]
        elif t.op == 'call' and t.a[0].op == 'glob' and t.a[0].a[0] in ('list', 'tuple', 'iter') and len(t.a[1]) == 1:
            t = t.a[1][0]
        else:
            return t, order


def messages(ck, names):
    fl = ck.F(S + 'pack_apply_message', opaque=names)
    TH = 'buffer_threshold, item_threshold'
    SA, SK = f'{SER}(elem(args), {TH})', f'{SER}(kwargs[elem(kwargs)], {TH})'

    def flat(t, elt, of):
        """[b for x in of for b in serialize_object(x)] -> what is gone through, or None"""
        t = bare(t)
        if t.op == 'call' and fl.match('any_of(itertools.chain.from_iterable(_), sum(_, _))', t) is not None:
            x = bare(t.a[1][0])
            if x.op == 'comp' and x.a[4] == 0 and len(x.a[3]) == 1 and fl.match(elt, x.a[2]) is not None and fl.match(of, _src(x.a[3][0])[0]) is not None:
                return x.a[3][0]
        if t.op == 'comp' and t.a[4] == 0 and len(t.a[3]) == 2 and fl.match(f'elem({elt})', t.a[2]) is not None and fl.match(of, _src(t.a[3][0])[0]) is not None:
            return t.a[3][0]
        if t.op == 'alloc' and not t.a[2]:
            ad = [e for e in fl.all_effects() if e.kind == 'add' and e.a[0] is t]
            its = set()
            for e in ad:
                if e.a[-1] != 'all' or e.a[1].op != 'elem' or fl.match(elt, e.a[1].a[0]) is None:
                    return None
                h = fl.loop_of(e.node)
                if h is None or h.term is None or fl.match(of, _src(fl.val(h, h.term))[0]) is None or any(x.end != 'stop' or x.count('a') != 1 for x in fl.body_traces(h, dict(a=is_eff(e)))):
                    return None
                its.add(fl.val(h, h.term))
            if len(its) == 1:
                return its.pop()
        return None

    def is_args(t):
        s = flat(t, SA, 'args')
        return s is not None and _src(s)[1] == ''

    def is_kw(t):
        return flat(t, SK, 'kwargs')

    infos = [e for e in fl.all_effects() if e.kind == 'call' and fl.match('any_of(pickle.dumps(*_), ipyparallel.serialize.serialize.pickle.dumps(*_))', e.a[0]) is not None]
    if not ck.ok('message', len(infos) >= 1, fl, 'the layout of the message is sent'):
        return
    info = infos[0].a[0]
    d = {str(k.a[0]): v for k, v, it in dict_sources(fl, info.a[1][0]) if k is not None and k.op == 'const'}
    ck.ok('message.layout', 'nargs' in d and fl.match('len(args)', d['nargs']) is not None, fl, 'the number of arguments is sent')
    nb = d.get('narg_bufs')
    ck.ok('message.layout', nb is not None and nb.op == 'call' and fl.match('len(_)', nb) is not None and is_args(nb.a[1][0]), fl, 'the number of buffers of the arguments is sent')
    for t in rets(fl):
        r = bare(t.ret)
        parts = [e for e in fl.all_effects() if e.kind == 'add' and bare(e.a[0]) is r]
        F = f'{SER}(f, *_, **_)'
        seq = []
        if r.op == 'alloc' and r.a[2]:
            seq = [x for x in r.a[2]]
        elif fl.match(F, r) is not None:
            seq = [r]
        body = [e.a[1] if e.a[-1] == 'append' else e.a[1].a[0] for e in parts if e.a[-1] == 'append' or e.a[-1] == 'all' and e.a[1].op == 'elem']
        todo = []

        def split(x):
            if x.op == 'bin' and x.a[0] == '+':
                split(x.a[1])
                split(x.a[2])
            elif x.op == 'alloc' and x.a[2] and bare(x) is not r:
                for y in x.a[2]:
                    split(y)
            elif x.op == 'star':
                split(x.a[0])
            else:
                todo.append(bare(x))

        for x in seq or ([r] if r.op == 'bin' else []):
            split(x)
        todo += [bare(x) if x.op != 'elem' else x for x in body]
        ok = len(todo) == 4 and fl.match(F, todo[0]) is not None and todo[1] is info and is_args(todo[2]) and is_kw(todo[3]) is not None
        ck.ok('message.layout', ok, fl, 'a message is the function, the layout, the arguments and the keyword arguments', path=t.path())
        if ok:
            ks = d.get('kw_keys')
            s = is_kw(todo[3])
            ck.ok('message.keywords', ks is not None and _src(ks) == _src(s), fl, 'keyword arguments are sent in the order of their names', path=t.path())
        if parts:
            order = dict((f'p{i}', is_eff(e)) for i, e in enumerate(parts))
            for x in fl.traces(order):
                if x.end == 'return':
                    ck.ok('message.layout', list(x.atoms) == list(order), fl, 'a message is the function, the layout, the arguments and the keyword arguments', path=x.path())
    # -- and back
    fu = ck.F(S + 'unpack_apply_message', opaque=names)
    D = 'any_of(ipyparallel.serialize.serialize.deserialize_object(_, g), ipyparallel.serialize.deserialize_object(_, g))'
    F0 = 'any_of(ipyparallel.serialize.serialize.deserialize_object(copyof(bufs), g), ipyparallel.serialize.serialize.deserialize_object(bufs, g))'
    INFO = f'_.loads(any_of({F0}[1][0], {F0}[1].pop(0)))'
    for t in rets(fu):
        r = t.ret
        if not ck.ok('message.unpack', r.op in ('tup', 'tuple') and len(r.a[0]) == 3, fu, 'the function and its arguments are returned', path=t.path()):
            return
        f, a, k = r.a[0]
        ck.ok('message.unpack', fu.match(f'{F0}[0]', f) is not None, fu, 'the function comes first', path=t.path())
        a, k = bare(a), bare(k)
        aa = [e for e in fu.all_effects() if e.kind == 'add' and e.a[0] is a]
        kk = [e for e in fu.all_effects() if e.kind == 'add' and e.a[0] is k]
        ck.ok('message.unpack', len(aa) >= 1 and len(kk) >= 1, fu, 'all arguments are unpacked')
        for e, want, part, what in [(e, f"{INFO}['nargs']", "[:_]", 'args') for e in aa] + [(e, f"{INFO}['kw_keys']", '', 'kwargs') for e in kk]:
            v = e.a[1] if what == 'args' else e.a[2]
            h = fu.loop_of(e.node)
            ok = h is not None and h.term is not None
            if ok:
                it = bare(fu.val(h, h.term))
                ok = fu.match(f'range({want})', it) is not None if what == 'args' else fu.match(want, it) is not None
            ck.ok('message.unpack', ok, e, 'there are as many arguments as were sent')
            ok = v.op == 'item' and v.a[1] is tm.const(0) and fu.match(D, v.a[0]) is not None
            if not ck.ok('message.unpack', ok, e, 'each argument is unpacked in the namespace of the engine'):
                continue
            if what == 'kwargs':
                ck.ok('message.keywords', e.a[1].op == 'elem' and fu.match(want, e.a[1].a[0]) is not None, e, 'keyword arguments get their names')
            b = v.a[0].a[1][0]
            # buffers: first the part of the message, then what the argument before has left
            first, nxt = [], []
            for o in (fu.phi_ops.get(b, ()) if b.op == 'phi' else [(None, b)]):
                (nxt if o[1].op == 'item' and o[1].a[0] is v.a[0] and o[1].a[1] is tm.const(1) else first).append(o[1])
            ck.ok('message.unpack', bool(nxt) and bool(first), e, 'an argument starts where the one before ended')
            for o in first:
                if o.op != 'item' or o.a[1].op != 'slice':
                    ck.ok('message.unpack', False, e, 'arguments follow the layout')
                    continue
                lo, hi, st = o.a[1].a[:3]
                NB = f"{INFO}['narg_bufs']"
                none = lambda x: x is None or x is tm.NONE or x is tm.const(0)
                ok = fu.match(f'{F0}[1]', bare(o.a[0])) is not None
                if what == 'args':
                    ok = ok and none(lo) and hi is not None and fu.match(NB, hi) is not None
                else:
                    ok = ok and none(hi) and lo is not None and fu.match(NB, lo) is not None
                ck.ok('message.unpack', ok, e, 'arguments follow the layout')
            for x in fu.body_traces(h, dict(a=is_eff(e), d=call(D))):
                ck.ok('message.unpack', x.end != 'stop' or x.count('a') == 1 and x.count('d') == 1, e, 'each argument is unpacked once', path=x.path())
        nx = [e for e in fu.all_effects() if e.kind == 'remove' and fu.match(f'{F0}[1]', e.a[0]) is not None]
        ck.ok('message.unpack', all(fu.match('0', e.a[1]) is not None for e in nx) and len(nx) <= 1, fu, 'the layout follows the function')


# -- canning --------------------------------------------------------------


def canning(ck, names):
    for name, mp, test in (('can', 'can_map', 'istype'), ('uncan', 'uncan_map', 'isinstance')):
        fl = ck.F(K + name, opaque=names)
        M = f'ipyparallel.serialize.canning.{mp}'
        ORIG = f'ipyparallel.serialize.canning._original_{mp}'
        E = f'elem(any_of({M}.items(), copyof({M}.items()), {M}, copyof({M})))'
        KEY, VAL = f'any_of({E}[0], {E})', f'any_of({E}[1], {M}[{E}])'
        APPLY = f'{VAL}(obj)' if name == 'can' else f'{VAL}(obj, g)'
        AGAIN = f'ipyparallel.serialize.canning.{name}(obj)' if name == 'can' else f'ipyparallel.serialize.canning.{name}(obj, g)'
        T = f'any_of(ipyparallel.serialize.canning.istype(obj, {KEY}), type(obj) is {KEY})' if test == 'istype' else f'isinstance(obj, {KEY})'
        STR = f'isinstance({KEY}, str)'
        at = dict(hit=either(lit(f'ipyparallel.serialize.canning.istype(obj, {KEY})'), lit(f'type(obj) is {KEY}')) if name == 'can' else lit(T), str=lit(STR), imp=call(f'ipyparallel.serialize.canning._import_mapping({M}, *_)'))
        done = effect('', lambda e: e.kind == 'done' and covers(fl, e.node, M))
        done.edge = True
        at['done'] = done
        ts = rets(fl, at)
        ck.ok('can', bool(ts) and any(fl.match(APPLY, t.ret) is not None for t in ts), fl, 'objects are converted according to their type')
        for t in ts:
            if fl.match(APPLY, t.ret) is not None:
                ck.ok('can', 'hit' in t and 'str' not in t, fl, 'objects are converted according to their type', path=t.path())
            elif fl.match(AGAIN, t.ret) is not None:
                ck.ok('can', 'imp' in t, fl, 'types are imported when they are needed', path=t.path())
            else:
                ck.ok('can', fl.match('obj', t.ret) is not None and 'done' in t and 'hit' not in t and 'str' not in t, fl, 'objects of other types stay what they are', path=t.path())
    fi = ck.F(K + 'istype')
    at = dict(tup=lit('isinstance(check, tuple)'), one=lit('type(obj) is check'), each=lit('type(obj) is elem(check)'))
    for t in rets(fi, at):
        if t.ret is tm.const(True):
            ck.ok('can.strict', 'each' in t or 'one' in t, fi, 'subclasses are not converted', path=t.path())
        elif t.ret is tm.const(False):
            ck.ok('can.strict', 'each' not in t and 'one' not in t, fi, 'objects are converted according to their type', path=t.path())
        else:
            ck.ok('can.strict', fi.match('any_of(type(obj) is check, type(obj) in check, any(_))', t.ret) is not None, fi, 'subclasses are not converted', path=t.path())
    for name, f, g in (('can_dict', 'can', ''), ('uncan_dict', 'uncan', ', g')):
        fl = ck.F(K + name, opaque=names)
        at = {'no_dict': excludes(ck, fl, lambda t: fl.match('obj', t) is not None, 'dict')}
        for t in rets(fl, at):
            if fl.match('obj', t.ret) is not None:
                ck.ok('can.dict', 'no_dict' in t, fl, 'values of dicts are converted', path=t.path())
                continue
            src = dict_sources(fl, t.ret)
            ok = bool(src) and all(k is not None and fl.match('elem(obj)', k) is not None and fl.match(f'ipyparallel.serialize.canning.{f}(obj[elem(obj)]{g})', v) is not None for k, v, it in src)
            ck.ok('can.dict', ok and _complete(fl, t.ret, 'obj'), fl, 'all values of dicts are converted', path=t.path())
    for name, f, g in (('can_sequence', 'can', ''), ('uncan_sequence', 'uncan', ', g')):
        fl = ck.F(K + name, opaque=names)
        at = {'no_' + k: excludes(ck, fl, lambda t: fl.match('obj', t) is not None, k) for k in KINDS[:3]}
        for t in rets(fl, at):
            if fl.match('obj', t.ret) is not None:
                ck.ok('can.sequence', all(f'no_{k}' in t for k in KINDS[:3]), fl, 'elements of sequences are converted', path=t.path())
                continue
            r = t.ret
            ok = r.op == 'call' and len(r.a[1]) == 1 and fl.match('type(obj)', r.a[0]) is not None and listing(fl, r.a[1][0], f'ipyparallel.serialize.canning.{f}(elem(obj){g})', 'obj')
            ck.ok('can.sequence', ok, fl, 'elements of sequences are converted, in order', path=t.path())
    fm = ck.F(K + '_import_mapping')
    puts = [e for e in fm.all_effects() if e.kind == 'add' and fm.match('mapping', e.a[0]) is not None]
    ck.ok('can.import', bool(puts), fm, 'types are imported')
    for e in puts:
        ck.ok('can.import', fm.match('any_of(traitlets.import_item(elem(mapping)), _.import_item(elem(mapping)), traitlets.import_item(elem(_)[0]), traitlets.import_item(elem(_)))', e.a[1]) is not None
              and fm.match('any_of(mapping.pop(elem(_), *_), mapping.pop(elem(_)[0], *_), mapping[elem(_)], elem(_)[1], mapping[elem(_)[0]])', e.a[2]) is not None, e, 'an imported type is converted like its name said')
        ck.ok('can.import', e.a[2].op != 'bool' and e.a[-1] == 'key', e, 'an imported type is converted like its name said')
    gone = effect('', lambda e: e.kind == 'remove' and fm.match('mapping', e.a[0]) is not None)
    for h in {fm.loop_of(e.node) for e in puts} - {None}:
        for t in fm.body_traces(h, dict(g=gone, p=effect('', lambda e: e in puts), n=_lit(lambda x: x.op == 'truth' and fm.match('isinstance(_, str)', x.a[0]) is not None, False)), exc='handled'):
            ck.ok('can.import', t.end != 'stop' or 'n' in t or t.count('g') == 1, fm, 'a name is replaced by the type, or left out', path=t.path())


def _complete(fl, t, src):
    t = bare(t)
    if t.op == 'comp':
        return t.a[4] == 0 and len(t.a[3]) == 1 and iter_covers(fl, t.a[3][0], src, True)
    ad = [e for e in fl.all_effects() if e.kind == 'add' and e.a[0] is t]
    for e in ad:
        h = fl.loop_of(e.node)
        if not covers(fl, h, src, True) or any(x.end != 'stop' or x.count('a') != 1 for x in fl.body_traces(h, dict(a=is_eff(e)))):
            return False
    return bool(ad)


CANW = 'ipyparallel.serialize.canning.can'
UNC = 'ipyparallel.serialize.canning.uncan'


def stores_of(fl, name):
    return [e for e in fl.all_effects() if e.kind == 'store' and fl.match('self', e.a[0]) is not None and e.a[1] == name]


def fields(ck, rule, fl, want):
    """Each field is set, to what it is of, on every path. want: {name: fn(term) -> bool}."""
    for n, fn in want.items():
        ss = stores_of(fl, n)
        ck.ok(rule, bool(ss), fl, f'{n} is sent')
        for e in ss:
            ck.ok(rule, all(fn(x) for x in leaves(fl, e.a[2])), e, f'{n} is sent as it is')
        ck.every(rule, fl, dict(s=effect('', lambda e, ss=ss: e in ss)), lambda t: t.end != 'return' or 's' in t, f'{n} is sent')


def is_g(fl, t, mods=False):
    """The namespace that was given (an empty one if there is none)."""
    vs = leaves(fl, t)
    return any(fl.match('g', v) is not None for v in vs) and all(fl.match('g', v) is not None or v.op == 'alloc' and v.a[1] == 'dict' and not v.a[2] or mods and fl.match('any_of(sys.modules[self.module].__dict__, vars(sys.modules[self.module]), importlib.import_module(self.module).__dict__)', v) is not None for v in vs)


def uncanned(fl, t, name, mods=False, g=None):
    """[uncan(x, g) for x in self.<name>]"""
    elt = f'{UNC}(elem(self.{name}), _)'
    if not listing(fl, t, elt, f'self.{name}'):
        return False
    cs = [e.a[0] for e in fl.all_effects() if e.kind == 'call' and fl.match(elt, e.a[0]) is not None]
    return bool(cs) and all(len(c.a[1]) > 1 and is_g(fl, c.a[1][1], mods) for c in cs)


def functions(ck, names):
    init = ck.F(K + 'CannedFunction.__init__', opaque=names)

    def maybe(attr, fn):
        """None only if the function has none."""
        def f(x):
            return x is tm.NONE or fn(x)
        return f

    lst = lambda a: lambda x: listing(init, x, f'{CANW}(elem(f.{a}))', f'f.{a}')
    dct = lambda a: lambda x: init.match(f'ipyparallel.serialize.canning.can_dict(f.{a})', x) is not None or x.op in ('comp', 'alloc') and all(k is not None and init.match(f'{CANW}(f.{a}[elem(f.{a})])', v) is not None for k, v, it in dict_sources(init, x)) and _complete(init, x, f'f.{a}')
    want = dict(code=lambda x: init.match('f.__code__', x) is not None, __name__=lambda x: init.match('f.__name__', x) is not None, defaults=maybe('__defaults__', lst('__defaults__')), kwdefaults=maybe('__kwdefaults__', dct('__kwdefaults__')),
                annotations=maybe('__annotations__', dct('__annotations__')), closure=maybe('__closure__', lst('__closure__')), module=lambda x: init.match("any_of(f.__module__ or '__main__', f.__module__, '__main__')", x) is not None)
    fields(ck, 'function', init, want)
    for n in ('defaults', 'kwdefaults', 'annotations', 'closure'):
        none = effect('', lambda e, n=n: e.kind == 'store' and e.a[1] == n and e.a[2] is tm.NONE)
        some = effect('', lambda e, n=n: e.kind == 'store' and e.a[1] == n and e.a[2] is not tm.NONE)
        ck.every('function', init, dict(none=none, some=some, has=either(lit(f'f.__{n}__'), lit(f'f.__{n}__ is not None'))), lambda t: t.end != 'return' or not ('has' in t and 'none' in t and not t.before('none', 'some')), f'{n} of a function are sent')
    mod = stores_of(init, 'module')
    # back
    fl = ck.F(K + 'CannedFunction.get_object', opaque=names)
    MK = 'types.FunctionType(*_, **_)'
    makes = fl.find(call(MK))
    if not ck.ok('function', bool(makes), fl, 'functions are made'):
        return
    ck.ok('function', bool(rets(fl)) and all(fl.match(MK, t.ret) is not None for t in rets(fl)), fl, 'functions are made')
    for e, _ in makes:
        c = e.a[0]
        get = lambda i, n: argof(c, i, n)
        ck.ok('function', get(0, 'code') is not None and fl.match('self.code', get(0, 'code')) is not None, e, 'a function has its code')
        ck.ok('function', get(2, 'name') is not None and fl.match('self.__name__', get(2, 'name')) is not None, e, 'a function has its name')
        G = get(1, 'globals')
        dun = "self.module.startswith('__')"
        ck.ok('function.namespace', G is not None and is_g(fl, G, True), e, 'a function runs in its module, or in the namespace of the engine')
        MODS = 'any_of(sys.modules[self.module].__dict__, vars(sys.modules[self.module]), importlib.import_module(self.module).__dict__)'
        at = dict(main=either(lit(dun), lit("self.module == '__main__'")), mod=either(lit(f'not {dun}'), lit("self.module != '__main__'")), none=lit('_ is None'),
                  gmod=_gives(c, get(1, 'globals'), lambda v: fl.match(MODS, v) is not None), gg=_gives(c, get(1, 'globals'), lambda v: fl.match('g', v) is not None), gnew=_gives(c, get(1, 'globals'), lambda v: v.op == 'alloc'), make=is_eff(e))
        for t in fl.traces(at):
            if 'make' in t:
                ok = 'gmod' in t or 'gnew' in t and 'none' in t if 'mod' in t else ('gg' in t or 'gnew' in t and 'none' in t)
                ck.ok('function.namespace', ok and ('mod' in t or 'main' in t), e, 'a function runs in its module, or in the namespace of the engine', path=t.path())
        for i, n in ((3, 'defaults'), (4, 'closure')):
            v = get(i, 'argdefs' if n == 'defaults' else n)
            st = [x for x in fl.all_effects() if x.kind == 'store' and x.a[0] is c and x.a[1] == f'__{n}__']
            vals = ([v] if v is not None else []) + [x.a[2] for x in st]
            ok = bool(vals) and all(x is tm.NONE or uncanned(fl, x, n, True) for w in vals for x in leaves(fl, w)) and any(x is not tm.NONE for w in vals for x in leaves(fl, w))
            ck.ok('function', ok, e, f'{n} of a function are those that were sent')
            if v is not None:
                at = dict(has=lit(f'self.{n}'), make=is_eff(e), none=_gives(c, v, lambda y: y is tm.NONE))
                for t in fl.traces(at):
                    ck.ok('function', not ('make' in t and 'has' in t and 'none' in t), e, f'{n} of a function are those that were sent', path=t.path())
        for n in ('kwdefaults', 'annotations'):
            st = [x for x in fl.all_effects() if x.kind == 'store' and x.a[0] is c and x.a[1] == f'__{n}__']
            if not ck.ok('function', bool(st), e, f'{n} of a function are those that were sent'):
                continue
            UD = f'ipyparallel.serialize.canning.uncan_dict(self.{n}, _)'
            for x in st:
                vs = [y for y in leaves(fl, x.a[2])]
                ok = any(y is not tm.NONE and fl.match('any_of({})', y) is None and y.op != 'alloc' for y in vs)
                for y in vs:
                    if y is tm.NONE or y.op == 'alloc' and not y.a[2] and not dict_sources(fl, y):
                        continue
                    g = None
                    if fl.match(UD, y) is not None or y.op == 'call' and fl.match(f'ipyparallel.serialize.canning.uncan_dict(self.{n}, **_)', y) is not None:
                        g = argof(y, 1, 'g')
                    elif y.op in ('comp', 'alloc'):
                        for k, v, it in dict_sources(fl, y):
                            if v is not None and fl.match(f'{UNC}(self.{n}[elem(self.{n})], _)', v) is not None:
                                g = v.a[1][1]
                                ok = True
                    ok = ok and g is not None and is_g(fl, g, True)
                ck.ok('function.kwdefaults' if n == 'kwdefaults' else 'function', ok, x, f'{n} of a function are those that were sent, in the namespace of the function')
            at = dict(has=lit(f'self.{n}'), st=effect('', lambda x: x in st), make=is_eff(e), un=either(lit(f'not {UD}'), lit('not {}')))
            for t in fl.traces(at):
                if t.end == 'return' and 'has' in t:
                    ck.ok('function', 'st' in t or _falsy(fl, t, n), e, f'{n} of a function are those that were sent', path=t.path())


def _falsy(fl, t, n):
    return 'un' in t


def _gives(c, v, test):
    def f(e, a, b):
        if e.kind != 'call' or e.a[0] is not c:
            return None
        return {} if any(test(y) for y in (a(v) if v.op == 'phi' else [v]) if y.op != 'phi') else None

    f.desc = 'given'
    return f


def arrays(ck, names):
    fl = ck.F(K + 'CannedArray.__init__', opaque=names)
    fields(ck, 'array', fl, dict(shape=lambda x: fl.match('obj.shape', x) is not None, dtype=lambda x: fl.match('any_of(obj.dtype, obj.dtype.str)', x) is not None))
    CON = 'any_of(numpy.ascontiguousarray(obj, *_, **_), numpy.require(obj, *_, **_))'
    MV = f'any_of(memoryview(any_of({CON}, obj)), any_of({CON}, obj).data)'
    DU = 'any_of(ipyparallel.serialize.serialize.pickle.dumps(obj, *_), pickle.dumps(obj, *_))'
    bufs = stores_of(fl, 'buffers')

    def holds(e, p):
        v = e.a[2]
        return v.op == 'alloc' and len(v.a[2]) == 1 and fl.match(p, v.a[2][0]) is not None

    def isobj(e, a, b):
        if e not in bufs or not holds(e, MV):
            return None
        v = e.a[2].a[2][0]
        v = v.a[1][0] if v.op == 'call' else v.a[0]
        return {} if any(fl.match(CON, y) is None for y in (a(v) if v.op == 'phi' else [v]) if y.op != 'phi') else None

    isobj.desc = 'not contiguous'
    for e in bufs:
        ck.ok('array', holds(e, MV) or holds(e, DU) or e.a[2].op == 'alloc' and not e.a[2].a[2], e, 'the data of an array are sent')
    pk = lambda v: effect('', lambda e: e.kind == 'store' and e.a[1] == 'pickled' and e.a[2] is v)
    at = dict(pt=pk(tm.const(True)), pf=pk(tm.const(False)), mv=effect('', lambda e: e in bufs and holds(e, MV)), du=effect('', lambda e: e in bufs and holds(e, DU)), lt=lit('self.pickled'), lf=lit('not self.pickled'),
              simple=either(lit('not obj.dtype.hasobject')), bt=lit('self.buffers'), bf=lit('not self.buffers'), be=effect('', lambda e: e in bufs and e.a[2].op == 'alloc' and not e.a[2].a[2]), raw=isobj, cont=either(lit('obj.flags.c_contiguous'), lit("obj.flags['C_CONTIGUOUS']")),
              plain=either(lit('not obj.dtype.fields'), lit('not obj.dtype.names'), lit('obj.dtype.fields is None')), str=_stored('dtype', lambda v: fl.match('obj.dtype.str', v) is not None))
    odd = [e for e in fl.all_effects() if e.kind == 'store' and e.a[1] == 'pickled' and e.a[2] not in (tm.const(True), tm.const(False))]
    ck.ok('array', not odd, fl, 'it is known whether an array is pickled')
    n = 0
    for t in fl.traces(at, exc='handled'):
        if t.end != 'return':
            continue
        p, d, ok, real = None, None, True, True
        for x in t.atoms:
            if x in ('pt', 'pf'):
                p = x == 'pt'
            elif x in ('lt', 'lf') and p is not None:
                real = real and p == (x == 'lt')
            elif x in ('bt', 'bf') and d is not None:
                real = real and (d != 'be') == (x == 'bt')
            elif x in ('mv', 'du', 'be'):
                d = x
        if not real:
            continue
        n += 1
        ck.ok('array', p is not None and d == ('du' if p else 'mv'), fl, 'an array is pickled, or its data are sent', path=t.path())
        ck.ok('array.objects', d != 'mv' or 'simple' in t, fl, 'objects in an array are pickled, at any depth', path=t.path())
        ck.ok('array', 'raw' not in t or 'cont' in t, fl, 'the data of an array are sent in order', path=t.path())
        ck.ok('array.dtype', 'str' not in t or 'plain' in t, fl, 'fields of an array keep their names and places', path=t.path())
    ck.ok('array', n > 0, fl, 'arrays are sent')
    MVC = call('memoryview(_)')
    from .common import caught
    if fl.find(MVC):
        ts = fl.traces(dict(c=caught(), du=at['du'], kind=lit('obj.dtype.kind in _')), exc='handled')
        ck.ok('array.dtype', any(t.end == 'return' and 'du' in t and ('c' in t or 'kind' in t) for t in ts), fl, 'arrays whose data cannot be sent as they are get pickled')
    ge = ck.F(K + 'CannedArray.get_object', opaque=names)
    LO = 'any_of(ipyparallel.serialize.serialize.pickle.loads(self.buffers[0]), pickle.loads(self.buffers[0]))'
    FB = 'any_of(numpy.frombuffer(self.buffers[0], self.dtype).reshape(self.shape), numpy.frombuffer(self.buffers[0], dtype=self.dtype).reshape(self.shape), numpy.ndarray(self.shape, self.dtype, self.buffers[0]), numpy.ndarray(self.shape, dtype=self.dtype, buffer=self.buffers[0]))'
    for t in rets(ge, dict(lt=lit('self.pickled'), lf=lit('not self.pickled'))):
        ok = ge.match(LO, t.ret) is not None if 'lt' in t else ge.match(FB, t.ret) is not None and 'lf' in t
        ck.ok('array', ok, ge, 'an array has the data, the type and the shape that were sent', path=t.path())


def _stored(name, test):
    def f(e, a, b):
        if e.kind != 'store' or e.a[1] != name:
            return None
        v = e.a[2]
        return {} if any(test(y) for y in (a(v) if v.op == 'phi' else [v]) if y.op != 'phi') else None

    f.desc = f'store {name}'
    return f


def partials(ck, names):
    fl = ck.F(K + 'CannedPartial.__init__', opaque=names)

    def kws(x):
        return x.op in ('comp', 'alloc') and bool(dict_sources(fl, x)) and all(k is not None and fl.match('elem(f.keywords)', k) is not None and fl.match(f'{CANW}(f.keywords[elem(f.keywords)])', v) is not None for k, v, it in dict_sources(fl, x)) or fl.match('ipyparallel.serialize.canning.can_dict(f.keywords)', x) is not None

    fields(ck, 'partial', fl, dict(func=lambda x: fl.match(f'{CANW}(f.func)', x) is not None, args=lambda x: listing(fl, x, f'{CANW}(elem(f.args))', 'f.args'), keywords=kws))
    ge = ck.F(K + 'CannedPartial.get_object', opaque=names)
    PA = 'functools.partial(*_, **_)'
    ck.ok('partial', bool(rets(ge)) and all(ge.match(PA, t.ret) is not None for t in rets(ge)), ge, 'partials are made')
    for t, _ in ge.find(call(PA)):
        r = t.a[0]
        if not ck.ok('partial', len(r.a[1]) == 2 and r.a[1][1].op == 'star', t, 'partials are made'):
            continue
        f = r.a[1][0]
        ck.ok('partial', ge.match(f'{UNC}(self.func, _)', f) is not None and is_g(ge, f.a[1][1]), t, 'the function is the one that was sent')
        ck.ok('partial', uncanned(ge, r.a[1][1].a[0], 'args'), t, 'the arguments are those that were sent')
        kw = next((v for k, v in r.a[2] if k in (None, '**')), None)
        src = dict_sources(ge, kw) if kw is not None else []
        ok = bool(src) and all(k is not None and ge.match('elem(self.keywords)', k) is not None and ge.match(f'{UNC}(self.keywords[elem(self.keywords)], _)', v) is not None and is_g(ge, v.a[1][1]) for k, v, it in src)
        if not ok and kw is not None:
            ok = ge.match('ipyparallel.serialize.canning.uncan_dict(self.keywords, _)', kw) is not None and is_g(ge, kw.a[1][1])
        ck.ok('partial', ok, t, 'the keywords are those that were sent')
    # buffers
    order = {}
    for X, CNT, app in (('self.args', 'self.arg_buffer_counts', True), ('self.keywords', 'self.keyword_buffer_counts', False)):
        el = f'any_of(elem({X}), elem(copyof({X})))' if app else f'{X}[elem({X})]'
        take = effect('buffers are taken', lambda e: e.kind == 'add' and fl.match('self.buffers', e.a[0]) is not None and e.a[-1] == 'all' and e.a[1].op == 'elem' and fl.match(f'{el}.buffers', e.a[1].a[0]) is not None)
        clear = effect('buffers are moved', lambda e: e.kind == 'store' and fl.match(el, e.a[0]) is not None and e.a[1] == 'buffers' and e.a[2].op == 'alloc' and not e.a[2].a[2])
        count = effect('counted', lambda e: e.kind == 'add' and fl.match(CNT, e.a[0]) is not None and fl.match(f'len({el}.buffers)', e.a[1] if app else e.a[2]) is not None and (app or fl.match(f'elem({X})', e.a[1]) is not None))
        zero = effect('none', lambda e: e.kind == 'add' and fl.match(CNT, e.a[0]) is not None and (e.a[1] if app else e.a[2]) is tm.const(0))
        no = either(lit(f'not isinstance({el}, ipyparallel.serialize.canning.CannedObject)'), lit(f'not hasattr({el}, _)'))
        takes = [e for e, _ in fl.find(take)]
        if not ck.ok('partial.buffers', bool(takes), fl, 'buffers of arguments are sent'):
            continue
        for e in takes:
            h = fl.loop_of(e.node)
            if not ck.ok('partial.buffers', h is not None and covers(fl, h, X, app), e, 'buffers of arguments are sent, in order'):
                continue
            order[X] = (h, _src(fl.val(h, h.term))[1])
            for t in fl.body_traces(h, dict(t=take, c=clear, n=count, z=zero, no=no)):
                if 'no' in t:
                    ok = t.count('t') == t.count('n') == 0 and (not app or t.count('z') == 1)
                else:
                    ok = t.count('t') == t.count('c') == t.count('n') == 1 and t.count('z') == 0 and t.before('t', 'c') and t.before('n', 'c')
                ck.ok('partial.buffers', t.end == 'stop' and ok, e, 'it is known which buffers are those of an argument', path=t.path())
        # restored
        if app:
            N = f'elem({CNT})'
            item = f'elem({X})'
        else:
            N = f'{CNT}[elem({CNT})]'
            item = f'{X}[elem({CNT})]'
        give = effect('given back', lambda e: e.kind == 'store' and e.a[1] == 'buffers' and ge.match(f'any_of({item}, {X}[elem({X})])', e.a[0]) is not None and ge.match(f'any_of(self.buffers[:{N}])', e.a[2]) is not None)
        cut = effect('cut', lambda e: e.kind == 'store' and ge.match('self', e.a[0]) is not None and e.a[1] == 'buffers' and ge.match(f'self.buffers[{N}:]', e.a[2]) is not None or e.kind == 'remove' and ge.match('self.buffers', e.a[0]) is not None and ge.match(f'slice(_, {N}, *_)', e.a[1]) is not None)
        gs = [e for e, _ in ge.find(give)]
        if not ck.ok('partial.buffers', bool(gs), ge, 'arguments get their buffers back'):
            continue
        none = lit(f'not {N}')
        for e in gs:
            h = ge.loop_of(e.node)
            if not ck.ok('partial.buffers', h is not None and covers(ge, h, CNT, app) or h is not None and app and covers(ge, h, X, True), e, 'arguments get their buffers back, in order'):
                continue
            o = _src(ge.val(h, h.term))[1]
            ck.ok('partial.buffers', app or not o or o == order[X][1], e, 'arguments get their buffers back, in order')
            for t in ge.body_traces(h, dict(g=give, c=cut, n=none)):
                ck.ok('partial.buffers', t.end == 'stop' and ('n' in t and not t.count('g') + t.count('c') or t.count('g') == t.count('c') == 1 and t.before('g', 'c')), e, 'arguments get their own buffers back', path=t.path())
            order[X] += (h,)
    if len(order) == 2 and all(len(v) == 3 for v in order.values()):
        (a, _, ga), (k, _, gk) = order['self.args'], order['self.keywords']
        A = dict(a=_done(a), k=_done(k))
        ck.every('partial.buffers', fl, A, lambda t: t.end != 'return' or t.before('a', 'k'), 'buffers of arguments come before those of keywords')
        G = dict(a=_done(ga), k=_done(gk), u=call(f'{UNC}(*_)'), none=lit('not self.buffers'))
        ck.every('partial.buffers', ge, G, lambda t: t.end != 'return' or 'none' in t and 'a' not in t or t.before('a', 'k') and t.before('k', 'u'), 'buffers of arguments come before those of keywords')


def _done(h):
    f = effect('', lambda e: e.kind == 'done' and e.node is h)
    f.edge = True
    return f


def others(ck, names):
    # classes
    fl = ck.F(K + 'CannedClass.__init__', opaque=names)
    MRO = 'any_of(cls.mro()[1:], cls.__mro__[1:], cls.__bases__)'

    def parents(x):
        x = bare(x)
        if x.op == 'comp' and x.a[4] == 0 and len(x.a[3]) == 1 and fl.match(f'{CANW}(elem(_))', x.a[2]) is not None:
            vs = x.a[3][0]
            ls = []
            for v in leaves(fl, vs) if vs.op == 'phi' else [vs]:
                if v.op == 'item' and v.a[0].op == 'phi':
                    ls += [tm.item(w, v.a[1]) if hasattr(tm, 'item') else w for w in leaves(fl, v.a[0]) if w.op != 'alloc']
                else:
                    ls.append(v)
            return bool(ls) and all(fl.match(f'any_of({MRO}, cls.mro(), cls.__mro__)', v) is not None for v in ls)
        return False

    fields(ck, 'class', fl, dict(name=lambda x: fl.match('cls.__name__', x) is not None, parents=parents))
    put = effect('', lambda e: e.kind == 'add' and e.a[-1] == 'key' and fl.match('elem(cls.__dict__)', e.a[1]) is not None and fl.match(f'{CANW}(cls.__dict__[elem(cls.__dict__)])', e.a[2]) is not None)
    puts = [e for e, _ in fl.find(put)]
    comps = [e for e in stores_of(fl, '_canned_dict') if e.a[2].op == 'comp']
    ck.ok('class', bool(puts) or bool(comps), fl, 'attributes of a class are sent')
    skip = _lit(lambda t: t.op == 'cmp' and t.a[0] in ('in', '==') and fl.match('elem(cls.__dict__)', t.a[1]) is not None and {"'__weakref__'", "'__dict__'"} >= set(_consts(t.a[2])) or t.op == 'cmp' and t.a[0] == '==' and fl.match('elem(cls.__dict__)', t.a[2]) is not None and {"'__weakref__'", "'__dict__'"} >= set(_consts(t.a[1])))
    for e in puts:
        h = fl.loop_of(e.node)
        ck.ok('class', h is not None and covers(fl, h, 'cls.__dict__'), e, 'all attributes of a class are sent')
        if h is not None:
            for t in fl.body_traces(h, dict(p=put, s=skip)):
                ck.ok('class', t.end == 'stop' and t.count('p') == (0 if 's' in t else 1), e, 'all attributes of a class are sent', path=t.path())
    ge = ck.F(K + 'CannedClass.get_object', opaque=names)
    for t in rets(ge):
        r = t.ret
        ok = r.op == 'call' and r.a[0].op == 'glob' and r.a[0].a[0] in ('type', 'types.new_class') and len(r.a[1]) >= 3
        if ck.ok('class', ok, ge, 'classes are made', path=t.path()):
            n, p, d = r.a[1][:3]
            ck.ok('class', ge.match('self.name', n) is not None and uncanned(ge, p, 'parents'), ge, 'a class has its name and its parents', path=t.path())
            ok = d.op == 'call' and ge.match('ipyparallel.serialize.canning.uncan_dict(self._canned_dict, *_, **_)', d) is not None and argof(d, 1, 'g') is not None and is_g(ge, argof(d, 1, 'g'))
            if not ok and d.op in ('comp', 'alloc'):
                ok = bool(dict_sources(ge, d)) and all(v is not None and ge.match(f'{UNC}(self._canned_dict[elem(self._canned_dict)], g)', v) is not None for k, v, it in dict_sources(ge, d))
            ck.ok('class', ok, ge, 'a class has its attributes', path=t.path())
    # bytes and buffers
    fb = ck.F(K + 'CannedBytes.__init__', opaque=names)
    fields(ck, 'bytes', fb, dict(buffers=lambda x: x.op == 'alloc' and len(x.a[2]) == 1 and fb.match('obj', x.a[2][0]) is not None))
    gb = ck.F(K + 'CannedBytes.get_object', opaque=names + ('wrap',))
    for t in rets(gb):
        ck.ok('bytes', gb.match('any_of(self.wrap(self.buffers[0]))', t.ret) is not None, gb, 'data are those that were sent', path=t.path())
    wb = ck.F(K + 'CannedBytes.wrap')
    for t in rets(wb, dict(b=lit('isinstance(data, bytes)'))):
        ok = wb.match('data', t.ret) is not None and 'b' in t or wb.match('any_of(memoryview(data).tobytes(), bytes(data), data.tobytes(), bytes(memoryview(data)))', t.ret) is not None
        ck.ok('bytes', ok, wb, 'bytes are bytes', path=t.path())
    # references
    rf = ck.F(K + 'Reference.get_object', opaque=names)
    for t in rets(rf):
        ck.ok('reference', rf.match('eval(self.name, *_)', t.ret) is not None, rf, 'a reference is what its name is on the engine', path=t.path())
    for e, _ in rf.find(call('eval(*_)')):
        ck.ok('reference', len(e.a[0].a[1]) > 1 and is_g(rf, e.a[0].a[1][1]), e, 'a reference is what its name is on the engine')
    ri = ck.F(K + 'Reference.__init__', opaque=names)
    fields(ck, 'reference', ri, dict(name=lambda x: ri.match('name', x) is not None))
    # cells
    ci = ck.F(K + 'CannedCell.__init__', opaque=names)
    fields(ck, 'cell', ci, dict(cell_contents=lambda x: ci.match(f'{CANW}(cell.cell_contents)', x) is not None))
    cg = ck.F(K + 'CannedCell.get_object', opaque=names)
    ck.ok('cell', bool(cg.find(call(f'{UNC}(self.cell_contents, g)'))), cg, 'a variable has the value that was sent')
    # other objects
    oi = ck.F(K + 'CannedObject.__init__', opaque=names)
    fields(ck, 'object', oi, dict(keys=lambda x: oi.match('keys', bare(x)) is not None, obj=lambda x: oi.match('any_of(copy.copy(obj), copyof(obj))', x) is not None or x.op == 'copy', hook=lambda x: oi.match(f'{CANW}(hook)', x) is not None))
    og = ck.F(K + 'CannedObject.get_object', opaque=names)
    KEY = 'elem(keys)'
    sets = oi.find(call(f'setattr(self.obj, {KEY}, {CANW}(getattr(obj, {KEY})))'))
    ck.ok('object', bool(sets) and all(covers(oi, oi.loop_of(e.node), 'keys') for e, _ in sets), oi, 'all parts of an object are converted')
    KEY = 'elem(self.keys)'
    back = og.find(call(f'setattr(self.obj, {KEY}, {UNC}(getattr(self.obj, {KEY}), _))'))
    ck.ok('object', bool(back) and all(covers(og, og.loop_of(e.node), 'self.keys') and is_g(og, e.a[0].a[1][2].a[1][1]) for e, _ in back), og, 'all parts of an object are converted back')
    if back:
        at = dict(done=_done(og.loop_of(back[0][0].node)), hook=either(lit('self.hook'), lit('self.hook is not None')), run=effect('', lambda e: e.kind == 'call' and len(e.a[0].a[1]) == 2 and og.match('self.obj', e.a[0].a[1][0]) is not None and og.match(f'any_of(self.hook, {UNC}(self.hook, _))', e.a[0].a[0]) is not None and is_g(og, e.a[0].a[1][1])))
        for t in rets(og, at):
            ck.ok('object', og.match('self.obj', t.ret) is not None and t.count('done') == 1 and (t.count('run') == 1 and t.before('done', 'run') if 'hook' in t else t.count('run') == 0), og, 'an object is ready, and checked, when it is used', path=t.path())
    own = [n for n in ('__getstate__', '__reduce__', '__reduce_ex__') if ck.repo.method(ck.repo.cls(K + 'CannedObject'), n)]
    if not ck.ok('nested', bool(own), oi, 'data nested in functions, classes and partials can be sent') or '__getstate__' not in own:
        return
    gs = ck.F(K + 'CannedObject.__getstate__', opaque=names)
    B = 'any_of(self.buffers, self.__dict__["buffers"], copyof(self.__dict__)["buffers"])'
    for t in rets(gs, dict(none=either(lit("not copyof(self.__dict__).get('buffers', *_)"), lit('not self.buffers'), lit("not self.__dict__.get('buffers', *_)")))):
        r = t.ret
        ck.ok('nested', gs.match('any_of(copyof(self.__dict__), dict(self.__dict__))', r) is not None, gs, 'pickling does not change an object', path=t.path())
        if 'none' in t:
            continue
        puts = [e for e in gs.all_effects() if e.kind == 'add' and e.a[0] is r and gs.match("'buffers'", e.a[1]) is not None]
        ok = bool(puts)
        for e in puts:
            v = bare(e.a[2])
            if v.op == 'comp' and v.a[4] == 0 and len(v.a[3]) == 1:
                vs = leaves(gs, v.a[2])
            elif v.op == 'alloc':
                vs = [x for y in gs.all_effects() if y.kind == 'add' and y.a[0] is v for x in leaves(gs, y.a[1])]
            else:
                ok = False
                break
            conv = [x for x in vs if gs.match('any_of(elem(_).tobytes(), bytes(elem(_)))', x) is not None]
            ok = ok and bool(conv) and all(x in conv or gs.match('elem(_)', x) is not None for x in vs)
        ck.ok('nested', ok, gs, 'data nested in functions, classes and partials can be sent', path=t.path())


def _consts(t):
    if t.op == 'const':
        return [repr(t.a[0])]
    if t.op == 'alloc':
        return [c for x in t.a[2] for c in _consts(x)]
    if t.op in ('tup', 'tuple'):
        return [c for x in t.a[0] for c in _consts(x)]
    return ['?']


# -- tables ---------------------------------------------------------------

CANNERS = {'numpy.ndarray': 'CannedArray', 'FunctionType': 'CannedFunction', 'functools.partial': 'CannedPartial', 'bytes': 'CannedBytes', 'memoryview': 'CannedMemoryView', 'cell_type': 'CannedCell', 'type': 'can_class', 'ipyparallel.dependent': 'can_dependent'}


def maps(ck, names):
    mod = ck.repo.func(K + 'can').module
    g = mod.globals
    d = g.get('can_map')
    where = ck.F(K + 'can', opaque=names)
    if isinstance(d, ast.Dict):
        have = {}
        for k, v in zip(d.keys, d.values):
            key = k.value if isinstance(k, ast.Constant) else ast.unparse(k)
            have[key] = ast.unparse(v)
        for k, v in CANNERS.items():
            hit = [w for x, w in have.items() if x == k or x.rsplit('.', 1)[-1] == k.rsplit('.', 1)[-1]]
            ck.ok('maps', bool(hit) and all(w == v or w in ('CannedBuffer',) and v == 'CannedMemoryView' or w.startswith('lambda') for w in hit), where, f'{k} is sent as {v}')
    d = g.get('uncan_map')
    if isinstance(d, ast.Dict):
        have = {ast.unparse(k): ast.unparse(v) for k, v in zip(d.keys, d.values)}
        v = have.get('CannedObject', '')
        ck.ok('maps', 'get_object(g)' in v or 'get_object(g=g)' in v or bool(v) and 'lambda' not in v, where, 'objects are restored in the namespace of the engine')
        ck.ok('maps', have.get('dict') == 'uncan_dict' or bool(have.get('dict')) and 'lambda' in have['dict'], where, 'values of dicts are restored')
    for n in ('can_map', 'uncan_map'):
        v = g.get('_original_' + n)
        ck.ok('maps', v is None or not isinstance(v, ast.Name), where, f'the original {n} does not change')
    cc = ck.F(K + 'can_class', opaque=names)
    at = dict(main=lit("obj.__module__ == '__main__'"), other=either(lit("obj.__module__ != '__main__'"), lit('not isinstance(obj, type)')))
    for t in rets(cc, at):
        ok = cc.match('ipyparallel.serialize.canning.CannedClass(obj)', t.ret) is not None if 'main' in t else cc.match('obj', t.ret) is not None and 'other' in t
        ck.ok('maps', ok, cc, 'classes that the engine cannot import are sent', path=t.path())
    cd = ck.F(K + 'can_dependent', opaque=names)
    for t in rets(cd):
        r = t.ret
        ok = r.op == 'call' and cd.match('ipyparallel.serialize.canning.CannedObject(obj, *_, **_)', r) is not None
        if ck.ok('maps', ok, cd, 'dependent functions are sent', path=t.path()):
            ks = argof(r, 1, 'keys')
            hk = argof(r, 2, 'hook')
            ck.ok('maps', ks is not None and {"'f'", "'df'"} <= set(_consts(ks)), cd, 'both functions are sent', path=t.path())
            ck.ok('maps', hk is not None and cd.match('ipyparallel.serialize.canning._uncan_dependent_hook', hk) is not None, cd, 'the dependency is checked on the engine', path=t.path())
    hk = ck.F(K + '_uncan_dependent_hook', opaque=('check_dependency',))
    ck.every('maps', hk, dict(c=call('dep.check_dependency()')), lambda t: t.end != 'return' or t.count('c') == 1, 'the dependency is checked on the engine')


def libraries(ck, names):
    for name, lib in (('use_dill', 'dill'), ('use_cloudpickle', 'cloudpickle'), ('use_pickle', 'pickle')):
        fl = ck.F(K + name, opaque=names)
        sw = effect('', lambda e: e.kind == 'store' and e.a[1] == 'pickle' and str(e.a[0]).endswith('serialize') and fl.match(lib, e.a[2]) is not None)
        M = 'ipyparallel.serialize.canning.can_map'
        if lib == 'pickle':
            fn = effect('', lambda e: e.kind == 'add' and fl.match(M, e.a[0]) is not None and fl.match('types.FunctionType', e.a[1]) is not None and fl.match('any_of(ipyparallel.serialize.canning._original_can_map[types.FunctionType], ipyparallel.serialize.canning.CannedFunction)', e.a[2]) is not None)
        else:
            fn = either(remove(M, 'types.FunctionType'), call(f'{M}.pop(types.FunctionType, _)'))
        ck.every('libraries', fl, dict(s=sw, f=fn), lambda t: t.end != 'return' or t.count('s') == 1 and t.count('f') == 1, f'{name} switches both the pickle library and how functions are sent')


def interactive(ck):
    for spec in ('serialize.canning:interactive', 'util:interactive'):
        fl = ck.F(spec)
        MK = 'types.FunctionType(*_, **_)'
        isf = lit('isinstance(f, types.FunctionType)')
        for t in rets(fl, dict(f=isf)):
            for r in leaves(fl, t.ret):
                if fl.match(MK, r) is None:
                    ck.ok('interactive', fl.match('f', r) is not None and ('f' not in t), fl, 'an interactive function runs in the namespace of the user', path=t.path())
                    continue
                get = lambda i, n: argof(r, i, n)
                ok = fl.match('f.__code__', get(0, 'code')) is not None and get(1, 'globals') is not None and fl.match("any_of(__import__('__main__').__dict__, vars(__import__('__main__')), sys.modules['__main__'].__dict__)", get(1, 'globals')) is not None
                ck.ok('interactive', ok, fl, 'an interactive function runs in the namespace of the user', path=t.path())
                ck.ok('interactive', get(2, 'name') is not None and fl.match('f.__name__', get(2, 'name')) is not None and get(3, 'argdefs') is not None and fl.match('f.__defaults__', get(3, 'argdefs')) is not None, fl, 'an interactive function has its name and its defaults', path=t.path())
                st = [e for e in fl.all_effects() if e.kind == 'store' and any(x is r for x in leaves(fl, e.a[0])) and e.a[1] == '__kwdefaults__']
                ck.ok('interactive', bool(st) and all(fl.match('f.__kwdefaults__', e.a[2]) is not None for e in st) or get(5, 'kwdefaults') is not None, fl, 'an interactive function has its defaults, also of keywords', path=t.path())
        mod = effect('', lambda e: e.kind == 'store' and e.a[1] == '__module__' and e.a[2] is tm.const('__main__'))
        ck.every('interactive', fl, dict(m=mod), lambda t: t.end != 'return' or 'm' in t, 'an interactive function is not looked for in a module')


def dependents(ck):
    DP = 'controller.dependency:'
    cd = ck.F(DP + 'dependent.check_dependency')
    DF = 'self.df(*self.dargs, **self.dkwargs)'
    met = either(lit(f'{DF} is not False'), lit(f'{DF} != False'), lit(DF))
    un = either(lit(f'{DF} is False'), lit(f'{DF} == False'), lit(f'not {DF}'))
    for t in cd.traces(dict(un=un, met=met, c=call(DF))):
        if t.end in ('return', 'raise'):
            ck.ok('dependent', (t.end == 'raise') == ('un' in t) and t.count('c') == 1, cd, 'a function only runs where its dependency is met', path=t.path())
    from .common import raises
    ck.every('dependent', cd, dict(un=un, r=raises('ipyparallel.error.UnmetDependency(*_)')), lambda t: 'un' not in t or 'r' in t or t.end != 'raise', 'a function only runs where its dependency is met')
    fc = ck.F(DP + 'dependent.__call__')
    for t in rets(fc):
        ck.ok('dependent', fc.match('self.f(*args, **kwargs)', t.ret) is not None, fc, 'a dependent function is called as it is', path=t.path())
    fi = ck.F(DP + 'dependent.__init__')
    fields(ck, 'dependent', fi, {n: (lambda p: lambda x: fi.match(p, bare(x)) is not None)(p) for n, p in dict(f='_wrapped_f', df='_wrapped_df', dargs='dargs', dkwargs='dkwargs').items()})
    de = ck.F(DP + 'depend.__call__')
    for t in rets(de):
        ck.ok('dependent', de.match('ipyparallel.controller.dependency.dependent(f, self.f, *self.args, **self.kwargs)', t.ret) is not None, de, 'the dependency is the one that was given', path=t.path())
    # require
    rq = ck.F(DP + 'require', opaque=('can',))
    for t in rets(rq):
        r = t.ret
        ok = r.op == 'call' and rq.match('ipyparallel.controller.dependency.depend(ipyparallel.controller.dependency._require, *_, **mapping)', r) is not None
        ok = ok and any(k in (None, '**') and rq.match('mapping', v) is not None for k, v in r.a[2])
        ck.ok('require', ok, rq, 'what is required is sent', path=t.path())
    put = [e for e in rq.all_effects() if e.kind == 'add' and rq.match('mapping', e.a[0]) is not None and e.a[2].op == 'call' and str(e.a[2].a[0]).endswith('.can')]
    ck.ok('require', bool(put) and all(covers(rq, rq.loop_of(e.node), 'mapping') and rq.match('elem(mapping)', e.a[1]) is not None and rq.match('_(mapping[elem(mapping)])', e.a[2]) is not None for e in put), rq, 'all that is required is converted')
    sk = effect('', lambda e: e.kind == 'add' and rq.match('mapping', e.a[0]) is not None and rq.match('elem(objects).__name__', e.a[1]) is not None and rq.match('elem(objects)', e.a[2]) is not None)
    nm = effect('', lambda e: e.kind == 'add' and e.a[-1] == 'append' and all(rq.match('any_of(elem(objects), elem(objects).__name__)', x) is not None for x in leaves(rq, e.a[1])))
    hs = [h for h in rq.order if h.kind == 'loop' and h.term is not None and covers(rq, h, 'objects')]
    ck.ok('require', bool(hs), rq, 'all that is required is sent')
    for h in hs:
        for t in rq.body_traces(h, dict(s=sk, n=nm)):
            ck.ok('require', t.end in ('raise', 'exc') or t.count('s') + t.count('n') == 1, rq, 'all that is required is sent', path=t.path())
        if put:
            ck.every('require', rq, dict(a=_done(h), b=_done(rq.loop_of(put[0].node))), lambda t: t.end != 'return' or t.before('a', 'b'), 'all that is required is converted')
    rr = ck.F(DP + '_require')
    imps = [e for e in rr.all_effects() if e.kind == 'call' and e.a[0].a[0].op == 'glob' and e.a[0].a[0].a[0] in ('exec', '__import__', 'importlib.import_module')]
    ck.ok('require', bool(imps) and all(covers(rr, rr.loop_of(e.node), 'modules') for e in imps), rr, 'all modules are imported')
    ums = [x for x in rr.all_effects() if x.kind == 'raise' and rr.match('ipyparallel.error.UnmetDependency(*_)', x.a[0]) is not None]
    ck.ok('require', bool(ums), rr, 'a module that cannot be imported is an unmet dependency')
    for e in imps:
        labels = {n for s, l in e.node.succ if l == 'exc' for _, m in s.succ if isinstance(m, tuple) and m[0] == 'except' for n in (m[1] or ('BaseException',))}
        ck.ok('require', not labels or bool(labels & {'ImportError', 'Exception', 'BaseException'}), e, f'whatever keeps a module from being imported is an unmet dependency, not only {sorted(labels)}')
    puts = [e for e in rr.all_effects() if e.kind == 'add' and e.a[-1] == 'key' and rr.match('globals()', e.a[0]) is not None]
    ck.ok('require', bool(puts) and all(rr.match('elem(mapping)', e.a[1]) is not None and rr.match('any_of(ipyparallel.serialize.uncan(mapping[elem(mapping)], globals()), ipyparallel.serialize.canning.uncan(mapping[elem(mapping)], globals()))', e.a[2]) is not None and covers(rr, rr.loop_of(e.node), 'mapping') for e in puts), rr, 'all that is required is there')
    for t in rets(rr):
        ck.ok('require', t.ret is not tm.const(False), rr, 'requirements that are there are met', path=t.path())
