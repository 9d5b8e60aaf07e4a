"""Maps: sequences are split, computed and put together again, whole and in order."""

from ipa import terms as tm
from ipa.terms import pat

from .client import _items, _lit, bound, captured, closures, effect, leaves
from .common import add, argof, call, covers, dict_sources, either, enclosing, is_eff, iter_covers, lit, prop, remove, store
from .result import listing, rets
from .view import blocks, entry_of, flag, kw, opaque_for, passes

V = 'client.view:'
MP = 'client.map:'
PF = 'client.remotefunction:ParallelFunction'
AMR = 'ipyparallel.client.asyncresult.AsyncMapResult'
AR = 'ipyparallel.client.asyncresult.AsyncResult'


@prop('C05', 60)
def c05(ck):
    partitions(ck)
    joining(ck)
    parallel(ck)
    scattering(ck)
    mapping(ck)
    broadcast(ck)
    lazily(ck)
    executors(ck)


# -- partitions -----------------------------------------------------------


class Unknown(Exception):
    pass


def _mul(a, b):
    out = {}
    for m, x in a.items():
        for k, y in b.items():
            s = tuple(sorted(m + k))
            out[s] = out.get(s, 0) + x * y
    return {m: x for m, x in out.items() if x}


def _sum(a, b, k=1):
    out = dict(a)
    for m, x in b.items():
        out[m] = out.get(m, 0) + k * x
    return {m: x for m, x in out.items() if x}


def const(c):
    return {(): c} if c else {}


def sym(s):
    return {(s,): 1}


N = _sum(_mul(sym('q'), sym('b')), sym('r'))


def subst(p, env):
    out = {}
    for m, x in p.items():
        f = const(x)
        for s in m:
            f = _mul(f, env.get(s, sym(s)))
        out = _sum(out, f)
    return out


def poly(fl, t, first):
    """Normal form over p, q, b = n // q and r = n % q; `first`: is p < r?"""
    if t.op == 'const' and isinstance(t.a[0], (bool, int)):
        return const(int(t.a[0]))
    if t.op == 'param' and t.a[0] in ('p', 'q'):
        return sym(t.a[0])
    if is_n(fl, t):
        return N
    if t.op == 'bin':
        o, x, y = t.a
        if o in ('//', '%') and is_n(fl, x) and fl.match('q', y) is not None:
            return sym('b' if o == '//' else 'r')
        if o in ('+', '-'):
            return _sum(poly(fl, x, first), poly(fl, y, first), 1 if o == '+' else -1)
        if o == '*':
            return _mul(poly(fl, x, first), poly(fl, y, first))
        raise Unknown(t)
    if t.op == 'un' and t.a[0] == '-':
        return _sum({}, poly(fl, t.a[1], first), -1)
    if t.op == 'item' and t.a[1].op == 'const' and fl.match('divmod(_, q)', t.a[0]) is not None and is_n(fl, t.a[0].a[1][0]):
        return sym('b' if t.a[1].a[0] == 0 else 'r')
    if t.op == 'call' and t.a[0].op == 'glob' and t.a[0].a[0] in ('int', 'bool') and len(t.a[1]) == 1:
        return poly(fl, t.a[1][0], first)
    if t.op == 'call' and t.a[0].op == 'glob' and t.a[0].a[0] in ('min', 'max') and len(t.a[1]) == 2:
        x, y = (poly(fl, u, first) for u in t.a[1])
        for c in (0, 1):
            # p + 1 <= r if p < r
            x1 = _sum(sym('p'), const(c))
            if x1 in (x, y) and sym('r') in (x, y):
                return x1 if first == (t.a[0].a[0] == 'min') else sym('r')
        raise Unknown(t)
    v, pol = tm.literal(t, True)
    if v.op == 'cmp':
        k = less(fl, v)
        if k is not None:
            return const(int((first == k) == pol))
    raise Unknown(t)


def is_n(fl, t):
    return all(fl.match('any_of(n, len(seq))', x) is not None for x in leaves(fl, t)) and t.op in ('param', 'call', 'phi')


def less(fl, t):
    """True if the condition says p < r, False if it says r <= p."""
    if t.op == 'truth':
        t = t.a[0]
    if t.op != 'cmp' or t.a[0] not in ('<', '<=', '>', '>='):
        return None
    try:
        x, y = poly(fl, t.a[1], True), poly(fl, t.a[2], True)
    except (Unknown, RecursionError):
        return None
    o = t.a[0]
    if o in ('>', '>='):
        x, y, o = y, x, o.replace('>', '<')
    d = _sum(y, x, -1)  # 0 < d or 0 <= d
    if o == '<=':
        d = _sum(d, const(1))
    # 0 < d
    if d == _sum(sym('r'), sym('p'), -1):
        return True
    if d == _sum(_sum(sym('p'), sym('r'), -1), const(1)):
        return False
    return None


def partitions(ck):
    fl = ck.F(MP + 'Map.getPartition')
    seen = {True: [], False: []}

    def says(k):
        return _lit(lambda t: less(fl, t) is k), _lit(lambda t: less(fl, t) is (not k), False)

    at = {}
    for k in (True, False):
        a, b = says(k)
        at[f'{k}1'], at[f'{k}2'] = a, b
    bad = either(lit('p < 0'), lit('p >= q'), lit('not p < q'))
    for t in fl.traces(dict(at, bad=bad), retval=True, exc='handled'):
        if t.end != 'return':
            ck.ok('partition', 'bad' in t, fl, 'all partitions exist', path=t.path())
            continue
        r = t.ret
        while r.op == 'copy' and len(r.a) == 1:
            r = r.a[0]
        lo = hi = None
        if r.op == 'item' and fl.match('seq', r.a[0]) is not None and r.a[1].op == 'slice' and r.a[1].a[2] in (None, tm.NONE):
            lo, hi = r.a[1].a[:2]
        elif fl.match('itertools.islice(seq, _, _)', r) is not None:
            lo, hi = r.a[1][1:]
        if not ck.ok('partition', lo is not None and hi is not None, fl, 'a partition is a part of the sequence', path=t.path()):
            return
        ks = {True, False}
        for k in (True, False):
            if f'{k}1' in t or f'{k}2' in t:
                ks &= {k}
        for k in ks:
            try:
                pr = (poly(fl, lo, k), poly(fl, hi, k))
            except Unknown as e:
                ck.ok('partition', False, fl, f'cannot tell where a partition starts and ends: {e}', path=t.path())
                return
            if pr not in seen[k]:
                seen[k].append(pr)
    for k in (True, False):
        ck.ok('partition', len(seen[k]) == 1, fl, 'where a partition starts and ends depends on its number, and on how many there are of how much')
    if not all(len(seen[k]) == 1 for k in seen):
        return
    (l1, h1), (l2, h2) = seen[True][0], seen[False][0]
    nxt = {'p': _sum(sym('p'), const(1))}
    ck.ok('partition', subst(l1, {'p': {}}) == {}, fl, 'the first partition starts at the start')
    ck.ok('partition', subst(l2, {'p': {}, 'r': {}}) == {}, fl, 'the first partition starts at the start')
    ck.ok('partition', h1 == subst(l1, nxt), fl, 'partitions follow each other without gaps or overlaps')
    last = {'p': _sum(sym('r'), const(1), -1)}
    ck.ok('partition', subst(h1, last) == subst(l2, {'p': sym('r')}), fl, 'partitions follow each other without gaps or overlaps')
    ck.ok('partition', h2 == subst(l2, nxt), fl, 'partitions follow each other without gaps or overlaps')
    ck.ok('partition', subst(h2, {'p': _sum(sym('q'), const(1), -1)}) == N, fl, 'the last partition ends at the end')
    sizes = [_sum(h1, l1, -1), _sum(h2, l2, -1)]
    ck.ok('partition', all(s in (sym('b'), _sum(sym('b'), const(1))) for s in sizes), fl, 'partitions are of equal size, but for one')
    ck.ok('partition', any(tm.mentions(t.ret, lambda x: x.op == 'param' and x.a[0] == 'n') for t in rets(fl)), fl, 'a sequence is only split up to its end')
    rr = ck.F(MP + 'RoundRobinMap.getPartition')
    ck.ok('partition.robin', any(tm.mentions(t.ret, lambda x: x.op == 'param' and x.a[0] == 'n') for t in rets(rr)), rr, 'a sequence is only split up to its end')
    for t in rets(rr):
        r = t.ret
        while r.op == 'copy' and len(r.a) == 1:
            r = r.a[0]
        ok = rr.match('any_of(seq[p:any_of(n, len(seq)):q], itertools.islice(seq, p, any_of(n, len(seq)), q))', r) is not None or r.op == 'item' and r.a[1].op == 'slice' and rr.match('seq', r.a[0]) is not None and rr.match('p', r.a[1].a[0]) is not None and r.a[1].a[1] not in (None, tm.NONE) and is_n(rr, r.a[1].a[1]) and rr.match('q', r.a[1].a[2]) is not None
        ck.ok('partition.robin', ok, rr, 'every q-th element is in the partition', path=t.path())


L = 'listOfPartitions'


def joining(ck):
    is_arr = either(lit(f'ipyparallel.client.map.is_array({L}[0])'), lit('isinstance(_, numpy.ndarray)'))
    for cls, m in (('Map', 'concatenate'), ('RoundRobinMap', 'joinPartitions')):
        fl = ck.F(MP + f'{cls}.{m}', opaque=('is_array', 'flatten_array', 'flatten_list'), cls=MP + cls)
        seq = _lit(lambda t: t.op == 'truth' and fl.match(f'isinstance({L}[0], _)', t.a[0]) is not None)
        names = set()
        for ls in fl._elits.values():
            for t, p in ls:
                if t.op == 'truth' and fl.match(f'isinstance({L}[0], _)', t.a[0]) is not None:
                    names |= {str(x) for x in (_items(t.a[0].a[1][1]) or [t.a[0].a[1][1]])}
        ck.ok('join', {'list', 'tuple', 'range'} <= {n.rsplit('.', 1)[-1] for n in names}, fl, 'partitions of all sequences are joined')
        for t in rets(fl, dict(arr=is_arr, seq=seq)):
            if 'arr' in t:
                ok = fl.match(f'any_of(ipyparallel.client.map.numpy.concatenate({L}), numpy.concatenate({L}))' if cls == 'Map' else f'self.flatten_array({L})', t.ret) is not None
            elif 'seq' in t:
                x = t.ret
                while x.op == 'copy' and len(x.a) == 1:
                    x = x.a[0]
                if cls == 'Map':
                    ok = fl.match(f'any_of(itertools.chain.from_iterable({L}), itertools.chain(*{L}), sum({L}, []))', x) is not None or x.op == 'comp' and x.a[0] in ('list', 'gen') and x.a[4] == 0 and fl.match(f'elem(elem({L}))', x.a[2]) is not None
                    if not ok and x.op == 'alloc':
                        ad = [e for e in fl.all_effects() if e.kind == 'add' and e.a[0] is x]
                        ok = bool(ad) and all(any(covers(fl, h, L, True) for h in enclosing(fl, e.node)) and fl.match(f'any_of(elem({L}), elem(elem({L})))', e.a[1]) is not None for e in ad)
                else:
                    ok = fl.match(f'self.flatten_list({L})', x) is not None
            else:
                ok = fl.match(L, t.ret) is not None
            ck.ok('join', ok, fl, 'partitions are joined in order, scalars are listed', path=t.path())
    jp = ck.F(MP + 'Map.joinPartitions', opaque=('concatenate',))
    for t in rets(jp):
        ck.ok('join', jp.match(f'self.concatenate({L})', t.ret) is not None, jp, 'partitions are joined in order', path=t.path())
    fa = ck.F(MP + 'RoundRobinMap.flatten_array')
    for t in rets(fa):
        A = t.ret
        puts = [e for e in fa.all_effects() if e.kind == 'add' and e.a[0] is A]
        ck.ok('join.robin', len(puts) >= 1, fa, 'all partitions are joined')
        for e in puts:
            k = e.a[1]
            h = fa.loop_of(e.node)
            ok = k.op == 'slice' and fa.match(f'idx({L})', k.a[0]) is not None and fa.match(f'len({L})', k.a[2]) is not None and fa.match(f'elem({L})', e.a[2]) is not None and covers(fa, h, L, True)
            ck.ok('join.robin', ok and all(x.end == 'stop' and 'a' in x for x in fa.body_traces(h, dict(a=is_eff(e)))), e, 'each partition has every q-th place')
        dt = argof(A, 1, 'dtype') if A.op == 'call' else None
        ck.ok('join.robin', A.op == 'call' and (dt is not None and tm.mentions(dt, lambda x: fa.match(L, x) is not None) or fa.match('any_of(_.empty_like(_, *_, **_), _.zeros_like(_, *_, **_))', A) is not None), fa, 'elements stay what they are', path=t.path())
        sh = argof(A, 0, 'shape') if A.op == 'call' else None
        tot = f'any_of(sum(_.shape[0] for _ in {L}), _)'
        sizes = [x.a[2] for x in fa.all_effects() if x.kind == 'add' and x.a[1] is tm.const(0) and x.a[0] is sh] + ([sh] if sh is not None else [])
        ck.ok('join.robin', any(tm.mentions(s, lambda x: x.op == 'comp' and x.a[4] == 0 and fa.match(f'any_of(elem({L}).shape[0], len(elem({L})))', x.a[2]) is not None) for s in sizes) or bool(tot) and any(tm.mentions(s, lambda x: x.op == 'phi') for s in sizes), fa, 'there is room for all partitions', path=t.path())
    fll = ck.F(MP + 'RoundRobinMap.flatten_list')
    for t in rets(fll):
        A = t.ret
        ok = False
        X = f'elem({L})[idx({L}[0])]'
        if A.op == 'alloc':
            puts = [e for e in fll.all_effects() if e.kind == 'add' and e.a[0] is A]
            ok = bool(puts)
            for e in puts:
                hs = enclosing(fll, e.node)
                outer = [h for h in hs if covers(fll, h, f'{L}[0]', True)]
                ok = ok and fll.match(X, e.a[1]) is not None and len(outer) == 1
                if len(hs) > 1:
                    ok = ok and hs[-1] is outer[0] and any(covers(fll, h, L, True) for h in hs)
        elif A.op == 'comp':
            ok = fll.match(X, A.a[2]) is not None and len(A.a[3]) == 2 and iter_covers(fll, A.a[3][0], f'{L}[0]', True) and iter_covers(fll, A.a[3][1], L, True)
        ck.ok('join.robin', ok, fll, 'elements take turns', path=t.path())
        # an element is left out exactly if its partition has run out
        has = either(lit(f'len(elem({L})) > idx({L}[0])'), lit(f'idx({L}[0]) < len(elem({L}))'))
        ck.ok('join.robin', any(has(_E(l), fll.alts, {}) is not None for ls in fll._elits.values() for l in ls), fll, 'an element is left out exactly if its partition has run out')


class _E:
    kind = 'lit'
    node = None

    def __init__(self, l):
        self.a = l


# -- parallel functions ---------------------------------------------------


def largest(fl, t, elt, src):
    """Is t the maximum of elt over src?"""
    if fl.match('max(_)', t) is not None:
        x = t.a[1][0]
        return listing(fl, x, elt, src)
    if t.op != 'phi':
        return False
    # a loop that keeps the largest so far
    h = next((n for n in fl.order if n.id == t.a[0]), None)
    if h is None or h.kind != 'loop' or not covers(fl, h, src):
        return False
    first = [o for pid, o in fl.phi_ops.get(t, ()) if o.op == 'const']
    nxt = [o for pid, o in fl.phi_ops.get(t, ()) if o.op != 'const']
    if not first or any(not isinstance(o.a[0], int) or o.a[0] > 0 for o in first) or not nxt:
        return False
    for o in nxt:
        if o.op == 'call' and fl.match('max(_, _)', o) is not None:
            if not any(x is t for x in o.a[1]) or not all(x is t or all(fl.match(elt, y) is not None for y in leaves(fl, x)) for x in o.a[1]):
                return False
            continue
        if o.op != 'phi':
            return False
        for pid, v in fl.phi_ops.get(o, ()):
            node = next((n for n in fl.order if n.id == pid), None)
            if v is t:
                continue
            if not all(fl.match(elt, y) is not None for y in leaves(fl, v)):
                return False
            lits = fl.guards().get(pid, ())
            if not any(c.op == 'cmp' and p and (c.a[0] in ('<', '<=') and c.a[1] is t and c.a[2] is v) or c.op == 'cmp' and not p and c.a[0] in ('<', '<=') and c.a[1] is v and c.a[2] is t for c, p in lits):
                return False
    return True


def parallel(ck):
    names = opaque_for(ck, 'View') + ('getPartition', '_map', 'PrePickled')
    fl = ck.F(PF + '.__call__', opaque=names)
    MAPPING = "kwargs.get('__ipp_mapping', *_)"
    LEN = 'any_of(len(elem(_)), len(copyof(elem(_))))'
    PART = 'self.mapObject.getPartition(*_, **_)'
    APPLY = 'any_of(_.apply(*_), _.apply_async(*_))'
    bal = "'Balanced' in self.view.__class__.__name__"
    sends = fl.find(call(APPLY))
    ck.ok('parallel', bool(sends), fl, 'parts are sent')
    parts = fl.find(call(PART))
    ck.ok('parallel', bool(parts), fl, 'sequences are split')
    targets = set()
    for e, b in sends:
        h = next((h for h in enclosing(fl, e.node) if h.term is not None), None)
        if not ck.ok('parallel', h is not None, e, 'each part is sent'):
            return
        targets.add(_bare(fl.val(h, h.term)))
        mapping, plain = either(lit(MAPPING)), either(lit(f'not {MAPPING}'))
        empty = either(lit(f'sum(_) == 0'), lit('not sum(_)'), lit('not any(_)'), lit('all(_)'), lit('max(_) == 0'), lit('not max(_)'))
        ba = dict(a=call(APPLY), empty=empty)
        for t in fl.body_traces(h, ba):
            ck.ok('parallel', t.end == 'stop' and t.count('a') == (0 if 'empty' in t else 1), e, 'each part is sent once, unless it is empty', path=t.path())
        # what is sent, and to whom
        T = _bare(fl.val(h, h.term))
        f0 = lambda c: c.a[1][0] if c.a[1] else None
        fm = passes(APPLY, f0, '_')
        PFN = 'ipyparallel.serialize.PrePickled(self.func)'
        MAPF = 'any_of(ipyparallel.client.remotefunction._prepickled_map, ipyparallel.client.remotefunction._map, ipyparallel.serialize.PrePickled(ipyparallel.client.remotefunction._map))'
        at = dict(m=mapping, p=plain, fmap=passes(APPLY, f0, MAPF), fun=passes(APPLY, f0, f'any_of({PFN}, self.func)'), a=fm, bal=lit(bal), unbal=lit(f'not ({bal})'),
                  args1=_args(fl, PART, 0), args2=_args(fl, PART, 1), own=_on(fl, lambda v: fl.match('self.view', v) is not None), eng=_on(fl, lambda v: v.op == 'item' and fl.match('any_of(self.view.client, _.client)', v.a[0]) is not None and v.a[1].op == 'elem' and _bare(v.a[1].a[0]) is T))
        for t in fl.traces(at):
            if 'a' not in t:
                continue
            ok = ('m' in t) != ('p' in t) and ('bal' in t) != ('unbal' in t)
            if not ck.ok('parallel.what', ok and ('fmap' in t and 'fun' not in t and 'args2' in t if 'm' in t else 'fun' in t and 'fmap' not in t and 'args1' in t), e, 'the function is called with the parts, or, in a map, with each of their elements', path=t.path()):
                break
            if not ck.ok('parallel.where', ('own' in t) == ('bal' in t) and ('eng' in t) == ('unbal' in t), e, 'parts are sent to their engine, or to any', path=t.path()):
                break
        # flags
        flagsets = [x for x in fl.all_effects() if x.kind == 'enter' and fl.match('_.temp_flags(**_)', x.a[0]) is not None]
        view = e.a[0].a[0].a[0]
        mine = [x for x in flagsets if fl.match('_', x.a[0].a[0].a[0]) is not None and (x.a[0].a[0].a[0] is view)]
        ck.ok('parallel.flags', bool(mine), e, 'the flags of the function are set')
        nb = e.a[0].a[0].a[1] == 'apply_async'
        for x in mine:
            d = next((v for k, v in x.a[0].a[2] if k in (None, '**')), None)
            order = [(k, v) for k, v, it in dict_sources(fl, d)] if d is not None else []
            order += [(tm.const(k), v) for k, v in x.a[0].a[2] if k not in (None, '**')]
            mineat = [i for i, (k, v) in enumerate(order) if k is not None and (fl.match('elem(self.flags)', k) is not None)]
            star = d is not None and fl.match('self.flags', d) is not None
            ck.ok('parallel.flags', bool(mineat) or star, x, 'the flags of the function are set')
            blk = [i for i, (k, v) in enumerate(order) if k is tm.const('block')]
            ck.ok('parallel.flags', nb or bool(blk) and all(order[i][1] is tm.const(False) for i in blk) and (not mineat or blk[-1] > mineat[-1]), x, 'sending the parts does not block')
            for n in ('track', 'label'):
                at_ = [i for i, (k, v) in enumerate(order) if k is tm.const(n)]
                ck.ok('parallel.flags', bool(at_) and all(fl.match(f'self.view.{n}', order[i][1]) is not None for i in at_) and (not mineat or at_[-1] < mineat[0]), x, f'the {n} is that of the function, or of the view')
        for t in fl.body_traces(h, dict(on=effect('', lambda y: y in mine), off=effect('', lambda y: y.kind == 'leave' and any(y.a[0] is z.a[0] for z in mine)), a=is_eff(e))):
            if 'a' in t:
                ck.ok('parallel.flags', t.before('on', 'a') and not t.before('off', 'a'), e, 'the flags of the function are set when it is sent', path=t.path())
        # bookkeeping
        R = e.a[0]
        kids = [x for x in fl.all_effects() if x.kind == 'add' and tm.mentions(x.a[1], lambda y: y.op == 'attr' and y.a[1] == '_children' and y.a[0] is R)]
        size = [x for x in fl.all_effects() if x.kind == 'add' and x.a[1].op == 'item' and x.a[1].a[1] is tm.const(0) and x.a[1].a[0].op == 'attr' and x.a[1].a[0].a[1] == 'msg_ids' and x.a[1].a[0].a[0] is R]
        own = [x for x in fl.all_effects() if x.kind == 'store' and x.a[0] is R and x.a[1] == 'owner']
        ck.ok('parallel.result', bool(own) and all(x.a[2] is tm.const(False) for x in own), e, 'the result is that of the whole')
        hist, outs = ([x for x in fl.all_effects() if x.kind == 'add' and fl.match(f'self.view.{n}', x.a[0]) is not None and x.a[1].op in ('elem', 'item') and (x.a[1].op == 'elem' or x.a[1].a[1] is tm.const(0)) and x.a[1].a[0].op == 'attr' and x.a[1].a[0].a[1] == 'msg_ids' and x.a[1].a[0].a[0] is R] for n in ('history', 'outstanding'))
        isv = _lit(lambda t: t.op == 'cmp' and t.a[0] == 'is' and {str(t.a[1]), str(t.a[2])} == {str(view), 'self.view'})
        at = dict(a=is_eff(e), k=_takes(fl, h, kids), z=effect('', lambda y: y in size), o=effect('', lambda y: y in own), h=effect('', lambda y: y in hist), u=effect('', lambda y: y in outs), same=isv, bal=lit(bal))
        for t in fl.body_traces(h, at):
            if 'a' in t:
                ck.ok('parallel.result', all(t.count(x) == 1 for x in 'kzo'), e, 'the result has all parts, in order', path=t.path())
                ck.ok('parallel.record', 'same' in t or 'bal' in t or t.count('h') == t.count('u') == 1, e, 'parts are requests of the view', path=t.path())
        # sizes of chunks
        def least(v):
            return v.op == 'call' and fl.match('min(_)', v) is not None and _lens(fl, v.a[1][0], PART)

        for x in size:
            at = dict(z=is_eff(x), m=mapping, p=plain, one=_size(x, lambda v: v is tm.const(1)), min=_size(x, least), odd=_size(x, lambda v: v is not tm.const(1) and not least(v)))
            for t in fl.traces(at):
                if 'z' in t and not ck.ok('parallel.result', 'odd' not in t and ('one' in t) == ('p' in t) and ('min' in t or 'm' not in t), x, 'chunks are as long as their part, or one result', path=t.path()):
                    break
        news = [(n, b2) for n, b2 in fl.find(call(f'{AMR}(*_, **_)'))]
        ck.ok('parallel.result', bool(news), fl, 'there is a result')
        for n, b2 in news:
            c = n.a[0]
            ck.ok('parallel.result', all(k.a[0] is argof(c, 1, 'children') for k in kids) and bool(kids) and all(z.a[0] is argof(c, 99, 'chunk_sizes') for z in size) and bool(size) and fl.match('self.mapObject', argof(c, 2, 'mapObject')) is not None, n, 'the result has all parts, in order')
            for k in ('ordered', 'return_exceptions'):
                ck.ok('parallel.result', argof(c, 99, k) is not None and fl.match(f'self.{k}', argof(c, 99, k)) is not None, n, f'the result is {k}')
        RES = f'{AMR}(*_, **_)'
    for e, b in parts:
        c = e.a[0]
        h = fl.loop_of(e.node)
        ck.ok('parallel.parts', h is not None and covers(fl, h, 'sequences', True) and fl.match('elem(_)', argof(c, 0, 'seq')) is not None and _bare(argof(c, 0, 'seq').a[0]) is _bare(fl.val(h, h.term)), e, 'all sequences are split')
        i, q, n = argof(c, 1, 'p'), argof(c, 2, 'q'), argof(c, 3, 'n')
        ok = i is not None and i.op == 'idx' and len(targets) == 1 and i.a[0] is next(iter(targets))
        ck.ok('parallel.parts', ok, e, 'a part is known by its number')
        ck.ok('parallel.parts', n is not None and (largest(fl, n, LEN, 'sequences')), e, 'sequences are split up to the end of the longest')
        CEIL = 'any_of(_ // self.chunksize + int(_ % self.chunksize > 0), _ // self.chunksize + (_ % self.chunksize > 0), _ // self.chunksize + bool(_ % self.chunksize), -(-_ // self.chunksize), (_ + self.chunksize - 1) // self.chunksize, (_ + (self.chunksize - 1)) // self.chunksize, math.ceil(_ / self.chunksize))'
        T = next(iter(targets)) if targets else None
        for x in shallow(fl, q):
            if x.op == 'call' and fl.match('len(_)', x) is not None:
                ck.ok('parallel.parts', set(leaves(fl, x.a[1][0])) <= set(leaves(fl, T)), e, 'there is a part for each target')
            else:
                ns = [y.a[1] for y in tm.walk(x) if y.op == 'bin' and y.a[0] in ('//', '%', '/') and fl.match('self.chunksize', y.a[2]) is not None]
                while any(y.op == 'un' or y.op == 'bin' for y in ns):
                    ns = [z for y in ns for z in ((y.a[1],) if y.op in ('un', 'bin') else (y,))]
                ck.ok('parallel.parts', x.op != 'phi' and fl.match(CEIL, x) is not None and bool(ns) and all(largest(fl, y, LEN, 'sequences') for y in ns) or largest(fl, x, LEN, 'sequences'), e, 'there are as many parts as chunks')
        for x in leaves(fl, T) if T is not None else ():
            if x.op == 'alloc' or x.op == 'bin':
                y = x
                ok = y.op == 'bin' and y.a[0] == '*' and any(z is q or z in leaves(fl, q) or set(leaves(fl, z)) <= set(leaves(fl, q)) for z in y.a[1:]) or y.op == 'alloc' and [str(z) for z in _items(y)] == ['self.view.targets']
                ck.ok('parallel.parts', ok, e, 'there is a target for each part')
            else:
                ck.ok('parallel.parts', fl.match('any_of(self.view.targets, _._build_targets(self.view.targets)[1])', x) is not None, e, 'the targets are those of the view')
        at = dict(p=is_eff(e), z=lit('self.chunksize'), nz=lit('not self.chunksize'), bal=lit(bal), ub=lit(f'not ({bal})'), c=passes(PART, kw(2, 'q'), CEIL), len=_number(e, lambda x: fl.match('len(_)', x) is not None and fl.match(LEN, x) is None), a=passes(PART, kw(1, 'p'), '_'), all=lit("self.view.targets == 'all'"), isint=lit('isinstance(self.view.targets, int)'))
        for t in fl.traces(at):
            if 'p' in t and not ck.ok('parallel.parts', ('bal' in t) != ('ub' in t) and ('c' in t) == ('bal' in t and 'z' in t) and ('len' in t) == ('ub' in t), e, 'there are as many parts as chunks, or targets', path=t.path()):
                break
    # sequences without length become lists, in place
    conv = [e for e in fl.all_effects() if e.kind == 'add' and e.a[1].op == 'idx' and covers(fl, fl.loop_of(e.node), 'sequences') and e.a[2] is not None and e.a[2].op == 'copy']
    for e in conv:
        ck.ok('parallel.parts', e.a[2].a[0].op == 'elem' and _bare(e.a[2].a[0].a[0]) is _bare(e.a[1].a[0]) and len(e.a[2].a) == 1, e, 'sequences without length become lists')
    made = [e for e, b in fl.find(call('list(elem(_))'))]
    for e in made:
        s = dict(m=is_eff(e), c=effect('', lambda x: x in conv))
        h = fl.loop_of(e.node)
        for t in fl.body_traces(h, s, exc='handled') if h is not None else ():
            if 'm' in t and t.end == 'stop':
                ck.ok('parallel.parts', 'c' in t, e, 'sequences without length become lists', path=t.path())
    # the value
    at = dict(b=lit('self.block'), nb=lit('not self.block'), z=_lit(lambda t: t.op == 'cmp' and t.a[0] == '==' and any(x is tm.const(0) for x in t.a[1:]) and any(largest(fl, x, LEN, 'sequences') for x in t.a[1:])), z2=_lit(lambda t: t.op == 'truth' and largest(fl, t.a[0], LEN, 'sequences'), False))
    for t in rets(fl, at, exc='handled'):
        if 'z' in t or 'z2' in t:
            ok = t.ret.op in ('alloc', 'tup') and not _items(t.ret)
        elif 'nb' in t:
            ok = fl.match(f'{AMR}(*_, **_)', t.ret) is not None
        else:
            ok = 'b' in t and fl.match(f'any_of({AMR}(*_, **_).get(), {AMR}(*_, **_))', t.ret) is not None
        ck.ok('parallel.value', ok, fl, 'a blocking call returns the value, others the pending result', path=t.path())
    G = f'{AMR}(*_, **_).get()'
    ck.every('parallel.value', fl, dict(b=lit('self.block'), nb=lit('not self.block'), g=call(G)), lambda t: t.end != 'return' or ('g' in t) == ('b' in t), 'a blocking call waits')
    def two(t, op):
        return t.op == 'cmp' and t.a[0] == op and all(x.op in ('phi', 'call') for x in t.a[1:]) and any(largest(fl, x, LEN, 'sequences') for x in t.a[1:])

    def uniq(t):
        return t.op == 'call' and fl.match('any_of(len(set(_)), len({_ for _ in _}))', t) is not None

    eq = either(_lit(lambda t: two(t, '==')), _lit(lambda t: two(t, '<') and largest(fl, t.a[2], LEN, 'sequences'), False), _lit(lambda t: t.op == 'cmp' and t.a[0] == '<' and t.a[1] is tm.const(1) and uniq(t.a[2]), False), _lit(lambda t: t.op == 'cmp' and t.a[0] == '==' and tm.const(1) in t.a[1:] and any(uniq(x) for x in t.a[1:])))
    at = dict(eq=eq, s=call(APPLY), p=lit(f'not {MAPPING}'))
    ck.every('parallel.value', fl, at, lambda t: not ('p' in t and 's' in t) or 'eq' in t, 'sequences of different length are refused, other than by maps')
    mp = ck.F(PF + '.map', opaque=('__call__',))
    for t in rets(mp):
        ck.ok('parallel.value', mp.match('any_of(self(*sequences, __ipp_mapping=True), self.__call__(*sequences, __ipp_mapping=True))', t.ret) is not None, mp, 'a map calls the function with each element', path=t.path())
    mf = ck.F('client.remotefunction:_map')
    for t in rets(mf):
        ok = mf.match('copyof(map(f, *sequences))', t.ret) is not None or t.ret.op == 'comp' and t.ret.a[0] == 'list' and t.ret.a[4] == 0 and mf.match('zip(*sequences)', t.ret.a[3][0]) is not None and t.ret.a[2].op == 'call' and mf.match('f', t.ret.a[2].a[0]) is not None
        ck.ok('parallel.value', ok, mf, 'a map calls the function with each element', path=t.path())
    ini = ck.F(PF + '.__init__')
    ck.every('parallel', ini, dict(c=store('self.chunksize', 'chunksize'), o=store('self.ordered', 'ordered'), r=store('self.return_exceptions', 'return_exceptions'), m=store('self.mapObject', 'ipyparallel.client.map.dists[dist]()'), i=either(call('super().__init__(view, f, block=block, **flags)'), call('ipyparallel.client.remotefunction.RemoteFunction.__init__(self, view, f, block=block, **flags)'))), lambda t: all(t.count(k) == 1 for k in 'cormi'), 'a parallel function is as it was asked for')


def shallow(fl, t):
    """The values of a variable, other than by what a loop computes."""
    loops = {n.id for n in fl.order if n.kind == 'loop'}
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'phi' and x.a[0] not in loops:
            todo += [o for pid, o in fl.phi_ops.get(x, ())]
        else:
            out.append(x)
    return out


def _bare(t):
    """What is enumerated."""
    while True:
        if t.op == 'copy' and len(t.a) == 1:
            t = t.a[0]
        elif t.op == 'call' and t.a[0].op == 'glob' and t.a[0].a[0] in ('enumerate', 'iter') and t.a[1]:
            t = t.a[1][0]
        else:
            return t


def _on(fl, test):
    def f(e, a, b):
        if e.kind != 'call' or e.a[0].a[0].op != 'attr' or e.a[0].a[0].a[1] not in ('apply', 'apply_async'):
            return None
        v = e.a[0].a[0].a[0]
        return {} if any(test(x) for x in (a(v) if v.op == 'phi' else [v]) if x.op != 'phi') else None

    f.desc = 'sent by'
    return f


def _size(x, test):
    def f(e, a, b):
        if e is not x:
            return None
        v = e.a[2]
        vs = [y for y in (a(v) if v.op == 'phi' else [v]) if y.op != 'phi']
        return {} if any(map(test, vs)) else None

    f.desc = 'chunk size'
    return f


def _number(x, test):
    def f(e, a, b):
        if e is not x:
            return None
        v = argof(e.a[0], 2, 'q')
        return {} if any(y.op != 'phi' and test(y) for y in (a(v) if v.op == 'phi' else [v])) else None

    f.desc = 'number of parts'
    return f


def _lens(fl, t, PART):
    """The lengths of all parts."""
    if t.op == 'comp' and t.a[4] == 0 and len(t.a[3]) == 1 and fl.match(f'any_of(len(elem(_)), len({PART}))', t.a[2]) is not None:
        return listing(fl, t.a[3][0], PART, 'sequences')
    return False


def _args(fl, PART, lead):
    """The arguments are the parts (after the function, in a map)."""

    def parts(t):
        if t.op == 'copy' and len(t.a) == 1:
            t = t.a[0]
        if listing(fl, t, PART, 'sequences'):
            return True
        if t.op == 'comp' and t.a[4] == 0 and len(t.a[3]) == 1 and fl.match(f'any_of(ipyparallel.serialize.PrePickled(elem(_)), ipyparallel.serialize.PrePickled({PART}), elem(_))', t.a[2]) is not None:
            return parts(t.a[3][0])
        return False

    def f(e, a, b):
        if e.kind != 'call' or e.a[0].a[0].op != 'attr' or e.a[0].a[0].a[1] not in ('apply', 'apply_async'):
            return None
        rest = list(e.a[0].a[1][1:])
        pos = []
        while rest and rest[0].op != 'star':
            pos.append(rest.pop(0))
        if len(rest) != 1:
            return None
        v = rest[0].a[0]
        for x in a(v) if v.op == 'phi' else [v]:
            if x.op == 'phi':
                continue
            n = len(pos)
            if x.op == 'bin' and x.a[0] == '+' and x.a[1].op in ('alloc', 'tup'):
                n += len(_items(x.a[1]))
                heads = pos + _items(x.a[1])
                x = x.a[2]
            else:
                heads = pos
            if n == lead and parts(x) and all(fl.match('any_of(ipyparallel.serialize.PrePickled(self.func), self.func)', y) is not None for y in heads):
                return {}
        return None

    f.desc = 'arguments'
    return f


# -- scatter and gather ---------------------------------------------------


def to_each(ck, rule, fl, SEND, T, target):
    """One request for each target, in order; all of them are part of the result."""
    sends = fl.find(call(SEND))
    ck.ok(rule, bool(sends), fl, 'parts are sent')
    for e, b in sends:
        R = e.a[0]
        h = fl.loop_of(e.node)
        if not ck.ok(rule, h is not None and covers(fl, h, T, True), e, 'there is a part for each target, in order'):
            continue
        t = target(R)
        ck.ok(rule, t is not None and t.op == 'elem' and t.a[0] is _bare(fl.val(h, h.term)), e, 'a part is sent to its target')
        kids = [x for x in fl.all_effects() if x.kind == 'add' and tm.mentions(x.a[1], lambda y: y.op == 'attr' and y.a[1] == '_children' and y.a[0] is R)]
        own = [x for x in fl.all_effects() if x.kind == 'store' and x.a[0] is R and x.a[1] == 'owner']
        ck.ok(rule, all(x.a[2] is tm.const(False) for x in own), e, 'the result is that of the whole')
        blk = argof(R, 2, 'block')
        ck.ok(rule, blk is tm.const(False), e, 'sending a part does not block')
        for t in fl.body_traces(h, dict(a=is_eff(e), k=_takes(fl, h, kids), o=effect('', lambda y: y in own))):
            ck.ok(rule, t.end in ('stop', 'raise', 'exc') and (t.end != 'stop' or t.count('a') == t.count('k') == t.count('o') == 1), e, 'all parts are in the result, in order', path=t.path())
        for n, b2 in fl.find(call(f'any_of({AR}(*_, **_), {AMR}(*_, **_), ipyparallel.AsyncResult(*_, **_), ipyparallel.AsyncMapResult(*_, **_))')):
            c = argof(n.a[0], 1, 'children')
            ck.ok(rule, bool(kids) and all(k.a[0] is c for k in kids), n, 'all parts are in the result, in order')


def _takes(fl, h, kids):
    """All of something is taken over, at once or in a loop."""
    inner = {}
    for k in kids:
        x = fl.loop_of(k.node)
        if x is not None and x is not h and k.a[1].op == 'elem' and _bare(fl.val(x, x.term)) is k.a[1].a[0]:
            if all(t.end == 'stop' and t.count('k') == 1 for t in fl.body_traces(x, dict(k=is_eff(k)))):
                inner[x.id] = x

    def f(e, a, b):
        if e.kind == 'done':
            return {} if e.node.id in inner else None
        return {} if e in kids and fl.loop_of(e.node) is h else None

    f.edge = bool(inner)
    f.desc = 'taken over'
    return f


def _arg(e, get, test, inner=None):
    """What is passed by e, on the path at hand."""

    def f(x, a, b):
        if x is not e:
            return None
        v = get(e.a[0])
        def vals(v):
            return [y for y in (a(v) if v.op == 'phi' else [v]) if y.op != 'phi']

        if inner is not None:
            ys = [z for y in vals(v) for w in [inner(y)] if w is not None for z in vals(w)] if v is not None else []
        else:
            ys = vals(v) if v is not None else []
        return {} if any(map(test, ys)) else None

    f.desc = 'argument'
    return f


def scattering(ck):
    names = opaque_for(ck, 'DirectView') + ('getPartition',)
    fl = ck.F(V + 'DirectView.scatter', opaque=names)
    T = 'self.client._build_targets(any_of(targets, self.targets))[1]'
    D = 'ipyparallel.client.map.dists[dist]()'
    PUSH = 'any_of(self.push(*_, **_), self.update(*_, **_))'
    flag(ck, 'scatter', fl, 'self.client._build_targets(_)', kw(0, 'targets'), 'targets', 'it is sent to the targets that were asked for, or those of the view')
    to_each(ck, 'scatter', fl, PUSH, T, lambda c: argof(c, 1, 'targets'))
    flag(ck, 'scatter', fl, PUSH, kw(3, 'track'), 'track', 'what is sent is tracked if asked for')
    PART = f'{D}.getPartition(*_, **_)'
    for e, b in fl.find(call(PART)):
        c = e.a[0]
        h = fl.loop_of(e.node)
        it = _bare(fl.val(h, h.term)) if h is not None else None
        i, q = argof(c, 1, 'p'), argof(c, 2, 'q')
        ok = fl.match('seq', argof(c, 0, 'seq')) is not None and i is not None and i.op == 'idx' and i.a[0] is it and q is not None and fl.match('len(_)', q) is not None and q.a[1][0] is it and argof(c, 3, 'n') in (None, tm.NONE)
        ck.ok('scatter', ok, e, 'the n-th target gets the n-th of as many parts as there are targets')
    one, few = lit(f'len({PART}) == 1'), lit(f'len({PART}) != 1')
    for e, b in fl.find(call(PUSH)):
        def sole(d):
            src = [(k, v) for k, v, it in dict_sources(fl, d)]
            return src[0][1] if len(src) == 1 and src[0][0] is not None and fl.match('key', src[0][0]) is not None else None

        at = dict(f=lit('flatten'), nf=lit('not flatten'), one=one, few=few, e=is_eff(e),
                  first=_arg(e, kw(0, 'ns'), lambda v: fl.match(f'{PART}[0]', v) is not None, sole),
                  whole=_arg(e, kw(0, 'ns'), lambda v: fl.match(PART, v) is not None, sole))
        h = fl.loop_of(e.node)
        for t in fl.body_traces(h, at) if h is not None else ():
            if 'e' in t:
                ck.ok('scatter', ('first' in t) == ('f' in t and 'one' in t) and ('whole' in t) != ('first' in t), e, 'the value is the part, or its only element if it is to be flattened', path=t.path())
    lens = fl.find(store('_._scatter_lengths'))
    ck.ok('scatter', bool(lens), fl, 'the sizes of the parts are known')
    for e, b in lens:
        ck.ok('scatter', listing(fl, e.a[2], f'len({PART})', T), e, 'the sizes of the parts are known, in order')
    RES = f'{AR}(*_, **_)'
    at = dict(isn=lit('block is None'), nn=lit('block is not None'), g1=lit('block'), g0=lit('not block'), s1=lit('self.block'), s0=lit('not self.block'), w=call(f'any_of({RES}.wait(), {RES}.get())'), l=store('_._scatter_lengths'))
    for t in rets(fl, at):
        yes, no = 'g1' in t and 'nn' in t or 's1' in t and 'isn' in t, 'g0' in t and 'nn' in t or 's0' in t and 'isn' in t
        ck.ok('scatter', yes != no and ('w' in t) == yes and (yes or fl.match(RES, t.ret) is not None) and t.count('l') == 1, fl, 'a result is waited for exactly if the call is to block', path=t.path())
    ga = ck.F(V + 'DirectView.gather', opaque=names)
    flag(ck, 'gather', ga, 'self.client._build_targets(_)', kw(0, 'targets'), 'targets', 'it is fetched from the targets that were asked for, or those of the view')
    PULL = 'self.pull(*_, **_)'
    to_each(ck, 'gather', ga, PULL, T, lambda c: argof(c, 1, 'targets'))
    for e, b in ga.find(call(PULL)):
        ck.ok('gather', ga.match('key', argof(e.a[0], 0, 'names')) is not None, e, 'what is fetched is the variable')
    RES = f'{AMR}(*_, **_)'
    for e, b in ga.find(call(RES)):
        ck.ok('gather', argof(e.a[0], 2, 'mapObject') is not None and ga.match(D, argof(e.a[0], 2, 'mapObject')) is not None, e, 'parts are joined the way they were split')
    at = dict(isn=lit('block is None'), nn=lit('block is not None'), g1=lit('block'), g0=lit('not block'), s1=lit('self.block'), s0=lit('not self.block'), get=call(f'{RES}.get()'))
    for t in rets(ga, at, exc='handled'):
        yes, no = 'g1' in t and 'nn' in t or 's1' in t and 'isn' in t, 'g0' in t and 'nn' in t or 's0' in t and 'isn' in t
        ck.ok('gather', yes != no and ('get' in t) == yes and ga.match(f'any_of({RES}.get(), {RES})' if yes else RES, t.ret) is not None, ga, 'a blocking call returns the value, others the pending result', path=t.path())


# -- maps of views --------------------------------------------------------


def mapping(ck):
    for cls, extra in (('DirectView', ('track',)), ('LoadBalancedView', ('chunksize', 'ordered'))):
        fl = ck.F(V + cls + '.map', opaque=opaque_for(ck, cls))
        NEW = 'ipyparallel.client.remotefunction.ParallelFunction(*_, **_)'
        for n in ('block', 'label'):
            flag(ck, 'map', fl, NEW, kw(99, n), n, f'the {n} is what was asked for, or that of the view')
        for e, b in fl.find(call(NEW)):
            c = e.a[0]
            v, f = argof(c, 0, 'view'), argof(c, 1, 'f')
            ck.ok('map', v is not None and f is not None and fl.match('self', v) is not None and fl.match('f', f) is not None, e, 'the function is mapped by this view')
            for n in extra + ('return_exceptions',):
                x = argof(c, 99, n)
                ck.ok('map', x is not None and all(y.op in ('param', 'attr') and fl.match(f'any_of({n}, self.{n})', y) is not None for y in leaves(fl, x)), e, f'{n} is what was asked for')
        for t in rets(fl):
            ck.ok('map', fl.match(f'any_of({NEW}.map(*sequences), {NEW}(*sequences, __ipp_mapping=True))', t.ret) is not None, fl, 'the map of the sequences is returned', path=t.path())
        ck.every('map', fl, dict(no=lit('not sequences'), no2=lit('len(sequences) == 0'), yes=call(NEW)), lambda t: t.end != 'return' or not ('no' in t or 'no2' in t), 'there is something to map')
    ap = {}
    for n, b in (('map_async', 'False'), ('map_sync', 'True')):
        fl = ck.F(V + 'View.' + n, opaque=opaque_for(ck, 'View'))
        ck.ok('map', all(fl.match(f'self.map(f, *sequences, **_)', t.ret) is not None for t in rets(fl)), fl, 'the sequences are mapped')
        for e, _ in fl.find(call('self.map(*_, **_)')):
            v = argof(e.a[0], 99, 'block')
            if v is None:
                d = next((w for k, w in e.a[0].a[2] if k is None), None)
                vs = [w for k, w, it in dict_sources(fl, d) if k is tm.const('block')] if d is not None else []
                if not vs and d is not None:
                    vs = [x.a[2] for x in fl.all_effects() if x.kind == 'add' and x.a[0] is d and x.a[1] is tm.const('block')]
                v = vs[0] if len(vs) == 1 else None
            ck.ok('map', v is tm.const(b == 'True'), e, f'{n} ' + ('waits' if b == 'True' else 'does not wait'))


def broadcast(ck):
    fl = ck.F(V + 'BroadcastView.map', opaque=opaque_for(ck, 'BroadcastView') + ('getPartition',))
    SC = 'self.scatter(*_, **_)'
    AP = 'any_of(self.apply_async(*_, **_), self.apply(*_, **_))'
    sends = fl.find(call(SC))
    ck.ok('broadcast.map', bool(sends), fl, 'sequences are split')
    D = 'ipyparallel.client.map.dists[_]()'
    for e, b in sends:
        c = e.a[0]
        h = fl.loop_of(e.node)
        if not ck.ok('broadcast.map', h is not None and covers(fl, h, 'sequences', True), e, 'all sequences are split, in order'):
            continue
        s = argof(c, 1, 'seq')
        ck.ok('broadcast.map', all(fl.match('any_of(elem(sequences), copyof(elem(sequences)))', x) is not None for x in leaves(fl, s)), e, 'all sequences are split, in order')
        key = argof(c, 0, 'key')
        ck.ok('broadcast.map', tm.mentions(key, lambda x: x.op in ('idx', 'elem')) or tm.mentions(key, lambda x: x.op == 'call' and 'secrets.' in str(x) or 'uuid' in str(x)) and any(x.node.id in {y.node.id for y in fl.all_effects() if fl.loop_of(y.node) is h} for x in fl.all_effects() if x.kind == 'call' and tm.mentions(key, lambda y: y is x.a[0])), e, 'each sequence has a name of its own')
        ck.ok('broadcast.map', tm.mentions(key, lambda x: x.op == 'call' and any(w in str(x.a[0]) for w in ('secrets.', 'uuid', 'token', 'random'))), e, 'names are not used by other maps')
        for a, b2 in fl.find(call(AP)):
            rest = a.a[0].a[1]
            ok = len(rest) == 3 and fl.match('self._broadcast_map', rest[0]) is not None and fl.match('f', rest[1]) is not None and rest[2].op == 'star'
            ck.ok('broadcast.map', ok, a, 'the function is called with the sequences')
            if ok:
                L = rest[2].a[0]
                ads = [x for x in fl.all_effects() if x.kind == 'add' and x.a[0] is L]
                ck.ok('broadcast.map', (bool(ads) and all(x.a[1] is key and x.a[-1] == 'append' and fl.loop_of(x.node) is h for x in ads)) or L.op == 'comp' and covers(fl, h, str(L), True), a, 'the function is called with the sequences, in order')
                for t in fl.body_traces(h, dict(s=is_eff(e), n=effect('', lambda y: y in ads))):
                    ck.ok('broadcast.map', t.end != 'stop' or t.count('s') == 1 and t.count('n') == (1 if ads else 0), e, 'all sequences are split, in order', path=t.path())
            own = [x for x in fl.all_effects() if x.kind == 'store' and x.a[0] is a.a[0] and x.a[1] == 'owner' and x.a[2] is tm.const(False)]
            ck.every('broadcast.map', fl, dict(a=is_eff(a), o=effect('', lambda y: y in own)), lambda t: 'a' not in t or 'o' in t, 'the result is that of the whole')
    RES = f'any_of({AMR}(*_, **_), ipyparallel.AsyncMapResult(*_, **_))'
    for e, b in fl.find(call(RES)):
        c = e.a[0]
        kids = argof(c, 1, 'children')
        ck.ok('broadcast.map', fl.match(f'{AP}._children', kids) is not None, e, 'the result has all parts, in order')
        m = argof(c, 2, 'mapObject')
        ok = m is not None and fl.match(D, m) is not None
        for s, _ in sends:
            d = argof(s.a[0], 2, 'dist')
            ok = ok and (d is None and 'b' in str(m) or d is not None and m.a[0].op == 'item' and m.a[0].a[1] is d)
        ck.ok('broadcast.map', ok, e, 'parts are joined the way they were split')
        x = argof(c, 99, 'return_exceptions')
        ck.ok('broadcast.map', x is not None and fl.match('return_exceptions', x) is not None, e, 'return_exceptions is what was asked for')
        z = argof(c, 99, 'chunk_sizes')
        src = dict_sources(fl, z) if z is not None else []
        ok = len(src) == 1
        for k, v, it in src:
            ok = ok and fl.match(f'any_of(elem({AP}._children).msg_id, elem({AP}.msg_ids))', k) is not None and v.op in ('elem', 'item') and all(fl.match(f'{SC}._scatter_lengths', y) is not None for y in leaves(fl, v.a[0]) if y.op != 'const' and not (y.op == 'alloc' and not y.a[2]))
        ck.ok('broadcast.map', ok, e, 'the sizes of the chunks are those of the parts')
    blocks(ck, fl, 'broadcast.map', RES, f'{RES}.get()')
    bm = ck.F(V + 'BroadcastView._broadcast_map')
    POP = 'any_of(_.user_ns.pop(elem(sequence_names)), _.user_ns[elem(sequence_names)])'
    for t in rets(bm):
        r = t.ret
        ok = False
        if bm.match('copyof(map(f, *_))', r) is not None:
            while r.op == 'copy':
                r = r.a[0]
            ok = listing(bm, r.a[1][1].a[0], POP, 'sequence_names')
        elif r.op == 'comp' and r.a[0] == 'list' and r.a[4] == 0 and bm.match('zip(*_)', r.a[3][0]) is not None:
            ok = listing(bm, r.a[3][0].a[1][0].a[0], POP, 'sequence_names') and r.a[2].op == 'call' and bm.match('f', r.a[2].a[0]) is not None
        ck.ok('broadcast.map', ok, bm, 'the function is called with each element of the sequences', path=t.path())
    gone = either(call('_.user_ns.pop(elem(sequence_names), *_)'), remove('_.user_ns', 'elem(sequence_names)'))
    ck.ok('broadcast.map', bool(bm.find(gone)), bm, 'sequences are not left behind')


# -- lazy maps ------------------------------------------------------------

POOL = 'concurrent.futures.ThreadPoolExecutor(*_, **_)'


def _up(cf, up, outer, p, kind='call'):
    """An effect of a nested function, seen from outside."""

    def f(e, a, b):
        if e.kind != kind:
            return None
        return outer.match(p, up(e.a[0]))

    f.desc = p
    return f


def _held(t, a):
    """Is the lock held whenever `a` happens?"""
    n = 0
    for x in t.atoms:
        if x == 'lock':
            n += 1
        elif x == 'free':
            n -= 1
        elif x == a and n < 1:
            return False
    return True


def lazily(ck):
    names = opaque_for(ck, 'LoadBalancedView') + ('LazyMapIterator',)
    fl = ck.F(V + 'LoadBalancedView.imap', opaque=names)
    ITEM = 'ipyparallel.client.view.LazyMapIterator(*_, **_)'
    AP = 'any_of(self.apply_async(*_, **_), self._really_apply(*_, **_))'
    IDS = 'self._outstanding_maps'
    out = fl.find(call(ITEM))
    if not ck.ok('lazy', len(out) == 1, fl, 'a lazy map is an iterator that can be cancelled'):
        return
    c = out[0][0].a[0]
    for t in rets(fl):
        ck.ok('lazy', fl.match(ITEM, t.ret) is not None, fl, 'a lazy map is an iterator that can be cancelled', path=t.path())
    gen, sig = argof(c, 0, 'gen'), argof(c, 1, 'signal_done')
    gens = closures(ck, fl, 'lazy', [gen.a[0]], names) if gen is not None and gen.op == 'call' else []
    sigs = closures(ck, fl, 'lazy', [sig], names) if sig is not None else []
    if not ck.ok('lazy', len(gens) == len(sigs) == 1, fl, 'a lazy map is an iterator that can be cancelled'):
        return
    # end of input
    (sf, sup), (gf, gup) = sigs[0], gens[0]
    flags = {str(e.a[0]) for e in sf.all_effects() if e.kind == 'setglobal' and e.a[1] is tm.const(True)}
    gone = _drops(sf, sup, fl, IDS)
    ck.every('lazy.end', sf, dict(f=_raises(flags), g=gone), lambda t: 'f' in t and 'g' in t, 'at the end, the flag is set and the map is not on record any more')
    ids = fl.find(add(IDS, '_'))
    ck.ok('lazy.record', bool(ids), fl, 'a lazy map is on record until its input ends')
    # consumption
    subs = [e for e in fl.all_effects() if e.kind == 'call' and fl.match(f'{POOL}.submit(_)', e.a[0]) is not None]
    ck.ok('lazy.consume', bool(subs), fl, 'input is consumed')
    sub = effect('', lambda e: e in subs)
    ck.every('lazy.record', fl, dict(s=sub, i=add(IDS, '_')), lambda t: t.end != 'return' or 'i' in t and not t.before('s', 'i'), 'a lazy map is on record until its input ends')
    jobs = {}
    for e in subs:
        pool = e.a[0].a[0].a[0]
        ck.ok('lazy.consume', argof(pool, 0, 'max_workers') is tm.const(1), e, 'input is consumed by one thread')
        x = e.a[0].a[1][0]
        jobs.setdefault(x.a[0] if x.op in ('closure', 'lambda') else x, x)
        h = fl.loop_of(e.node)
        it = fl.val(h, h.term) if h is not None and h.term is not None else None
        if not ck.ok('lazy.consume', it is not None and fl.match('range(_)', it) is not None, e, 'as many requests are started as may be outstanding'):
            continue
        r = fl.find(call('range(_)'))
        r = [x for x, _ in r if x.a[0] is it]
        auto = _lit(lambda t: t.op == 'cmp' and t.a[0] == '==' and any(y is tm.const('auto') for y in t.a[1:]))
        def is0(t):
            return t.op == 'cmp' and t.a[0] == '==' and any(y is tm.const(0) for y in t.a[1:])

        def is1(t):
            return t.op == 'truth' and fl.match('any_of(max_outstanding, len(self), self.__len__())', t.a[0]) is not None

        zero, nz, zero2, nz2 = _lit(is0), _lit(is0, False), _lit(is1, False), _lit(is1)
        for x in r:
            def n(test):
                return _arg(x, lambda c: c.a[1][0], test)

            at = dict(r=is_eff(x), nz=nz, nz2=nz2, auto=auto, zero=zero, zero2=zero2, one=n(lambda v: v is tm.const(1)), max=n(lambda v: fl.match('max_outstanding', v) is not None), len=n(lambda v: fl.match('any_of(len(self), self.__len__())', v) is not None), low=n(lambda v: fl.match('any_of(max(1, _), _ or 1)', v) is not None))
            for t in fl.traces(at):
                if 'r' in t and 'low' not in t:
                    z = 'zero' in t or 'zero2' in t
                    if not ck.ok('lazy.consume', z + ('nz' in t or 'nz2' in t) == 1 and ('one' in t) == z and (z or ('len' in t if 'auto' in t else 'max' in t and 'len' not in t)), e, 'as many requests are started as may be outstanding', path=t.path()):
                        break
    fns = closures(ck, fl, 'lazy.consume', list(jobs.values()), names)
    if not ck.ok('lazy.consume', len(fns) == 1, fl, 'all inputs are consumed in the same way'):
        return
    cf, up = fns[0]
    here = {x.a[0] for x in jobs.values() if x.op in ('closure', 'lambda')}
    more = _submits(cf, up, fl, here)
    later = _up(cf, up, fl, '_.add_done_callback(_)')
    nxt = _up(cf, up, fl, 'next(iter(zip(*sequences)), *_)')
    nxt2 = _up(cf, up, fl, 'next(zip(*sequences), *_)')
    send = _up(cf, up, fl, AP)
    fut = _up(cf, up, fl, 'any_of(_.append(_), _.add(_), _.put(_))')
    fail = effect('', lambda e: e.kind == 'call' and cf.match('_.set_exception(_)', e.a[0]) is not None)
    lock, free = _locks(cf, up, fl, 'enter'), _locks(cf, up, fl, 'leave')
    done, live = _flag(cf, flags, True), _flag(cf, flags, False)
    at = dict(next=either(nxt, nxt2), send=send, add=fut, fail=fail, more=more, later=later, lock=lock, free=free, done=done, live=live, off=_raises(flags), gone=_drops(cf, up, fl, IDS), lim=_limit(cf, up, fl, True), nolim=_limit(cf, up, fl, False))
    ck.ok('lazy.consume', bool(cf.find(send)) and bool(cf.find(fut)), cf, 'inputs become requests')
    for e, b in cf.find(send):
        x = up(e.a[0])
        # f(*args), by whatever way it is sent
        args = list(x.a[1])
        ok = len(args) >= 2 and all(fl.match('any_of(ipyparallel.serialize.PrePickled(f), f)', y) is not None for y in leaves(fl, args[0]))
        rest = args[1].a[0] if args[1].op == 'star' else args[1]
        rest = rest.a[0][0].a[0] if rest.op == 'tup' and len(rest.a[0]) == 1 and rest.a[0][0].op == 'star' else rest
        ok = ok and fl.match('any_of(elem(iter(zip(*sequences))), elem(zip(*sequences)), next(iter(zip(*sequences))))', rest) is not None or ok and rest.op == 'elem' and tm.mentions(rest, lambda y: fl.match('zip(*sequences)', y) is not None)
        ck.ok('lazy.consume', ok, e, 'the function is called with the next elements of the sequences')
    for t in cf.traces(at, exc='handled'):
        if t.end not in ('return',):
            continue
        p = t.path()
        ck.ok('lazy.lock', _held(t, 'add'), cf, 'the requests are only changed with the lock held', path=p)
        ck.ok('lazy.consume', t.count('done') + t.count('live') > 0, cf, 'nothing is consumed after the end', path=p)
        if 'done' in t and not ('next' in t or 'send' in t):
            ck.ok('lazy.consume', not any(k in t for k in ('add', 'more', 'later')), cf, 'nothing is consumed after the end', path=p)
            continue
        ck.ok('lazy.consume', t.count('add') <= 1 and ('add' in t) == (('send' in t and 'off' not in t) or 'fail' in t), cf, 'each request, or error of the input, is a result', path=p)
        if 'off' in t or 'gone' in t:
            ck.ok('lazy.end', 'off' in t and 'gone' in t and 'more' not in t and 'later' not in t, cf, 'nothing is consumed after the end', path=p)
            ck.ok('lazy.error', 'fail' not in t or t.before('add', 'off'), cf, 'an error of the input is a result before the input ends', path=p)
        else:
            ck.ok('lazy.consume', 'fail' not in t and t.count('more') + t.count('later') == 1 and ('later' in t) == ('lim' in t) and ('more' in t) == ('nolim' in t), cf, 'the next input is consumed when a result arrives, or at once without a limit', path=p)
    contained_in(ck, 'lazy.error', cf, either(nxt, nxt2), dict(fail=fail, off=_raises(flags), add=fut), lambda t: 'fail' in t and 'add' in t and 'off' in t, 'errors of the input are results')
    contained_in(ck, 'lazy.error', cf, send, dict(fail=fail, off=_raises(flags), add=fut), lambda t: 'fail' in t and 'add' in t and 'off' in t, 'errors of the input are results')
    ck.ok('lazy.end', any(n.kind == 'dispatch' and any(isinstance(l, tuple) and l[0] == 'except' and 'StopIteration' in (l[1] or ()) for _, l in n.succ) for n in cf.order) or all(len(e.a[0].a[1]) > 1 for e, b in cf.find(either(nxt, nxt2))), cf, 'the end of the input is the end of the map')
    for e, b in cf.find(later):
        for g, gu in closures(ck, fl, 'lazy.consume', [up(e.a[0]).a[1][0]], names):
            ck.every('lazy.consume', g, dict(more=_submits(g, gu, fl, here), done=_flag(g, flags, True)), lambda t: t.count('more') == (0 if 'done' in t else 1), 'when a result arrives, the next input is consumed')
    # no map is left on record when it could not be started
    first = effect('', lambda e: e.kind == 'call' and e.a[0].op == 'call' and e.a[0].a[0].op == 'attr' and e.a[0].a[0].a[1] in ('result', 'exception'))
    first.attempt = True
    for t in fl.traces(dict(i=add(IDS, '_'), s=sub, g=_drops(fl, lambda x: x, fl, IDS), w=first), exc='handled'):
        if t.end in ('raise', 'exc') and 'w' in t and not ck.ok('lazy.record', 'i' not in t or 'g' in t, fl, 'a map that cannot be started is not left on record', path=t.path()):
            break
    # results
    stores = [up(e.a[0]).a[0] for e, b in cf.find(fut)]
    for s in stores:
        kinds = {}
        for x in leaves(fl, s):
            if x.op == 'attr':
                kinds[x.a[1]] = x.a[0]
        ck.ok('lazy.order', set(kinds) <= {'append', 'add', 'put'} and bool(kinds), fl, 'results are kept in order')
    ys = [e for e in gf.all_effects() if e.kind == 'yield']
    ck.ok('lazy.results', bool(ys), gf, 'results are given out')
    for e in ys:
        x = e.a[0]
        ok = x.op == 'call' and x.a[0].op == 'attr' and x.a[0].a[1] == 'get'
        r = argof(x, 99, 'return_exceptions') if ok else None
        ck.ok('lazy.results', ok and r is not None and fl.match('return_exceptions', gup(r)) is not None, e, 'results are values, or errors, as asked for')
        ck.ok('lazy.results', ok and x.a[0].a[0].op in ('elem', 'item', 'call', 'phi'), e, 'each result is given out')
        h = gf.loop_of(e.node)
        if h is not None and h.term is not None:
            for t in gf.body_traces(h, dict(y=is_eff(e))):
                ck.ok('lazy.results', t.end == 'exc' or t.end == 'stop' and t.count('y') == 1, e, 'each result is given out', path=t.path())
    pops = [e for e in gf.all_effects() if e.kind == 'remove']
    for e in pops:
        if gf.match('iterator_done', e.a[0]) is not None or fl.match(IDS, gup(e.a[0])) is not None:
            continue
        g = gf.guards().get(e.node.id, ())
        isord = [p for q, p in g if q.op == 'truth' and fl.match('ordered', gup(q.a[0])) is not None]
        ck.ok('lazy.order', bool(isord), e, 'results are in order exactly if asked for')
        if isord and isord[0]:
            ck.ok('lazy.order', e.a[-1] == 'popleft' or e.a[-1] == 'pop' and any(x.kind == 'call' and x.node is e.node and [y for y in x.a[0].a[1]] == [tm.const(0)] for x in gf.all_effects()), e, 'the first request comes first')
        elif isord:
            ck.ok('lazy.order', e.a[1].op == 'elem' and tm.mentions(e.a[1], lambda y: y.op == 'call' and str(y.a[0]).endswith('futures.wait')), e, 'what has finished is given out')
            ck.ok('lazy.order', all(argof(w, 99, 'return_when') is not None and str(argof(w, 99, 'return_when')).endswith('FIRST_COMPLETED') for w in tm.walk(e.a[1]) if w.op == 'call' and str(w.a[0]).endswith('futures.wait')), e, 'what has finished first is given out first')
    for e in gf.all_effects():
        if e.kind == 'clear':
            ck.ok('lazy.rest', False, e, 'results that are outstanding are given out')
    glock, gfree = _locks(gf, gup, fl, 'enter'), _locks(gf, gup, fl, 'leave')
    for t in gf.traces(dict(lock=glock, free=gfree, pop=effect('', lambda e: e in pops and fl.match(IDS, gup(e.a[0])) is None)), cap=3):
        if not ck.ok('lazy.lock', _held(t, 'pop'), gf, 'the requests are only changed with the lock held', path=t.path()):
            break
    ck.every('lazy.end', gf, dict(off=_raises(flags), gone=_drops(gf, gup, fl, IDS)), lambda t: 'off' in t and 'gone' in t, 'the map ends when nobody wants more results', exc='all')
    # what is left
    rest = [e for e in ys if e in _after(gf, flags)]
    ck.ok('lazy.rest', bool(rest), gf, 'the remaining results are given out')
    isord = {}
    for e in rest:
        for q, p in gf.guards().get(e.node.id, ()):
            if q.op == 'truth' and fl.match('ordered', gup(q.a[0])) is not None:
                isord.setdefault(p, []).append(e)
    ck.ok('lazy.rest', len(rest) == 0 or set(isord) == {True, False}, gf, 'the remaining results are given out, in order or not')
    for e in isord.get(True, ()):
        h = gf.loop_of(e.node)
        it = gf.val(h, h.term) if h is not None and h.term is not None else None
        ck.ok('lazy.rest', it is None or it.op in ('free', 'phi', 'copy') and gf.match('sorted(_)', it) is None, e, 'the remaining results are in order')


def contained_in(ck, rule, fl, atom, at, pred, msg):
    """Whatever is raised is caught; the handler does what pred wants."""
    from .common import broad_handlers

    for e, b in fl.find(atom):
        hs = broad_handlers(fl, e.node)
        ck.ok(rule, bool(hs), e, msg)
        for h in hs:
            ts = [t for t in fl.traces(at, start=h) if t.end == 'return']
            for t in ts:
                if not ck.ok(rule, pred(t), e, msg, path=t.path()):
                    break


def _after(gf, flags):
    """Yields that only happen after the end of the input."""
    ends = [e for e in gf.all_effects() if e.kind == 'setglobal' and str(e.a[0]) in flags and e.a[1] is tm.const(True)]
    out = []
    for y in gf.all_effects():
        if y.kind == 'yield' and any(y.node.id in gf._reach(e.node) for e in ends):
            ts = gf.traces(dict(off=_raises(flags), y=is_eff(y)), cap=3)
            if ts and all(t.before('off', 'y') for t in ts if 'y' in t):
                out.append(y)
    return out


def _raises(flags):
    return effect('', lambda e: e.kind == 'setglobal' and str(e.a[0]) in flags and e.a[1] is tm.const(True))


def _flag(f, flags, pol):
    return _lit(lambda t: t.op == 'truth' and t.a[0].op in ('free', 'phi', 'name', 'glob') and any(w in str(t.a[0]) for w in (x.strip("'") for x in flags)), pol)


def _drops(f, up, outer, IDS):
    return effect('', lambda e: e.kind == 'remove' and outer.match(IDS, up(e.a[0])) is not None)


def _submits(f, up, outer, here):
    def test(e):
        if e.kind != 'call' or e.a[0].a[0].op != 'attr' or e.a[0].a[0].a[1] != 'submit' or not e.a[0].a[1]:
            return False
        x = e.a[0].a[1][0]
        if x.op == 'free' and any(x.a[0] == str(h).rsplit('.', 1)[-1].split('@')[0] for h in here):
            return True
        x = up(x)
        return x.op in ('closure', 'lambda') and x.a[0] in here

    return effect('', test)


def _locks(f, up, outer, kind):
    return effect('', lambda e: e.kind == kind and outer.match('any_of(threading.Lock(), threading.RLock(), threading.Condition(*_))', up(e.a[0])) is not None)


def _limit(f, up, outer, pol):
    def is_max(t):
        return outer.match('max_outstanding', up(t)) is not None

    yes = _lit(lambda t: t.op == 'truth' and is_max(t.a[0]) or t.op == 'cmp' and t.a[0] == '<' and t.a[1] is tm.const(0) and is_max(t.a[2]), pol)
    no = _lit(lambda t: t.op == 'cmp' and t.a[0] == '==' and tm.const(0) in t.a[1:] and any(is_max(x) for x in t.a[1:]), not pol)
    return either(yes, no)


def executors(ck):
    E = V + 'ViewExecutor.'
    opaque = opaque_for(ck, 'View')
    fl = ck.F(E + 'submit', opaque=opaque)
    for t in rets(fl):
        ck.ok('executor', fl.match('any_of(self.view.apply_async(fn, *args, **kwargs), self.view.apply(fn, *args, **kwargs))', t.ret) is not None, fl, 'what is submitted is sent', path=t.path())
    fl = ck.F(E + 'map', opaque=opaque)
    for t in rets(fl):
        ok = fl.match('self.view.imap(func, *iterables, **_)', t.ret) is not None
        d = next((v for k, v in t.ret.a[2] if k is None), None) if ok else None
        ck.ok('executor', ok and d is not None and all(fl.match('kwargs', x) is not None or x.op in ('alloc', 'comp') for x in leaves(fl, d)), fl, 'a map of an executor is a lazy map', path=t.path())
    fl = ck.F(E + 'shutdown', opaque=opaque)
    MAPS = "any_of(getattr(self.view, '_outstanding_maps', *_), self.view._outstanding_maps)"
    at = dict(w=lit('wait'), no=lit('not wait'), maps=lit(MAPS), none=lit(f'not {MAPS}'), wait=call('self.view.wait()'), bad=call('any_of(self.view.shutdown(*_, **_), self.view.client.shutdown(*_, **_), self.view.client.close(*_, **_), self.view.abort(*_, **_))'))
    for t in fl.traces(at):
        ck.ok('executor', 'bad' not in t, fl, 'engines are not shut down', path=t.path())
        if t.end != 'return' or 'w' not in t:
            ck.ok('executor', 'wait' not in t, fl, 'results are only waited for if asked for', path=t.path())
            continue
        seen = [x for x in t.atoms if x in ('maps', 'none', 'wait')]
        ck.ok('executor', seen[-2:] == ['none', 'wait'], fl, 'lazy maps have sent all their requests before these are waited for', path=t.path())
    for n in fl.order:
        for s, lab in n.succ:
            if any(at['none'](_E(l), fl.alts, {}) is not None for l in fl._elits.get((n.id, lab)) or ()):
                for t in fl.traces(dict(wait=at['wait']), start=s):
                    ck.ok('executor', t.end != 'return' or 'wait' in t, fl, 'results are waited for once all lazy maps have sent their requests', path=t.path())
