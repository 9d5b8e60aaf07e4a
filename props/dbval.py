"""Task record databases, by value: what is culled, what is compared with what, what is written into conditions."""

from ipa import terms as tm

from .client import _lit, captured, closures
from .common import add, calc, call, is_eff, lit
from .sched import resolved

D = 'controller.dictdb:DictDB'
Q = 'controller.sqlitedb:SQLiteDB'


def operands(fl, t):
    """Everything a value may be, `a or b` taken apart."""
    out = []
    for x in alts(fl, t):
        if x.op == 'bool':
            for y in x.a[1:]:
                for z in (y if isinstance(y, tuple) else (y,)):
                    if isinstance(z, tm.T):
                        out += operands(fl, z)
        else:
            out.append(x)
    return out


def alts(fl, t):
    return [x for x in (fl.alts(t) if t.op == 'phi' else [t]) if x.op != 'phi']


# ------------------------------------------------------------------ D01
def culling(ck, names):
    co = ck.F(f'{D}._cull_oldest', opaque=[n for n in names])
    heads = []
    for e, b in co.find(call('self.drop_record(_)')):
        h = co.loop_of(e.node)
        if h is not None and h.term is not None and h not in heads:
            heads.append(h)
    for h in heads:
        for x in alts(co, co.val(h, h.term)):
            bad = unlimited(co, x)
            ck.ok('dict.limits', bad is None, co, f'no more records are culled than that: {bad}')
    mc = ck.F(f'{D}._maybe_cull', opaque=names)
    worlds = [(1000, 0.1, 100), (5, 0.1, 1), (100, 0.5, 50), (1, 0.1, 1)]
    for e, b in mc.find(call('self._cull_oldest(*_)')):
        g = mc.guards().get(e.node.id, ())
        if not any(p and mc.match('self.record_limit < len(self._records)', t) is not None for t, p in g) or any(tm.mentions(t, lambda x: x.op == 'attr' and x.a[1] == '_buffer_bytes') for t, p in g) or mc.loop_of(e.node) is not None:
            continue
        n = e.a[0].a[1][0] if e.a[0].a[1] else next((v for k, v in e.a[0].a[2]), tm.const(1))
        for limit, fraction, want in worlds:
            got = calc(n, leaf(dict(record_limit=limit, cull_fraction=fraction)))
            if got is not None:
                ck.ok('dict.limits', got == want, e, f'beyond {limit} records, {fraction} of them are culled, at least one (are {got})')
    for t in mc.lit_count:
        if t.op == 'cmp' and t.a[0] == '<' and tm.mentions(t, lambda x: x.op == 'attr' and x.a[1] == '_buffer_bytes'):
            got = calc(t, leaf(dict(size_limit=1000, cull_fraction=0.1, _buffer_bytes=1001)))
            low = calc(t, leaf(dict(size_limit=1000, cull_fraction=0.1, _buffer_bytes=899)))
            if got is not None and low is not None and mc.match('_ < self._buffer_bytes', t) is not None:
                ck.ok('dict.limits', got and not low, mc, 'records are culled until the size is below the limit by the fraction that is configured, and no further')


def leaf(vals):
    def f(t):
        if t.op == 'attr' and t.a[0].op in ('name', 'self', 'param') and t.a[1] in vals:
            return vals[t.a[1]]
        return None
    return f


def unlimited(fl, x, depth=0):
    """A source of records that are culled whatever their number is."""
    if depth > 6:
        return None
    if x.op == 'phi':
        return next((r for y in alts(fl, x) for r in [unlimited(fl, y, depth + 1)] if r is not None), None)
    if x.op == 'item' and x.a[1].op == 'slice':
        lo, hi, st = x.a[1].a[:3]
        ok = (lo is None or lo is tm.NONE or lo is tm.const(0)) and isinstance(hi, tm.T) and hi is not tm.NONE and hi.op != 'un' and (st is None or st is tm.NONE or st is tm.const(1))
        if not ok:
            return x
        grown = [e for e in fl.all_effects() if e.kind == 'add' and e.a[0] is x]
        for e in grown:
            for y in e.a[1:3]:
                src = y.a[0] if isinstance(y, tm.T) and y.op in ('elem', 'item') and e.a[-1] == 'all' else None
                if src is not None and not (src.op == 'item' and src.a[1].op == 'slice'):
                    return src
                if src is not None:
                    r = unlimited(fl, src, depth + 1)
                    if r is not None:
                        return r
        return None
    if x.op == 'call' and x.a[0].op == 'glob' and x.a[0].a[0].endswith('islice'):
        return None
    if x.op == 'copy':
        return unlimited(fl, x.a[0], depth + 1)
    if x.op == 'bin' and x.a[0] == '+':
        return unlimited(fl, x.a[1], depth + 1) or unlimited(fl, x.a[2], depth + 1)
    if x.op == 'comp' and len(x.a[3]) == 1:
        return unlimited(fl, x.a[3][0], depth + 1)
    if x.op == 'alloc':
        for e in fl.all_effects():
            if e.kind == 'add' and e.a[0] is x and e.a[-1] == 'all' and isinstance(e.a[1], tm.T) and e.a[1].op == 'elem':
                r = unlimited(fl, e.a[1].a[0], depth + 1)
                if r is not None:
                    return r
        return None
    return x if x.op == 'call' else None


def updates(ck, names, up):
    merged = [e for e in up.all_effects() if e.kind == 'add' and up.match('self._records[msg_id]', e.a[0]) is not None]
    for e in merged:
        for y in e.a[1:3]:
            for x in tm.subterms(y) if isinstance(y, tm.T) else ():
                if x.op == 'comp' and x.a[3] and any(tm.mentions(i, lambda z: up.match('rec', z) is not None) for i in x.a[3]):
                    ck.ok('dict.update', x.a[4] == 0, e, 'every field of an update is stored, whatever its value')
        for c in up.all_effects():
            if c.kind == 'call' and c.node is e.node:
                for y in [*c.a[0].a[1], *[w for k, w in c.a[0].a[2]]]:
                    if y.op == 'comp' and y.a[4] and any(up.match('any_of(rec, rec.items(), rec.keys())', i) is not None for i in y.a[3]):
                        ck.ok('dict.update', False, c, 'every field of an update is stored, whatever its value')
        h = up.loop_of(e.node)
        if h is not None and any(up.match(p, up.val(h, h.term)) is not None for p in ('rec', 'rec.items()', 'rec.keys()')):
            for t in up.body_traces(h, dict(m=is_eff(e))):
                ck.ok('dict.update', t.end != 'stop' or 'm' in t, e, 'every field of an update is stored, whatever its value', path=t.path())


def times(ck, names):
    fl = ck.F(f'{D}._check_dates', opaque=['ensure_timezone'])
    ks = set()
    for e in fl.all_effects():
        if e.kind == 'add' and fl.match('rec', e.a[0]) is not None and e.a[2] is not None and fl.match('ensure_timezone(*_)', e.a[2]) is not None:
            ks |= {x.a[0] for x in alts(fl, e.a[1]) if tm.is_str(x)}
            if e.a[1].op not in ('const', 'phi'):
                return
    ck.ok('dict.times', ks >= {'submitted', 'started', 'completed', 'received'}, fl, 'every time of a record has a timezone')


def order(ck, names, hist):
    for e, b in hist.find(call('sorted(*_)')) + hist.find(call('_.sort(*_)')):
        kf = dict(e.a[0].a[2]).get('key')
        ps = pairs(hist, e)
        if ps is not None:
            i = component(ck, hist, kf, names)
            for tup in ps:
                ck.ok('dict.history', i is not None and i < len(tup) and hist.match("any_of(_['submitted'], _.get('submitted'))", tup[i]) is not None, e, 'the history is ordered by the times of submission')
            continue
        if kf is None or kf.op not in ('lambda', 'closure'):
            continue
        for f, u in closures(ck, hist, 'dict.history', [kf], names):
            for x in f.all_effects():
                if x.kind == 'return':
                    v = u(x.a[0])
                    v = v.a[0][0] if v.op == 'tup' and v.a[0] else v
                    ck.ok('dict.history', all(hist.match("any_of(_['submitted'], _.get('submitted'))", y) is not None for y in operands(f, v)), e, 'the history is ordered by the times of submission')


def pairs(fl, e):
    """The tuples that a call sorts, when it sorts tuples made here."""
    t = e.a[0]
    src = t.a[1][0] if t.a[1] else t.a[0].a[0] if t.a[0].op == 'attr' else None
    out = []
    for x in alts(fl, src) if src is not None else ():
        if x.op == 'copy':
            x = x.a[0]
        if x.op == 'comp':
            out.append(x.a[2])
        elif x.op == 'alloc':
            out += [y.a[1] for y in fl.all_effects() if y.kind == 'add' and y.a[0] is x]
        else:
            return None
    return [x.a[0] for x in out] if out and all(x.op == 'tup' for x in out) else None


def component(ck, fl, kf, names):
    """Index of the component that a key function picks."""
    if kf is None:
        return 0
    if kf.op == 'call' and kf.a[0].op == 'glob' and kf.a[0].a[0].endswith('itemgetter') and len(kf.a[1]) == 1 and kf.a[1][0].op == 'const':
        return kf.a[1][0].a[0]
    if kf.op in ('lambda', 'closure'):
        for f, u in closures(ck, fl, 'dict.history', [kf], names):
            got = {x.a[0].a[1].a[0] for x in f.all_effects() if x.kind == 'return' and x.a[0].op == 'item' and x.a[0].a[0].op in ('param', 'name') and x.a[0].a[1].op == 'const'}
            if len(got) == 1:
                return got.pop()
    return None


def closing(ck):
    fl = ck.F(f'{Q}.close', opaque=ck.names(Q))
    c, x = call('self._db.commit()'), call('self._db.close()')
    ck.every('sqlite.close', fl, dict(c=c, x=x), lambda t: 'x' not in t or t.before('c', 'x'), 'what was stored is there after the database was closed')


def converting(ck, A, name):
    """What the functions that convert a column do with each value."""
    if name == 'timestamp':
        for e in A.all_effects():
            if e.kind == 'return':
                for x in tm.subterms(e.a[0]):
                    if x.op == 'call' and x.a[0].op == 'attr' and x.a[0].a[1] == 'isoformat':
                        vals = list(x.a[1][1:]) + [v for k, v in x.a[2] if k == 'timespec']
                        ck.ok('schema.convert', all(v in (tm.const('auto'), tm.const('microseconds')) for v in vals), e, 'times are stored as they are')
    else:
        p = A.func.params[0]
        for t in A.lit_count:
            if t.op == 'truth' and t.a[0].op == 'call' and A.match('isinstance(*_)', t.a[0]) is not None and tm.mentions(t.a[0].a[1][0], lambda x: A.match(p, x) is not None):
                ks = {x.a[0].rsplit('.', 1)[-1] for x in tm.subterms(t.a[0].a[1][1]) if x.op == 'glob'}
                ck.ok('schema.convert', not ks or ks >= {'bytes', 'memoryview'} or ks >= {'str'} or ks >= {'dict'}, A, 'buffers may be bytes or views of memory')


def labels(ck, fr, sel):
    """Values are labelled with the very columns that were selected."""
    for e, s, cols in sel:
        zips = fr.find(call('zip(*_)'))
        for z, b in zips:
            ys = alts(fr, z.a[0].a[1][0])
            for y in ys:
                y = given(y)
                if y is tm.NONE:
                    continue
                ok = y.op == 'copy' and y.a[1:] == () and fr.match('self._keys', y.a[0]) is not None or any(c is w for c in cols for w in ys) and fr.match('keys', y) is not None or fr.match('self._keys', y) is not None or not cols or any(y is c for c in cols) or y.op == 'copy' and any(y.a[0] is c for c in cols)
                ck.ok('sqlite.project', ok, z, 'values are labelled with the columns that were selected, in their order')


def given(y):
    """x of `x or None`."""
    if y.op == 'bool' and y.a[0] == 'or' and len(y.a[1]) == 2 and y.a[1][1] is tm.NONE:
        return y.a[1][0]
    return y


def kind(fl, t, al=None):
    """'empty', 'none' or 'full', when no keys are given."""
    t = resolved(t, al) if al else t
    if t.op in ('param', 'name') and t.a[0] == 'keys':
        return 'empty'
    if t is tm.NONE:
        return 'none'
    if t.op == 'attr' and t.a[1] == '_keys':
        return 'full'
    if t.op == 'bool':
        r = None
        for x in t.a[1]:
            r = kind(fl, x, al)
            if r is None or (r == 'full') == (t.a[0] == 'or'):
                return r
        return r
    return None


def nokeys(ck, fr):
    """An empty list of keys is no list of keys: whole records are selected, and labelled as such."""
    def never(e, al, b):
        if e.kind != 'lit' or e.a[0].op not in ('truth', 'isnone'):
            return None
        k = kind(fr, e.a[0].a[0], al)
        return None if k is None else {} if (k == ('full' if e.a[0].op == 'truth' else 'none')) != e.a[1] else None
    never.desc, never.lit = 'impossible', True

    def partly(e, al, b):
        if e.kind != 'call' or fr.match('zip(*_)', e.a[0]) is None:
            return None
        k = [kind(fr, x, al) for x in alts(fr, resolved(e.a[0].a[1][0], al))]
        return {} if 'empty' in k or 'none' in k else None
    partly.desc = 'columns of no keys'
    ck.every('sqlite.project', fr, dict(never=never, partly=partly), lambda t: 'partly' not in t or 'never' in t, 'no keys are all keys: records have the columns that were selected')


# ------------------------------------------------------------------ D02
def loops(ck, cc, ma):
    tested = [_lit(lambda t: t.op == 'truth' and t.a[0].op == 'call' and len(t.a[0].a[1]) == 2, p) for p in (True, False)]
    for h in cc.order:
        if h.kind == 'loop':
            ts = list(cc.body_traces(h, dict(y=tested[0], n=tested[1])))
            if not any('n' in t for t in ts):
                continue
            for t in ts:
                ck.ok('query.composite', t.end != 'stop' or 'y' in t or 'n' in t, cc, 'every operator of a test is applied', path=t.path())
    for h in ma.order:
        if h.kind == 'loop' and h.term is not None and tm.mentions(ma.val(h, h.term), lambda x: ma.match('self._records', x) is not None):
            for t in ma.body_traces(h, {}):
                ck.ok('query.fields', t.end != 'return', ma, 'every record is tested', path=t.path())


def equal(ck, ma, names):
    """A field is compared with its operand, as they are; times as instants."""
    TZ = ('_add_tz', 'ensure_timezone')
    ma = ck.F(ma.func, opaque=list(names) + list(TZ))
    for e in ma.all_effects():
        if e.kind != 'add' or ma.match('elem(check)', e.a[1]) is None:
            continue
        for v in alts(ma, e.a[2]):
            if v.op not in ('lambda', 'closure'):
                continue
            for f, u in closures(ck, ma, 'query.fields', [v], list(names) + list(TZ)):
                o = f.func.params[0] if f.func.params else None
                for x in f.all_effects():
                    if x.kind != 'return':
                        continue
                    t = defaults(u(x.a[0]), v, o)
                    if t.op == 'truth':
                        t = t.a[0]
                    if t.op != 'cmp':
                        continue
                    sides = [bare(f, y) for y in t.a[1:3]]
                    ok = t.a[0] == '==' and all(b is not None for b in sides)
                    vals = [b[0] for b in sides if b]
                    ok = ok and any(y.op in ('name', 'free', 'param') and y.a[0] == o for y in vals) and any(ma.match('check[elem(check)]', y) is not None for y in vals)
                    ck.ok('query.fields', ok, e, 'a field is compared with its operand, as they are')
                    if ok:
                        zone = all(b[1] for b in sides if ma.match('check[elem(check)]', b[0]) is not None)
                        ck.ok('query.timezone', zone, e, 'times without timezone are compared as local time')


def defaults(t, f, first):
    """A closure's result with its own captured defaults in place."""
    env = {k: v for k, v in captured(f).items() if k != first}

    def sub(x):
        if isinstance(x, tm.T):
            if x.op in ('param', 'name', 'free') and x.a[0] in env:
                return env[x.a[0]]
            return tm.mk(x.op, *[sub(y) for y in x.a])
        return tuple(sub(y) for y in x) if isinstance(x, tuple) else x
    return sub(t)


def bare(fl, t):
    """(term without timezone, whether it has one)."""
    z = False
    while t.op == 'call' and t.a[0].op == 'glob' and t.a[0].a[0].rsplit('.', 1)[-1] in ('_add_tz', 'ensure_timezone') and len(t.a[1]) == 1:
        t, z = t.a[1][0], True
    if t.op == 'phi':
        # added here, for times
        ys = [bare(fl, x) for x in fl.alts(t) if x.op != 'phi']
        if ys and all(ys) and len({y[0] for y in ys}) == 1:
            return ys[0][0], True
    return None if t.op in ('call', 'phi') else (t, z)


def rendered(ck, fl, puts, args, V, text, qkind):
    """What is written into a condition says what was asked."""
    TRUE, FALSE = ('1', '1=1', '1 = 1', 'TRUE'), ('0', '1=0', '1 = 0', 'FALSE')
    W = f'{V}[elem({V})]'

    def opd(x):
        return fl.match(f'any_of({V}, {W})', x) is not None

    def put(test):
        def atom(e, al, b):
            if e not in puts:
                return None
            return {} if any(test(x) for x in alts(fl, resolved(e.a[1], al))) else None
        atom.desc = 'condition'
        return atom
    null = _lit(lambda t: t.op == 'isnone' and opd(t.a[0]), True)
    nin = [_lit(lambda t: fl.match("'$nin' == elem(_)", t) is not None, p) for p in (True, False)]
    inn = [_lit(lambda t: fl.match("'$in' == elem(_)", t) is not None, p) for p in (True, False)]
    nul = put(lambda x: 'NULL' in text(x).upper() and '?' not in text(x) or x.op == 'fstr' and any(y.op == 'item' and y.a[0].op == 'glob' and y.a[0].a[0].endswith('null_operators') for y in x.a[0]))
    at = dict(null=null, nul=nul, nin=nin[0], nnin=nin[1], inn=inn[0], ninn=inn[1], t=put(lambda x: x.op == 'const' and str(x.a[0]).strip().upper() in TRUE), f=put(lambda x: x.op == 'const' and str(x.a[0]).strip().upper() in FALSE))
    heads = []
    for x in puts:
        h = fl.loop_of(x.node)
        if h is not None and h not in heads:
            heads.append(h)
    for h in heads:
        for t in fl.body_traces(h, at, stop=[x for x in fl.order if x.kind == 'loop' and x is not h]):
            ck.ok('query.sql-null', 'nul' not in t or 'null' in t, fl, 'only a test against an unset value is one for unset fields', path=t.path())
            ck.ok('query.sql-empty-list', 't' not in t or 'nin' in t or 'ninn' in t, fl, 'everything is outside of an empty list', path=t.path())
            ck.ok('query.sql-empty-list', 'f' not in t or 'nnin' in t or 'inn' in t or not any(k in t for k in ('nin', 'ninn')), fl, 'nothing is in an empty list', path=t.path())
    for x in puts:
        for v in alts(fl, x.a[1]):
            if qkind(v) == 'join':
                s = text(v).strip()
                ck.ok('query.sql-all', s.startswith('(') and s.endswith(')'), x, 'alternatives are one condition')
    for e in fl.all_effects():
        if e.kind == 'add' and e.a[0] is args and e.a[-1] == 'all':
            for y in e.a[1:3]:
                for z in tm.subterms(y) if isinstance(y, tm.T) else ():
                    if z.op == 'copy' and len(z.a) > 1 and 'set' in z.a[1]:
                        ck.ok('query.sql-aligned', False, e, 'a list operand gives one value per placeholder')
                    if z.op == 'comp' and z.a[4]:
                        ck.ok('query.sql-aligned', False, e, 'a list operand gives one value per placeholder')
