"""Task record databases: stored records read back as stored; queries mean the same on every backend."""

import ast
import re

from ipa import terms as tm
from ipa.static import Pred, Raises, Static, Unknown

from . import dbval
from .common import add, argof, call, contained, covers, dict_sources, each, either, enclosing, is_eff, iter_covers, keyed, lit, prop, raises, remove, ret, store  # noqa: F401

D = 'controller.dictdb:DictDB'
Q = 'controller.sqlitedb:SQLiteDB'
DICTS = ('header', 'metadata', 'content', 'result_header', 'result_metadata', 'result_content', 'execute_result', 'error')
BUFS = ('buffers', 'result_buffers')
TIMES = ('submitted', 'started', 'completed', 'received')


def static(ck, mod, node):
    return Static(ck.repo, ck.repo.module(mod)).ev(node)


def attrval(ck, spec, name):
    c = ck.repo.cls(spec)
    k, v = ck.repo.class_attr(c, name)
    if v is None:
        return None
    try:
        return Static(ck.repo, k.module).ev(v)
    except Unknown:
        return None


def retkeys(ck, spec, opaque=()):
    fl = ck.F(spec, opaque=opaque)
    out = {}
    for e, b in fl.find(ret()):
        if e.a[0] is tm.NONE:
            continue
        for k, v in keyed(fl, e.a[0]).items():
            out.setdefault(k, []).extend(v)
    return fl, out


def dictdb(ck, m, **kw):
    return ck.F(f'{D}.{m}', opaque=kw.pop('opaque', [n for n in ck.names(D) if n not in ('_extract_subdict', '_match')]), **kw)


def sql(ck, m, **kw):
    return ck.F(f'{Q}.{m}', opaque=kw.pop('opaque', [n for n in ck.names(Q) if n not in ('_defaults', '_dict_to_list', '_list_to_dict')]), **kw)


def executes(fl):
    """(effect, SQL text term, argument term)"""
    return [(e, e.a[0].a[1][0], e.a[0].a[1][1] if len(e.a[0].a[1]) > 1 else None) for e, b in fl.find(call('self._db.execute(*_)')) if e.a[0].a[1]]


def text(t):
    """Constant parts of an SQL text, dynamic parts shown as {}."""
    if t.op == 'const':
        return str(t.a[0])
    if t.op == 'fstr':
        return ''.join(text(x) if x.op in ('const', 'fstr') else '{}' for x in t.a[0])
    return '{}'


def dynamic(t):
    if t.op == 'const':
        return []
    if t.op == 'fstr':
        return [y for x in t.a[0] for y in dynamic(x)]
    return [t]


def alts(fl, t):
    return [x for x in (fl.alts(t) if t.op == 'phi' else [t]) if x.op != 'phi']


@prop('D01', 60)
def d01(ck):
    # ---- one schema
    er, empty = retkeys(ck, 'controller.hub:empty_record')
    ir, init = retkeys(ck, 'controller.hub:init_record', opaque=('ensure_date_is_parsed', 'ensure_timezone'))
    keys = set(empty)
    ck.ok('schema.agree', bool(keys) and set(init) == keys, ir, f'a request record has the same fields as an empty record (differing: {sorted(set(init) ^ keys)})')
    skeys, stypes = attrval(ck, Q, '_keys'), attrval(ck, Q, '_types')
    ck.ok('schema.agree', skeys is not None and set(skeys) == keys and len(skeys) == len(set(skeys)), f'{Q}._keys', f'the SQLite columns are the record fields (differing: {sorted(set(skeys or ()) ^ keys)})')
    ck.ok('schema.agree', stypes is not None and set(stypes) == keys, f'{Q}._types', 'every SQLite column has a type')
    if stypes:
        for k in DICTS:
            ck.ok('schema.types', str(stypes.get(k, '')).startswith('dict'), f'{Q}._types', f'{k} holds a dict and must be converted back to one')
        for k in BUFS:
            ck.ok('schema.types', str(stypes.get(k, '')).startswith('bufs'), f'{Q}._types', f'{k} holds buffers and must be converted back')
        for k in TIMES:
            ck.ok('schema.types', stypes.get(k) == 'timestamp', f'{Q}._types', f'{k} holds a time and must be converted back')
        for k in keys - set(DICTS) - set(BUFS) - set(TIMES):
            ck.ok('schema.types', stypes.get(k) == 'text', f'{Q}._types', f'{k} is text')
    db = sql(ck, '_init_db')
    creates = [(e, s) for e, s, a in executes(db) if 'CREATE TABLE' in text(s).upper()]
    ck.ok('schema.create', bool(creates), db, 'the table must be created')
    for e, s in creates:
        ok1 = False
        if any(tm.mentions(x, lambda y: y.op == 'attr' and y.a[1] in ('_types', '_keys')) for x in dynamic(s)):
            ok1 = True
        else:
            m = re.search(r'\((.*)\)', text(s), re.S)
            cols = [c.split(None, 1) for c in (m.group(1).split(',') if m else [])]
            cols = [(c[0], re.sub(r'\s+PRIMARY\s+KEY', '', c[1], flags=re.I).strip()) for c in cols if len(c) == 2]
            ok1 = [c[0] for c in cols] == list(skeys or []) and dict(cols) == stypes
        ck.ok('schema.create', ok1, e, 'the table has the declared columns, in order, with the declared types')
    # converters
    for ty, name, ad, cv in (('dict', 'dict', 'json.dumps(*_)', 'json.loads(*_)'), ('list', 'bufs', 'pickle.dumps(*_)', 'pickle.loads(*_)'), ('datetime', 'timestamp', '_.isoformat(*_)', '_')):
        reg = db.find(call(f'sqlite3.register_adapter({ty}, *_)'))
        con = db.find(call(f"sqlite3.register_converter('{name}', *_)"))
        if not ck.ok('schema.convert', bool(reg) and bool(con), db, f'{name} columns must be converted both ways'):
            continue
        fa = _target(ck, reg[0][0].a[0].a[1][1])
        fc = _target(ck, con[0][0].a[0].a[1][1])
        if not ck.ok('schema.convert', fa is not None and fc is not None, reg[0][0], 'the converters must be functions of this package'):
            continue
        A = ck.F(fa, opaque=('ensure_timezone', 'extract_dates'))
        C = ck.F(fc, opaque=('ensure_timezone', 'extract_dates'))
        p, c = A.func.params[0], C.func.params[0]
        if name != 'dict':
            dbval.converting(ck, A, name)
        if name == 'dict':
            ck.ok('schema.convert', all(A.match(f'json.dumps({p}, *_)', e.a[0]) is not None for e, b in A.find(ret())), A, 'dicts are stored as JSON')
            ck.ok('schema.convert', all(e.a[0] is tm.NONE or C.match(f'any_of({c}, extract_dates(json.loads(*_)))', e.a[0]) is not None for e, b in C.find(ret())) and C.find(ret('extract_dates(json.loads(*_))')), C, 'dicts are read back from JSON, with their dates')
        elif name == 'bufs':
            full = f'sqlite3.Binary(pickle.dumps([memoryview(elem({p})).tobytes() for _ in {p}], *_))'
            good = A.find(ret('sqlite3.Binary(pickle.dumps(*_))')) or A.find(ret('pickle.dumps(*_)'))
            ck.ok('schema.convert', bool(good), A, 'buffers are stored pickled')
            for e, b in good:
                inner = [x for x in tm.subterms(e.a[0]) if x.op == 'call' and A.match('pickle.dumps(*_)', x) is not None]
                srcs = dict_sources(A, inner[0].a[1][0]) if inner else []
                ck.ok('schema.convert', bool(srcs) and all(v is not None and tm.mentions(v, lambda x: A.match(f'elem({p})', x) is not None) for k, v, it in srcs) and all(
                    x.op != 'comp' or (x.a[4] == 0 and A.match(p, x.a[3][0]) is not None) for x in [inner[0].a[1][0]]), e, 'every buffer is stored')
            ck.ok('schema.convert', bool(C.find(ret('pickle.loads(*_)'))), C, 'buffers are read back')
        else:
            utc = 'any_of(_.astimezone(any_of(timezone.utc, datetime.timezone.utc, UTC)).isoformat(*_), _.isoformat(*_))'
            ck.ok('schema.convert', all(tm.mentions(e.a[0], lambda x: x.op == 'call' and x.a[0].op == 'attr' and x.a[0].a[1] == 'isoformat') for e, b in A.find(ret())), A, 'times are stored in ISO format')
            ck.ok('schema.convert', all(C.match('ensure_timezone(*_)', e.a[0]) is not None for e, b in C.find(ret())), C, 'times read back have a timezone')
    for e, b in db.find(call('sqlite3.connect(*_)')):
        kw = dict(e.a[0].a[2])
        ck.ok('schema.convert', 'detect_types' in kw and tm.mentions(kw['detect_types'], lambda x: x.op == 'glob' and x.a[0].endswith('PARSE_DECLTYPES')), e, 'declared types are converted when read')
    ct = sql(ck, '_check_table')
    ck.ok('schema.check', any(ct.match('self._keys == _', t) is not None for t in ct.lit_count) and any(ct.match('_ == self._types[_]', t) is not None for t in ct.lit_count), ct, 'a table with other columns or types is not used')
    # ---- SQLite records
    ar = sql(ck, 'add_record')
    for e, s, a in executes(ar):
        t = text(s).upper()
        ck.ok('sqlite.add', t.startswith('INSERT INTO') and 'OR ' not in t.split('VALUES')[0], e, 'a duplicate id is an error')
        items = dict_sources(ar, a) if a is not None else []
        ck.ok('sqlite.add', a is not None and a.op == 'comp' and a.a[4] == 0 and iter_covers(ar, a.a[3][0], 'self._keys', True) and ar.match('_[elem(self._keys)]', a.a[2]) is not None, e, 'all fields are stored, in column order')
    ck.ok('sqlite.add', bool(executes(ar)), ar, 'records must be inserted')
    ck.exists('sqlite.add', ar, either(add('_', "'msg_id'", 'msg_id')), 'the record is stored under its id')
    ck.ok('sqlite.add', any(e.kind == 'add' and e.a[2] is not None and ar.match('rec[elem(rec)]', e.a[2]) is not None and ar.match('elem(rec)', e.a[1]) is not None for e in ar.all_effects()) or any(
        ar.match('rec', x) is not None for e in ar.all_effects() if e.kind == 'add' for x in [e.a[0]]) or any(
            ar.match('rec', kv[1]) is not None and kv[0] == '**' for e, b in ar.find(call('dict(*_)')) for kv in e.a[0].a[2]), ar, "the record's own values are stored")
    gr = sql(ck, 'get_record')
    for e, s, a in executes(gr):
        ck.ok('sqlite.get', re.match(r"SELECT \* FROM '\{\}' WHERE msg_id\s*==?\s*\?$", text(s).strip()) is not None and a is not None and gr.match('(msg_id,)', a) is not None or _seq1(gr, a, 'msg_id'), e, 'the record is looked up by id')
    ck.every('sqlite.get', gr, dict(no=either(lit('_.fetchone() is None'), lit('not _.fetchone()')), err=raises('KeyError(*_)')), lambda t: 'no' not in t, 'an unknown id is a KeyError')
    ck.exists('sqlite.get', gr, raises('KeyError(*_)'), 'an unknown id is a KeyError')
    ur = sql(ck, 'update_record')
    for e, s, a in executes(ur):
        tx = text(s)
        ck.ok('sqlite.update', re.match(r"UPDATE '\{\}' SET \{\} WHERE msg_id\s*==?\s*\?$", tx.strip()) is not None, e, 'only the record with that id is updated')
        joins = [x for x in dynamic(s) if x.op == 'call' and x.a[0].op == 'attr' and x.a[0].a[1] == 'join' and x.a[0].a[0] is tm.const(', ')]
        if not ck.ok('sqlite.update', len(joins) == 1 and a is not None, e, 'fields and values are given'):
            continue
        L = joins[0].a[1][0]
        names = [v or k for k, v, it in dict_sources(ur, L)]
        ck.ok('sqlite.update', bool(names) and all(text(x).replace(' ', '') == '{}=?' and dynamic(x) and ur.match('elem(rec)', dynamic(x)[0]) is not None for x in names), e, 'each field is set to one value')
        vals = [(x, k or v) for x in ur.all_effects() if x.kind == 'add' and x.a[0] is a for k, v in [(x.a[1], x.a[2])]]
        for x in ur.all_effects():
            if x.kind == 'add' and (x.a[0] is a or x.a[0] is L):
                ck.ok('sqlite.update', x.a[-1] != 'insert', x, 'fields and values stay aligned')
        inl = [x for x, v in vals if ur.match('rec[elem(rec)]', v) is not None]
        last = [x for x, v in vals if ur.match('msg_id', v) is not None]
        if a.op == 'bin' and L.op == 'comp':
            c, last = a.a[1:3]
            ck.ok('sqlite.update', c.op == 'comp' and c.a[4] == 0 and L.a[4] == 0 and c.a[3] == L.a[3] and iter_covers(ur, c.a[3][0], 'rec') and ur.match('rec[elem(rec)]', c.a[2]) is not None and _seq1(ur, last, 'msg_id'), e, "the values are the record's, then the id")
        elif L.op == 'comp':
            ck.ok('sqlite.update', L.a[4] == 0 and iter_covers(ur, L.a[3][0], 'rec') and len(last) == 1 and len(vals) == (1 if a.op != 'alloc' else 2), e, "the values are the record's, then the id")
        else:
            ck.ok('sqlite.update', len(inl) == 1 and len(last) == 1 and len(vals) == 2, e, "the values are the record's, then the id")
            sets = [x for x in ur.all_effects() if x.kind == 'add' and x.a[0] is L]
            if inl and last and sets:
                h = ur.loop_of(inl[0].node)
                ck.ok('sqlite.update', h is not None and covers(ur, h, 'rec') and ur.loop_of(sets[0].node) is not None, e, 'every field of the update is stored')
                if ur.loop_of(sets[0].node) is h:
                    each(ck, 'sqlite.update', ur, is_eff(inl[0]), 'fields and values stay aligned')
                    each(ck, 'sqlite.update', ur, is_eff(sets[0]), 'fields and values stay aligned')
                ck.every('sqlite.update', ur, dict(v=is_eff(inl[0]), k=is_eff(last[0]), x=is_eff(e)), lambda t: t.count('k') == 1 and t.atoms[-2:] == ['k', 'x'] or tuple(t.atoms[-2:]) == ('k', 'x'), 'the id is the last value')
    ck.ok('sqlite.update', bool(executes(ur)), ur, 'updates must be stored')
    dr = sql(ck, 'drop_record')
    for e, s, a in executes(dr):
        ck.ok('sqlite.drop', re.match(r"DELETE FROM '\{\}' WHERE msg_id\s*==?\s*\?$", text(s).strip()) is not None and _seq1(dr, a, 'msg_id'), e, 'only that record is dropped')
    fr = sql(ck, 'find_records')
    sel = [x for x in executes(fr) if text(x[1]).upper().startswith('SELECT')]
    ck.ok('sqlite.find', bool(sel), fr, 'records must be selected')
    for e, s, a in sel:
        req = [x for x in dynamic(s)][:1]
        for x in [y for r in req for y in alts(fr, r)]:
            if x is tm.const('*'):
                continue
            ck.ok('sqlite.project', x.op == 'call' and x.a[0].a[1] == 'join' and bool(x.a[1]), e, 'the requested columns are selected')
            L = x.a[1][0]
            col = [k or v for k, v, it in dict_sources(fr, L)] if L.op != 'param' else []
            first = fr.find(add('keys', "'msg_id'")) if L.op == 'param' else [1 for y in tm.subterms(L) if y is tm.const('msg_id')] or [y for y in col if y is tm.const('msg_id')]
            ck.ok('sqlite.project', bool(first), e, 'the id is always included')
        # rows are decoded with the selected columns
        zips = fr.find(call('zip(*_)'))
        ck.ok('sqlite.project', bool(zips), fr, 'rows must be turned into records')
        for z, b in zips:
            zk = z.a[0].a[1][0]
            good = all(fr.match('any_of(self._keys, keys)', y) is not None for y in alts(fr, zk)) or any(y in alts(fr, zk) for r in req for x in alts(fr, r) if x.op == 'call' for y in x.a[1])
            ck.ok('sqlite.project', good, z, 'values are labelled with the selected columns')
    ck.ok('sqlite.find', any(e.kind == 'return' for e in fr.all_effects()), fr, 'matching records must be returned')
    dbval.labels(ck, fr, [(e, s, [y for r in dynamic(s)[:1] for x in alts(fr, r) if x.op == 'call' for y in x.a[1]]) for e, s, a in sel])
    dbval.nokeys(ck, fr)
    dbval.closing(ck)
    hs = [h for h in fr.order if h.kind == 'loop' and h.term is not None and fr.match('self._db.execute(*_).fetchall()', fr.val(h, h.term)) is not None]
    for e, b in fr.find(ret()):
        for x in alts(fr, e.a[0]):
            if x.op == 'comp':
                ck.ok('sqlite.find', x.a[4] == 0, e, 'every match is returned')
            elif x.op == 'alloc':
                puts = [y for y in fr.all_effects() if y.kind == 'add' and y.a[0] is x]
                ck.ok('sqlite.find', bool(puts), e, 'every match is returned')
                for y in puts:
                    each(ck, 'sqlite.find', fr, is_eff(y), 'every match is returned once', over='any_of(self._db.execute(*_).fetchall(), self._db.execute(*_))')
    gh = sql(ck, 'get_history')
    for e, s, a in executes(gh):
        ck.ok('sqlite.history', re.match(r"SELECT msg_id FROM '\{\}'( WHERE .*)? ORDER BY submitted( ASC)?$", text(s).strip(), re.I) is not None, e, 'the history is ordered by submission')
    # ---- DictDB
    ad = dictdb(ck, 'add_record')
    put = add('self._records', 'msg_id', 'rec')
    ck.every('dict.add', ad, dict(put=put, cull=remove('self._culled_ids', 'msg_id')), lambda t: t.count('put') == 1, 'the record is stored under its id')
    ck.every('dict.add', ad, dict(put=put, new=lit('msg_id not in self._records')), lambda t: 'put' not in t or t.before('new', 'put'), 'a duplicate id is an error')
    ck.exists('dict.add', ad, raises('KeyError(*_)'), 'a duplicate id is an error')
    # a record stored again is not culled any more
    ck.every('dict.culled', ad, dict(put=put, cull=remove('self._culled_ids', 'msg_id'), off=lit('msg_id not in self._culled_ids')), lambda t: 'put' not in t or 'cull' in t or 'off' in t, 'a record added again is reachable again')
    gt = dictdb(ck, 'get_record')
    for e, b in gt.find(ret()):
        ck.ok('dict.isolated', gt.match('any_of(deepcopy(self._records[msg_id]), copy.deepcopy(self._records[msg_id]))', e.a[0]) is not None, e, 'a caller gets its own copy of the record')
        G = gt.guards().get(e.node.id, ())
        ck.ok('dict.get', any(not p and gt.match('msg_id in self._culled_ids', t) is not None for t, p in G) or not any(gt.match('msg_id in self._culled_ids', t) is not None for t in gt.lit_count), e, 'a culled record is a KeyError')
    ck.exists('dict.get', gt, raises('KeyError(*_)'), 'an unknown id is a KeyError')
    up = dictdb(ck, 'update_record')
    mg = lambda e, a, b: {} if e.kind == 'add' and up.match('self._records[msg_id]', e.a[0]) is not None and e.a[2] is not None and up.match('rec[elem(rec)]', e.a[2]) is not None else None  # noqa: E731
    mg.desc = 'merge rec'
    loops = [h for e, b in up.find(mg) for h in [up.loop_of(e.node)] if h is not None and h.term is not None and any(up.match(p, up.val(h, h.term)) is not None for p in ('rec', 'rec.items()', 'rec.keys()'))]
    if loops:
        mg = lambda e, a, b: {} if e.kind == 'done' and e.node in loops else None  # noqa: E731
        mg.desc, mg.edge = 'merge rec', True
    R = 'self._records[msg_id]'
    byt = dict(drop=call(f'self._drop_bytes({R})'), merge=mg, add=call(f'self._add_bytes({R})'), new=call('self._add_bytes(rec)'))
    ck.every('dict.update', up, byt, lambda t: t.count('merge') >= 1, 'the update is merged into the record')
    ck.every('dict.bytes', up, byt, lambda t: t.count('drop') == t.count('add') == 1 and 'new' not in t and t.before('drop', 'merge') and t.before('merge', 'add'), 'the size of a changed record is taken out before and added after the change')
    ck.every('dict.bytes', ad, dict(put=put, b=call('self._add_bytes(rec)')), lambda t: t.count('b') == t.count('put'), 'the size of a stored record is counted once')
    for m in ('drop_record', 'drop_matching_records'):
        fl = dictdb(ck, m)
        rm = fl.find(remove('self._records'))
        ck.ok('dict.drop', bool(rm), fl, 'records must be dropped')
        for e, b in rm:
            own = 'msg_id' if m == 'drop_record' else "_['msg_id']"
            ck.ok('dict.drop', fl.match(own, e.a[1]) is not None, e, 'only matching records are dropped')
            ck.every('dict.bytes', fl, dict(rm=is_eff(e), b=call('self._drop_bytes(_)')), lambda t: t.count('b') == t.count('rm'), 'the size of a dropped record is no longer counted')
            if m == 'drop_matching_records':
                each(ck, 'dict.drop', fl, is_eff(e), 'every matching record is dropped')
                each(ck, 'dict.bytes', fl, call('self._drop_bytes(_)'), 'the size of every dropped record is no longer counted')
    for m, sg in (('_add_bytes', '+'), ('_drop_bytes', '-')):
        fl = dictdb(ck, m)
        hits = [(e, e.a[2]) for e in fl.all_effects() if e.kind == 'store' and e.a[1] == '_buffer_bytes']
        seen = set()
        for e, v in hits:
            ok1 = v.op == 'bin' and v.a[0] == sg and tm.mentions(v, lambda x: x.op == 'call' and x.a[0].op == 'glob' and x.a[0].a[0] in ('len', 'sum'))
            ck.ok('dict.bytes', ok1, e, f'{m} must {"add" if sg == "+" else "subtract"} the size of each buffer')
            for k in BUFS:
                if tm.mentions(v, lambda x: (x.op in ('get', 'item')) and len(x.a) > 1 and _keyof(fl, x.a[1], k)):
                    seen.add(k)
        ck.ok('dict.bytes', seen == set(BUFS), fl, 'both kinds of buffers are counted')
    mc = dictdb(ck, '_maybe_cull')
    ck.ok('dict.limits', any(mc.match('self.record_limit < len(self._records)', t) is not None for t in mc.lit_count) and any(mc.match('self.size_limit < self._buffer_bytes', t) is not None for t in mc.lit_count), mc, 'both limits are enforced')
    for e, b in mc.find(call('self._cull_oldest(*_)')):
        G = mc.guards().get(e.node.id, ())
        ck.ok('dict.limits', any(p and mc.match('any_of(self.record_limit < len(self._records), self.size_limit < self._buffer_bytes)', t) is not None for t, p in G) or any(
            p and mc.match('_ < self._buffer_bytes', t) is not None for t, p in G), e, 'records are culled only when a limit is exceeded')
    over = dict(n=lit('self.record_limit < len(self._records)'), c=call('self._cull_oldest(_)'), b=lit('self.size_limit < self._buffer_bytes'))
    ck.every('dict.limits', mc, over, lambda t: ('n' not in t or 'c' in t), 'records beyond a limit are culled')
    ck.ok('dict.limits', any(mc.loop_of(e.node) is not None for e, b in mc.find(call('self._cull_oldest(*_)'))) or len(mc.find(call('self._cull_oldest(*_)'))) >= 2, mc, 'records are culled until the size is below the limit')
    for m, fl in (('add_record', ad), ('update_record', up)):
        c = [e for e, b in fl.find(either(call('self._maybe_cull(*_)'), call('self._add_bytes(*_)')))]
        ck.ok('dict.limits', bool(c), fl, f'limits are checked by {m}')
    ab = dictdb(ck, '_add_bytes')
    ck.ok('dict.limits', bool(ab.find(call('self._maybe_cull(*_)'))) or all(fl.find(call('self._maybe_cull(*_)')) for fl in (ad, up)), ab, 'limits are checked whenever the size grows')
    co = dictdb(ck, '_cull_oldest')
    cu = dict(mark=add('self._culled_ids'), drop=call('self.drop_record(_)'))
    each(ck, 'dict.culled', co, cu['drop'], 'every culled record is dropped')
    each(ck, 'dict.culled', co, cu['mark'], 'every culled record is remembered as culled')
    ids = {e.a[0].a[1][0] for e, b in co.find(cu['drop'])} | {e.a[1] for e, b in co.find(cu['mark'])}
    ck.ok('dict.culled', len(ids) == 1, co, 'the culled record is the one remembered')
    ck.ok('dict.culled', any(tm.mentions(x, lambda y: y.op == 'call' and y.a[0].op == 'attr' and y.a[0].a[1] == 'get_history') for i in ids for x in _deepalts(co, i)), co, 'the oldest records are culled first')
    fm = dictdb(ck, '_match')
    hits = [e for e in fm.all_effects() if e.kind == 'add' and tm.mentions(e.a[1], lambda x: fm.match('elem(self._records)', x) is not None)] + [
        e for e, b in fm.find(ret()) if e.a[0].op == 'comp']
    ck.ok('dict.isolated', bool(hits), fm, 'matching records must be collected')
    for e in hits:
        v = e.a[1] if e.kind == 'add' else e.a[0].a[2]
        ck.ok('dict.isolated', _copied(fm, v), e, 'a caller gets its own copy of each record')
    fd = dictdb(ck, 'find_records', opaque=ck.names(D))
    for e, b in fd.find(ret()):
        for x in alts(fd, e.a[0]):
            if x.op == 'comp':
                ck.ok('dict.project', x.a[4] == 0, e, 'every match is returned')
                ck.ok('dict.project', iter_covers(fd, x.a[3][0], 'self._match(check)') and fd.match('self._extract_subdict(elem(self._match(check)), keys)', x.a[2]) is not None, e, 'the requested fields of every match are returned')
            elif x.op == 'alloc':
                puts = [y for y in fd.all_effects() if y.kind == 'add' and y.a[0] is x]
                ck.ok('dict.project', bool(puts), e, 'every match is returned')
                for y in puts:
                    each(ck, 'dict.project', fd, is_eff(y), 'every match is returned once', over='self._match(check)')
            else:
                ck.ok('dict.project', fd.match('self._match(check)', x) is not None, e, 'every match is returned')
    es = ck.F(f'{D}._extract_subdict', opaque=ck.names(D))
    src = [(k, v) for e, b in es.find(ret()) for y in tm.subterms(e.a[0]) if y.op in ('alloc', 'comp') for k, v, it in dict_sources(es, y)]
    ck.ok('dict.project', any(k is tm.const('msg_id') and es.match("rec['msg_id']", v) is not None for k, v in src), es, 'the id is always included')
    ck.ok('dict.project', any(es.match('elem(keys)', k) is not None and es.match('rec[elem(keys)]', v) is not None for k, v in src), es, 'every requested field is included with its own value')
    hist = dictdb(ck, 'get_history')
    ok1 = [e for e, b in hist.find(call('sorted(*_)'))] + [e for e, b in hist.find(call('_.sort(*_)'))]
    paired = [e for e in ok1 if dbval.pairs(hist, e) is not None]
    ck.ok('dict.history', any('key' in dict(e.a[0].a[2]) or e in paired for e in ok1) and not any('reverse' in dict(e.a[0].a[2]) for e in ok1), hist, 'the history is ordered by submission')
    for e in ok1:
        kf = dict(e.a[0].a[2]).get('key')
        if kf is not None and e not in paired:
            body = [b for t in [kf] for b in _lambody(hist, t)]
            ck.ok('dict.history', any("'submitted'" in b for b in body), e, 'the history is ordered by submission')
    dn = ck.names(D)
    dbval.culling(ck, dn)
    dbval.updates(ck, dn, up)
    dbval.times(ck, dn)
    dbval.order(ck, dn, hist)
    # ---- NoDB answers nothing rather than something wrong
    for m in ('get_record', 'find_records', 'get_history'):
        fl = ck.F(f'controller.dictdb:NoDB.{m}')
        ck.ok('nodb', not fl.find(ret()) or all(t.end != 'return' for t in fl.traces({})), fl, 'without a database, reading is a KeyError')
        ck.exists('nodb', fl, raises('_'), 'without a database, reading is a KeyError')
    k = ck.repo.cls('controller.dictdb:NoData')
    ck.ok('nodb', 'KeyError' in ck.repo.base_names(k), 'controller.dictdb:NoData', 'without a database, reading is a KeyError')


def _lambody(fl, t):
    import ast as _ast

    out = []
    for n in _ast.walk(fl.func.node):
        if isinstance(n, _ast.Lambda):
            out.append(_ast.unparse(n.body))
        if isinstance(n, _ast.FunctionDef) and n is not fl.func.node:
            out += [_ast.unparse(r.value) for r in _ast.walk(n) if isinstance(r, _ast.Return) and r.value is not None]
    return out


def _deepalts(fl, t):
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        if x in out:
            continue
        out.append(x)
        for y in tm.subterms(x):
            if y.op == 'phi':
                todo.extend(z for z in fl.alts(y) if z not in out)
            if y.op == 'alloc':
                for e in fl.all_effects():
                    if e.kind == 'add' and e.a[0] is y:
                        todo.extend(z for z in e.a[1:3] if isinstance(z, tm.T) and z not in out)
    return out


def _copied(fl, v):
    return all(fl.match('any_of(deepcopy(_), copy.deepcopy(_), self._extract_subdict(*_))', x) is not None for x in alts(fl, v))


def _keyof(fl, t, k):
    if t is tm.const(k):
        return True
    return any(x is tm.const(k) for x in _deepalts(fl, t)) or (t.op == 'elem' and any(x is tm.const(k) for x in tm.subterms(t)))


def _seq1(fl, t, name):
    if t is None:
        return False
    if t.op == 'tup':
        return len(t.a[0]) == 1 and fl.match(name, t.a[0][0]) is not None
    if t.op == 'alloc':
        return [fl.match(name, x) is not None for x in t.a[2]] == [True]
    return False


def _target(ck, t):
    if t.op == 'glob' and t.a[0].startswith('ipyparallel.'):
        mod, _, name = t.a[0][len('ipyparallel.'):].rpartition('.')
        return f'{mod}:{name}'
    return None


# ------------------------------------------------------------------ D02
ORDER = {'$lt': {'lt'}, '$lte': {'lt', 'eq'}, '$gt': {'gt'}, '$gte': {'gt', 'eq'}, '$eq': {'eq'}, '$ne': {'lt', 'gt', 'none'}}
SQLOP = {'$lt': {'<'}, '$lte': {'<='}, '$gt': {'>'}, '$gte': {'>='}, '$eq': {'=', '==', 'IS'}, '$ne': {'IS NOT', 'IS DISTINCT FROM'}, '$glob': {'GLOB'},
         '$in': {('=', 'OR'), ('==', 'OR'), ('IS', 'OR')}, '$nin': {('IS NOT', 'AND'), ('IS DISTINCT FROM', 'AND')}}


TRUE = ('1', '1=1', '1 = 1', 'TRUE')


@prop('D02', 50)
def d02(ck):
    mod = ck.repo.module('controller.dictdb')
    g = mod.globals.get('filters')
    fs = None
    try:
        fs = static(ck, 'controller.dictdb', g) if g is not None else None
    except Unknown:
        pass
    if ck.ok('query.operators', isinstance(fs, dict), 'controller.dictdb:filters', 'the operators must be defined'):
        for op, want in ORDER.items():
            for st in ({'rel': r} for r in ('lt', 'eq', 'gt')):
                _pred(ck, mod, fs, op, st, st['rel'] in want, f'the value is {dict(lt="less than", eq="equal to", gt="greater than")[st["rel"]]} the operand')
            _pred(ck, mod, fs, op, {'rel': 'lt', 'none': True}, 'none' in want, 'the field is unset')
        for mem in (True, False):
            for true in (True, False):
                _pred(ck, mod, fs, '$in', {'member': mem, 'atrue': true}, mem, f'the value is {"" if mem else "not "}listed')
                _pred(ck, mod, fs, '$nin', {'member': mem, 'atrue': true}, not mem, f'the value is {"" if mem else "not "}listed')
            if not mem:
                _pred(ck, mod, fs, '$in', {'member': False, 'none': True}, False, 'the field is unset and not listed')
                _pred(ck, mod, fs, '$nin', {'member': False, 'none': True}, True, 'the field is unset and not listed')
            _pred(ck, mod, fs, '$glob', {'member': mem}, mem, f'the value {"matches" if mem else "does not match"}')
        _pred(ck, mod, fs, '$glob', {'member': True, 'none': True}, False, 'the field is unset')
        for want in (True, False):
            for none in (True, False):
                for true in (True,) if none else (True, False):
                    _pred(ck, mod, fs, '$exists', {'btrue': want, 'none': none, 'rel': 'eq', 'atrue': true}, want != none, f'the field is {"unset" if none else "set" if true else "set to an empty value"} and the operand is {want}')
    # composite and per-field tests
    ci = ck.F('controller.dictdb:CompositeFilter.__init__')
    for a, val in (('tests', 'any_of(filters[elem(dikt)], _add_tz(filters[elem(dikt)]))'), ('values', 'any_of(_add_tz(dikt[elem(dikt)]), dikt[elem(dikt)])')):
        pass
    fi = ck.F('controller.dictdb:CompositeFilter.__init__', opaque=('_add_tz',))
    hits = [e for e in fi.all_effects() if e.kind == 'add' and e.a[1] is not tm.NONE]
    ts = [e for e in hits if tm.mentions(e.a[1], lambda x: x.op == 'item' and x.a[0].op == 'glob' and x.a[0].a[0].endswith('filters'))]
    vs = [e for e in hits if tm.mentions(e.a[1], lambda x: fi.match('dikt[elem(dikt)]', x) is not None)]
    its = []
    for a in ('tests', 'values'):
        for e in fi.all_effects():
            if e.kind == 'store' and e.a[1] == a and e.a[2].op == 'comp':
                c = e.a[2]
                (ts if a == 'tests' else vs).append(e)
                its.append(e)
                ck.ok('query.composite', c.a[4] == 0 and iter_covers(fi, c.a[3][0], 'dikt', True), e, 'each operator is paired with its own operand')
    ck.ok('query.composite', bool(ts) and bool(vs), fi, 'each operator is paired with its own operand')
    for e in [x for x in ts + vs if x not in its]:
        each(ck, 'query.composite', fi, is_eff(e), 'each operator is paired with its own operand', over='dikt')
    for e in ts:
        ck.ok('query.composite', tm.mentions(_val(e), lambda x: x.op == 'item' and fi.match('elem(dikt)', x.a[1]) is not None), e, 'each operator is looked up by name')
    for e in vs:
        ck.ok('query.timezone', tm.mentions(_val(e), lambda x: x.op == 'call' and tm.mentions(x.a[0], lambda y: y.op == 'glob' and y.a[0].endswith(('_add_tz', 'ensure_timezone')))), e, 'times without timezone are compared as local time')
    cc = ck.F('controller.dictdb:CompositeFilter.__call__', opaque=())
    for t in cc.traces(dict(no=lit('not _(value, _)'), tst=lit('_(value, _)')), retval=True):
        if t.end == 'return' and t.ret is not None and t.ret.op == 'const':
            ck.ok('query.composite', t.ret.a[0] == ('no' not in t), cc, 'a record matches when every operator holds', path=t.path())
        elif t.end == 'return':
            ck.ok('query.composite', t.ret is not None and cc.match('all(_)', t.ret) is not None, cc, 'a record matches when every operator holds', path=t.path())
    cal = [e for e, b in cc.find(call('_(value, _)'))] + [e for e in cc.all_effects() if e.kind == 'comp_elt']
    ck.ok('query.composite', bool(cal), cc, 'every operator is applied')
    for e in cal:
        if e.kind == 'call':
            f, args, kw = e.a[0].a
            ck.ok('query.composite', _paired(f, args[1]), e, 'each operator is applied to its own operand')
    mo = ck.F(f'{D}._match_one', opaque=ck.names(D))
    for t in mo.traces(dict(no=lit('not tests[_](*_)'), yes=lit('tests[_](*_)')), retval=True):
        if t.end == 'return' and t.ret is not None and t.ret.op == 'const':
            ck.ok('query.fields', t.ret.a[0] == ('no' not in t), mo, 'a record matches when every field test holds', path=t.path())
        elif t.end == 'return':
            ck.ok('query.fields', t.ret is not None and mo.match('all(_)', t.ret) is not None, mo, 'a record matches when every field test holds', path=t.path())
    for e, b in mo.find(call('tests[_](*_)')):
        ck.ok('query.fields', mo.match('tests[elem(tests)](any_of(rec.get(elem(tests), *_), rec[elem(tests)]))', e.a[0]) is not None, e, "each test gets the record's own field")
    ma = ck.F(f'{D}._match', opaque=[n for n in ck.names(D)] + ['CompositeFilter'])
    puts = [e for e in ma.all_effects() if e.kind == 'add' and ma.match('elem(check)', e.a[1]) is not None]
    comp = [x for e in ma.all_effects() for y in e.a if isinstance(y, tm.T) for x in tm.subterms(y) if x.op == 'comp' and x.a[0] == 'dict']
    ck.ok('query.fields', bool(puts or comp), ma, 'every field of the query is tested')
    for e in puts:
        for v in alts(ma, e.a[2]):
            if v.op in ('lambda', 'closure'):
                ck.ok('query.fields', _closes(ma, v), e, 'each test uses its own operand')
            else:
                ck.ok('query.fields', tm.mentions(v, lambda x: ma.match('check[elem(check)]', x) is not None), e, 'each test uses its own operand')
    for e in [x for x, b in ma.find(call('self._match_one(*_)'))]:
        h = ma.loop_of(e.node)
        ck.ok('query.fields', h is not None and covers(ma, h, 'self._records'), e, 'every record is tested')
        ck.ok('query.fields', ma.match('self._match_one(any_of(self._records[elem(self._records)], elem(self._records)), _)', e.a[0]) is not None, e, 'every record is tested')
    keep = [e for e in ma.all_effects() if e.kind == 'add' and tm.mentions(e.a[1], lambda x: ma.match('elem(self._records)', x) is not None)]
    for e in keep:
        ck.ok('query.fields', any(p and ma.match('self._match_one(*_)', t.a[0] if t.op == 'truth' else t) is not None for t, p in ma.guards().get(e.node.id, ())), e, 'only matching records are returned')
    dbval.loops(ck, cc, ma)
    dbval.equal(ck, ma, ck.names(D))
    # ---- SQLite
    sm = ck.repo.module('controller.sqlitedb')
    try:
        ops = static(ck, 'controller.sqlitedb', sm.globals['operators'])
        nulls = static(ck, 'controller.sqlitedb', sm.globals['null_operators'])
    except (Unknown, KeyError):
        ops = nulls = None
    if ck.ok('query.sql-operators', isinstance(ops, dict) and isinstance(nulls, dict), 'controller.sqlitedb:operators', 'the SQL operators must be defined'):
        for op, want in SQLOP.items():
            v = ops.get(op)
            v = tuple(str(x).strip().upper() for x in v) if isinstance(v, tuple) else v
            ck.ok('query.sql-operators', v in want, 'controller.sqlitedb:operators', f'{op} must mean the same as in memory, unset fields included (is {v!r})')
        base = {('=' if x in ('$eq', '$in') else None): 1 for x in ()}
        for op in ('$eq', '$ne'):
            o = ops.get(op)
            n = nulls.get(o)
            ck.ok('query.sql-null', n == ('IS NULL' if op == '$eq' else 'IS NOT NULL') or o in ('IS', 'IS NOT'), 'controller.sqlitedb:null_operators', f'{op} with an unset operand must test for unset fields')
    tz = _target(ck, [e.a[0].a[1][1] for e, b in sql(ck, '_init_db').find(call('sqlite3.register_adapter(datetime, *_)'))][0])
    A = ck.F(tz, opaque=('ensure_timezone',))
    for e, b in A.find(ret()):
        ck.ok('query.timezone', tm.mentions(e.a[0], lambda x: x.op == 'call' and x.a[0].op == 'attr' and x.a[0].a[1] == 'astimezone' and len(x.a[1]) == 1) and tm.mentions(
            e.a[0], lambda x: x.op == 'call' and tm.mentions(x.a[0], lambda y: y.op == 'glob' and y.a[0].endswith('ensure_timezone'))), e, 'times are compared as text, so they are stored in one timezone')
    re_ = ck.F(f'{Q}._render_expression', opaque=ck.names(Q))
    N = 'elem(check)'
    V = 'check[elem(check)]'
    rets = re_.find(ret())
    for e, b in rets:
        t = e.a[0]
        ck.ok('query.sql-all', t.op == 'tup' and len(t.a[0]) == 2, e, 'the condition comes with its values')
        if t.op != 'tup':
            continue
        expr, args = t.a[0]
        if expr.op == 'const':
            G = re_.guards().get(e.node.id, ())
            ck.ok('query.sql-empty', str(expr.a[0]).strip().upper() in TRUE and any(not p and t.op == 'truth' and (t.a[0].op == 'alloc' or re_.match('check', t.a[0]) is not None) for t, p in G), e, 'only an empty query matches everything')
            continue
        joins = [x for y in _deepalts(re_, expr) for x in tm.subterms(y) if x.op == 'call' and x.a[0].op == 'attr' and x.a[0].a[1] == 'join' and x.a[0].a[0].op == 'const']
        top = [x for x in joins if str(x.a[0].a[0].a[0]).strip().upper() == 'AND']
        if not ck.ok('query.sql-all', bool(top), e, 'all conditions must hold'):
            continue
        tops = alts(re_, expr)
        G = re_.guards().get(e.node.id, ())
        ck.ok('query.sql-empty', any(x.op == 'const' and str(x.a[0]).strip().upper() in TRUE for y in tops for x in (y.a if y.op in ('or', 'ifexp', 'bool') else [y]) if isinstance(x, tm.T)) or tm.mentions(
            expr, lambda x: x.op == 'const' and str(x.a[0]).strip().upper() in TRUE and x is not expr) and not tm.mentions(expr, lambda x: x.op == 'comp') or any(p and t.op == 'truth' and t.a[0].op == 'alloc' for t, p in G), e, 'an empty query matches everything')
        L = top[0].a[1][0]
        puts = [x for x in re_.all_effects() if x.kind == 'add' and x.a[0] is L]
        argp = [x for x in re_.all_effects() if x.kind == 'add' and x.a[0] is args]
        ck.ok('query.sql-all', bool(puts) and bool(argp), e, 'conditions and values must be collected')
        # taint: only checked field names and fixed operators are formatted into the SQL text
        for x in puts:
            for v in _deepalts(re_, x.a[1]):
                for y in _fmt_parts(v):
                    okp = re_.match(f'any_of({N}, operators[_], operators[_][_], null_operators[_], operators.get(*_))', y) is not None or y.op == 'phi' or y.op == 'call' and y.a[0].op == 'attr' and y.a[0].a[1] == 'join' or (
                        y.op in ('bin', 'alloc', 'comp')) or y.op == 'item' and tm.mentions(y, lambda z: z.op == 'glob' and z.a[0].endswith('operators')) and not re_.match(V, y) is not None
                    bad = re_.match(f'any_of({V}, {V}[_], elem({V}[_]))', y) is not None and not tm.mentions(y, lambda z: z.op == 'glob' and z.a[0].endswith('operators'))
                    ck.ok('query.sql-injection', okp and not bad, x, 'values are passed as parameters, never as SQL text')
            G = re_.guards().get(x.node.id, ())
            ck.ok('query.sql-injection', any(_validated(re_, t, p) for t, p in G), x, 'only known field names are formatted into SQL text')
        dbval.rendered(ck, re_, puts, args, V, text, _qkind)
        # placeholders and values stay aligned
        scal = [x for x in argp if re_.match(f'any_of({V}, {V}[elem({V})])', x.a[1]) is not None]
        ext = [x for x in argp if x not in scal]
        for x in ext:
            ck.ok('query.sql-aligned', re_.match(f'any_of(elem({V}[elem({V})]), elem({V}))', x.a[1]) is not None, x, 'a list operand gives one value per placeholder')
        at = dict(put=lambda ev, a, b: {} if ev in puts else None, one=lambda ev, a, b: {} if ev in scal else None, many=lambda ev, a, b: {} if ev in ext else None)
        for k2 in at:
            at[k2].desc = k2
        lst = dict(lst=lit(f'isinstance({V}[elem({V})], (tuple, list))'))
        at.update(lst)

        def expr_q(ev, a, b, kind=None):
            return None
        kinds = {}
        for kind in ('q', 'join', 'none'):
            def f(ev, a, b, kind=kind):
                if ev not in puts:
                    return None
                v = ev.a[1]
                xs = [y for y in (a(v) if v.op == 'phi' else [v]) if y.op != 'phi']
                for y in xs:
                    if _qkind(y) == kind:
                        return {}
                return None
            f.desc = f'condition {kind}'
            kinds[kind] = f
        heads = []
        for x in puts:
            h = re_.loop_of(x.node)
            if ck.ok('query.sql-all', h is not None, x, 'every field of the query is rendered') and h not in heads:
                heads.append(h)
        up = {h: enclosing(re_, h) for h in heads}
        for h in {*heads, *(o for os in up.values() for o in os)}:
            inner = [x for x in heads if h in up[x]]
            for t in re_.body_traces(h, dict(at, **kinds), stop=inner):
                if t.end == 'stop' and t.node in inner:
                    ck.ok('query.sql-aligned', not set(t.atoms) - {'lst'}, re_, 'each condition is rendered once with exactly its own values', path=t.path())
                elif t.end == 'stop':
                    n = t.count('put')
                    good = n == 1
                    good = good and not ('lst' in t and 'one' in t) and not ('many' in t and 'lst' not in t)
                    if 'q' in t:
                        good = good and t.count('one') == 1 and 'many' not in t
                    elif 'join' in t:
                        good = good and 'one' not in t and t.count('many') == 1
                    else:
                        good = good and 'one' not in t and 'many' not in t
                    ck.ok('query.sql-aligned', good, re_, f'each condition is rendered once with exactly its own values {t}', path=t.path())
                elif t.end == 'return':
                    ck.ok('query.sql-aligned', False, re_, 'every condition is rendered', path=t.path())
            for i in inner:
                for t in re_.traces(dict(at, **kinds), start=(i, 'done'), stop={h.id}):
                    ck.ok('query.sql-aligned', not set(t.atoms) - {'lst'}, re_, 'each condition is rendered once with exactly its own values', path=t.path())
    ck.exists('query.sql-injection', re_, raises('KeyError(*_)'), 'unknown fields or operators are refused', n=1)
    for m in ('find_records', 'drop_matching_records'):
        fl = sql(ck, m)
        for e, s, a in executes(fl):
            tx = text(s)
            ck.ok('query.sql-used', tx.rstrip().endswith('WHERE {}') and a is not None and fl.match('self._render_expression(check)[1]', a) is not None and fl.match('self._render_expression(check)[0]', dynamic(s)[-1]) is not None, e,
                  'exactly the records matching the query are used')
            for x in dynamic(s)[:-1]:
                for y in alts(fl, x):
                    okp = fl.match('self.table', y) is not None or y is tm.const('*') or (y.op == 'call' and y.a[0].op == 'attr' and y.a[0].a[1] == 'join')
                    ck.ok('query.sql-injection', okp, e, 'only table, columns and the rendered condition are formatted into SQL text')
            if any(y.op == 'call' and y.a[0].op == 'attr' and y.a[0].a[1] == 'join' for x in dynamic(s) for y in alts(fl, x)):
                cond = [t for t in fl.lit_count if t.op == 'truth' and t.a[0].op == 'comp' and any(fl.match('elem(keys) in self._keys', z) is not None and not p for z, p in fl.comp_guards(t.a[0]))] + [
                    t for t in fl.lit_count if fl.match('_ in self._keys', t) is not None] + [t for t in fl.lit_count if tm.mentions(t, lambda x: x.op == 'attr' and x.a[1] == '_keys') and tm.mentions(t, lambda x: fl.match('keys', x) is not None)]
                at = dict(bad=lambda ev, a, b: {} if ev.kind == 'lit' and ev.a[0] in cond else None, sel=is_eff(e))
                ck.ok('query.sql-injection', bool(cond), e, 'requested columns are checked before use')
    ck.exists('query.sql-injection', sql(ck, 'find_records'), raises('KeyError(*_)'), 'unknown columns are refused')


def _val(e):
    return e.a[2] if e.kind == 'store' else e.a[1]


def _fmt_parts(v):
    return dynamic(v) if v.op == 'fstr' else []


def _qkind(y):
    if y.op == 'call' and y.a[0].op == 'attr' and y.a[0].a[1] == 'join':
        return 'join'
    if y.op == 'fstr':
        for p in y.a[0]:
            if p.op == 'call' and p.a[0].op == 'attr' and p.a[0].a[1] == 'join':
                return 'join'
    return 'q' if '?' in text(y) else 'none'


def _validated(fl, t, p):
    """The guard says that every queried name is a known column."""
    if t.op == 'truth' and not p:
        x = t.a[0]
        if x.op == 'copy' or tm.mentions(x, lambda y: y.op == 'attr' and y.a[1] == '_keys'):
            rm = [e for e in fl.all_effects() if e.kind == 'remove' and e.a[0] is x]
            if x.op != 'copy':
                return True
            return any(tm.mentions(e.a[1], lambda y: y.op == 'attr' and y.a[1] == '_keys') for e in rm)
        if x.op == 'comp':
            return any(fl.match('_ in self._keys', z) is not None and not q for z, q in fl.comp_guards(x))
    if fl.match('_ in self._keys', t) is not None and p:
        return True
    return False


def _paired(f, arg):
    """Operator and operand come from the same position of the two lists."""
    if f.op in ('item', 'elem', 'idx') and arg.op in ('item', 'elem', 'idx'):
        fi = f.a[1] if f.op == 'item' else f.a[0]
        ai = arg.a[1] if arg.op == 'item' else arg.a[0]
        if f.op == 'item':
            return fi is ai or (fi.op == 'const' and ai.op == 'const' and f.a[0] is arg.a[0])
        return True
    return False


def _closes(fl, v):
    """A test function kept from a loop iteration binds its operand then (default argument or partial)."""
    node = None
    for n in ast.walk(fl.func.node):
        if isinstance(n, (ast.Lambda, ast.FunctionDef)) and getattr(n, 'lineno', None) is not None:
            args = n.args
            names = {a.arg for a in args.args + args.kwonlyargs}
            body = n.body if isinstance(n, ast.Lambda) else n
            used = {x.id for x in ast.walk(body) if isinstance(x, ast.Name)}
            loopvars = set()
            for l in ast.walk(fl.func.node):
                if isinstance(l, ast.For) and any(x is n for x in ast.walk(l)):
                    loopvars |= {x.id for x in ast.walk(l.target) if isinstance(x, ast.Name)}
            if (used & loopvars) - names:
                return False
            node = n
    return True


def _pred(ck, mod, fs, op, st, want, desc):
    f = fs.get(op)
    where = 'controller.dictdb:filters'
    if f is None:
        ck.ok('query.operators', False, where, f'{op} must be supported')
        return
    try:
        got = Pred(ck.repo, mod, st).run(f, [Pred.A, Pred.B])
    except Raises as e:
        ck.ok('query.operators', False, where, f'{op} fails when {desc}: {e}')
        return
    except Unknown:
        return  # written in a way that says nothing about this case
    ck.ok('query.operators', got == want, where, f'{op} must be {want} when {desc}')
