"""The trait types of the configuration: port lists and launchers (rules of W01 and L02)."""

from ipa import terms as tm

from . import fold
from .common import argof, call

U = fold.UNKNOWN
P = 'traitlets:PortList'
LA = 'traitlets:Launcher'


def _ints(lo, hi):
    """A range text 'lo-hi', or 'lo' if hi is None, in the ways that it may be taken apart."""
    text = str(lo) if hi is None else f'{lo}-{hi}'
    return [
        ("_.partition('-')", text.partition('-')), ("_.split('-')", text.split('-')), ("_.split('-', 1)", text.split('-', 1)),
        ("_.partition('-')[0]", str(lo)), ("_.partition('-')[1]", '' if hi is None else '-'), ("_.partition('-')[2]", '' if hi is None else str(hi)),
        ("'-' in _", hi is not None),
    ]


def ports(ck):
    fl = ck.F(P + '.parse_port_range')
    for e, b in fl.find(call('_.split(*_)')):
        sep = argof(e.a[0], 0, 'sep')
        ck.ok('ports.range', sep is not None and sep.op == 'const' and sep.a[0] in (',', '-'), e, 'ranges are divided by commas')
    heads = fl.loops('_')

    def added(e):
        if e.kind != 'add':
            return None
        if e.a[3] == 'append':
            return e.a[1]
        return e.a[2] if e.a[2] is not None else e.a[1]

    for lo, hi in ((3, 5), (7, 7), (9, None)):
        leaf0 = fold.leaves(fl, _ints(lo, hi))

        def leaf(t, leaf0=leaf0):
            got = leaf0(t)
            if got is U and t.op == 'call' and t.a[0].op == 'glob' and t.a[0].a[0] == 'int' and len(t.a[1]) == 1:
                v = fold.fold(t.a[1][0], leaf0)
                return U if v is U or not str(v).isdigit() else int(v)
            return got

        def rng(t):
            for z in tm.subterms(t):
                if z.op == 'call' and z.a[0].op == 'glob' and z.a[0].a[0] == 'range':
                    xs = [fold.fold(x, leaf) for x in z.a[1]]
                    return U if U in xs else list(range(*xs))
            v = fold.fold(t, leaf)
            return U if v is U else [v]

        at = dict(a=_adds)
        inner = any(e.a[2] is None and tm.mentions(e.a[1], lambda z: z.op == 'call' and z.a[0].op == 'glob' and z.a[0].a[0] == 'range') for e, b in fl.find(_adds))
        for h in heads:
            if h not in fl.order:
                continue
            for t in fl.body_traces(h, at, world=fold.literal(leaf), values=dict(v=added), exc='none', cap=4):
                vs = t.values('v')
                if any(rng(v) is U for v in vs) or not vs and (t.end in ('raise', 'exc') or inner and hi is not None or not fl.find(_adds)):
                    continue
                vs = [v for i, v in enumerate(vs) if not (inner and v in vs[:i])]
                got = [x for v in vs for x in rng(v)]
                want = list(range(lo, (hi or lo) + 1))
                ck.ok('ports.range', got == want, fl, f'the ports {lo}{"" if hi is None else f"-{hi}"} are {want}, not {got}', path=t.path())
    fl = ck.F(P + '.validate', opaque=ck.names(P))
    heads = [h for h in fl.loops('_')]
    for port in (0, 1, 80, 65535, 65537, -1, None):
        item = [('isinstance(_, int)', port is not None), ('isinstance(_, str)', False)]
        leaf0 = fold.leaves(fl, item)

        def leaf(t, leaf0=leaf0, port=port):
            if t.op == 'elem':
                return port
            return leaf0(t)

        for h in heads:
            for t in fl.body_traces(h, {}, world=fold.literal(leaf), exc='none'):
                ck.ok('ports.valid', (t.end == 'raise') == (port is None or not 1 <= port <= 65536), fl, f'the port {port} is {"refused" if t.end == "raise" else "accepted"}', path=t.path())
    leaf = fold.leaves(fl, [('isinstance(value, str)', True)])
    at = dict(p=call('any_of(self.parse_port_range(value), _.parse_port_range(value))'), s=call('super().validate(obj, _)'))
    for t in fold.cases(fl, leaf, at, {}, exc='none'):
        if t.end == 'return':
            ck.ok('ports.valid', t.count('p') == 1, fl, 'a text is a list of ranges', path=t.path())
            ck.ok('ports.valid', t.count('s') == 1, fl, 'ports are checked', path=t.path())
    fl = ck.F(P + '.from_string_list', opaque=ck.names(P))
    ck.ok('ports.range', any(tm.mentions(e.a[0], lambda z: z.op == 'elem' and fl.match('s_list', z.a[0]) is not None) for e in fl.all_effects() if e.kind == 'call' and fl.match('_.parse_port_range(*_)', e.a[0]) is not None), fl, 'all ranges of the command line are used')


def _adds(e, alts, env):
    return {} if e.kind == 'add' else None


_adds.desc = 'a port is added'


def launchers(ck):
    fl = ck.F(LA + '.validate')
    low = {'entry_points': 'any_of(importlib.metadata.entry_points(group=self.entry_point_group), _.entry_points(group=self.entry_point_group))'}
    sup = call('super().validate(obj, _v)')
    es = [e for e, b in fl.find(call('any_of(importlib.metadata.entry_points(*_, **_), _.entry_points(*_, **_))'))]
    ck.ok('entry', bool(es), fl, 'installed launchers can be named')
    for e in es:
        ck.ok('entry', fl.match(low['entry_points'], e.a[0]) is not None, e, 'launchers are looked for in their group')
    loads = [(e, b) for e, b in fl.find(call('_x.load()'))]
    ck.ok('entry', bool(loads), fl, 'a launcher that is named is loaded')
    def given(e):
        return argof(e.a[0], 1, 'value') if e.kind == 'call' and fl.match('super().validate(*_)', e.a[0]) is not None else None

    leaf = fold.leaves(fl, [('isinstance(value, str)', True)])
    seen = set()
    for t in fold.cases(fl, leaf, dict(l=call('_.load()'), s=sup), dict(v=given), exc='none'):
        if t.end != 'return':
            continue
        ck.ok('entry', t.count('s') == 1, fl, 'the class of a launcher is checked', path=t.path())
        seen.add(bool(t.count('l')))
        for v in t.values('v'):
            if t.count('l'):
                ck.ok('entry', tm.mentions(v, lambda z: z.op == 'attr' and z.a[1] == 'load'), fl, 'a launcher that is named is used', path=t.path())
            else:
                ck.ok('entry', fl.match('value', v) is not None, fl, 'another class is used as it is', path=t.path())
    ck.ok('entry', seen == {True, False}, fl, 'a launcher can be named, or be a class of its own')
    for e, b in loads:
        key = [z for z in tm.subterms(e.a[0]) if z.op == 'item']
        for k in key:
            ck.ok('entry', fl.match('any_of(value.lower(), value.casefold())', k.a[1]) is not None, e, 'launchers are named in any case')
    g = ck.F(LA + '.load_entry_points')
    for e in g.all_effects():
        if e.kind == 'return' and e.a[0].op == 'comp' and e.a[0].a[2].op == 'tup':
            k, v = e.a[0].a[2].a[0][:2]
            ck.ok('entry', g.match('_.name.lower()', k) is not None or g.match('_.name.casefold()', k) is not None, e, 'launchers are named in any case')
            ck.ok('entry', v.op == 'elem', e, 'launchers are found by their name')
            ck.ok('entry', not e.a[0].a[4], e, 'all launchers of the group are found')
    named = dict(l=call('_.load()'), s=call('super().validate(*_)'))
    leaf = fold.leaves(fl, [('isinstance(value, str)', False)])
    for t in fold.cases(fl, leaf, named, {}, exc='none'):
        if t.end == 'return':
            ck.ok('entry', not t.count('l') and t.count('s') == 1, fl, 'a class is used as it is', path=t.path())
