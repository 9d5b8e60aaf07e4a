"""Values of closed terms under a case: constant folding with named leaves, and the paths of one case."""

from ipa import terms as tm
from ipa.terms import T


class _Unknown:
    def __repr__(self):
        return '?'

    def __bool__(self):
        raise TypeError


UNKNOWN = _Unknown()


class Rec(dict):
    """A value with attributes."""

    def __hash__(self):
        return id(self)

    def __eq__(self, other):
        return self is other

    def __bool__(self):
        return True


STR = ('split', 'rsplit', 'partition', 'rpartition', 'format', 'join', 'replace', 'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'startswith', 'endswith', 'encode', 'decode', 'zfill', 'rjust', 'removeprefix', 'removesuffix')
FUN = {'int': int, 'bool': bool, 'str': str, 'format': format, 'bin': bin, 'len': len, 'abs': abs, 'min': min, 'max': max, 'divmod': divmod, 'float': float, 'repr': repr, 'set': set, 'list': list, 'tuple': tuple, 'sorted': sorted, 'sum': sum, 'bytes': bytes, 'frozenset': frozenset, 'reversed': lambda x: list(reversed(x)), 'any': any, 'all': all, 'dict': dict, 'zip': lambda *xs: list(zip(*xs)), 'enumerate': lambda x: list(enumerate(x)), 'range': lambda *xs: list(range(*xs))}
BIN = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '%': lambda a, b: a % b, '//': lambda a, b: a // b, '/': lambda a, b: a / b, '&': lambda a, b: a & b, '|': lambda a, b: a | b, '^': lambda a, b: a ^ b, '<<': lambda a, b: a << b if b < 64 else UNKNOWN, '>>': lambda a, b: a >> b, '**': lambda a, b: a**b if abs(b) < 64 else UNKNOWN}
CMP = {'<': lambda a, b: a < b, '==': lambda a, b: a == b, 'is': lambda a, b: a is b or (type(a) is type(b) and isinstance(a, (int, str, bool)) and a == b), 'in': lambda a, b: a in b}
CMP |= {'is not': lambda a, b: not CMP['is'](a, b), '!=': lambda a, b: a != b, 'not in': lambda a, b: a not in b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b}


def fold(t, leaf):
    """Value of a term where leaf(term) gives the value of the unknowns of the case (UNKNOWN when it cannot be told)."""
    v = leaf(t)
    if v is not UNKNOWN:
        return v
    try:
        return _fold(t, leaf)
    except (KeyError, TypeError, ValueError, IndexError, ZeroDivisionError, AttributeError):
        return UNKNOWN


def _base(it):
    """What elements are taken from: d of d.items()."""
    return it.a[0].a[0] if it.op == 'call' and it.a[0].op == 'attr' and it.a[0].a[1] in ('items', 'keys', 'values') and not it.a[1] else it


def _seq(xs, leaf):
    out = []
    for x in xs:
        v = fold(x.a[0] if x.op == 'star' else x, leaf)
        if x.op != 'star' or v is UNKNOWN:
            out.append(v)
        else:
            out.extend(v)
    return UNKNOWN if any(x is UNKNOWN for x in out) else out


def _fold(t, leaf):
    op, a = t.op, t.a
    if op == 'const':
        return a[0]
    if op == 'tup':
        xs = _seq(a[0], leaf)
        return xs if xs is UNKNOWN else tuple(xs)
    if op == 'alloc' and a[1] in ('list', 'set', 'tuple'):
        if any(not isinstance(x, T) for x in a[2]):
            return UNKNOWN
        xs = _seq(a[2], leaf)
        return xs if xs is UNKNOWN else {'list': list, 'set': set, 'tuple': tuple}[a[1]](xs)
    if op == 'alloc' and a[1] == 'dict':
        d = {}
        for x in a[2]:
            if not isinstance(x, tuple) or x[0] is None:
                return UNKNOWN
            if x[0].op == 'starstar':
                v = fold(x[1], leaf)
                if not isinstance(v, dict):
                    return UNKNOWN
                d.update(v)
                continue
            k, v = fold(x[0], leaf), fold(x[1], leaf)
            if k is UNKNOWN or v is UNKNOWN:
                return UNKNOWN
            d[k] = v
        return d
    if op == 'copy':
        v = fold(a[0], leaf)
        return v if v is UNKNOWN else sorted(v) if 'sorted' in str(a[1:]) else v
    if op == 'bin':
        x, y = fold(a[1], leaf), fold(a[2], leaf)
        return UNKNOWN if x is UNKNOWN or y is UNKNOWN else BIN[a[0]](x, y)
    if op == 'un':
        x = fold(a[1], leaf)
        return UNKNOWN if x is UNKNOWN else {'-': lambda: -x, 'not': lambda: not x, '~': lambda: ~x, '+': lambda: +x}[a[0]]()
    if op == 'cmp':
        x, y = fold(a[1], leaf), fold(a[2], leaf)
        return UNKNOWN if x is UNKNOWN or y is UNKNOWN else CMP[a[0]](x, y)
    if op == 'attr':
        x = fold(a[0], leaf)
        return x[a[1]] if isinstance(x, Rec) and a[1] in x else UNKNOWN
    if op == 'comp' and a[4] == 0 and len(a[3]) == 1 and a[0] in ('list', 'gen', 'set'):
        it = _base(a[3][0])
        xs = fold(it, leaf)
        if not isinstance(xs, (list, tuple, dict)):
            return UNKNOWN
        el = tm.mk('elem', it)
        vs = [fold(a[2], lambda t, x=x: x if t is el else leaf(t)) for x in xs]
        return UNKNOWN if any(v is UNKNOWN for v in vs) else vs
    if op == 'comp' and a[0] == 'dict' and a[4] == 0 and len(a[3]) == 1 and isinstance(a[2], T) and a[2].op == 'tup' and len(a[2].a[0]) == 2:
        it = _base(a[3][0])
        xs = fold(it, leaf)
        if not isinstance(xs, (list, tuple, dict)):
            return UNKNOWN
        el = tm.mk('elem', it)
        kv = [[fold(y, lambda t, x=x: x if t is el else leaf(t)) for y in a[2].a[0]] for x in xs]
        return UNKNOWN if any(v is UNKNOWN for p in kv for v in p) else dict(kv)
    if op == 'truth':
        x = fold(a[0], leaf)
        return UNKNOWN if x is UNKNOWN else bool(x)
    if op == 'isnone':
        x = fold(a[0], leaf)
        return UNKNOWN if x is UNKNOWN else x is None
    if op == 'bool':
        v = UNKNOWN
        for x in a[1]:
            v = fold(x, leaf)
            if v is UNKNOWN:
                return v
            if bool(v) == (a[0] == 'or'):
                return v
        return v
    if op == 'ifexp':
        c = fold(a[0], leaf)
        return UNKNOWN if c is UNKNOWN else fold(a[1] if c else a[2], leaf)
    if op == 'fstr':
        xs = [fold(p, leaf) if isinstance(p, T) else p for p in a[0]]
        return UNKNOWN if any(x is UNKNOWN for x in xs) else ''.join(str(x) for x in xs)
    if op == 'fmt':
        x = fold(a[0], leaf)
        if x is UNKNOWN or (isinstance(a[2], T) or a[2]):
            return UNKNOWN
        return repr(x) if a[1] == 114 else x
    if op == 'item':
        if a[1].op == 'slice':
            b = [None if y is None else fold(y, leaf) for y in a[1].a]
            x = fold(a[0], leaf)
            return UNKNOWN if x is UNKNOWN or any(y is UNKNOWN for y in b) else x[slice(*b)]
        x, k = fold(a[0], leaf), fold(a[1], leaf)
        return UNKNOWN if x is UNKNOWN or k is UNKNOWN else x[k]
    if op == 'get':
        x, k = fold(a[0], leaf), fold(a[1], leaf)
        if x is UNKNOWN or k is UNKNOWN:
            return UNKNOWN
        return x[k] if k in x else fold(a[2], leaf)
    if op == 'call' and a[0].op == 'glob' and a[0].a[0] == 'map' and len(a[1]) == 2 and a[1][0].op == 'glob' and a[1][0].a[0] in FUN:
        xs = fold(a[1][1], leaf)
        return xs if xs is UNKNOWN else [FUN[a[1][0].a[0]](x) for x in xs]
    if op == 'call' and a[0].op == 'glob' and not a[2] and a[0].a[0] == 'os.path.join':
        xs = _seq(a[1], leaf)
        return xs if xs is UNKNOWN else '/'.join(xs)
    if op == 'call' and a[0].op == 'glob' and not a[2] and a[0].a[0].rsplit('.', 1)[-1] in FUN:
        xs = _seq(a[1], leaf)
        return xs if xs is UNKNOWN else FUN[a[0].a[0].rsplit('.', 1)[-1]](*xs)
    if op == 'call' and a[0].op == 'glob' and a[0].a[0] == 'isinstance' and len(a[1]) == 2:
        x = fold(a[1][0], leaf)
        ts = a[1][1].a[0] if a[1][1].op == 'tup' else (a[1][1],)
        py = [{'str': str, 'dict': dict, 'int': int, 'list': list, 'tuple': tuple, 'set': set, 'bytes': bytes, 'bool': bool, 'float': float, 'slice': slice}.get(y.a[0] if y.op == 'glob' else None) for y in ts]
        return UNKNOWN if x is UNKNOWN or any(y is None for y in py) else isinstance(x, tuple(py))
    if op == 'call' and a[0].op == 'attr' and a[0].a[1] in ('union', 'difference', 'intersection', 'symmetric_difference') and not a[2]:
        o, xs = fold(a[0].a[0], leaf), _seq(a[1], leaf)
        return UNKNOWN if not isinstance(o, (set, frozenset)) or xs is UNKNOWN else getattr(o, a[0].a[1])(*xs)
    if op == 'call' and a[0].op == 'attr' and a[0].a[1] in STR and not any(k is None or str(k).startswith('@') for k, _ in a[2]):
        o = fold(a[0].a[0], leaf)
        if o is UNKNOWN or not isinstance(o, (str, bytes)):
            return UNKNOWN
        xs, ks = _seq(a[1], leaf), {k: fold(v, leaf) for k, v in a[2]}
        return UNKNOWN if xs is UNKNOWN or any(v is UNKNOWN for v in ks.values()) else getattr(o, a[0].a[1])(*xs, **ks)
    return UNKNOWN


def leaves(fl, table, rel=False):
    """leaf function of a list of (pattern, value); a callable value gets the bindings. rel: comparisons as well."""

    def leaf(t):
        if t.op in ('const', 'phi', 'bool', 'ifexp', 'truth', 'isnone') or t.op == 'cmp' and not rel:
            return UNKNOWN
        for p, v in table:
            b = fl.match(p, t)
            if b is not None:
                return v(b, leaf) if callable(v) else v
        return UNKNOWN

    return leaf


def literal(leaf):
    def world(t):
        v = fold(t, leaf)
        return None if v is UNKNOWN else bool(v)

    return world


def cases(fl, leaf, atoms=None, values=None, **kw):
    """The traces of one case, with the values they record."""
    return fl.traces(atoms or {}, world=literal(leaf), values=values, retval=True, **kw)
