"""Hash-consed terms, their normal forms, and the pattern language over them."""

import ast
import re


class T:
    """An interned term: op plus children (terms, strings, numbers, or tuples of those)."""

    __slots__ = ('op', 'a', 'phis', '_repr')
    pool = {}

    def __repr__(self):
        return show(self)


def _collect(x, into):
    if isinstance(x, T):
        if x.op == 'phi':
            into.add(x)
        into |= x.phis
    elif isinstance(x, tuple):
        for y in x:
            _collect(y, into)


def mk(op, *a):
    key = (op, a) if op != 'const' else (op, a, type(a[0]).__name__)
    t = T.pool.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        s = set()
        _collect(a, s)
        t.phis = frozenset([t]) if op == 'phi' else frozenset(s)
        t._repr = None
        T.pool[key] = t
    return t


def const(v):
    try:
        hash(v)
    except TypeError:
        return mk('opaque', repr(v))
    return mk('const', v)


NONE = const(None)
REORDER = {'sorted', 'reversed', 'set', 'frozenset'}
COPIERS = {'list', 'tuple', 'sorted', 'set', 'iter', 'reversed', 'dict', 'frozenset', 'copy.copy', 'collections.deque', 'deque'}


def is_str(t):
    return t.op == 'const' and isinstance(t.a[0], str)


def children(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _tkids(x)


def _tkids(x):
    for y in x:
        if isinstance(y, T):
            yield y
        elif isinstance(y, tuple):
            yield from _tkids(y)


def subterms(t):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(children(x))


def walk(t):
    """All terms that a term is made of."""
    out = []
    mentions(t, lambda x: out.append(x))
    return out


def mentions(t, pred):
    return any(pred(x) for x in subterms(t))


# -- constructors with normalisation ------------------------------------
def attr(o, name):
    if o.op == 'glob':
        return mk('glob', f"{o.a[0]}.{name}")
    return mk('attr', o, name)


def item(o, k):
    if o.op == 'tup' and k.op == 'const' and isinstance(k.a[0], int) and not any(x.op == 'star' for x in o.a[0]):
        try:
            return o.a[0][k.a[0]]
        except IndexError:
            pass
    if o.op == 'copy' and k.op != 'slice' and len(o.a) == 1:
        return item(o.a[0], k)
    if k.op == 'idx' and k.a[0] is o:
        return elem(o)
    return mk('item', o, k)


def elem(b):
    if b.op == 'copy':
        return elem(b.a[0])
    if b.op == 'call':
        f, args, kw = b.a
        if f.op == 'attr' and not args and not kw:
            if f.a[1] in ('keys', 'copy', '__iter__'):
                return elem(f.a[0])
            if f.a[1] == 'items':
                d = f.a[0]
                return mk('tup', (elem(d), item(d, elem(d))))
            if f.a[1] == 'values':
                d = f.a[0]
                return item(d, elem(d))
        if f.op == 'glob' and f.a[0] == 'enumerate' and args:
            return mk('tup', (mk('idx', args[0]), elem(args[0])))
        if f.op == 'glob' and f.a[0] == 'range' and not kw:
            n = args[0] if len(args) == 1 else args[1] if len(args) == 2 and args[0] is const(0) else None
            if n is not None and _len(n) is not None:
                return mk('idx', _len(n))
        if f.op == 'glob' and f.a[0] in ('sorted', 'reversed') and args:
            return elem(args[0])
        if f.op == 'glob' and f.a[0] == 'zip' and args:
            return mk('tup', tuple(elem(x) for x in args))
    if b.op == 'comp' and b.a[0] in ('list', 'set', 'gen'):
        return b.a[2]
    if b.op in ('tup',) and len(b.a[0]) == 1 and b.a[0][0].op != 'star':
        return b.a[0][0]
    if b.op == 'alloc' and b.a[1] in ('list', 'set') and len(b.a[2]) == 1 and b.a[2][0].op != 'star':
        return mk('elem', b)
    return mk('elem', b)


def call(f, args, kwargs):
    kw = tuple(sorted(kwargs, key=lambda p: p[0] or '~'))
    if f.op == 'attr':
        o, m = f.a
        if m in ('get', 'pop', 'setdefault') and not kw and 1 <= len(args) <= 2 and args[0].op != 'star':
            if m == 'get' and len(args) == 1:
                return mk('get', o, args[0], NONE)
            if len(args) == 2:
                return mk('get', o, args[0], args[1])
            return item(o, args[0])
        if m in ('pop', 'popleft') and not args and not kw:
            return elem(o)
        if m == 'copy' and not args and not kw:
            return mk('copy', o)
        if m == 'format' and is_str(o):
            r = _format(o.a[0], args, kw)
            if r is not None:
                return r
        if m == '__getitem__' and len(args) == 1:
            return item(o, args[0])
    if f.op == 'glob':
        g = f.a[0]
        if g in COPIERS and len(args) == 1 and not kw and args[0].op != 'star':
            x = args[0]
            how = ('sorted' if g == 'sorted' else 'reorder') if g in REORDER else None
            distinct = g in ('set', 'frozenset')
            if x.op == 'copy':
                old = x.a[1] if len(x.a) > 1 else ''
                distinct = distinct or old.endswith('set')
                how = how or old.partition(' ')[0]
                x = x.a[0]
            if how and distinct:
                how += ' set'
            return mk('copy', x, how) if how else mk('copy', x)
        if g == 'getattr' and len(args) >= 2 and is_str(args[1]):
            return attr(args[0], args[1].a[0])
        if g in ('next',) and args:
            return elem(args[0])
        if g == 'str' and len(args) == 1 and args[0].op in ('fstr',):
            return args[0]
    return mk('call', f, args, kw)


def _format(s, args, kw):
    parts = []
    auto = 0
    pos = 0
    for m in re.finditer(r'\{\{|\}\}|\{([^{}:!]*)(![rsa])?(:[^{}]*)?\}', s):
        if m.start() > pos:
            parts.append(const(s[pos : m.start()]))
        pos = m.end()
        if m.group(0) in ('{{', '}}'):
            parts.append(const(m.group(0)[0]))
            continue
        name = m.group(1)
        if name == '':
            name = str(auto)
            auto += 1
        base = re.match(r'[^.\[]*', name).group(0)
        if base.isdigit():
            if int(base) >= len(args):
                return None
            v = args[int(base)]
        else:
            d = dict(kw)
            if base not in d:
                return None
            v = d[base]
        if base != name:
            return None
        parts.append(v)
    if pos < len(s):
        parts.append(const(s[pos:]))
    return fstr(parts)


def fstr(parts):
    out = []
    for p in parts:
        if p.op == 'fstr':
            out.extend(p.a[0])
        else:
            out.append(p)
    merged = []
    for p in out:
        if merged and is_str(p) and is_str(merged[-1]):
            merged[-1] = const(merged[-1].a[0] + p.a[0])
        else:
            merged.append(p)
    if len(merged) == 1 and is_str(merged[0]):
        return merged[0]
    return mk('fstr', tuple(merged))


def binop(op, x, y):
    if op == '+' and (is_str(x) or is_str(y) or x.op == 'fstr' or y.op == 'fstr'):
        return fstr([x, y])
    if x.op == 'const' and y.op == 'const':
        u, v = x.a[0], y.a[0]
        if isinstance(u, (int, float)) and isinstance(v, (int, float)):
            try:
                return const({'+': u + v, '-': u - v, '*': u * v}[op])
            except KeyError:
                pass
    return mk('bin', op, x, y)


_NEG = {'==': '!=', '!=': '==', 'in': 'not in', 'not in': 'in', 'is': 'is not', 'is not': 'is'}


def unop(op, x):
    if op == 'not':
        if x.op == 'cmp' and x.a[0] in _NEG:
            return mk('cmp', _NEG[x.a[0]], x.a[1], x.a[2])
        if x.op == 'const' and isinstance(x.a[0], bool):
            return const(not x.a[0])
    return mk('un', op, x)


def subst_names(t, binds):
    """Replace free variables / parameters by the given terms, renormalising."""

    def go(x):
        if isinstance(x, T):
            if x.op in ('free', 'param') and x.a[0] in binds:
                return binds[x.a[0]]
            if x.op == 'attr':
                return attr(go(x.a[0]), x.a[1])
            if x.op == 'item':
                return item(go(x.a[0]), go(x.a[1]))
            if x.op == 'elem':
                return elem(go(x.a[0]))
            if x.op == 'bin':
                return binop(x.a[0], go(x.a[1]), go(x.a[2]))
            if x.op in ('const', 'glob', 'phi'):
                return x
            return mk(x.op, *[go(y) for y in x.a])
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x

    return go(t)


# -- literals ------------------------------------------------------------
def _key(t):
    return repr(t)


def literal(t, pol=True):
    """Normalise a condition to (term, polarity)."""
    if t.op == 'un' and t.a[0] == 'not':
        return literal(t.a[1], not pol)
    if t.op == 'call':
        f, args, kw = t.a
        if f.op == 'glob' and f.a[0] == 'bool' and len(args) == 1:
            return literal(args[0], pol)
        if f.op == 'glob' and f.a[0] == 'len' and len(args) == 1:
            return literal(args[0], pol)
        if f.op == 'attr' and f.a[1] == '__contains__' and len(args) == 1:
            return literal(mk('cmp', 'in', args[0], f.a[0]), pol)
    if t.op == 'cmp':
        op, x, y = t.a
        if op == 'not in':
            return literal(mk('cmp', 'in', x, y), not pol)
        if op == 'is not':
            return literal(mk('cmp', 'is', x, y), not pol)
        if op == '!=':
            return literal(mk('cmp', '==', x, y), not pol)
        if op == '>':
            return literal(mk('cmp', '<', y, x), pol)
        if op == '>=':
            return literal(mk('cmp', '<', x, y), not pol)
        if op == '<=':
            return literal(mk('cmp', '<', y, x), not pol)
        if op == '<':
            # len(x) tests
            if x.op == 'const' and x.a[0] == 0 and _len(y) is not None:
                return mk('truth', _len(y)), pol
            if y.op == 'const' and y.a[0] == 1 and _len(x) is not None:
                return mk('truth', _len(x)), not pol
            return t, pol
        if op in ('==', 'is'):
            if x.op == 'const' and x.a[0] is None:
                x, y = y, x
            if y.op == 'const' and y.a[0] is None:
                # results may be None, they are not what is absent
                if x.op == 'get' and x.a[2] is NONE and not (x.a[0].op == 'attr' and x.a[0].a[1] == 'results'):
                    return mk('cmp', 'in', x.a[1], x.a[0]), not pol
                return mk('isnone', x), pol
            if y.op == 'const' and y.a[0] == 0 and _len(x) is not None:
                return mk('truth', _len(x)), not pol
            if x.op == 'const' and x.a[0] == 0 and _len(y) is not None:
                return mk('truth', _len(y)), not pol
            for u, v in ((x, y), (y, x)):
                if op == 'is' and v.op == 'const' and isinstance(v.a[0], bool) and u.op in ('phi', 'const', 'call', 'get', 'item'):
                    if not (u.op == 'call' and u.a[0].op == 'glob' and u.a[0].a[0] in ('bool', 'isinstance', 'callable', 'hasattr')):
                        return mk('cmp', 'is', u, v), pol
                if v.op == 'const' and v.a[0] is True:
                    return literal(u, pol)
                if v.op == 'const' and v.a[0] is False:
                    return literal(u, not pol)
            if _key(y) < _key(x):
                x, y = y, x
            return mk('cmp', '==' if op == '==' else 'is', x, y), pol
        if op == 'in':
            if y.op == 'call' and y.a[0].op == 'attr' and y.a[0].a[1] == 'keys' and not y.a[1]:
                y = y.a[0].a[0]
            if y.op == 'copy':
                y = y.a[0]
            return mk('cmp', 'in', x, y), pol
        return t, pol
    if t.op in ('truth', 'isnone'):
        return t, pol
    return mk('truth', t), pol


def _len(t):
    if t.op == 'call' and t.a[0].op == 'glob' and t.a[0].a[0] == 'len' and len(t.a[1]) == 1:
        return t.a[1][0]
    return None


def literals(t, pol):
    """All literals implied by t having truth value pol."""
    if t.op == 'un' and t.a[0] == 'not':
        return literals(t.a[1], not pol)
    if t.op == 'bool':
        op, vals = t.a
        if (op == 'and') == pol:
            out = []
            for v in vals:
                out += literals(v, pol)
            return out
        return [(mk('truth', t), pol)]
    return [literal(t, pol)]


# -- printing ------------------------------------------------------------
def implied(t, pol):
    return literals(t.a[0], pol) if t.op == 'truth' else literals(t, pol)


def show(t, depth=0):
    if not isinstance(t, T):
        return str(t)
    if t._repr is not None:
        return t._repr
    if depth > 12:
        return '…'
    d = depth + 1
    op, a = t.op, t.a
    if op == 'param':
        r = a[0]
    elif op == 'glob':
        r = a[0]
    elif op == 'attr':
        r = f"{show(a[0], d)}.{a[1]}"
    elif op == 'item':
        r = f"{show(a[0], d)}[{show(a[1], d)}]"
    elif op == 'get':
        r = f"{show(a[0], d)}.get({show(a[1], d)}, {show(a[2], d)})"
    elif op == 'call':
        args = [show(x, d) for x in a[1]] + [f"{k or '**'}={show(v, d)}" for k, v in a[2]]
        r = f"{show(a[0], d)}({', '.join(args)})"
    elif op == 'const':
        r = repr(a[0])
    elif op == 'bin':
        r = f"({show(a[1], d)} {a[0]} {show(a[2], d)})"
    elif op == 'un':
        r = f"({a[0]} {show(a[1], d)})"
    elif op == 'cmp':
        r = f"({show(a[1], d)} {a[0]} {show(a[2], d)})"
    elif op == 'bool':
        r = '(' + f' {a[0]} '.join(show(x, d) for x in a[1]) + ')'
    elif op == 'tup':
        r = '(' + ', '.join(show(x, d) for x in a[0]) + ')'
    elif op == 'alloc':
        inner = ', '.join(
            show(x, d) if isinstance(x, T) else f"{show(x[0], d)}: {show(x[1], d)}" for x in a[2]
        )
        r = f"{a[1]}#{a[0]}{{{inner}}}"
    elif op == 'elem':
        r = f"elem({show(a[0], d)})"
    elif op == 'phi':
        r = f"phi{a[0]}:{a[1][2] if isinstance(a[1], tuple) else a[1]}"
    elif op == 'isnone':
        r = f"({show(a[0], d)} is None)"
    elif op == 'truth':
        r = f"bool({show(a[0], d)})"
    elif op == 'star':
        r = f"*{show(a[0], d)}"
    elif op == 'copy':
        r = f"copy({show(a[0], d)})"
    else:
        r = f"{op}<{', '.join(show(x, d) if isinstance(x, T) else str(x) for x in a)}>"
    if depth == 0:
        t._repr = r
    return r


# -- patterns ------------------------------------------------------------
class P:
    """A pattern: python expression with metavariables.

    ``_``       anything                     ``_name``  binds / must agree
    ``f(*_)``   any arguments                ``X | Y``  (top level list given to alt())
    ``has(x)``  some subterm matches x       ``any_of(a, b)`` alternatives
    ``elem(x)`` an element of x              ``new(dict|list|set)`` a fresh container
    ``strlike('re')`` string constant matching
    Names resolve to parameters of the analysed function or globals.
    """

    cache = {}

    def __init__(self, src):
        self.src = src
        self.ast = ast.parse(src.strip(), mode='eval').body

    def match(self, t, alts=None, env=None):
        """Return bindings dict or None."""
        return _m(self.ast, t, dict(env or {}), alts)

    def __repr__(self):
        return f"P({self.src!r})"


def pat(x):
    if isinstance(x, P):
        return x
    p = P.cache.get(x)
    if p is None:
        p = P.cache[x] = P(x)
    return p


def _elems_of(b):
    """Elements of a literal container display, or None."""
    if b.op == 'copy':
        return _elems_of(b.a[0])
    if b.op == 'tup':
        return b.a[0]
    if b.op == 'alloc' and b.a[1] in ('list', 'set'):
        return b.a[2]
    return None


def _expand(t, alts):
    if not isinstance(t, T):
        return [t]
    if t.op == 'elem':
        es = _elems_of(t.a[0])
        if es is None and alts is not None and t.a[0].op == 'phi':
            out = [t]
            for x in alts(t.a[0]):
                if x is not t.a[0]:
                    out += _expand(elem(x), None)
            return out
        if es:
            out = [t]
            for x in es:
                if x.op == 'star':
                    out.append(elem(x.a[0]))
                else:
                    out += _expand(x, alts)
            return out
        return [t]
    if alts is None:
        return [t]
    if t.op == 'phi':
        out = []
        for x in alts(t):
            out += _expand(x, alts) if x.op != 'phi' else [x]
        return out
    if t.op == 'item' and t.a[0].op == 'phi' and t.a[1].op == 'const':
        out = [t]
        for x in alts(t.a[0]):
            if x.op == 'tup':
                y = item(x, t.a[1])
                if y is not t:
                    out += _expand(y, alts)
        return out
    if t.op == 'bool' and t.a[0] == 'or' and len(t.a[1]) > 1:
        # `x or default` may be either
        out = [t]
        for v in t.a[1]:
            out += _expand(v, alts)
        return out
    return [t]


def _m(p, t, b, alts):
    for x in _expand(t, alts):
        r = _m1(p, x, b, alts)
        if r is not None:
            return r
    return None


def _glob_match(name, g):
    return g == name or g.endswith('.' + name)


def _m1(p, t, b, alts):
    if isinstance(p, ast.Name):
        n = p.id
        if n == '_':
            return b
        if n.startswith('_'):
            if n in b:
                return b if b[n] is t else None
            b = dict(b)
            b[n] = t
            return b
        if n in b:
            return b if b[n] is t else None
        if t.op == 'param' and t.a[0] == n:
            return b
        if t.op == 'glob' and _glob_match(n, t.a[0]):
            return b
        if t.op == 'free' and t.a[0] == n:
            return b
        return None
    if isinstance(p, ast.Constant):
        return b if t.op == 'const' and t.a[0] == p.value and type(t.a[0]) is type(p.value) else None
    if isinstance(p, ast.Attribute):
        d = _dotted(p)
        if t.op == 'glob' and d and not d.startswith('self.') and _glob_match(d, t.a[0]):
            return b
        if t.op == 'attr' and t.a[1] == p.attr:
            return _m(p.value, t.a[0], b, alts)
        if t.op == 'glob' and '.' in t.a[0] and t.a[0].rsplit('.', 1)[1] == p.attr:
            return _m(p.value, mk('glob', t.a[0].rsplit('.', 1)[0]), b, alts)
        return None
    if isinstance(p, ast.Subscript):
        if isinstance(p.slice, ast.Slice):
            if t.op == 'item' and t.a[1].op == 'slice':
                b = _m(p.value, t.a[0], b, alts)
                if b is None:
                    return None
                sl = t.a[1]
                for q, x in zip((p.slice.lower, p.slice.upper, p.slice.step), sl.a):
                    if q is None:
                        if x is not None:
                            return None
                    else:
                        if x is None:
                            return None
                        b = _m(q, x, b, alts)
                        if b is None:
                            return None
                return b
            return None
        if t.op in ('item', 'get'):
            b2 = _m(p.value, t.a[0], b, alts)
            if b2 is None:
                return None
            return _m(p.slice, t.a[1], b2, alts)
        return None
    if isinstance(p, ast.Call):
        if isinstance(p.func, ast.Name):
            fn = p.func.id
            if fn == 'any_of':
                for q in p.args:
                    r = _m(q, t, b, alts)
                    if r is not None:
                        return r
                return None
            if fn == 'has':
                for s in _deep(t, alts):
                    r = _m1(p.args[0], s, b, alts)
                    if r is not None:
                        return r
                return None
            if fn == 'hasnt':
                for s in _deep(t, alts):
                    if _m1(p.args[0], s, b, alts) is not None:
                        return None
                return b
            if fn == 'no':
                return b if _m(p.args[0], t, b, alts) is None else None
            if fn == 'elem':
                return _m(p.args[0], t.a[0], b, alts) if t.op == 'elem' else None
            if fn == 'idx':
                return _m(p.args[0], t.a[0], b, alts) if t.op == 'idx' else None
            if fn == 'copyof':
                return _m(p.args[0], t.a[0], b, alts) if t.op == 'copy' else None
            if fn == 'exc':
                if t.op != 'exc':
                    return None
                if p.args and p.args[0].value not in t.a[0]:
                    return None
                return b
            if fn == 'new':
                if t.op == 'alloc' and (not p.args or t.a[1] == p.args[0].id):
                    return b
                if t.op == 'comp' and (not p.args or t.a[0] == p.args[0].id):
                    return b
                return None
            if fn == 'strlike':
                if is_str(t) and re.search(p.args[0].value, t.a[0]):
                    return b
                if t.op == 'fstr' and re.search(p.args[0].value, ''.join(x.a[0] if is_str(x) else '{}' for x in t.a[0])):
                    return b
                return None
            if fn == 'is_const':
                return b if t.op == 'const' else None
            if fn == 'paramvar':
                return b if t.op == 'param' else None
            if fn == 'getd':  # .get/.pop with default
                if t.op != 'get':
                    return None
                for q, x in zip(p.args, t.a):
                    b = _m(q, x, b, alts)
                    if b is None:
                        return None
                return b
            if fn == 'isnone':
                return _m(p.args[0], t.a[0], b, alts) if t.op == 'isnone' else None
            if fn == 'truth':
                return _m(p.args[0], t.a[0], b, alts) if t.op == 'truth' else None
            if fn == 'loopvar':  # phi produced by a loop
                return b if t.op == 'phi' else None
            if fn == 'lam':
                return b if t.op in ('lambda', 'closure') else None
        if t.op == 'get' and isinstance(p.func, ast.Attribute) and p.func.attr in ('get', 'pop', 'setdefault'):
            b = _m(p.func.value, t.a[0], b, alts)
            if b is None:
                return None
            dflt = t.a[2] if isinstance(t.a[2], T) else NONE
            return _mseq(p.args, (t.a[1], dflt) if len(p.args) != 1 or isinstance(p.args[0], ast.Starred) else (t.a[1],) if dflt is NONE else (), b, alts)
        if t.op != 'call':
            return None
        f, args, kw = t.a
        b = _m(p.func, f, b, alts)
        if b is None:
            return None
        return _margs(p, args, kw, b, alts)
    if isinstance(p, ast.Compare) and len(p.ops) == 1:
        from .lower import CMP

        q = t
        if q.op not in ('cmp', 'isnone', 'truth'):
            return None
        op = CMP[type(p.ops[0])]
        left, right = p.left, p.comparators[0]
        if op in ('>', '>='):
            op, left, right = op.replace('>', '<'), right, left
        if q.op == 'cmp' and q.a[0] in ('>', '>='):
            q = mk('cmp', q.a[0].replace('>', '<'), q.a[2], q.a[1])
        if op == 'is' and isinstance(right, ast.Constant) and right.value is None:
            return _m(left, q.a[0], b, alts) if q.op == 'isnone' else None
        if q.op != 'cmp' or q.a[0] != op:
            return None
        for l, r in ((q.a[1], q.a[2]),) + (((q.a[2], q.a[1]),) if op in ('==', 'is') else ()):
            b2 = _m(left, l, b, alts)
            if b2 is not None:
                b2 = _m(right, r, b2, alts)
                if b2 is not None:
                    return b2
        return None
    if isinstance(p, ast.BinOp):
        from .lower import BIN

        op = BIN[type(p.op)]
        if t.op != 'bin' or t.a[0] != op:
            return None
        orders = [(t.a[1], t.a[2])]
        if op in ('+', '*', '|', '&', '^'):
            orders.append((t.a[2], t.a[1]))
        for l, r in orders:
            b2 = _m(p.left, l, b, alts)
            if b2 is not None:
                b2 = _m(p.right, r, b2, alts)
                if b2 is not None:
                    return b2
        return None
    if isinstance(p, ast.UnaryOp):
        if isinstance(p.op, ast.USub) and isinstance(p.operand, ast.Constant):
            return b if t.op == 'const' and t.a[0] == -p.operand.value else None
        if isinstance(p.op, ast.USub):
            return _m(p.operand, t.a[1], b, alts) if t.op == 'un' and t.a[0] == '-' else None
        if isinstance(p.op, ast.Not):
            return _m(p.operand, t.a[1], b, alts) if t.op == 'un' and t.a[0] == 'not' else None
        return None
    if isinstance(p, ast.BoolOp):
        op = 'and' if isinstance(p.op, ast.And) else 'or'
        if t.op != 'bool' or t.a[0] != op or len(t.a[1]) != len(p.values):
            return None
        for q, x in zip(p.values, t.a[1]):
            b = _m(q, x, b, alts)
            if b is None:
                return None
        return b
    if isinstance(p, (ast.Tuple, ast.List)):
        elts = None
        if t.op == 'tup':
            elts = t.a[0]
        elif t.op == 'alloc' and t.a[1] == 'list':
            elts = t.a[2]
        if elts is None:
            return None
        return _mseq(p.elts, elts, b, alts)
    if isinstance(p, ast.Set):
        # set pattern: display of kind set containing exactly these
        return None
    if isinstance(p, ast.Dict):
        # subset match on const keys
        if not (t.op == 'alloc' and t.a[1] == 'dict'):
            return None
        have = {k.a[0]: [v] for k, v in t.a[2] if k.op == 'const'}
        flow = getattr(alts, '__self__', None) or getattr(alts, 'flow', None)
        if flow is not None:
            for k, v in flow.dict_adds(t):
                have.setdefault(k, []).append(v)
        for k, q in zip(p.keys, p.values):
            if k.value not in have:
                return None
            for v in have[k.value]:
                b = _m(q, v, b, alts)
                if b is None:
                    return None
        return b
    if isinstance(p, ast.Starred):
        return _m(p.value, t.a[0], b, alts) if t.op == 'star' else None
    return None


def _deep(t, alts):
    """Subterms, looking through phis."""
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(children(x))
        if alts is not None and x.op == 'phi':
            stack.extend(y for y in alts(x) if y is not x)


def _mseq(ps, ts, b, alts):
    ps = list(ps)
    ts = list(ts)
    while ps:
        if isinstance(ps[0], ast.Starred) and isinstance(ps[0].value, ast.Name) and ps[0].value.id == '_':
            if len(ps) == 1:
                return b
            # anchor the remainder at the end
            rest = len(ps) - 1
            if len(ts) < rest:
                return None
            return _mseq(ps[1:], ts[len(ts) - rest :], b, alts)
        if not ts:
            return None
        b = _m(ps[0], ts[0], b, alts)
        if b is None:
            return None
        ps.pop(0)
        ts.pop(0)
    return b if not ts else None


def _margs(p, args, kw, b, alts):
    pargs = list(p.args)
    if kw and any(k == '@' for k, v in kw):
        kw = tuple(x for x in kw if x[0] != '@')
    anyrest = any(isinstance(x, ast.Starred) and isinstance(x.value, ast.Name) and x.value.id == '_' for x in pargs)
    if anyrest:
        fixed = []
        for x in pargs:
            if isinstance(x, ast.Starred):
                break
            fixed.append(x)
        if len(args) < len(fixed):
            return None
        for q, x in zip(fixed, args):
            b = _m(q, x, b, alts)
            if b is None:
                return None
    else:
        if len(args) != len(pargs):
            return None
        for q, x in zip(pargs, args):
            b = _m(q, x, b, alts)
            if b is None:
                return None
    d = dict((k, v) for k, v in kw if k)
    for k in p.keywords:
        if k.arg is None:
            continue
        if k.arg not in d:
            return None
        b = _m(k.value, d[k.arg], b, alts)
        if b is None:
            return None
    if not anyrest and len(p.keywords) != len(kw):
        return None
    return b


def _dotted(p):
    if isinstance(p, ast.Name):
        return p.id
    if isinstance(p, ast.Attribute):
        d = _dotted(p.value)
        return f"{d}.{p.attr}" if d else None
    return None
