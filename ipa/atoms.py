"""Atom constructors: predicates over canonical effects, literals and edges."""

from .terms import T, is_str, pat


def _mk(fn, desc, **kw):
    def atom(e, alts, env):
        return fn(e, alts, env or {})

    atom.desc = desc
    for k, v in kw.items():
        setattr(atom, k, v)
    return atom


def _seq(pairs, alts, env):
    b = env
    for p, t in pairs:
        if p is None:
            continue
        if t is None:
            return None
        b = pat(p).match(t, alts, b)
        if b is None:
            return None
    return b


def add(c, k='_', v=None):
    return _mk(lambda e, a, b: _seq([(c, e.a[0]), (k, e.a[1]), (v, e.a[2])], a, b) if e.kind == 'add' else None, f"add({c},{k})")


def remove(c, k='_'):
    return _mk(lambda e, a, b: _seq([(c, e.a[0]), (k, e.a[1])], a, b) if e.kind == 'remove' else None, f"remove({c},{k})")


def clear(c):
    return _mk(lambda e, a, b: _seq([(c, e.a[0])], a, b) if e.kind == 'clear' else None, f"clear({c})")


def store(path, v='_'):
    """Assignment to an attribute path such as 'self.x' or '_.status'."""
    o, _, name = path.rpartition('.')
    return _mk(
        lambda e, a, b: _seq([(o, e.a[0]), (v, e.a[2])], a, b) if e.kind == 'store' and e.a[1] == name else None,
        f"{path} = {v}",
    )


def call(p, **kw):
    return _mk(lambda e, a, b: _seq([(p, e.a[0])], a, b) if e.kind == 'call' else None, f"call {p}", **kw)


def call_to(qual_suffix, **kw):
    """Call (inlined or not) resolved to a repo function whose qual ends with the suffix."""

    def fn(e, a, b):
        if e.kind == 'call' and e.node.ev.extra is not None and e.node.ev.extra.qual.endswith(qual_suffix):
            return b
        return None

    return _mk(fn, f"call {qual_suffix}", **kw)


def ret(p='_'):
    return _mk(lambda e, a, b: _seq([(p, e.a[0])], a, b) if e.kind == 'return' else None, f"return {p}")


def raises(p='_'):
    return _mk(lambda e, a, b: _seq([(p, e.a[0])], a, b) if e.kind == 'raise' else None, f"raise {p}")


def yields(p='_'):
    return _mk(lambda e, a, b: _seq([(p, e.a[0])], a, b) if e.kind == 'yield' else None, f"yield {p}")


def yields_all(p='_'):
    """All that is in p is yielded, at once or in a loop."""
    return _mk(lambda e, a, b: _seq([(p, e.a[0].a[0])], a, b) if e.kind == 'yield' and e.a[0].op in ('star', 'elem') else None, f"yield from {p}")


def getitem(c, k='_'):
    return _mk(lambda e, a, b: _seq([(c, e.a[0]), (k, e.a[1])], a, b) if e.kind == 'getitem' else None, f"{c}[{k}]")


def lit(p, pol=True):
    """A branch literal: pattern over normalised conditions.

    'x in c', 'x == y', 'x < y', 'x is None', or any expression for its truthiness.
    """
    import ast

    q = pat(p)
    node = q.ast
    from .terms import P

    neg = False
    src = p
    while isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        neg = not neg
        node = node.operand
        src = ast.unparse(node)
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        flip = {ast.NotIn: ast.In(), ast.NotEq: ast.Eq(), ast.IsNot: ast.Is()}
        o = node.ops[0]
        if type(o) in flip:
            neg = not neg
            node = ast.Compare(node.left, [flip[type(o)]], node.comparators)
        elif isinstance(o, ast.LtE):
            neg = not neg
            node = ast.Compare(node.comparators[0], [ast.Lt()], [node.left])
        elif isinstance(o, ast.GtE):
            neg = not neg
            node = ast.Compare(node.left, [ast.Lt()], node.comparators)
        elif isinstance(o, ast.Gt):
            node = ast.Compare(node.comparators[0], [ast.Lt()], [node.left])
        inner = ast.unparse(ast.fix_missing_locations(node))
    elif isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ('truth', 'isnone'):
        inner = src
    else:
        inner = f"truth({src})"
    want = pol != neg
    pp = P(inner)

    def fn(e, a, b):
        if e.kind != 'lit' or (e.a[1] != want):
            return None
        return pp.match(e.a[0], a, b)

    return _mk(fn, f"{'' if want else 'not '}{inner}", lit=True)


def iterates(p, which='iter'):
    def fn(e, a, b):
        if e.kind != which:
            return None
        t = e.a[0]
        if t.op == 'copy':
            t = t.a[0]
        return pat(p).match(t, a, b)

    return _mk(fn, f"{which} {p}", edge=True)


def caught(*types):
    def fn(e, a, b):
        if e.kind == 'caught' and (not types or set(types) & set(e.a[0])):
            return b
        return None

    return _mk(fn, f"except {types}", edge=True)


def either(*atoms):
    def fn(e, a, b):
        for x in atoms:
            r = x(e, a, b)
            if r is not None:
                return r
        return None

    return _mk(
        fn, ' | '.join(x.desc for x in atoms), lit=all(getattr(x, 'lit', False) for x in atoms),
        edge=all(getattr(x, 'edge', False) for x in atoms),
    )


def calls_arg(pfn, idx=None, name=None, p='_'):
    """Call to pfn where argument (positional idx or keyword name) matches p."""

    def fn(e, a, b):
        if e.kind != 'call':
            return None
        f, args, kw = e.a[0].a
        b = pat(pfn).match(f, a, b)
        if b is None:
            return None
        t = argof(e.a[0], idx, name)
        if t is None:
            return None
        return pat(p).match(t, a, b)

    return _mk(fn, f"{pfn}({name or idx}={p})")


def argof(t, idx=None, name=None):
    f, args, kw = t.a
    for k, v in kw:
        if k == name and name:
            return v
    if idx is not None and idx < len(args) and not any(x.op == 'star' for x in args[: idx + 1]):
        return args[idx]
    return None
