"""Shared rule helpers."""

from ipa import terms as tm
from ipa.atoms import add, argof, call, caught, clear, either, getitem, iterates, lit, raises, remove, ret, store, yields, yields_all  # noqa: F401
from ipa.checker import Ck, _where, prop, table  # noqa: F401


class Only(Ck):
    """Some rules of another property."""

    def __init__(self, ck, *rules):
        self.__dict__.update(ck.__dict__)
        self.outer, self.only = ck, rules

    def ok(self, rule, cond, *a, **kw):
        return self.outer.ok(rule, cond, *a, **kw) if rule in self.only else bool(cond)


def dict_sources(fl, term):
    """How a dict/list value is built: [(key term or None, value term or None, iterated term or None)]."""
    out = []
    todo = [x for x in (fl.alts(term) if term.op == 'phi' else [term]) if x.op != 'phi']
    for t in todo:
        if t.op == 'comp' and t.a[0] == 'dict' and t.a[2].op == 'tup':
            out.append((t.a[2].a[0][0], t.a[2].a[0][1], t.a[3]))
        elif t.op == 'comp':
            out.append((None, t.a[2], t.a[3]))
        elif t.op == 'alloc':
            for x in t.a[2]:
                if isinstance(x, tuple):
                    out.append((x[0], x[1], None))
                else:
                    out.append((None, x, None))
        elif t.op == 'call' and t.a[0].op == 'glob' and t.a[0].a[0] == 'dict.fromkeys':
            v = t.a[1][1] if len(t.a[1]) > 1 else tm.NONE
            out.append((tm.elem(t.a[1][0]), v, (t.a[1][0],)))
    ids = {t.a[0] for t in todo if t.op == 'alloc'}
    for e in fl.all_effects():
        if e.kind == 'add' and (e.a[0] in todo or e.a[0] is term or (e.a[0].op == 'alloc' and e.a[0].a[0] in ids)):
            out.append((e.a[1], e.a[2], None))
    return out


def covers(fl, head, pattern, ordered=False):
    """Does the loop visit every element of a container matching pattern (in order)?"""
    if head is None or head.term is None:
        return False
    return iter_covers(fl, fl.val(head, head.term), pattern, ordered)


def iter_covers(fl, t, pattern, ordered=False):
    if fl.match(pattern, t) is not None:
        return True
    if t.op == 'copy':
        return not (ordered and len(t.a) > 1) and iter_covers(fl, t.a[0], pattern, ordered)
    if t.op == 'phi':
        return all(iter_covers(fl, x, pattern, ordered) for x in fl.alts(t) if x.op != 'phi')
    if t.op == 'call':
        f, args, kw = t.a
        if f.op == 'attr' and f.a[1] in ('items', 'values', 'keys', 'copy') and not args:
            return iter_covers(fl, f.a[0], pattern, ordered)
        if f.op == 'glob' and f.a[0].rpartition('.')[2] in ('items', 'values', 'keys', 'copy') and not args:
            return iter_covers(fl, tm.mk('glob', f.a[0].rpartition('.')[0]), pattern, ordered)
        if f.op == 'glob' and f.a[0] == 'enumerate' and args:
            return iter_covers(fl, args[0], pattern, ordered)
        if f.op == 'glob' and f.a[0] in ('sorted', 'reversed') and args:
            return not ordered and iter_covers(fl, args[0], pattern, ordered)
        if f.op == 'glob' and f.a[0] == 'zip':
            return any(iter_covers(fl, a, pattern, ordered) for a in args)
        if f.op == 'glob' and f.a[0] == 'range':
            n = tm.elem(t)
            return n.op == 'idx' and iter_covers(fl, n.a[0], pattern, ordered)
        if f.op == 'glob' and f.a[0] in ('tqdm', 'progress', 'iter') and args:
            return iter_covers(fl, args[0], pattern, ordered)
    return False


def enclosing(fl, node):
    """Loop heads around a node, innermost first."""
    out = []
    for h in fl.order:
        if h.kind != 'loop':
            continue
        b = fl.body_of(h)
        if b is None:
            continue
        body = fl._reach(b, {h.id}) | {b.id}
        if node.id in body and h.id in fl._reach(node) and h is not node:
            out.append((len(body), h.id, h))
    return [h for _, _, h in sorted(out, key=lambda x: x[:2])]


def loop_heads(fl, pattern):
    """Loop nodes whose iterated term matches."""
    out = []
    for n in fl.order:
        if n.kind == 'loop' and n.term is not None and fl.match(pattern, fl.val(n, n.term)) is not None:
            out.append(n)
    return out


def each(ck, rule, fl, eff, msg, over=None, allow=()):
    """The effect happens exactly once per iteration of its loop on every path (early exits are violations)."""
    hits = fl.find(eff)
    if not hits:
        ck.ok(rule, False, fl, f'{msg} (no construct matches `{eff.desc}`)')
        return
    for e, b in hits:
        h = fl.loop_of(e.node)
        if not ck.ok(rule, h is not None, e, msg + ' (not inside a loop)'):
            continue
        if over is not None:
            it = fl.val(h, h.term) if h.term is not None else None
            ck.ok(rule, covers(fl, h, over), e, f'{msg}: must cover every element of {over}, iterates {it}')
        atoms = dict(hit=eff)
        atoms.update({f'allow{i}': a for i, a in enumerate(allow)})
        for t in fl.body_traces(h, atoms):
            if t.end == 'stop':
                skip = any(x.startswith('allow') for x in t.atoms)
                if not ck.ok(rule, t.count('hit') == 1 or (skip and t.count('hit') == 0), e, msg, path=t.path()):
                    break
            elif t.end == 'return':
                ck.ok(rule, False, e, msg + ' (the loop is left early)', path=t.path())


def no_shared_state(ck, rule, spec):
    """Mutable class-level containers must not be mutated through instances."""
    import ast

    c = ck.repo.cls(spec)
    for k in ck.repo.mro(c):
        for name, v in k.attrs.items():
            bad = isinstance(v, (ast.Dict, ast.List, ast.Set, ast.DictComp, ast.ListComp, ast.SetComp)) or (
                isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('dict', 'list', 'set', 'defaultdict', 'deque', 'OrderedDict'))
            if not bad:
                continue
            rebound = mutated = None
            for f in k.methods.values():
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.value, ast.Name) and n.value.id == 'self':
                        if isinstance(n.ctx, ast.Store):
                            if f.name == '__init__':
                                rebound = n
                    if isinstance(n, (ast.Call,)) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                        'append', 'add', 'update', 'pop', 'remove', 'clear', 'extend', 'setdefault', 'insert', 'discard', 'popitem') and _selfattr(n.func.value, name):
                        mutated = (f, n)
                    if isinstance(n, (ast.Subscript,)) and isinstance(n.ctx, (ast.Store, ast.Del)) and _selfattr(n.value, name):
                        mutated = (f, n)
            ck.ok(rule, rebound is not None or mutated is None, mutated[0] if mutated else k,
                  f'{k.name}.{name} is one object shared by all instances but is modified through instances')
    ck.ok(rule, True, c, 'instance state is not shared')


def _selfattr(n, name):
    import ast

    return isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.value, ast.Name) and n.value.id == 'self'


def broad_handlers(fl, node):
    """Entry nodes of the handlers that an arbitrary Exception raised at node would reach."""
    out = []
    seen = set()
    stack = [s for s, lab in node.succ if lab == 'exc']
    if node.kind == 'ev' and node.ev.kind == 'raise' and not stack:
        stack = [s for s, lab in node.succ]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.kind == 'dispatch':
            for s, lab in x.succ:
                if isinstance(lab, tuple) and lab[0] == 'except':
                    if not lab[1] or set(lab[1]) & {'Exception', 'BaseException'}:
                        out.append(s)
                        break
                elif lab == 'uncaught' or s.kind in ('dispatch',):
                    stack.append(s)
            continue
        if x.kind == 'exc_exit':
            continue
        for s, lab in x.succ:
            if lab != 'exc':
                stack.append(s)
    return out


def contained(ck, rule, fl, atom, msg, effect=None, n=1, missing_ok=False):
    """Whatever the matched operations raise is caught (any Exception); the handler performs effect exactly n times."""
    hits = fl.find(atom)
    if not hits:
        if not missing_ok:
            ck.ok(rule, False, fl, f'{msg} (no construct matches `{atom.desc}`)')
        return
    done = set()
    for e, b in hits:
        if e.node.id in done:
            continue
        done.add(e.node.id)
        hs = broad_handlers(fl, e.node)
        if not ck.ok(rule, bool(hs), e, msg + ' (no handler for arbitrary errors around it)') or effect is None:
            continue
        for h in hs:
            ts = [t for t in fl.traces(dict(hit=effect), start=h) if t.end == 'return']
            ck.paths += len(ts)
            bad = [t for t in ts if t.count('hit') != n]
            ck.ok(rule, bool(ts) and not bad, e, msg, path=bad[0].path() if bad else None)


def is_eff(eff):
    def f(e, a, b):
        return {} if e is eff else None

    f.desc = repr(eff)
    return f


def awaited(p='_'):
    from ipa.terms import pat

    def f(e, a, b):
        return pat(p).match(e.a[0], a, b or {}) if e.kind == 'await' else None

    f.desc = f'await {p}'
    return f


def keyed(fl, term):
    """Constant-keyed entries of a dict value: {key: [value terms]}."""
    out = {}
    for k, v, it in dict_sources(fl, term):
        if k is not None and k.op == 'const':
            out.setdefault(k.a[0], []).append(v)
    return out


def calc(t, leaf):
    """Value of a closed arithmetic/formatting expression under leaf(term) -> value; None when it cannot be folded."""
    v = leaf(t)
    if v is not None:
        return v
    try:
        if t.op == 'const':
            return t.a[0]
        if t.op == 'bin':
            a, b = calc(t.a[1], leaf), calc(t.a[2], leaf)
            if a is None or b is None:
                return None
            return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '%': lambda: a % b, '//': lambda: a // b, '**': lambda: a**b if abs(b) < 64 else None,
                    '<<': lambda: a << b if b < 64 else None, '>>': lambda: a >> b, '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b}[t.a[0]]()
        if t.op == 'un':
            a = calc(t.a[1], leaf)
            return None if a is None else {'-': lambda: -a, 'not': lambda: not a, '~': lambda: ~a, '+': lambda: +a}[t.a[0]]()
        if t.op == 'cmp':
            a, b = calc(t.a[1], leaf), calc(t.a[2], leaf)
            if a is None or b is None:
                return None
            return {'<': lambda: a < b, '==': lambda: a == b, 'is': lambda: a is b, 'in': lambda: a in b}[t.a[0]]()
        if t.op == 'truth':
            a = calc(t.a[0], leaf)
            return None if a is None else bool(a)
        if t.op == 'fstr':
            parts = [calc(p, leaf) if isinstance(p, type(t)) else p for p in t.a[0]]
            return None if any(p is None for p in parts) else ''.join(str(p) for p in parts)
        if t.op == 'fmt':
            a = calc(t.a[0], leaf)
            return None if a is None or t.a[2] or t.a[1] not in (-1, None) else a
        if t.op == 'item':
            a, k = calc(t.a[0], leaf), calc(t.a[1], leaf)
            return None if a is None or k is None else a[k]
        if t.op == 'call' and t.a[0].op == 'glob' and not t.a[2]:
            f = {'int': int, 'bool': bool, 'str': str, 'format': format, 'bin': bin, 'len': len, 'abs': abs, 'min': min, 'max': max, 'divmod': divmod}.get(t.a[0].a[0])
            if f is not None:
                xs = [calc(x, leaf) for x in t.a[1]]
                return None if any(x is None for x in xs) else f(*xs)
        if t.op == 'call' and t.a[0].op == 'attr' and not t.a[2] and t.a[0].a[1] in ('zfill', 'rjust', 'strip', 'lstrip'):
            o = calc(t.a[0].a[0], leaf)
            xs = [calc(x, leaf) for x in t.a[1]]
            return None if o is None or any(x is None for x in xs) else getattr(o, t.a[0].a[1])(*xs)
    except (KeyError, TypeError, ValueError, IndexError, ZeroDivisionError):
        return None
    return None
