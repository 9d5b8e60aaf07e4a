"""Constant evaluation of literal-building expressions, and abstract evaluation of small predicates."""

import ast
import itertools


class Unknown(Exception):
    pass


WRAP = {'List', 'Dict', 'Set', 'Tuple', 'list', 'dict', 'set', 'tuple', 'frozenset', 'sorted', 'Unicode', 'Integer', 'Float', 'Bool', 'Bytes', 'CaselessStrEnum', 'Enum', 'Any', 'Instance'}


class Static:
    """Evaluate an expression made of literals, module constants and pure builders."""

    def __init__(self, repo, module, env=None, depth=0):
        self.repo, self.module, self.env, self.depth = repo, module, dict(env or {}), depth

    def ev(self, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unknown(ast.dump(n)[:80])
        return m(n)

    def e_Constant(self, n):
        return n.value

    def _elts(self, n):
        out = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.ev(x.value))
            else:
                out.append(self.ev(x))
        return out

    def e_List(self, n):
        return self._elts(n)

    def e_Tuple(self, n):
        return tuple(self._elts(n))

    def e_Set(self, n):
        return set(self._elts(n))

    def e_Dict(self, n):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d.update(self.ev(v))
            else:
                d[self.ev(k)] = self.val(v)
        return d

    def val(self, v):
        """Values may be code: keep the syntax tree then."""
        try:
            return self.ev(v)
        except Unknown:
            return v

    def e_Name(self, n):
        if n.id in self.env:
            return self.env[n.id]
        if n.id in self.module.globals and self.depth < 8:
            return Static(self.repo, self.module, depth=self.depth + 1).ev(self.module.globals[n.id])
        t = self.module.imports.get(n.id)
        if t and self.depth < 8:
            mod, _, name = t.rpartition('.')
            m = self.repo.modules.get(mod)
            if m is not None and name in m.globals:
                return Static(self.repo, m, depth=self.depth + 1).ev(m.globals[name])
        raise Unknown(n.id)

    def e_UnaryOp(self, n):
        v = self.ev(n.operand)
        if isinstance(n.op, ast.USub):
            return -v
        if isinstance(n.op, ast.Not):
            return not v
        raise Unknown('unary')

    def e_BinOp(self, n):
        a, b = self.ev(n.left), self.ev(n.right)
        try:
            if isinstance(n.op, ast.Add):
                return a + b
            if isinstance(n.op, ast.BitOr):
                return {**a, **b} if isinstance(a, dict) else a | b
            if isinstance(n.op, ast.Sub):
                return a - b
            if isinstance(n.op, ast.Mult):
                return a * b
            if isinstance(n.op, ast.Pow):
                return a**b
            if isinstance(n.op, ast.Mod):
                return a % b
        except Exception:
            pass
        raise Unknown('binop')

    def e_JoinedStr(self, n):
        out = ''
        for p in n.values:
            if isinstance(p, ast.Constant):
                out += str(p.value)
            else:
                out += str(self.ev(p.value))
        return out

    def _gens(self, gens, fn):
        def go(i):
            if i == len(gens):
                fn()
                return
            g = gens[i]
            for x in self.ev(g.iter):
                self.bind(g.target, x)
                if all(self.ev(c) for c in g.ifs):
                    go(i + 1)

        go(0)

    def bind(self, t, v):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for a, b in zip(t.elts, v):
                self.bind(a, b)
        else:
            raise Unknown('bind')

    def e_ListComp(self, n):
        out = []
        self._gens(n.generators, lambda: out.append(self.ev(n.elt)))
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n):
        return set(self.e_ListComp(n))

    def e_DictComp(self, n):
        out = {}
        self._gens(n.generators, lambda: out.__setitem__(self.ev(n.key), self.val(n.value)))
        return out

    def e_Compare(self, n):
        l = self.ev(n.left)
        for o, c in zip(n.ops, n.comparators):
            r = self.ev(c)
            f = {ast.Eq: lambda: l == r, ast.NotEq: lambda: l != r, ast.In: lambda: l in r, ast.NotIn: lambda: l not in r, ast.Is: lambda: l is r, ast.IsNot: lambda: l is not r,
                 ast.Lt: lambda: l < r, ast.Gt: lambda: l > r, ast.LtE: lambda: l <= r, ast.GtE: lambda: l >= r}[type(o)]
            if not f():
                return False
            l = r
        return True

    def e_Subscript(self, n):
        try:
            return self.ev(n.value)[self.ev(n.slice)]
        except Unknown:
            raise
        except Exception:
            raise Unknown('subscript')

    def e_Call(self, n):
        f = n.func
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id == 'dict' and f.attr == 'fromkeys':
                return dict.fromkeys(*[self.ev(a) for a in n.args])
            o = self.ev(f.value)
            if f.attr in ('keys', 'values', 'items', 'copy', 'split', 'join', 'format', 'encode', 'lower', 'upper', 'strip', 'union', 'difference'):
                r = getattr(o, f.attr)(*[self.ev(a) for a in n.args])
                return list(r) if f.attr in ('keys', 'values', 'items') else r
            raise Unknown('call ' + f.attr)
        if isinstance(f, ast.Name) and f.id in WRAP:
            kw = {k.arg: k.value for k in n.keywords}
            if f.id == 'dict':
                d = dict(self.ev(n.args[0])) if n.args else {}
                for k, v in kw.items():
                    if k is None:
                        d.update(self.ev(v))
                    else:
                        d[k] = self.val(v)
                return d
            fn = {'list': list, 'set': set, 'tuple': tuple, 'frozenset': frozenset, 'sorted': sorted}.get(f.id)
            if fn:
                return fn(self.ev(n.args[0])) if n.args else fn()
            if n.args:
                return self.ev(n.args[0])
            if 'default_value' in kw:
                return self.ev(kw['default_value'])
            return {'List': list, 'Dict': dict, 'Set': set, 'Tuple': tuple, 'Unicode': str, 'Integer': int, 'Float': float, 'Bool': bool, 'Bytes': bytes}.get(f.id, lambda: None)()
        raise Unknown('call')

    def e_IfExp(self, n):
        return self.ev(n.body if self.ev(n.test) else n.orelse)


class Raises(Exception):
    """The predicate would raise (for example an ordering comparison with None)."""


class Pred:
    """Evaluate a two-argument predicate on abstract operands.

    state: rel in lt/eq/gt, none (first operand is None), member (first in second), second truthiness.
    Operands are opaque; only comparisons between them and against None are understood.
    """

    A, B = object(), object()
    X = object()  # something else in the second operand

    def __init__(self, repo, module, state):
        self.repo, self.module, self.s = repo, module, state

    def run(self, fn, args, depth=0):
        if depth > 4:
            raise Unknown('depth')
        if isinstance(fn, ast.Lambda):
            ps = [a.arg for a in fn.args.args]
            return self.truth(self.ev(fn.body, dict(zip(ps, args)), depth))
        if isinstance(fn, (ast.Name, ast.Attribute)):
            name = fn.attr if isinstance(fn, ast.Attribute) else fn.id
            dotted = ast.unparse(fn)
            t = self.module.imports.get(dotted.split('.')[0], dotted.split('.')[0])
            if t == 'operator' or t.startswith('operator.'):
                ops = {'lt': ast.Lt, 'le': ast.LtE, 'gt': ast.Gt, 'ge': ast.GtE, 'eq': ast.Eq, 'ne': ast.NotEq}
                if name in ops:
                    return self.cmp(ops[name](), *args)
            f = self.module.functions.get(name)
            if f is not None:
                return self.call_func(f, args, depth)
        if isinstance(fn, ast.Call) and isinstance(fn.func, ast.Name) and fn.func.id in self.module.functions:
            # a factory: returns a closure over its arguments
            f = self.module.functions[fn.func.id]
            env = dict(zip(f.params, fn.args))
            for st in f.node.body:
                if isinstance(st, ast.Return):
                    v = st.value
                    if isinstance(v, ast.Name) and v.id in f.nested:
                        return self.call_func(f.nested[v.id], args, depth, env)
                    if isinstance(v, ast.Lambda):
                        ps = [a.arg for a in v.args.args]
                        return self.truth(self.ev(v.body, {**env, **dict(zip(ps, args))}, depth))
        raise Unknown(ast.unparse(fn) if isinstance(fn, ast.AST) else repr(fn))

    def call_func(self, f, args, depth, env=None):
        env = {**(env or {}), **dict(zip(f.params, args))}
        r = self.block(f.node.body, env, depth + 1)
        if r is None:
            raise Unknown('no return')
        return self.truth(r[0])

    def block(self, body, env, depth):
        for st in body:
            if isinstance(st, ast.Return):
                return (self.ev(st.value, env, depth),)
            if isinstance(st, ast.If):
                r = self.block(st.body if self.truth(self.ev(st.test, env, depth)) else st.orelse, env, depth)
                if r is not None:
                    return r
            elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                continue
            elif isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
                env[st.targets[0].id] = self.ev(st.value, env, depth)
            elif isinstance(st, ast.Pass):
                continue
            else:
                raise Unknown('statement')
        return None

    def truth(self, v):
        if v is self.A:
            if self.s.get('none'):
                return False
            if 'atrue' in self.s:
                return self.s['atrue']
            raise Unknown('truth of operand')
        if v is self.B:
            if 'btrue' in self.s:
                return self.s['btrue']
            raise Unknown('truth of operand')
        return bool(v)

    def cmp(self, op, l, r):
        ab = {self.A, self.B}
        if self.X in (l, r) or l is self.A and r is self.A:
            if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
                return (l is r) == isinstance(op, (ast.Eq, ast.Is))
            raise Unknown('compare')
        if l in (self.A, self.B) and r in (self.A, self.B) and l is not r:
            if isinstance(op, (ast.In, ast.NotIn)):
                if l is not self.A:
                    raise Unknown('in')
                return self.s['member'] == isinstance(op, ast.In)
            none = self.s.get('none')
            if isinstance(op, (ast.Eq, ast.NotEq)):
                eq = (not none) and self.s['rel'] == 'eq'
                return eq == isinstance(op, ast.Eq)
            if none:
                raise Raises('ordering comparison with None')
            rel = self.s['rel']
            if l is self.B:
                rel = {'lt': 'gt', 'gt': 'lt', 'eq': 'eq'}[rel]
            return {ast.Lt: rel == 'lt', ast.Gt: rel == 'gt', ast.LtE: rel != 'gt', ast.GtE: rel != 'lt'}[type(op)]
        if r is None and l is self.A and isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            return bool(self.s.get('none')) == isinstance(op, (ast.Is, ast.Eq))
        if r is None and l is self.B and isinstance(op, (ast.Is, ast.IsNot)):
            return isinstance(op, ast.IsNot)
        if l not in ab and r not in ab:
            return {ast.Is: l is r, ast.IsNot: l is not r, ast.Eq: l == r, ast.NotEq: l != r}.get(type(op), None)
        raise Unknown('compare')

    def ev(self, n, env, depth):
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.Name):
            if n.id in env:
                v = env[n.id]
                return self.ev(v, {}, depth) if isinstance(v, ast.AST) and not isinstance(v, (ast.Lambda, ast.Name, ast.Attribute)) else v
            raise Unknown(n.id)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return not self.truth(self.ev(n.operand, env, depth))
        if isinstance(n, ast.BoolOp):
            v = None
            for x in n.values:
                v = self.ev(x, env, depth)
                t = self.truth(v)
                if t != isinstance(n.op, ast.And):
                    return v if v not in (self.A, self.B) else t
            return self.truth(v) if v in (self.A, self.B) else v
        if isinstance(n, ast.IfExp):
            return self.ev(n.body if self.truth(self.ev(n.test, env, depth)) else n.orelse, env, depth)
        if isinstance(n, ast.Compare):
            l = self.ev(n.left, env, depth)
            for o, c in zip(n.ops, n.comparators):
                r = self.ev(c, env, depth)
                if not self.cmp(o, l, r):
                    return False
                l = r
            return True
        if isinstance(n, ast.Call):
            f = n.func
            name = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
            args = [self.ev(a, env, depth) for a in n.args]
            if name == 'bool' and len(args) == 1:
                return self.truth(args[0])
            if name in ('fnmatch', 'fnmatchcase') and args == [self.A, self.B]:
                if self.s.get('none'):
                    raise Raises('fnmatch of None')
                return self.s['member']
            if name in ('fnmatch', 'fnmatchcase') and args == [self.B, self.A]:
                raise Raises('value and pattern are swapped')
            if name in ('any', 'all') and len(args) == 1 and isinstance(args[0], list):
                return {'any': any, 'all': all}[name](self.truth(x) for x in args[0])
            if name in ('list', 'tuple', 'set', 'frozenset') and args == [self.B] and 'member' in self.s:
                return self.B
            if isinstance(f, ast.Name) and f.id in env:
                return self.run(env[f.id], args, depth + 1)
            return self.run(f, args, depth + 1)
        if isinstance(n, (ast.GeneratorExp, ast.ListComp)) and len(n.generators) == 1 and isinstance(n.generators[0].target, ast.Name) and 'member' in self.s:
            g = n.generators[0]
            if self.ev(g.iter, env, depth) is not self.B:
                raise Unknown('iteration')
            out = []
            for x in [self.X] + ([self.A] if self.s['member'] else []):
                local = {**env, g.target.id: x}
                if all(self.truth(self.ev(c, local, depth)) for c in g.ifs):
                    out.append(self.ev(n.elt, local, depth))
            return out
        raise Unknown(type(n).__name__)


def product_states(**dims):
    ks = sorted(dims)
    for vs in itertools.product(*[dims[k] for k in ks]):
        yield dict(zip(ks, vs))
