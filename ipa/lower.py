"""Lowering of function ASTs to an inlined control-flow graph.

Nodes carry at most one effect; expressions are IR terms (nested tuples) whose
leaves are ``('var', frame, name)``.  Repo-internal helpers are spliced into the
caller's graph, so a rule sees the same effects whether or not a helper was
extracted.
"""

import ast

from .load import Func

BIN = {
    ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//',
    ast.Mod: '%', ast.Pow: '**', ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^',
    ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@',
}
# calls whose result is a new object each time
FRESH = {'socket', 'ZMQStream', 'Future'}
CMP = {
    ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>',
    ast.GtE: '>=', ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in',
}
UN = {ast.Not: 'not', ast.USub: '-', ast.UAdd: '+', ast.Invert: '~'}

# decorators that leave call semantics alone for our purposes
BENIGN_DECOS = {
    'staticmethod', 'classmethod', 'util.log_errors', 'log_errors', 'property',
    'abstractmethod', 'lru_cache',
}
SWALLOW_DECOS = {'util.log_errors', 'log_errors'}


class Event:
    __slots__ = ('kind', 'f', 'args', 'kwargs', 'obj', 'key', 'val', 'ast', 'func', 'aug', 'awaited', 'extra', 'comp')

    def __init__(self, kind, node, func, **kw):
        self.kind = kind
        self.ast = node
        self.func = func
        self.f = self.obj = self.key = self.val = None
        self.args = ()
        self.kwargs = ()
        self.aug = None
        self.awaited = False
        self.extra = None
        for k, v in kw.items():
            setattr(self, k, v)


class Node:
    __slots__ = ('id', 'kind', 'succ', 'pred', 'ev', 'var', 'term', 'ast', 'func', 'mayraise', 'frame', 'note')

    def __init__(self, id, kind, node=None, func=None):
        self.id = id
        self.kind = kind
        self.succ = []
        self.pred = []
        self.ev = None
        self.var = None
        self.term = None
        self.ast = node
        self.func = func
        self.mayraise = False
        self.frame = 0
        self.note = None

    @property
    def line(self):
        return getattr(self.ast, 'lineno', 0)

    @property
    def loc(self):
        return f"{self.func.module.relpath}:{self.line}" if self.func else '?'


class Frame:
    def __init__(self, id, func, self_cls, parent, lexical):
        self.id = id
        self.func = func
        self.self_cls = self_cls
        self.parent = parent  # calling frame
        self.lexical = lexical  # lexically enclosing frame, if known
        self.ret_to = None
        self.local_funcs = {}
        self.imports = {}
        self.comp_scopes = []  # list of dict name->varkey for comprehensions
        first = func.params[:1]
        self.self_name = None
        if func.cls is not None and func.parent is None and not func.is_static and first:
            self.self_name = first[0]


class Policy:
    """Which calls get spliced in."""

    def __init__(self, opaque=(), depth=6, modules=None, only=None):
        self.opaque = set(opaque)
        self.depth = depth
        self.only = only

    def inline(self, func, stack):
        if func.name in self.opaque or func.qual in self.opaque:
            return False
        if len(stack) >= self.depth:
            return False
        if any(fr.func is func for fr in stack):
            return False
        if func.name == '__init__':
            return False
        if any(d.split('(')[0] not in BENIGN_DECOS for d in func.decorators):
            return False
        if 'property' in func.decorators:
            return False
        if is_generator(func.node):
            return False
        if self.only is not None and not self.only(func):
            return False
        return True


def is_generator(fn):
    def visit(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(c, (ast.Yield, ast.YieldFrom)):
                return True
            if visit(c):
                return True
        return False

    return visit(fn)


class Graph:
    def __init__(self, repo, func, self_cls=None, policy=None, outer=None, bind=None):
        self.repo = repo
        self.func = func
        self.self_cls = self_cls or func.cls
        self.policy = policy or Policy()
        self.nodes = []
        self.frames = []
        self.inlined = []
        self.outer = outer or {}
        self.bind = bind or {}
        Lowerer(self).build()
        for n in self.nodes:
            for s, lab in n.succ:
                s.pred.append((n, lab))
        for n in self.nodes:
            repo.funcs_seen.add(n.func.qual) if n.func else None

    def new(self, kind, node=None, func=None):
        n = Node(len(self.nodes), kind, node, func)
        self.nodes.append(n)
        return n


def edge(a, b, label=None):
    if (b, label) not in a.succ:
        a.succ.append((b, label))


class Ctx:
    """Lexical control context: where jumps go (finally bodies are cloned per jump)."""

    __slots__ = ('brk', 'cont', 'finals', 'exc')

    def __init__(self, brk, cont, finals, exc):
        self.brk, self.cont, self.finals, self.exc = brk, cont, finals, exc

    def copy(self, **kw):
        c = Ctx(self.brk, self.cont, self.finals, self.exc)
        for k, v in kw.items():
            setattr(c, k, v)
        return c


_KINDS = {}


def local_kind(fn, name):
    """'list', 'set' or 'dict' when every binding of a local is a fresh one of that kind."""
    key = (fn, name)
    if key not in _KINDS:
        _KINDS[key] = _local_kind(fn, name)
    return _KINDS[key]


def _local_kind(fn, name):
    kinds = set()
    a = getattr(fn, 'args', None)
    if a is None or name in [x.arg for x in (*a.posonlyargs, *a.args, *a.kwonlyargs, a.vararg, a.kwarg) if x is not None]:
        return None
    todo = list(fn.body) if isinstance(fn.body, list) else []
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            if n.name == name or any(isinstance(x, ast.Nonlocal) and name in x.names for x in ast.walk(n)):
                return None
            continue
        if isinstance(n, (ast.Global, ast.Nonlocal)) and name in n.names:
            return None
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
            todo.append(n.value)
            continue
        vs = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AnnAssign) else []
        if any(isinstance(x, ast.Name) and x.id == name for x in vs) and n.value is not None:
            v = n.value
            k = {ast.List: 'list', ast.ListComp: 'list', ast.Set: 'set', ast.SetComp: 'set', ast.Dict: 'dict', ast.DictComp: 'dict'}.get(type(v))
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('list', 'set', 'dict', 'sorted'):
                k = 'list' if v.func.id == 'sorted' else v.func.id
            kinds.add(k)
            todo += [x for x in vs if not isinstance(x, ast.Name)] + [v]
            continue
        if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, (ast.Store, ast.Del)):
            return None
        if isinstance(n, ast.ExceptHandler) and n.name == name or isinstance(n, ast.alias) and (n.asname or n.name) == name:
            return None
        todo += ast.iter_child_nodes(n)
    return kinds.pop() if len(kinds) == 1 else None


def const_local(fn, name):
    """The display a local is bound to, once, and that nothing changes."""
    key = (fn, name, 'const')
    if key not in _KINDS:
        _KINDS[key] = _const_local(fn, name)
    return _KINDS[key]


def _const_local(fn, name):
    a = getattr(fn, 'args', None)
    if a is None or name in [x.arg for x in (*a.posonlyargs, *a.args, *a.kwonlyargs, a.vararg, a.kwarg) if x is not None]:
        return None
    val, fine = None, set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == name:
            if val is not None or n not in fn.body:
                return None
            val = n.value
            fine.add(n.targets[0])
        elif isinstance(n, (ast.For, ast.comprehension)):
            fine.add(n.iter)
            if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Attribute) and n.iter.func.attr in ('items', 'keys', 'values'):
                fine.add(n.iter.func.value)
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
            fine.add(n.value)
        elif isinstance(n, ast.Compare):
            fine.update(n.comparators)
    if not isinstance(val, (ast.Dict, ast.Tuple, ast.List)):
        return None
    if isinstance(val, (ast.Tuple, ast.List)) and not all(isinstance(x, (ast.Constant, ast.Name, ast.Attribute)) for x in val.elts):
        return None
    if any(isinstance(n, ast.Name) and n.id == name and n not in fine for n in ast.walk(fn)):
        return None
    return val


class Lowerer:
    def __init__(self, g):
        self.g = g
        self.repo = g.repo
        self.stack = []
        self.tmp = 0
        self.allocs = 0

    # -- plumbing -------------------------------------------------------
    @property
    def fr(self):
        return self.stack[-1]

    def node(self, kind, a=None):
        n = self.g.new(kind, a, self.fr.func if self.stack else self.g.func)
        n.frame = self.fr.id if self.stack else 0
        return n

    def seq(self, n, label=None):
        """Append node n after the current point."""
        for c, lab in self.cur:
            edge(c, n, lab)
        self.cur = [(n, None)]
        return n

    def raising(self, n):
        n.mayraise = True
        edge(n, self.ctx.exc, 'exc')

    def event(self, kind, a, mayraise=True, **kw):
        n = self.node('ev', a)
        n.ev = Event(kind, a, self.fr.func, **kw)
        self.seq(n)
        if mayraise:
            self.raising(n)
        return n

    def assign(self, var, term, a=None):
        n = self.node('assign', a)
        n.var = var
        n.term = term
        self.seq(n)
        return n

    def tmpvar(self):
        self.tmp += 1
        return ('var', self.fr.id, f'$t{self.tmp}')

    # -- entry ----------------------------------------------------------
    def build(self):
        g = self.g
        g.entry = g.new('entry', g.func.node, g.func)
        g.exit = g.new('exit', g.func.node, g.func)
        g.exc_exit = g.new('exc_exit', g.func.node, g.func)
        fr = Frame(0, g.func, g.self_cls, None, None)
        g.frames.append(fr)
        self.stack.append(fr)
        self.cur = [(g.entry, None)]
        self.ctx = Ctx(None, None, [], g.exc_exit)
        for p in g.func.all_params:
            t = g.bind.get(p, ('param', p))
            self.assign(('var', 0, p), t, g.func.node)
        fr.ret_to = g.exit
        body = g.func.node.body
        if isinstance(g.func.node, ast.Lambda):
            v = self.expr(body)
            n = self.event('return', body, mayraise=False, val=v)
            edge(n, g.exit)
            return
        self.block(body)
        if self.cur:
            n = self.event('return', g.func.node, mayraise=False, val=('const', 'NoneType', None))
            n.note = 'implicit'
            self.cur = []
            edge(n, g.exit)

    # -- statements -----------------------------------------------------
    def block(self, stmts):
        for st in stmts:
            if not self.cur:
                # unreachable code still gets skipped: nothing can execute it
                return
            self.stmt(st)

    def stmt(self, st):
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None:
            return
        m(st)

    def s_Expr(self, st):
        if isinstance(st.value, ast.Constant):
            return
        self.expr(st.value)

    def s_Pass(self, st):
        pass

    def s_Global(self, st):
        pass

    s_Nonlocal = s_Global

    def s_Import(self, st):
        self.fr.func.module.import_names(st, self.fr.imports)
        for a in st.names:
            nm = (a.asname or a.name).split('.')[0]
            self.bind_name(nm, ('glob', self.fr.imports.get(a.asname or nm, nm)), st)

    s_ImportFrom = s_Import

    def s_FunctionDef(self, st):
        f = None
        for g in self.repo.nested_funcs(self.fr.func):
            if g.node is st:
                f = g
        if f is None:
            f = Func(st, self.fr.func.module, cls=self.fr.func.cls, parent=self.fr.func)
        self.fr.local_funcs[st.name] = (f, self.fr)
        for d in st.decorator_list:
            self.expr(d)
        key = f"{f.qual}@{st.lineno}"
        self.g.lambdas = getattr(self.g, 'lambdas', {})
        self.g.lambdas[key] = (f, self.fr)
        names = {x.id for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
        names -= set(f.all_params) | {st.name}
        names -= {x.id for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        caps = tuple((n, self.lookup_store(n)) for n in sorted(names) if self.lookup_store(n) is not None)
        self.bind_name(st.name, ('closure', key, caps + self.early(st.args)), st)

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, st):
        self.bind_name(st.name, ('localclass', st.name), st)

    def bind_name(self, name, term, a):
        fr = self.fr
        v = self.lookup_store(name)
        if v is None:
            self.event('setglobal', a, mayraise=False, key=('const', 'str', name), val=term)
        else:
            self.assign(v, term, a)

    def lookup_store(self, name):
        fr = self.fr
        for scope in reversed(fr.comp_scopes):
            if name in scope:
                return scope[name]
        if name in fr.func.locals:
            return ('var', fr.id, name)
        lex = fr.lexical
        while lex is not None:
            if name in lex.func.locals:
                return ('var', lex.id, name)
            lex = lex.lexical
        return None

    def s_Assign(self, st):
        v = self.expr(st.value)
        if len(st.targets) > 1:
            tv = self.tmpvar()
            self.assign(tv, v, st)
            v = tv
        for t in st.targets:
            self.store(t, v, st)

    def s_AnnAssign(self, st):
        if st.value is not None:
            self.store(st.target, self.expr(st.value), st)

    def s_AugAssign(self, st):
        op = BIN[type(st.op)]
        t = st.target
        if isinstance(t, ast.Name):
            m = {('list', '+'): 'extend', ('set', '|'): 'update', ('set', '-'): 'difference_update', ('set', '&'): 'intersection_update', ('dict', '|'): 'update'}.get((local_kind(self.fr.func.node, t.id), op))
            if m is not None:
                # grows the object it is bound to
                f = ast.copy_location(ast.Attribute(ast.copy_location(ast.Name(t.id, ast.Load()), t), m, ast.Load()), t)
                self.expr(ast.copy_location(ast.Call(f, [st.value], []), st))
                return
            old = self.expr(ast.copy_location(ast.Name(t.id, ast.Load()), t))
            v = self.expr(st.value)
            self.store(t, ('bin', op, old, v), st, aug=(op, v, old))
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value)
            v = self.expr(st.value)
            old = ('attr', o, t.attr)
            self.event('setattr', st, mayraise=True, obj=o, key=t.attr, val=('bin', op, old, v), aug=(op, v, old))
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value)
            k = self.expr(t.slice)
            v = self.expr(st.value)
            old = ('item', o, k)
            self.event('setitem', st, mayraise=True, obj=o, key=k, val=('bin', op, old, v), aug=(op, v, old))

    def store(self, t, v, a, aug=None):
        if isinstance(t, ast.Name):
            if aug is not None:
                # in-place ops mutate the object when it is a container
                self.event('augname', a, mayraise=False, obj=aug[2], val=aug[1], aug=aug)
            self.bind_name(t.id, v, a)
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value)
            self.event('setattr', a, mayraise=False, obj=o, key=t.attr, val=v)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value)
            k = self.expr(t.slice)
            self.event('setitem', a, mayraise=True, obj=o, key=k, val=v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if v[0] == 'tuple' and len(v[1]) == len(t.elts) and not any(isinstance(e, ast.Starred) for e in t.elts):
                tmps = []
                for x in v[1]:
                    tv = self.tmpvar()
                    self.assign(tv, x, a)
                    tmps.append(tv)
                for e, x in zip(t.elts, tmps):
                    self.store(e, x, a)
            else:
                if any(isinstance(e, ast.Name) and mentions_var(v, ('var', self.fr.id, e.id)) for e in t.elts):
                    tv = self.tmpvar()
                    self.assign(tv, v, a)
                    v = tv
                for i, e in enumerate(t.elts):
                    if isinstance(e, ast.Starred):
                        self.store(e.value, ('subrest', v, i), a)
                    else:
                        self.store(e, ('sub', v, i), a)
        elif isinstance(t, ast.Starred):
            self.store(t.value, v, a)

    def s_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                o = self.expr(t.value)
                k = self.expr(t.slice)
                self.event('delitem', st, obj=o, key=k)
            elif isinstance(t, ast.Attribute):
                o = self.expr(t.value)
                self.event('delattr', st, obj=o, key=t.attr)

    def s_Return(self, st):
        v = self.expr(st.value) if st.value is not None else ('const', 'NoneType', None)
        self.do_return(v, st)

    def do_return(self, v, a):
        if len(self.stack) == 1:
            self.event('return', a, mayraise=False, val=v)
        else:
            self.assign(('var', self.fr.id, '$ret'), v, a)
        self.jump(self.fr.ret_to, self.ctx.finals)

    def jump(self, target, finals):
        """Run the finally bodies from innermost outwards, then go to target."""
        save = self.ctx
        for fin in reversed(finals):
            if not self.cur:
                break
            self.ctx = fin[1]
            fin[0]()
        self.ctx = save
        for c, lab in self.cur:
            edge(c, target, lab)
        self.cur = []

    def s_Raise(self, st):
        exc = self.expr(st.exc) if st.exc is not None else ('reraise',)
        cause = self.expr(st.cause) if st.cause is not None else None
        n = self.event('raise', st, mayraise=False, val=exc, extra=cause)
        edge(n, self.ctx.exc, ('raise', exc))
        self.cur = []

    def s_Assert(self, st):
        ok, bad = self.node('nop', st), self.node('nop', st)
        self.cond(st.test, ok, bad)
        self.cur = [(bad, None)]
        n = self.event('raise', st, mayraise=False, val=('call', ('glob', 'AssertionError'), (), ()))
        edge(n, self.ctx.exc, ('raise', n.ev.val))
        self.cur = [(ok, None)]

    def s_If(self, st):
        t, f, j = self.node('nop', st), self.node('nop', st), self.node('nop', st)
        self.cond(st.test, t, f)
        out = []
        self.cur = [(t, None)]
        self.block(st.body)
        out += self.cur
        self.cur = [(f, None)]
        self.block(st.orelse)
        out += self.cur
        self.cur = out
        if out:
            self.seq(j)

    def s_While(self, st):
        head = self.node('loop', st)
        self.seq(head)
        body, done, after = self.node('nop', st), self.node('nop', st), self.node('nop', st)
        body.note = ('loopbody', head)
        self.cond(st.test, body, done)
        save = self.ctx
        self.ctx = save.copy(brk=(after, len(save.finals)), cont=(head, len(save.finals)))
        self.cur = [(body, None)]
        self.block(st.body)
        for c, lab in self.cur:
            edge(c, head, lab)
        self.ctx = save
        self.cur = [(done, None)]
        self.block(st.orelse)
        for c, lab in self.cur:
            edge(c, after, lab)
        self.cur = [(after, None)]

    def _constants(self, it):
        """Elements of a constant tuple, list or dict that is iterated under a local name."""
        what = None
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in ('items', 'keys', 'values') and not it.args and not it.keywords:
            what, it = it.func.attr, it.func.value
        if isinstance(it, ast.Name):
            it = const_local(self.fr.func.node, it.id)
        if isinstance(it, ast.Dict):
            if not all(isinstance(k, ast.Constant) for k in it.keys) or not all(isinstance(v, (ast.Constant, ast.Name, ast.Attribute)) for v in it.values):
                return None
            if what == 'items':
                return [ast.copy_location(ast.Tuple([k, v], ast.Load()), k) for k, v in zip(it.keys, it.values)]
            return list(it.values) if what == 'values' else list(it.keys)
        if isinstance(it, (ast.Tuple, ast.List)) and what is None:
            return list(it.elts)
        return None

    def _unroll(self, st, elts):
        vals = []
        for e in elts:
            tv = self.tmpvar()
            self.assign(tv, self.expr(e), st)
            vals.append(tv)
        after = self.node('nop', st)
        save = self.ctx
        for tv in vals:
            nxt = self.node('nop', st)
            self.ctx = save.copy(brk=(after, len(save.finals)), cont=(nxt, len(save.finals)))
            self.store(st.target, tv, st)
            self.block(st.body)
            for c, lab in self.cur:
                edge(c, nxt, lab)
            self.cur = [(nxt, None)]
            self.ctx = save
        self.block(st.orelse)
        for c, lab in self.cur:
            edge(c, after, lab)
        self.cur = [(after, None)]

    def s_For(self, st):
        elts = self._constants(st.iter) if isinstance(st, ast.For) else None
        if elts and len(elts) <= 8 and not any(isinstance(e, ast.Starred) for e in elts):
            return self._unroll(st, elts)
        it = self.expr(st.iter)
        head = self.node('loop', st)
        head.term = it
        self.seq(head)
        if isinstance(st, ast.AsyncFor):
            head.note = 'async'
        body, after, done = self.node('nop', st), self.node('nop', st), self.node('nop', st)
        body.note = ('loopbody', head)
        edge(head, body, 'iter')
        edge(head, done, 'done')
        save = self.ctx
        self.ctx = save.copy(brk=(after, len(save.finals)), cont=(head, len(save.finals)))
        self.cur = [(body, None)]
        self.store(st.target, ('elem', it), st)
        self.block(st.body)
        for c, lab in self.cur:
            edge(c, head, lab)
        self.ctx = save
        self.cur = [(done, None)]
        self.block(st.orelse)
        for c, lab in self.cur:
            edge(c, after, lab)
        self.cur = [(after, None)]

    s_AsyncFor = s_For

    def s_Break(self, st):
        t, depth = self.ctx.brk
        self.jump(t, self.ctx.finals[depth:])

    def s_Continue(self, st):
        t, depth = self.ctx.cont
        self.jump(t, self.ctx.finals[depth:])

    def s_With(self, st):
        self._with(st, list(st.items))

    s_AsyncWith = s_With

    def _with(self, st, items):
        if not items:
            self.block(st.body)
            return
        it = items[0]
        c = self.expr(it.context_expr)
        tv = self.tmpvar()
        self.assign(tv, c, st)
        self.event('with_enter', it.context_expr, obj=tv)
        if it.optional_vars is not None:
            self.store(it.optional_vars, ('entered', tv), st)
        save = self.ctx

        def leave():
            self.event('with_exit', it.context_expr, mayraise=False, obj=tv)

        exc = self.node('nop', st)
        inner = save.copy(finals=save.finals + [(leave, save)], exc=exc)
        self.ctx = inner
        self._with(st, items[1:])
        self.ctx = save
        if self.cur:
            leave()
        norm = self.cur
        # exceptional path
        self.cur = [(exc, None)]
        leave()
        for n, lab in self.cur:
            edge(n, save.exc, 'reraise')
        # `with suppress(...)`: the exception may be swallowed
        if 'suppress' in ast.unparse(it.context_expr):
            norm = norm + self.cur
        self.cur = norm

    def s_Try(self, st):
        save = self.ctx
        join = self.node('nop', st)
        has_final = bool(st.finalbody)

        def fin():
            self.block(st.finalbody)

        outer_exc = save.exc
        finals = save.finals
        if has_final:
            fexc = self.node('nop', st)
            fexc.note = 'finally-exc'
            finals = save.finals + [(fin, save)]
            outer_exc = fexc
        disp = self.node('dispatch', st) if st.handlers else None
        # body
        self.ctx = save.copy(finals=finals, exc=disp or outer_exc)
        self.block(st.body)
        # else
        self.ctx = save.copy(finals=finals, exc=outer_exc)
        if self.cur:
            self.block(st.orelse)
        ends = list(self.cur)
        # handlers
        if disp is not None:
            catch_all = False
            disp.term = []
            for h in st.handlers:
                types = handler_types(h)
                hn = self.node('nop', h)
                hn.note = ('handler', types)
                edge(disp, hn, ('except', tuple(types)))
                if not types or 'Exception' in types or 'BaseException' in types:
                    catch_all = True
                self.cur = [(hn, None)]
                self.ctx = save.copy(finals=finals, exc=outer_exc)
                if h.name:
                    self.bind_name(h.name, ('exc', tuple(types), disp.id), h)
                self.block(h.body)
                ends += self.cur
            if not catch_all:
                edge(disp, outer_exc, 'uncaught')
        self.ctx = save
        self.cur = ends
        if has_final:
            if self.cur:
                fj = self.node('nop', st)
                self.seq(fj)
                self.block(st.finalbody)
            norm = self.cur
            self.cur = [(fexc, None)]
            self.block(st.finalbody)
            for n, lab in self.cur:
                edge(n, save.exc, 'reraise')
            self.cur = norm
        if self.cur:
            self.seq(join)

    s_TryStar = s_Try

    def s_Match(self, st):
        subj = self.expr(st.subject)
        outs = []
        for case in st.cases:
            n = self.node('branch', st)
            n.term = ('match', subj, ast.unparse(case.pattern))
            self.seq(n)
            rest = [(n, 'F')]
            self.cur = [(n, 'T')]
            for x in ast.walk(case.pattern):
                if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                    self.bind_name(x.name, ('matched', subj, x.name), st)
            self.block(case.body)
            outs += self.cur
            self.cur = rest
        self.cur = outs + self.cur

    # -- conditions -----------------------------------------------------
    def cond(self, e, t, f):
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            for x in e.values[:-1]:
                nxt = self.node('nop', x)
                if is_and:
                    self.cond(x, nxt, f)
                else:
                    self.cond(x, t, nxt)
                self.cur = [(nxt, None)]
            self.cond(e.values[-1], t, f)
            return
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            self.cond(e.operand, f, t)
            return
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            left = e.left
            parts = []
            for op, r in zip(e.ops, e.comparators):
                parts.append(ast.copy_location(ast.Compare(left, [op], [r]), e))
                left = r
            self.cond(ast.copy_location(ast.BoolOp(ast.And(), parts), e), t, f)
            return
        if isinstance(e, ast.IfExp):
            a, b = self.node('nop', e), self.node('nop', e)
            self.cond(e.test, a, b)
            self.cur = [(a, None)]
            self.cond(e.body, t, f)
            self.cur = [(b, None)]
            self.cond(e.orelse, t, f)
            return
        v = self.expr(e)
        if v[0] == 'const':
            for c, lab in self.cur:
                edge(c, t if v[2] else f, lab)
            self.cur = []
            return
        n = self.node('branch', e)
        n.term = v
        self.seq(n)
        edge(n, t, 'T')
        edge(n, f, 'F')
        self.cur = []

    # -- expressions ----------------------------------------------------
    def expr(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return ('opaque', ast.unparse(e))
        return m(e)

    def e_Constant(self, e):
        return ('const', type(e.value).__name__, e.value)

    def e_Name(self, e):
        name = e.id
        v = self.lookup_store(name)
        if v is not None:
            return v
        fr = self.fr
        f = fr
        while f is not None:
            if name in f.imports:
                return ('glob', f.imports[name])
            f = f.lexical
        if fr.lexical is None and fr.func.parent is not None:
            # free variable of a nested function analysed on its own
            p = fr.func.parent
            while p is not None:
                if name in p.locals:
                    return self.g.outer.get(name, ('free', name))
                p = p.parent
        m = fr.func.module
        if name in m.imports:
            return ('glob', m.imports[name])
        if name in m.functions or name in m.classes or name in m.globals:
            return ('glob', f"{m.name}.{name}")
        return ('glob', name)

    def e_Attribute(self, e):
        o = self.expr(e.value)
        if o[0] == 'glob':
            return ('glob', f"{o[1]}.{e.attr}")
        return ('attr', o, e.attr)

    def e_Subscript(self, e):
        o = self.expr(e.value)
        k = self.expr(e.slice)
        if not (k[0] == 'slice'):
            self.event('getitem', e, obj=o, key=k)
        return ('item', o, k)

    def e_Slice(self, e):
        return (
            'slice',
            self.expr(e.lower) if e.lower else None,
            self.expr(e.upper) if e.upper else None,
            self.expr(e.step) if e.step else None,
        )

    def e_Tuple(self, e):
        return ('tuple', tuple(self.expr(x) for x in e.elts))

    def _alloc(self, t):
        self.allocs += 1
        return ('alloc', self.allocs, t)

    def e_List(self, e):
        return self._alloc(('list', tuple(self.expr(x) for x in e.elts)))

    def e_Set(self, e):
        return self._alloc(('set', tuple(self.expr(x) for x in e.elts)))

    def e_Dict(self, e):
        if any(k is None for k in e.keys):
            return self._merged(e, [(k, v) for k, v in zip(e.keys, e.values)])
        items = []
        for k, v in zip(e.keys, e.values):
            kt = self.expr(k) if k is not None else ('starstar',)
            items.append((kt, self.expr(v)))
        return self._alloc(('dict', tuple(items)))

    def _merged(self, e, parts):
        """{**a, k: v} and dict(a, **b, k=v): an empty dict, updated in order."""
        d = self.tmpvar()
        self.assign(d, self._alloc(('dict', ())), e)
        for k, v in parts:
            if k is None:
                x = self.expr(v)
                self.event('call', e, f=('attr', d, 'update'), args=(x,), kwargs=(), awaited=False)
            else:
                kt = k if isinstance(k, tuple) else self.expr(k)
                self.event('setitem', e, mayraise=False, obj=d, key=kt, val=self.expr(v))
        return d

    def e_Starred(self, e):
        return ('star', self.expr(e.value))

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                parts.append(('fmt', self.expr(v.value), v.conversion, ast.unparse(v.format_spec) if v.format_spec else ''))
            else:
                parts.append(self.expr(v))
        return ('fstr', tuple(parts))

    def e_FormattedValue(self, e):
        return self.expr(e.value)

    def e_BinOp(self, e):
        a = self.expr(e.left)
        b = self.expr(e.right)
        return ('bin', BIN[type(e.op)], a, b)

    def e_UnaryOp(self, e):
        v = self.expr(e.operand)
        op = UN[type(e.op)]
        if op == '-' and v[0] == 'const' and isinstance(v[2], (int, float)):
            return ('const', v[1], -v[2])
        return ('un', op, v)

    def e_Compare(self, e):
        left = self.expr(e.left)
        out = []
        for op, r in zip(e.ops, e.comparators):
            rt = self.expr(r)
            out.append(('cmp', CMP[type(op)], left, rt))
            left = rt
        return out[0] if len(out) == 1 else ('bool', 'and', tuple(out))

    def _has_effect(self, e):
        return any(isinstance(x, (ast.Call, ast.Await, ast.NamedExpr, ast.Subscript, ast.Yield)) for x in ast.walk(e))

    def e_BoolOp(self, e):
        op = 'and' if isinstance(e.op, ast.And) else 'or'
        vals = []
        join = None
        for i, x in enumerate(e.values):
            if i and self._has_effect(x):
                # the right operand is evaluated conditionally
                if join is None:
                    join = self.node('nop', e)
                n = self.node('branch', e.values[i - 1])
                n.term = vals[-1]
                self.seq(n)
                go, skip = ('T', 'F') if op == 'and' else ('F', 'T')
                edge(n, join, skip)
                self.cur = [(n, go)]
            vals.append(self.expr(x))
        if join is not None:
            self.seq(join)
        return ('bool', op, tuple(vals))

    def e_IfExp(self, e):
        if self._has_effect(e.body) or self._has_effect(e.orelse) or True:
            a, b, j = self.node('nop', e), self.node('nop', e), self.node('nop', e)
            self.cond(e.test, a, b)
            tv = self.tmpvar()
            self.cur = [(a, None)]
            self.assign(tv, self.expr(e.body), e)
            out = self.cur
            self.cur = [(b, None)]
            self.assign(tv, self.expr(e.orelse), e)
            self.cur = out + self.cur
            self.seq(j)
            return tv

    def e_NamedExpr(self, e):
        v = self.expr(e.value)
        self.bind_name(e.target.id, v, e)
        return v

    def e_Lambda(self, e):
        f = Func(e, self.fr.func.module, cls=self.fr.func.cls, parent=self.fr.func)
        key = f"{f.qual}@{e.lineno}:{e.col_offset}"
        self.g.lambdas = getattr(self.g, 'lambdas', {})
        self.g.lambdas[key] = (f, self.fr)
        # free variables are kept as terms so captured values can be inspected
        free = sorted(
            {x.id for x in ast.walk(e.body) if isinstance(x, ast.Name)} - set(f.all_params)
        )
        caps = tuple((n, self.lookup_store(n)) for n in free if self.lookup_store(n) is not None)
        return ('lambda', key, caps + self.early(e.args))

    def early(self, a):
        """Defaults that are computed when a function is made: another way to keep a value."""
        pos = a.posonlyargs + a.args
        ds = list(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        return tuple((n, self.expr(d)) for n, d in ds if not isinstance(d, ast.Constant))

    def e_Await(self, e):
        self._awaiting = True
        v = self.expr(e.value) if not isinstance(e.value, ast.Call) else self.e_Call(e.value, awaited=True)
        self.event('await', e, val=v)
        return v

    def e_Yield(self, e):
        v = self.expr(e.value) if e.value is not None else ('const', 'NoneType', None)
        self.event('yield', e, val=v)
        return ('yielded', v)

    def e_YieldFrom(self, e):
        v = self.expr(e.value)
        self.event('yield', e, val=('star', v))
        return ('yielded', v)

    def _comp(self, e, kind):
        scope = {}
        self.fr.comp_scopes.append(scope)
        iters, conds = [], []
        heads = []
        after = self.node('nop', e)
        for i, gen in enumerate(e.generators):
            it = self.expr(gen.iter)
            iters.append(it)
            head = self.node('loop', e)
            head.term = it
            head.note = 'comp'
            self.seq(head)
            body = self.node('nop', e)
            body.note = ('loopbody', head)
            edge(head, body, 'iter')
            edge(head, heads[-1] if heads else after, 'done')
            heads.append(head)
            self.cur = [(body, None)]
            for x in ast.walk(gen.target):
                if isinstance(x, ast.Name):
                    self.tmp += 1
                    scope[x.id] = ('var', self.fr.id, f'{x.id}$c{self.tmp}')
            self.store(gen.target, ('elem', it), e)
            for c in gen.ifs:
                ok = self.node('nop', c)
                self.cond(c, ok, head)
                self.cur = [(ok, None)]
                conds.append(ast.unparse(c))
        if kind == 'dict':
            elt = ('tuple', (self.expr(e.key), self.expr(e.value)))
        else:
            elt = self.expr(e.elt)
        n = self.event('comp_elt', e, mayraise=False, val=elt)
        # element terms mention loop variables, so freeze them in this node
        tv = self.tmpvar()
        self.assign(tv, elt, e)
        for c, lab in self.cur:
            edge(c, heads[-1], lab)
        self.fr.comp_scopes.pop()
        self.cur = [(after, None)]
        self.allocs += 1
        n.ev.comp = (self.allocs, heads)
        return ('comp', kind, self.allocs, tv, tuple(iters), tuple(conds))

    def e_ListComp(self, e):
        return self._comp(e, 'list')

    def e_SetComp(self, e):
        return self._comp(e, 'set')

    def e_GeneratorExp(self, e):
        return self._comp(e, 'gen')

    def e_DictComp(self, e):
        return self._comp(e, 'dict')

    # -- calls ----------------------------------------------------------
    def resolve(self, f):
        """Resolve a call target AST to (Func, self_term, self_cls, lexical_frame) or None."""
        fr = self.fr
        if isinstance(f, ast.Name):
            name = f.id
            x = fr
            while x is not None:
                if name in x.local_funcs:
                    fn, lf = x.local_funcs[name]
                    return fn, None, fr.self_cls, lf
                if name in x.func.locals:
                    return None
                if name in x.imports:
                    fn = self.repo.resolve_function(x.imports[name])
                    return (fn, None, None, None) if fn else None
                x = x.lexical
            m = fr.func.module
            if fr.func.parent is not None and fr.lexical is None:
                p = fr.func.parent
                for g in self.repo.nested_funcs(p):
                    if g.name == name:
                        return g, None, fr.self_cls, None
                if name in p.locals:
                    return None
            if name in m.functions:
                return m.functions[name], None, None, None
            if name in m.imports:
                fn = self.repo.resolve_function(m.imports[name])
                return (fn, None, None, None) if fn else None
            return None
        if isinstance(f, ast.Attribute):
            v = f.value
            if isinstance(v, ast.Name):
                sn, sc, sf = self.self_of(v.id)
                if sn:
                    fn = self.repo.method(sc, f.attr) if sc else None
                    if fn is not None:
                        return fn, ('selfvar', sf), sc, None
                    return None
                if self.lookup_store(v.id) is None:
                    m = fr.func.module
                    if v.id in m.classes:
                        c = m.classes[v.id]
                        fn = self.repo.method(c, f.attr)
                        if fn is not None:
                            return fn, ('clsref', c), c, None
                    d = m.imports.get(v.id) or fr.imports.get(v.id)
                    if d:
                        if d in self.repo.modules:
                            fn = self.repo.modules[d].functions.get(f.attr)
                            return (fn, None, None, None) if fn else None
                        c = self.repo.resolve_class(d)
                        if c is not None:
                            fn = self.repo.method(c, f.attr)
                            if fn is not None:
                                return fn, ('clsref', c), c, None
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super':
                sc = fr.self_cls
                cur = fr.func.cls
                if sc is not None and cur is not None:
                    fn = self.repo.method(sc, f.attr, after=cur)
                    if fn is not None:
                        return fn, ('selfvar', fr), sc, None
        return None

    def self_of(self, name):
        """Is `name` the bound self (or cls) of this frame or a lexically enclosing one?"""
        x = self.fr
        while x is not None:
            if x.self_name == name:
                return True, x.self_cls, x
            if name in x.func.locals and x.self_name != name:
                return False, None, None
            if x.lexical is None and x.func.parent is not None:
                # nested function analysed stand-alone: the outermost method's self
                p = x.func.parent
                while p.parent is not None:
                    p = p.parent
                if p.cls is not None and p.params[:1] == [name]:
                    return True, x.self_cls or p.cls, None
            x = x.lexical
        return False, None, None

    def e_Call(self, e, awaited=False):
        # normalise dict(a=1) into a display
        if isinstance(e.func, ast.Name) and e.func.id == 'dict' and not e.args and all(k.arg for k in e.keywords):
            return self._alloc(('dict', tuple((('const', 'str', k.arg), self.expr(k.value)) for k in e.keywords)))
        if isinstance(e.func, ast.Name) and e.func.id == 'dict' and e.keywords and len(e.args) <= 1 and not any(isinstance(a, ast.Starred) for a in e.args):
            return self._merged(e, [(None, a) for a in e.args] + [(('const', 'str', k.arg) if k.arg else None, k.value) for k in e.keywords])
        if isinstance(e.func, ast.Name) and e.func.id in ('list', 'set', 'dict') and not e.args and not e.keywords:
            return self._alloc((e.func.id, ()))
        r = self.resolve(e.func)
        ft = self.expr(e.func) if not (r and r[1] is None and isinstance(e.func, ast.Name)) else self.e_Name(e.func)
        args = tuple(self.expr(a) for a in e.args)
        kwargs = tuple((k.arg, self.expr(k.value)) for k in e.keywords)
        if r is not None and r[0] is not None:
            fn, selfref, scls, lex = r
            ok = self.g.policy.inline(fn, self.stack)
            if ok and fn.is_async and not awaited:
                ok = False
            if ok:
                return self.splice(e, fn, selfref, scls, lex, args, kwargs, ft)
        if ft[0] == 'attr' and ft[2] in FRESH or ft[0] == 'glob' and ft[1].rpartition('.')[2] in FRESH:
            # every evaluation site makes an object of its own
            self.allocs += 1
            kwargs += (('@', ('const', 'int', self.allocs)),)
        n = self.event('call', e, f=ft, args=args, kwargs=kwargs, awaited=awaited)
        if r is not None and r[0] is not None:
            n.ev.extra = r[0]
        if ft[0] == 'glob' and ft[1] in ('sys.exit', 'os._exit', 'exit'):
            edge(n, self.ctx.exc, ('raise', ('call', ('glob', 'SystemExit'), (), ())))
            self.cur = []
            # keep lowering well-formed for the rest of the expression
            dead = self.node('nop', e)
            self.cur = [(dead, None)]
        return ('call', ft, args, kwargs)

    def splice(self, e, fn, selfref, scls, lex, args, kwargs, ft):
        g = self.g
        caller = self.fr
        # evaluate actuals into temporaries bound to formals
        if fn.cls is not None and fn.parent is None:
            scls = scls or fn.cls
        fr = Frame(len(g.frames), fn, scls, caller, lex)
        g.frames.append(fr)
        g.inlined.append(fn)
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        defaults = dict(zip(reversed(pos), reversed(a.defaults)))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        actual = {}
        args = list(args)
        if fr.self_name and selfref is not None:
            if selfref[0] == 'selfvar':
                sfr = selfref[1]
                st = ('var', sfr.id, sfr.self_name) if sfr is not None else self.expr(e.func.value)
                args = [st] + args
            elif fn.is_classmethod:
                args = [('glob', selfref[1].qual.replace(':', '.'))] + args
            # Class.method(obj, ...): self passed explicitly
        rest = []
        star = False
        for i, t in enumerate(args):
            if t[0] == 'star':
                star = True
                rest.append(t)
            elif not star and i < len(pos):
                actual[pos[i]] = t
            else:
                rest.append(t)
        extra = []
        dstar = None
        known = set(pos) | {x.arg for x in a.kwonlyargs}
        for k, t in kwargs:
            if k is None:
                dstar = t
            elif k in known:
                actual[k] = t
            else:
                extra.append((('const', 'str', k), t))
        # bind (values refer to caller variables, which stay live)
        for p in pos + [x.arg for x in a.kwonlyargs]:
            if p in actual:
                t = actual[p]
            elif star:
                t = ('opaque', f'*{p}')
            elif dstar is not None:
                t = ('item', dstar, ('const', 'str', p))
            elif p in defaults:
                t = self.default_term(defaults[p], fn)
            else:
                t = ('opaque', f'missing:{p}')
            self.assign(('var', fr.id, p), t, e)
        if a.vararg:
            self.assign(('var', fr.id, a.vararg.arg), ('tuple', tuple(rest)), e)
        if a.kwarg:
            self.allocs += 1
            items = tuple(extra) + (((('starstar',), dstar),) if dstar is not None else ())
            self.assign(('var', fr.id, a.kwarg.arg), ('alloc', self.allocs, ('dict', items)), e)
        enter = self.node('inline_enter', e)
        enter.note = fn
        self.seq(enter)
        out = self.node('inline_exit', e)
        out.note = fn
        fr.ret_to = out
        save = self.ctx
        exc = save.exc
        if set(d for d in fn.decorators) & SWALLOW_DECOS:
            # exceptions are logged and swallowed by the decorator
            sw = g.new('nop', e, fn)
            sw.note = 'swallowed'
            edge(sw, out)
            exc = sw
        self.ctx = Ctx(None, None, [], exc)
        self.stack.append(fr)
        self.block(fn.node.body)
        if self.cur:
            self.assign(('var', fr.id, '$ret'), ('const', 'NoneType', None), e)
            for c, lab in self.cur:
                edge(c, out, lab)
        self.stack.pop()
        self.ctx = save
        self.cur = [(out, None)]
        return ('var', fr.id, '$ret')

    def default_term(self, d, fn):
        if isinstance(d, ast.Constant):
            return ('const', type(d.value).__name__, d.value)
        if isinstance(d, (ast.Name, ast.Attribute)):
            g = self.repo.dotted(d, fn.module)
            if g:
                if '.' not in g and g in fn.module.globals:
                    g = f"{fn.module.name}.{g}"
                return ('glob', g)
        if isinstance(d, (ast.List, ast.Tuple, ast.Dict)) and not list(ast.iter_child_nodes(d))[1:]:
            return self._alloc(({'List': 'list', 'Tuple': 'tuple', 'Dict': 'dict'}[type(d).__name__], ()))
        return ('default', ast.unparse(d))


def handler_types(h):
    if h.type is None:
        return []
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return [ast.unparse(t).split('.')[-1] for t in ts]


def mentions_var(v, var):
    if v == var:
        return True
    return isinstance(v, tuple) and any(mentions_var(x, var) for x in v)
