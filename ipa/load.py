"""Source loading and name resolution: modules, classes (with MRO), functions."""

import ast
import os


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (an anchor vanished, a file does not parse)."""


class Func:
    def __init__(self, node, module, cls=None, parent=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.parent = parent
        self.nested = {}
        self.name = getattr(node, 'name', '<lambda>')
        if parent is not None:
            self.qual = f"{parent.qual}.<locals>.{self.name}"
        elif cls is not None:
            self.qual = f"{cls.qual}.{self.name}"
        else:
            self.qual = f"{module.name}:{self.name}"
        self._locals = None

    @property
    def is_async(self):
        return isinstance(self.node, ast.AsyncFunctionDef)

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    @property
    def all_params(self):
        a = self.node.args
        out = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            out.append(a.vararg.arg)
        if a.kwarg:
            out.append(a.kwarg.arg)
        return out

    @property
    def decorators(self):
        return [ast.unparse(d) for d in getattr(self.node, 'decorator_list', [])]

    @property
    def is_static(self):
        return 'staticmethod' in self.decorators

    @property
    def is_classmethod(self):
        return 'classmethod' in self.decorators

    @property
    def locals(self):
        if self._locals is None:
            self._locals = _scan_locals(self.node)
        return self._locals

    def loc(self, node=None):
        line = getattr(node or self.node, 'lineno', 0)
        return f"{self.module.relpath}:{line}"

    def __repr__(self):
        return f"<Func {self.qual}>"


def _scan_locals(fn):
    names, outer = set(), set()

    def visit(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            if not top:
                names.add(n.name)
                return
        if isinstance(n, ast.Lambda) and not top:
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # comprehension targets get their own names; walrus leaks but is rare
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    names.add(x.target.id)
            return
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            outer.update(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            visit(c)

    visit(fn, top=True)
    args = fn.args
    for x in args.posonlyargs + args.args + args.kwonlyargs:
        names.add(x.arg)
    if args.vararg:
        names.add(args.vararg.arg)
    if args.kwarg:
        names.add(args.kwarg.arg)
    return names - outer


class Class:
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.qual = f"{module.name}:{node.name}"
        self.methods = {}
        self.attrs = {}
        self.bases = []
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                # a property has one name for up to three functions
                kind = [d.attr for d in st.decorator_list if isinstance(d, ast.Attribute) and d.attr in ('setter', 'deleter')]
                self.methods['.'.join([st.name, *kind])] = Func(st, module, cls=self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            self.attrs[x.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.attrs[st.target.id] = st.value

    def __repr__(self):
        return f"<Class {self.qual}>"


class Module:
    def __init__(self, name, path, relpath, root_pkg):
        self.name = name
        self.path = path
        self.relpath = relpath
        with open(path, encoding='utf8') as f:
            self.src = f.read()
        try:
            self.tree = ast.parse(self.src)
        except SyntaxError as e:
            raise AnalysisBroken(f"{relpath} does not parse: {e}")
        self.is_pkg = path.endswith('__init__.py')
        self.imports = {}
        self.functions = {}
        self.classes = {}
        self.globals = {}
        self._top(self.tree.body)

    def _abs(self, level, mod):
        if not level:
            return mod or ''
        parts = self.name.split('.')
        if not self.is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[: -(level - 1)]
        return '.'.join(parts + ([mod] if mod else []))

    def import_names(self, st, into):
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    into[a.asname] = a.name
                else:
                    into[a.name.split('.')[0]] = a.name.split('.')[0]
        else:
            base = self._abs(st.level, st.module)
            for a in st.names:
                into[a.asname or a.name] = f"{base}.{a.name}"

    def _top(self, body):
        for st in body:
            if isinstance(st, (ast.Import, ast.ImportFrom)):
                self.import_names(st, self.imports)
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[st.name] = Func(st, self)
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = Class(st, self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            self.globals[x.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.globals[st.target.id] = st.value
            elif isinstance(st, (ast.If, ast.Try, ast.With)):
                self._top(st.body)
                self._top(getattr(st, 'orelse', []))
                for h in getattr(st, 'handlers', []):
                    self._top(h.body)
                self._top(getattr(st, 'finalbody', []))


class Repo:
    def __init__(self, root='/repo', pkg='ipyparallel'):
        self.root = root
        self.pkg = pkg
        self.modules = {}
        self.funcs_seen = set()
        base = os.path.join(root, pkg)
        if not os.path.isdir(base):
            raise AnalysisBroken(f"no package at {base}")
        for d, dirs, files in os.walk(base):
            dirs[:] = [x for x in dirs if x not in ('tests', '__pycache__', 'labextension', 'nbextension_static')]
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)
                name = rel[:-3].replace(os.sep, '.')
                if name.endswith('.__init__'):
                    name = name[: -len('.__init__')]
                self.modules[name] = Module(name, p, rel, pkg)

    # -- lookup ---------------------------------------------------------
    def module(self, name):
        full = name if name.startswith(self.pkg) else f"{self.pkg}.{name}"
        m = self.modules.get(full)
        if m is None:
            raise AnalysisBroken(f"module {full} not found")
        return m

    def cls(self, spec):
        mod, _, name = spec.partition(':')
        m = self.module(mod)
        c = m.classes.get(name)
        if c is None:
            # follow re-exports: the class may have moved to a sibling module
            tgt = m.imports.get(name)
            if tgt:
                c = self.resolve_class(tgt)
        if c is None:
            raise AnalysisBroken(f"class {spec} not found")
        return c

    def func(self, spec):
        """'module:func' or 'module:Class.method' (method looked up through the MRO)."""
        mod, _, name = spec.partition(':')
        if '.' in name:
            cname, mname = name.split('.', 1)
            c = self.cls(f"{mod}:{cname}")
            f = self.method(c, mname)
            if f is None:
                raise AnalysisBroken(f"function {spec} not found")
            return f
        m = self.module(mod)
        f = m.functions.get(name)
        if f is None:
            tgt = m.imports.get(name)
            if tgt:
                f = self.resolve_function(tgt)
        if f is None:
            raise AnalysisBroken(f"function {spec} not found")
        return f

    def maybe_func(self, spec):
        try:
            return self.func(spec)
        except AnalysisBroken:
            return None

    def resolve_class(self, dotted, _depth=0):
        if dotted is None or _depth > 6:
            return None
        mod, _, name = dotted.rpartition('.')
        m = self.modules.get(mod)
        if m is None:
            return None
        if name in m.classes:
            return m.classes[name]
        if name in m.imports:
            return self.resolve_class(m.imports[name], _depth + 1)
        return None

    def resolve_function(self, dotted, _depth=0):
        if dotted is None or _depth > 6:
            return None
        mod, _, name = dotted.rpartition('.')
        m = self.modules.get(mod)
        if m is None:
            # maybe Class.method
            c = self.resolve_class(mod)
            if c is not None:
                return self.method(c, name)
            return None
        if name in m.functions:
            return m.functions[name]
        if name in m.imports:
            return self.resolve_function(m.imports[name], _depth + 1)
        return None

    def dotted(self, expr, module):
        """Dotted global name of an expression like zmq.Context or util.bind."""
        if isinstance(expr, ast.Name):
            if expr.id in module.imports:
                return module.imports[expr.id]
            if expr.id in module.classes or expr.id in module.functions:
                return f"{module.name}.{expr.id}"
            return expr.id
        if isinstance(expr, ast.Attribute):
            b = self.dotted(expr.value, module)
            return f"{b}.{expr.attr}" if b else None
        return None

    def bases(self, c):
        out = []
        for b in c.node.bases:
            r = self.resolve_class(self.dotted(b, c.module))
            if r is not None:
                out.append(r)
        return out

    def base_names(self, c):
        """All (transitive) base names, including external dotted names."""
        out = []
        for k in self.mro(c):
            for b in k.node.bases:
                out.append(self.dotted(b, k.module) or ast.unparse(b))
        return out

    def mro(self, c):
        # C3 linearisation, falling back to DFS order
        def merge(seqs):
            res = []
            seqs = [list(s) for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                res.append(h)
                seqs = [[x for x in t if x is not h] for t in seqs]
                seqs = [t for t in seqs if t]
            return res

        bs = self.bases(c)
        return merge([[c]] + [self.mro(b) for b in bs] + [bs])

    def method(self, c, name, after=None):
        mro = self.mro(c)
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1 :]
        for k in mro:
            if name in k.methods:
                return k.methods[name]
        return None

    def class_attr(self, c, name):
        for k in self.mro(c):
            if name in k.attrs:
                return k, k.attrs[name]
        return None, None

    def subclasses(self, c):
        out = []
        for m in self.modules.values():
            for k in m.classes.values():
                if k is not c and c in self.mro(k):
                    out.append(k)
        return out

    def all_classes(self):
        for m in self.modules.values():
            yield from m.classes.values()

    def all_funcs(self):
        """Every function in the tree, nested ones included."""
        for m in self.modules.values():
            for f in m.functions.values():
                yield f
                yield from self.nested_funcs(f)
            for c in m.classes.values():
                for f in c.methods.values():
                    yield f
                    yield from self.nested_funcs(f)

    def nested_funcs(self, f):
        for st in ast.walk(f.node):
            if st is f.node:
                continue
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                g = f.nested.get(id(st))
                if g is None:
                    g = f.nested[id(st)] = Func(st, f.module, cls=f.cls, parent=f)
                yield g

    def nested(self, f, name):
        for g in self.nested_funcs(f):
            if g.name == name:
                return g
        raise AnalysisBroken(f"nested function {name} in {f.qual} not found")
