"""Dataflow over lowered graphs: value resolution, effects, guards, and trace queries."""

import os
from collections import deque

from . import terms as tm
from .load import AnalysisBroken
from .lower import Graph, Policy, edge  # noqa: F401
from .terms import NONE, T, const, literal, literals, mk, pat

SAFE_CALLS = {
    'get', 'append', 'add', 'discard', 'extend', 'update', 'items', 'keys', 'values', 'setdefault',
    'debug', 'info', 'warning', 'warn', 'error', 'critical', 'exception', 'isinstance', 'len', 'str',
    'repr', 'set', 'list', 'dict', 'tuple', 'print', 'bool', 'time', 'now', 'utcnow', 'union',
    'intersection', 'difference', 'copy', 'sorted', 'format', 'split', 'splitlines', 'startswith', 'endswith',
    'strip', 'rstrip', 'hasattr', 'getattr', 'range', 'enumerate', 'zip', 'log', 'perf_counter', 'id', 'type',
}
LOG_CALLS = {'debug', 'info', 'warning', 'warn', 'error', 'critical', 'exception', 'log', 'print'}
MEMBER_HANDLERS = {'KeyError', 'IndexError', 'LookupError', 'ValueError'}
EXC_PARENTS = {
    'KeyError': {'LookupError', 'Exception', 'BaseException'},
    'IndexError': {'LookupError', 'Exception', 'BaseException'},
    'TimeoutError': {'OSError', 'Exception', 'BaseException'},
    'SystemExit': {'BaseException'},
    'KeyboardInterrupt': {'BaseException'},
    'CancelledError': {'BaseException'},
    'GeneratorExit': {'BaseException'},
    'FileNotFoundError': {'OSError', 'IOError', 'EnvironmentError', 'Exception', 'BaseException'},
}


class Eff:
    """A canonical effect: kind plus resolved terms."""

    __slots__ = ('kind', 'a', 'node')

    def __init__(self, kind, a, node):
        self.kind, self.a, self.node = kind, a, node

    def __repr__(self):
        return f"{self.kind}({', '.join(tm.show(x) if isinstance(x, T) else str(x) for x in self.a)})"


class Flow:
    def __init__(self, repo, func, self_cls=None, policy=None, outer=None, bind=None):
        self.repo = repo
        self.func = func
        self.g = Graph(repo, func, self_cls=self_cls, policy=policy, outer=outer, bind=bind)
        self.phi_ops = {}
        self._phi_at = {}
        self._effs = {}
        self._alts = {}
        self._fix()
        self._prep()

    # -- environments ---------------------------------------------------
    def _rpo(self):
        seen, out = set(), []
        stack = [(self.g.entry, iter(self.g.entry.succ))]
        seen.add(self.g.entry.id)
        while stack:
            n, it = stack[-1]
            for s, lab in it:
                if s.id not in seen:
                    seen.add(s.id)
                    stack.append((s, iter(s.succ)))
                    break
            else:
                out.append(n)
                stack.pop()
        return out[::-1]

    def _fix(self):
        order = self._rpo()
        self.order = order
        self.reach = {n.id for n in order}
        trivial, keep = set(), set()
        for _ in range(8):
            env_in, env_out, sticky = self._fix1(order, trivial)
            # phis left over from the iteration: all operands but itself are one value
            more, bad = set(), set()
            for n in order:
                for ph in [p for p in sticky if p.a[0] == n.id] + [p for p in trivial if p.a[0] == n.id]:
                    vals = {env_out[p.id][ph.a[1]] for p, lab in n.pred if p.id in env_out and ph.a[1] in env_out[p.id]} - {ph}
                    if ph in trivial:
                        if len(vals) != 1:
                            bad.add(ph)
                    elif len(vals) == 1 and ph not in keep:
                        more.add(ph)
            if not more and not bad:
                break
            trivial = (trivial | more) - bad
            keep |= bad
        else:
            env_in, env_out, sticky = self._fix1(order, ())
        self.env_in, self.env_out = env_in, env_out
        by_node = {}
        for ph in sticky:
            by_node.setdefault(ph.a[0], []).append(ph)
        for n in order:
            for ph in by_node.get(n.id, ()):
                ops = []
                for p, lab in n.pred:
                    e = env_out.get(p.id)
                    if e is not None and ph.a[1] in e:
                        ops.append((p.id, e[ph.a[1]]))
                self.phi_ops[ph] = ops
            if n.id in by_node:
                self._phi_at[n.id] = by_node[n.id]

    def _fix1(self, order, trivial):
        pos = {n.id: i for i, n in enumerate(order)}
        env_in = {}
        env_out = {}
        sticky = {}
        for _ in range(40):
            changed = False
            for n in order:
                preds = [p for p, lab in n.pred if p.id in env_out]
                if n is self.g.entry:
                    ein = {}
                elif len(preds) == 1:
                    ein = env_out[preds[0].id]
                elif not preds:
                    continue
                else:
                    ein = {}
                    envs = [env_out[p.id] for p in preds]
                    first = envs[0]
                    if all(e is first for e in envs):
                        ein = first
                    else:
                        keys = set()
                        for e in envs:
                            keys.update(e)
                        if n.kind == 'loop' and getattr(n, 'note', None) != 'comp':
                            # temporaries do not outlive an iteration
                            fwd = [env_out[p.id] for p in preds if pos[p.id] < pos[n.id]]
                            keys = {v for v in keys if '$' not in v[-1] or all(v in e for e in fwd)}
                        for v in keys:
                            ph = mk('phi', n.id, v)
                            vals = {e[v] for e in envs if v in e} - {ph}
                            if ph in trivial:
                                # the value that flows in from before (checked afterwards)
                                ein[v] = min(((pos[p.id], env_out[p.id][v]) for p in preds if v in env_out[p.id]), key=lambda x: x[0])[1]
                            elif len(vals) == 1 and ph not in sticky:
                                ein[v] = next(iter(vals))
                            else:
                                sticky[ph] = True
                                ein[v] = ph
                if env_in.get(n.id) is not ein and env_in.get(n.id) != ein:
                    changed = True
                env_in[n.id] = ein
                if n.kind == 'assign':
                    val = self.conv(n.term, ein)
                    eout = env_out.get(n.id)
                    if eout is None or eout.get(n.var) is not val or {k: v for k, v in eout.items() if k != n.var} != {
                        k: v for k, v in ein.items() if k != n.var
                    }:
                        eout = dict(ein)
                        eout[n.var] = val
                        changed = True
                    env_out[n.id] = eout
                else:
                    env_out[n.id] = ein
            if not changed:
                break
        else:
            raise AnalysisBroken(f"value analysis of {self.func.qual} does not converge")
        return env_in, env_out, sticky

    def norm_call(self, f, args, kw):
        """Keyword arguments of calls to our own methods become positional where possible."""
        if not kw or f.op != 'attr' or f.a[0].op not in ('param', 'free') or f.a[0].a[0] != 'self' or self.g.self_cls is None:
            return f, args, kw
        m = self.repo.method(self.g.self_cls, f.a[1])
        if m is None or any(x.op == 'star' for x in args):
            return f, args, kw
        names = [a.arg for a in m.node.args.posonlyargs + m.node.args.args][1:]
        d = dict(kw)
        args = list(args)
        while len(args) < len(names) and names[len(args)] in d:
            args.append(d.pop(names[len(args)]))
        return f, tuple(args), tuple(sorted(d.items(), key=lambda p: p[0] or '~'))

    def conv(self, t, env):
        op = t[0]
        c = lambda x: self.conv(x, env)  # noqa: E731
        if op == 'var':
            v = env.get(t)
            return v if v is not None else mk('undef', t[2])
        if op == 'const':
            return const(t[2])
        if op in ('param', 'glob', 'free'):
            return mk(op, t[1])
        if op == 'attr':
            return tm.attr(c(t[1]), t[2])
        if op == 'item':
            return tm.item(c(t[1]), c(t[2]))
        if op == 'call':
            return tm.call(*self.norm_call(c(t[1]), tuple(c(x) for x in t[2]), tuple((k, c(v)) for k, v in t[3])))
        if op == 'bin':
            return tm.binop(t[1], c(t[2]), c(t[3]))
        if op == 'un':
            return tm.unop(t[1], c(t[2]))
        if op == 'cmp':
            return mk('cmp', t[1], c(t[2]), c(t[3]))
        if op == 'bool':
            return mk('bool', t[1], tuple(c(x) for x in t[2]))
        if op == 'tuple':
            return mk('tup', tuple(c(x) for x in t[1]))
        if op == 'alloc':
            kind, items = t[2]
            if kind == 'dict':
                return mk('alloc', t[1], kind, tuple((c(k), c(v)) for k, v in items))
            return mk('alloc', t[1], kind, tuple(c(x) for x in items))
        if op == 'fstr':
            return tm.fstr([c(x) for x in t[1]])
        if op == 'fmt':
            if t[2] in (-1, None) and not t[3]:
                return c(t[1])
            return mk('fmt', c(t[1]), t[2], t[3])
        if op == 'lambda':
            return mk('lambda', t[1], tuple((n, c(v)) for n, v in t[2]))
        if op == 'closure':
            return mk('closure', t[1], tuple((n, c(v)) for n, v in t[2]))
        if op == 'elem':
            return tm.elem(c(t[1]))
        if op == 'sub':
            x = c(t[1])
            return tm.item(x, const(t[2]))
        if op == 'subrest':
            return mk('item', c(t[1]), mk('slice', const(t[2]), None, None))
        if op == 'comp':
            return mk('comp', t[1], t[2], c(t[3]), tuple(c(x) for x in t[4]), len(t[5]))
        if op == 'star':
            return mk('star', c(t[1]))
        if op == 'slice':
            return mk('slice', *[c(x) if x is not None else None for x in t[1:]])
        if op == 'exc':
            return mk('exc', tuple(t[1]), t[2])
        if op == 'entered':
            return mk('entered', c(t[1]))
        if op == 'starstar':
            return mk('starstar')
        if op == 'yielded':
            return mk('yielded', c(t[1]))
        if op == 'match':
            return mk('match', c(t[1]), t[2])
        if op == 'matched':
            return mk('matched', c(t[1]), t[2])
        return mk('opaque', *[str(x) for x in t[1:]] or [op])

    def val(self, n, raw):
        return self.conv(raw, self.env_in[n.id])

    # -- phis -------------------------------------------------------------
    def alts(self, ph, _seen=None):
        """All non-phi alternatives of a phi."""
        r = self._alts.get(ph)
        if r is not None:
            return r
        out, seen, stack = [], set(), [ph]
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'phi':
                stack.extend(t for _, t in self.phi_ops.get(x, ()))
            elif x.op == 'bool' and x.a[0] == 'or':
                out.append(x)
                stack.extend(x.a[1])
            elif x not in out:
                out.append(x)
        out.append(ph)
        self._alts[ph] = out
        return out

    def alts_sel(self, sel):
        d = dict(sel)

        def f(ph):
            if ph in d:
                x = d[ph]
                seen = {ph}
                while x.op == 'phi' and x in d and x not in seen:
                    seen.add(x)
                    x = d[x]
                return [x] if x.op != 'phi' else self.alts(x)
            return self.alts(ph)

        f.flow = self
        return f

    def dict_adds(self, t):
        """Constant keys stored into a container allocation after its display."""
        m = getattr(self, '_dadds', None)
        if m is None:
            m = {}
            self._dadds = {}
            for e in self.all_effects():
                if e.kind == 'add' and isinstance(e.a[1], T) and e.a[1].op == 'const' and isinstance(e.a[2], T) and e.a[0].op in ('alloc', 'phi'):
                    for c in (self.alts(e.a[0]) if e.a[0].op == 'phi' else [e.a[0]]):
                        m.setdefault(c, []).append((e.a[1].a[0], e.a[2]))
            self._dadds = m
        return m.get(t, ())

    def match(self, p, t, env=None):
        return None if t is None else pat(p).match(t, self.alts, env)

    # -- effects -----------------------------------------------------------
    def effects(self, n):
        r = self._effs.get(n.id)
        if r is None:
            r = self._effs[n.id] = self._effects(n) if n.id in self.reach else []
        return r

    def _effects(self, n):
        out = []

        def E(kind, *a):
            out.append(Eff(kind, a, n))

        if n.kind == 'loop' and n.term is not None:
            return out
        if n.kind != 'ev':
            return out
        ev = n.ev
        env = self.env_in[n.id]
        c = lambda x: self.conv(x, env)  # noqa: E731
        k = ev.kind

        def addall(o, x, neg=False):
            kind = 'remove' if neg else 'add'
            if x.op == 'alloc' and x.a[1] == 'dict':
                for kk, v in x.a[2]:
                    if kk.op == 'starstar':
                        E(kind, o, tm.elem(v), tm.item(v, tm.elem(v)), 'all')
                    else:
                        E(kind, o, kk, v, 'key')
                return
            if x.op == 'comp' and x.a[0] == 'dict' and x.a[2].op == 'tup':
                E(kind, o, x.a[2].a[0][0], x.a[2].a[0][1], 'all')
                return
            elts = x.a[0] if x.op == 'tup' else x.a[2] if x.op == 'alloc' and x.a[1] in ('list', 'set') else None
            if elts is not None:
                for y in elts:
                    if y.op == 'star':
                        E(kind, o, tm.elem(y.a[0]), None, 'all')
                    else:
                        E(kind, o, y, None, 'elt')
                if elts:
                    return
            e = tm.elem(x)
            E(kind, o, e, None if e.op != 'elem' else tm.item(x, e), 'all')

        if k == 'call':
            f = c(ev.f)
            args = tuple(c(x) for x in ev.args)
            kw = tuple(sorted(((a, c(v)) for a, v in ev.kwargs), key=lambda p: p[0] or '~'))
            f, args, kw = self.norm_call(f, args, kw)
            E('call', mk('call', f, args, kw))
            if f.op == 'attr':
                o, m = f.a
                if m in ('add', 'append', 'put', 'put_nowait', 'appendleft') and len(args) == 1:
                    E('add', o, args[0], None, m)
                elif m == 'insert' and len(args) == 2:
                    E('add', o, args[1], args[0], m)
                elif m == 'setdefault' and args:
                    E('add', o, args[0], args[1] if len(args) > 1 else NONE, m)
                elif m in ('extend', 'update', 'extendleft') and (args or kw):
                    for x in args:
                        addall(o, x)
                    for kk, v in kw:
                        if kk:
                            E('add', o, const(kk), v, 'key')
                        else:
                            E('add', o, tm.elem(v), tm.item(v, tm.elem(v)), 'all')
                elif m in ('remove', 'discard'):
                    if args:
                        E('remove', o, args[0], m)
                elif m == 'pop':
                    E('remove', o, args[0] if args else tm.elem(o), m)
                elif m in ('popleft', 'popitem'):
                    E('remove', o, tm.elem(o), m)
                elif m == 'difference_update':
                    for x in args:
                        addall(o, x, neg=True)
                elif m == 'clear' and not args:
                    E('clear', o)
                elif m == '__setitem__' and len(args) == 2:
                    E('add', o, args[0], args[1], 'key')
                elif m == '__delitem__' and len(args) == 1:
                    E('remove', o, args[0], 'del')
            elif f.op == 'glob' and f.a[0] == 'setattr' and len(args) == 3 and tm.is_str(args[1]):
                E('store', args[0], args[1].a[0], args[2])
            elif f.op == 'glob' and f.a[0].endswith(('heappush', 'insort', 'bisect.insort')) and len(args) == 2:
                E('add', args[0], args[1], None, 'heap')
        elif k == 'setitem':
            o, kk, v = c(ev.obj), c(ev.key), c(ev.val)
            E('add', o, kk, v, 'key')
        elif k == 'delitem':
            E('remove', c(ev.obj), c(ev.key), 'del')
        elif k == 'setattr':
            o, v = c(ev.obj), c(ev.val)
            E('store', o, ev.key, v)
            if ev.aug:
                x = c(ev.aug[1])
                if ev.aug[0] == '|' or (ev.aug[0] == '+' and x.op in ('alloc', 'comp', 'tup')):
                    addall(tm.attr(o, ev.key), x)
                elif ev.aug[0] == '-' and x.op != 'const':
                    addall(tm.attr(o, ev.key), x, neg=True)
        elif k == 'augname':
            o, x = c(ev.obj), c(ev.val)
            if ev.aug[0] == '|' or (ev.aug[0] == '+' and x.op in ('alloc', 'comp', 'tup', 'call')):
                addall(o, x)
            elif ev.aug[0] == '-' and x.op != 'const':
                addall(o, x, neg=True)
        elif k == 'delattr':
            E('delattr', c(ev.obj), ev.key)
        elif k == 'return':
            E('return', c(ev.val))
        elif k == 'raise':
            E('raise', c(ev.val) if ev.val != ('reraise',) else mk('reraise'))
        elif k in ('yield', 'await', 'comp_elt'):
            E(k, c(ev.val))
        elif k == 'getitem':
            E('getitem', c(ev.obj), c(ev.key))
        elif k in ('with_enter', 'with_exit'):
            E('enter' if k == 'with_enter' else 'leave', c(ev.obj))
        elif k == 'setglobal':
            E('setglobal', c(ev.key), c(ev.val))
        return out

    def all_effects(self):
        for n in self.order:
            yield from self.effects(n)

    def find(self, atom):
        """[(eff, bindings)] for every reachable effect that may match."""
        out = []
        for e in self.all_effects():
            b = atom(e, self.alts, {})
            if b is not None:
                out.append((e, b))
        return out

    # -- literals on edges --------------------------------------------------
    def edge_literals(self, n, lab):
        """Literals that become true when the edge (n, lab) is taken."""
        if n.kind == 'branch' and lab in ('T', 'F'):
            t = self.val(n, n.term)
            return literals(t, lab == 'T')
        if n.kind == 'loop' and n.term is not None and lab == 'iter':
            return []
        if n.kind == 'ev':
            ev = n.ev
            pair = None
            if ev.kind in ('getitem', 'delitem'):
                pair = (self.val(n, ev.obj), self.val(n, ev.key))
            elif ev.kind == 'call':
                f = self.val(n, ev.f)
                if f.op == 'attr' and f.a[1] in ('pop', 'remove', 'index') and len(ev.args) == 1:
                    pair = (f.a[0], self.val(n, ev.args[0]))
            if pair and n.mayraise and not (pair[0].op == 'alloc' and pair[0].a[1] == 'list' and ev.kind != 'call') and self._member_guard(n):
                if lab == 'exc':
                    return [literal(mk('cmp', 'in', pair[1], pair[0]), False)]
                return [literal(mk('cmp', 'in', pair[1], pair[0]), True)]
        return []

    def _member_guard(self, n):
        for s, lab in n.succ:
            if lab == 'exc' and s.kind == 'dispatch':
                for h, l2 in s.succ:
                    if isinstance(l2, tuple) and l2[0] == 'except':
                        if not l2[1] or set(l2[1]) & (MEMBER_HANDLERS | {'Exception', 'BaseException'}):
                            return True
        return False

    def _prep(self):
        # literals decided more than once are worth tracking
        cnt = {}
        self._elits = {}
        for n in self.order:
            seen = set()
            for s, lab in n.succ:
                ls = self.edge_literals(n, lab)
                if ls:
                    self._elits[(n.id, lab)] = ls
                for t, _ in ls:
                    seen.add(t)
            for t in seen:
                cnt[t] = cnt.get(t, 0) + 1
        self.lit_count = cnt
        phis_lit = set()
        for t in cnt:
            for ph in t.phis:
                phis_lit.add(ph)
        self.track = {t for t, k in cnt.items() if k > 1}
        for t in cnt:
            if t.op in ('truth', 'isnone') and t.a[0].op == 'phi':
                self.track.add(t)
            elif t.op == 'cmp' and t.a[0] in ('==', 'is') and any(x.op == 'phi' for x in t.a[1:]):
                self.track.add(t)
        # phis feeding tracked phis
        self.track_phi = set()
        stack = [x for t in self.track for x in t.phis if t.op in ('truth', 'isnone', 'cmp')]
        while stack:
            p = stack.pop()
            if p in self.track_phi:
                continue
            self.track_phi.add(p)
            for _, o in self.phi_ops.get(p, ()):
                if o.op == 'phi':
                    stack.append(o)
        # facts about container/attribute state set by mutations
        self._exc_ok = {}
        self._flags()

    def _flags(self):
        """Local variables that are only ever tested: their truth does not change between assignments."""
        tests, other, sets = {}, set(), {}

        def walk(x):
            if isinstance(x, (tuple, list)):
                if len(x) == 3 and x[0] == 'var' and isinstance(x, tuple):
                    other.add(x)
                else:
                    for y in x:
                        walk(y)

        for n in self.order:
            if n.kind == 'branch' and n.term[0] == 'var':
                tests.setdefault(n.term, []).append(n)
                continue
            walk(n.term)
            if n.ev is not None:
                for k in n.ev.__slots__:
                    walk(getattr(n.ev, k, None))
            if n.kind == 'assign':
                sets.setdefault(n.var, []).append(n)
        self._snap_test, self._snap_set = {}, {}
        for v, ns in tests.items():
            if len(ns) > 1 and v not in other and sets.get(v):
                key = mk('snap', v)
                for n in ns:
                    self._snap_test[n.id] = key
                for n in sets[v]:
                    self._snap_set[n.id] = key

    # -- exceptional edges -------------------------------------------------
    def exc_handled(self, n):
        r = self._exc_ok.get(n.id)
        if r is not None:
            return r
        self._exc_ok[n.id] = False
        if n.kind == 'dispatch':
            r = True
        elif n.kind == 'exc_exit' or n.note == 'swallowed':
            r = False
        else:
            # finally clone: does the re-raise arrive at a handler?
            r = False
            seen, stack = {n.id}, [n]
            while stack and not r:
                x = stack.pop()
                for s, lab in x.succ:
                    if lab == 'reraise':
                        r = r or self.exc_handled(s)
                    elif lab != 'exc' and s.id not in seen:
                        seen.add(s.id)
                        stack.append(s)
        self._exc_ok[n.id] = r
        return r

    def handler_edges(self, disp, exc, mode):
        """Which edges out of a dispatch node an exception may take."""
        out = []
        names = None
        if exc is not None:
            t = exc
            if t.op == 'call':
                t = t.a[0]
            if t.op == 'glob':
                nm = t.a[0].rsplit('.', 1)[-1]
                names = {nm} | EXC_PARENTS.get(nm, {'Exception', 'BaseException'}) | self._repo_exc(nm)
        for s, lab in disp.succ:
            if isinstance(lab, tuple) and lab[0] == 'except':
                if names is None or not lab[1] or set(lab[1]) & names:
                    out.append((s, lab))
                    if names is not None:
                        return out
            elif lab == 'uncaught':
                if names is not None or mode == 'all':
                    out.append((s, lab))
        return out

    def _repo_exc(self, name):
        for m in self.repo.modules.values():
            if name in m.classes:
                return {b.rsplit('.', 1)[-1] for b in self.repo.base_names(m.classes[name])}
        return set()

    def may_raise(self, n, mode):
        ev = n.ev
        if mode == 'all':
            if ev.kind == 'call':
                return self._callname(n) not in LOG_CALLS
            return ev.kind in ('getitem', 'delitem', 'await', 'yield', 'with_enter')
        if mode == 'handled':
            if ev.kind == 'call':
                return self._callname(n) not in SAFE_CALLS
            return ev.kind in ('getitem', 'delitem', 'await', 'with_enter')
        # member: only lookups with a LookupError-like handler right there
        if (n.id, 'exc') in self._elits:
            for s, lab in n.succ:
                if lab == 'exc' and s.kind == 'dispatch':
                    for h, l2 in s.succ:
                        if isinstance(l2, tuple) and l2[0] == 'except' and set(l2[1]) & {
                            'KeyError', 'IndexError', 'LookupError', 'ValueError',
                        }:
                            return True
        return False

    def _callname(self, n):
        f = n.ev.f
        if f[0] == 'attr':
            return f[2]
        if f[0] == 'glob':
            return f[1].rsplit('.', 1)[-1]
        return ''

    # -- guards (must) -----------------------------------------------------
    def guards(self):
        """node id -> frozenset of literals that hold on every (normal) path to it."""
        if getattr(self, '_guards', None) is not None:
            return self._guards
        G = {self.g.entry.id: frozenset()}
        work = deque([self.g.entry])
        n_by = {n.id: n for n in self.order}
        it = 0
        while work:
            it += 1
            if it > 200000:
                raise AnalysisBroken('guard analysis does not converge')
            n = work.popleft()
            cur = G[n.id]
            for s, lab in n.succ:
                if lab == 'exc' and not self.exc_handled(s):
                    pass
                out = cur
                if lab != 'exc':
                    out = self._kill(n, out)
                ls = self._elits.get((n.id, lab))
                if ls:
                    bad = False
                    for t, p in ls:
                        if self.decide(t, {}) is (not p):
                            bad = True
                    if bad:
                        continue
                    out = out | frozenset(ls)
                if n.kind == 'loop' and lab == 'iter' and n.term is not None:
                    e = tm.elem(self.val(n, n.term))
                    es = set(e.a[0]) if e.op == 'tup' else {e}
                    out = frozenset(l for l in out if not tm.mentions(l[0], lambda x: x in es and x.op in ('elem', 'idx')))
                old = G.get(s.id)
                new = out if old is None else old & out
                if s.id in self._phi_at:
                    phs = set(self._phi_at[s.id])
                    if s.kind == 'loop':
                        new = frozenset(l for l in new if not (l[0].phis & phs))
                if old is None or new != old:
                    G[s.id] = new
                    work.append(s)
        self._guards = G
        return G

    def comp_guards(self, t):
        """Literals an element must satisfy to be included in a comprehension."""
        for n in self.order:
            if n.kind == 'ev' and getattr(n.ev, 'comp', (None,))[0] == t.a[1]:
                G = self.guards()
                outer = G.get(n.ev.comp[1][0].id, frozenset())
                return G.get(n.id, frozenset()) - outer
        return frozenset()

    def _kill(self, n, lits):
        mut = self.mutated(n)
        if not mut or not lits:
            return lits
        return frozenset(l for l in lits if not self.clobbers(mut, l[0]))

    def mutated(self, n):
        """Access paths this node may change: list of ('path', term) / ('attr', name) / ('self',)."""
        if n.kind != 'ev':
            return ()
        out = []
        for e in self.effects(n):
            if e.kind in ('add', 'remove', 'clear'):
                out.append(('path', e.a[0]))
            elif e.kind in ('store', 'delattr'):
                out.append(('attr', e.a[0], e.a[1]))
            elif e.kind == 'await':
                pass
            elif e.kind == 'call' and n.ev.extra is not None:
                f = e.a[0].a[0]
                if f.op == 'attr' and f.a[0].op == 'param':
                    out.append(('self', f.a[0]))
        return out

    def clobbers(self, mut, t):
        for m in mut:
            if m[0] == 'path':
                if tm.mentions(t, lambda x: x is m[1]):
                    return True
            elif m[0] == 'attr':
                if tm.mentions(t, lambda x: x.op == 'attr' and x.a[1] == m[2] and x.a[0] is m[1]):
                    return True
            elif m[0] == 'self':
                if self._reads_self(t, m[1]):
                    return True
        return False

    def _reads_self(self, t, me):
        """Does the term read mutable state of me? Services called through an attribute do not count."""
        key = (t, me)
        memo = self.__dict__.setdefault('_rs', {})
        r = memo.get(key)
        if r is None:
            if t.op == 'attr' and t.a[0] is me:
                r = True
            else:
                kids = tm.children(t)
                if t.op == 'call' and t.a[0].op == 'attr' and t.a[0].a[0].op == 'attr' and t.a[0].a[0].a[0] is me and t.a[0].a[0].a[1] in ('session', 'log', 'loop'):
                    kids = [k for k in kids if k is not t.a[0]]
                r = any(self._reads_self(k, me) for k in kids)
            memo[key] = r
        return r

    def _field(self, x):
        """Fold a constant-key lookup in a dict display that nothing else changes."""
        if x.op == 'item' and x.a[0].op == 'alloc' and x.a[0].a[1] == 'dict' and x.a[1].op == 'const':
            d, k = x.a
            w = self.__dict__.get('_dwrites')
            if w is None:
                w = self._dwrites = {}
                for e in self.all_effects():
                    if e.kind in ('add', 'remove', 'clear') and e.a[0].op in ('alloc', 'phi'):
                        kk = e.a[1] if len(e.a) > 1 else None
                        kk = kk.a[0] if isinstance(kk, T) and kk.op == 'const' else '*'
                        for c in (self.alts(e.a[0]) if e.a[0].op == 'phi' else [e.a[0]]):
                            w.setdefault(c, set()).add(kk)
            ws = w.get(d, ())
            if '*' not in ws and k.a[0] not in ws:
                for q, v in (y for y in d.a[2] if isinstance(y, tuple)):
                    if q is k:
                        return v
        return x

    def _changed(self):
        """Displays that something is added to, or removed from."""
        w = self.__dict__.get('_chg')
        if w is None:
            w = self._chg = set()
            for e in self.all_effects():
                if e.kind in ('add', 'remove', 'clear'):
                    w.update(self.alts(e.a[0]) if e.a[0].op == 'phi' else [e.a[0]])
        return w

    # -- deciding literals ---------------------------------------------------
    def decide(self, t, facts):
        """True/False/None for a literal term under facts."""
        if t in facts:
            return facts[t]
        if t.op == 'truth':
            x = t.a[0]
            if x.op == 'const':
                return bool(x.a[0])
            if x.op in ('lambda', 'closure', 'fstr'):
                return True
            if x.op == 'glob' and (self.repo.resolve_class(x.a[0]) or self.repo.resolve_function(x.a[0])):
                return True
            if x.op == 'alloc' and x.a[2]:
                return True
            if x.op == 'exc':
                return True
            if facts.get(mk('isnone', x)) is True:
                return False
        elif t.op == 'isnone':
            x = t.a[0]
            if x.op == 'const':
                return x.a[0] is None
            if x.op in ('alloc', 'comp', 'tup', 'fstr', 'lambda', 'closure', 'exc', 'bin', 'copy', 'cmp'):
                return False
            if x.op == 'glob' and (self.repo.resolve_class(x.a[0]) or self.repo.resolve_function(x.a[0])):
                return False
            if facts.get(mk('truth', x)) is True:
                return False
        elif t.op == 'cmp':
            op, x, y = t.a
            x, y = self._field(x), self._field(y)
            if x.op == 'const' and y.op == 'const':
                try:
                    if op == '==':
                        return x.a[0] == y.a[0]
                    if op == '<':
                        return x.a[0] < y.a[0]
                    if op == 'is':
                        return x.a[0] is y.a[0]
                except TypeError:
                    return None
            if op == 'is' and y.op == 'const' and isinstance(y.a[0], bool):
                lt, lp = tm.literal(x, True)
                f = facts.get(lt)
                if f is not None and (f == lp) != y.a[0]:
                    return False
                if x.op in ('cmp', 'bool') and f is not None:
                    return True
            if op == 'in' and (y.op == 'tup' or y.op == 'alloc' and y not in self._changed()):
                elts = y.a[0] if y.op == 'tup' else [p[0] if isinstance(p, tuple) else p for p in y.a[2]]
                if x.op == 'const' and all(e.op == 'const' for e in elts):
                    return x in elts
            if op == '==':
                # x == c1 known true decides x == c2
                for u, v in ((x, y), (y, x)):
                    if v.op == 'const':
                        for ft, fp in facts.items():
                            if fp and ft.op == 'cmp' and ft.a[0] == '==':
                                for p, q in ((ft.a[1], ft.a[2]), (ft.a[2], ft.a[1])):
                                    if p is u and q.op == 'const' and q is not v:
                                        return False
        return None

    # -- traces ---------------------------------------------------------------
    def traces(self, atoms, start=None, stop=(), exc='member', cap=2, limit=400000, sel=True, assume=(), retval=False, world=None, values=None):
        """Explore the exploded graph, recording atoms in order.

        atoms: dict name -> atom function (see rules.py), applied to effects and literals.
        start: node (default entry) or (node, label) edge; stop: set of node ids ending the region.
        world: function deciding path-resolved literals (True, False or None), to follow the paths of one case only.
        values: dict name -> function(effect) -> term or None; the path-resolved term is recorded as (name, term).
        Returns a list of Trace.
        """
        stop = set(stop)
        values = values or {}
        vmap = {}
        amap = {}
        phis = set()
        lit_atoms = {k: a for k, a in atoms.items() if getattr(a, 'lit', False)}
        eff_atoms = {k: a for k, a in atoms.items() if not getattr(a, 'lit', False)}
        edge_atoms = {k: a for k, a in atoms.items() if getattr(a, 'edge', False)}
        eff_atoms = {k: a for k, a in eff_atoms.items() if k not in edge_atoms}
        for n in self.order:
            effs = self.effects(n)
            hits = []
            for e in effs:
                for name, a in eff_atoms.items():
                    if a(e, self.alts, {}) is not None:
                        hits.append((name, a, e))
                        if sel:
                            for x in e.a:
                                if isinstance(x, T):
                                    phis |= x.phis
            if retval and effs and effs[-1].kind in ('return', 'raise'):
                phis |= effs[-1].a[0].phis
            for e in effs if values else ():
                for name, f in values.items():
                    v = f(e)
                    if v is not None:
                        vmap.setdefault(n.id, []).append((name, v))
                        phis |= v.phis
            if hits:
                amap[n.id] = hits
        lmemo = {}

        def lit_hits(l):
            r = lmemo.get(l)
            if r is None:
                r = []
                e = Eff('lit', l, None)
                for name, a in lit_atoms.items():
                    if a(e, self.alts, {}) is not None:
                        r.append(name)
                lmemo[l] = r
            return r

        if world is not None:
            for ls in self._elits.values():
                for t, p in ls:
                    phis |= t.phis
        if sel and lit_atoms:
            # literals over a phi that one of its operands turns into a sought literal
            for ls in self._elits.values():
                for t, p in ls:
                    if len(t.phis) != 1:
                        continue
                    ph = next(iter(t.phis))
                    ops = self.alts(ph)
                    if len(ops) > 6 or ph in phis:
                        continue
                    for o in ops:
                        if o.op == 'phi' or o is ph or ph in o.phis:
                            continue
                        v, vp = self.norm_lit(self._subst1(t, ph, o))
                        if any(lit_hits(l) for l in tm.implied(v, vp == p)):
                            phis |= t.phis
                            break
        # close over phi operands, ignoring loop heads
        loops = {n.id for n in self.order if n.kind == 'loop'}
        want = set()
        stack = list(phis)
        while stack:
            p = stack.pop()
            if p in want:
                continue
            want.add(p)
            for _, o in self.phi_ops.get(p, ()):
                stack.extend(o.phis)
        if world is None:
            want = {p for p in want if p.a[0] not in loops}
        phi_in = {}
        for nid, phs in self._phi_at.items():
            for ph in phs:
                for pid, o in self.phi_ops.get(ph, ()):
                    phi_in.setdefault((pid, nid), []).append((ph, o))

        results = {}
        facts0 = frozenset(assume)
        if start is None:
            init = (self.g.entry, (), facts0, frozenset())
        elif isinstance(start, tuple):
            n0, lab0 = start
            for s, lab in n0.succ:
                if lab == lab0:
                    init = (s, (), facts0, frozenset())
                    break
            else:
                raise AnalysisBroken('trace start edge missing')
        else:
            init = (start, (), facts0, frozenset())
        parent = {init: None}
        work = [init]
        count = 0

        live_keys = self._live_keys()
        live_phis = self._live_phis(amap, want, phi_in, retval, vmap) if want else {}
        trims = {}

        def push(src, node, tr, facts, sl, via):
            if facts:
                k = (node.id, facts)
                fz = trims.get(k)
                if fz is None:
                    keep = live_keys.get(node.id, ())
                    fz = trims[k] = frozenset(f for f in facts if not self._keys_of(f[0]).isdisjoint(keep))
                facts = fz
            if sl:
                keep = live_phis.get(node.id, ())
                if any(x[0] not in keep for x in sl):
                    sl = frozenset(x for x in sl if x[0] in keep)
            st = (node, tr, facts, sl)
            if st not in parent:
                parent[st] = (src, via)
                work.append(st)

        def add_atom(tr, name):
            if tr.count(name) >= cap:
                return tr
            return tr + (name,)

        while work:
            st = work.pop()
            n, tr, facts, sl = st
            count += 1
            if count > limit:
                raise AnalysisBroken(f"trace exploration of {self.func.qual} exceeds {limit} states")
            if n is self.g.exit or n is self.g.exc_exit or (n.id in stop and (start is None or st is not init)):
                kind = 'return' if n is self.g.exit else 'raise' if n is self.g.exc_exit else 'stop'
                results.setdefault((tr, kind, n.id), st)
                continue
            fd = dict(facts)
            # atoms of this node
            tr2 = tr
            hits = amap.get(n.id)
            attempts = tr
            if hits:
                alts = self.alts_sel(sl) if sl else self.alts
                for name, a, e in hits:
                    if a(e, alts, {}) is not None:
                        tr2 = add_atom(tr2, name)
                        if getattr(a, 'attempt', False):
                            attempts = add_atom(attempts, name)
            for name, v in vmap.get(n.id, ()):
                tr2 = add_atom(tr2, (name, self.subst_sel(v, sl)))
            if retval and n.kind == 'ev' and n.ev.kind in ('return', 'raise'):
                v = self.effects(n)[-1].a[0]
                tr2 = tuple(x for x in tr2 if not (isinstance(x, tuple) and x[0] == '=')) + (('=', self.subst_sel(v, sl)),)
            mut = self.mutated(n)
            facts_after = fd
            snap = self._snap_test.get(n.id)
            if n.id in self._snap_set:
                facts_after = fd = {t: p for t, p in fd.items() if t is not self._snap_set[n.id]}
                facts = frozenset(fd.items())
            if mut:
                facts_after = {t: p for t, p in fd.items() if not self.clobbers(mut, t)}
                for e in self.effects(n):
                    if e.kind == 'store':
                        at = tm.attr(e.a[0], e.a[1])
                        for t in (mk('truth', at), mk('isnone', at)):
                            if t in self.track or world is not None:
                                v = self.decide(mk(t.op, e.a[2]), fd)
                                if v is None and world is not None:
                                    v = world(self.subst_sel(mk(t.op, e.a[2]), sl))
                                if v is not None:
                                    facts_after[t] = v
                    elif e.kind in ('add', 'remove') and isinstance(e.a[1], T):
                        t = mk('cmp', 'in', e.a[1], e.a[0])
                        if t in self.track:
                            facts_after[t] = e.kind == 'add'
            for s, lab in n.succ:
                implicit = lab == 'exc'
                cur, cf = tr2, facts_after
                if implicit:
                    if n.ev is None or not self.may_raise(n, exc):
                        continue
                    if exc != 'all' and not self.exc_handled(s):
                        continue
                    cur, cf = attempts, fd
                nf = cf
                ok = True
                if snap is not None and lab in ('T', 'F'):
                    if nf.get(snap, lab == 'T') != (lab == 'T'):
                        continue
                    nf = cf = dict(nf)
                    nf[snap] = lab == 'T'
                ls = self._elits.get((n.id, lab))
                if ls:
                    nf = dict(cf)
                    for t, p in ls:
                        k = self.decide(t, nf)
                        if k is None and t.phis and sl:
                            k = self._decide_sel(t, sl, nf)
                        if k is None and world is not None:
                            k = world(self.subst_sel(t, sl) if t.phis and sl else t)
                        if k is not None and k != p:
                            ok = False
                            break
                        if t in self.track:
                            nf[t] = p
                        lits = [(t, p)]
                        if t.phis and sl:
                            u = self.subst_sel(t, sl)
                            if u is not t:
                                v, vp = self.norm_lit(u)
                                lits += [l for l in tm.implied(v, vp == p) if l != (t, p)]
                        got = []
                        for l in lits:
                            for name in lit_hits(l):
                                if name not in got:
                                    got.append(name)
                                    cur = add_atom(cur, name)
                    if not ok:
                        continue
                if n.kind == 'loop' and lab in ('iter', 'done') and n.term is not None:
                    it = self.val(n, n.term)
                    if lab == 'iter':
                        e = tm.elem(it)
                        es = set(e.a[0]) if e.op == 'tup' else {e}
                        nf = {
                            t: p
                            for t, p in nf.items()
                            if not tm.mentions(t, lambda x: x in es and x.op in ('elem', 'idx', 'item', 'phi'))
                        }
                    for name, a in edge_atoms.items():
                        if a(Eff(lab, (it,), n), self.alts, {}) is not None:
                            cur = add_atom(cur, name)
                targets = [(s, lab)]
                if s.kind == 'dispatch':
                    ex = None
                    if isinstance(lab, tuple) and lab[0] == 'raise':
                        ex = self.val(n, lab[1]) if lab[1] != ('reraise',) else None
                    elif lab == 'reraise':
                        ex = None
                    targets = self._through(s, ex, exc)
                for s2, lab2 in targets:
                    c2 = cur
                    if edge_atoms and isinstance(lab2, tuple) and lab2[0] == 'except':
                        for name, a in edge_atoms.items():
                            if a(Eff('caught', (lab2[1],), n), self.alts, {}) is not None:
                                c2 = add_atom(c2, name)
                    nf2, sl2 = nf, sl
                    pin = phi_in.get((n.id, s2.id)) or (phi_in.get((s.id, s2.id)) if s is not s2 else None)
                    if s is not s2:
                        p2 = phi_in.get((n.id, s.id))
                        pin = (pin or []) + (p2 or [])
                    if pin:
                        nf2 = dict(nf2)
                        sd = None
                        vals = []
                        for ph, o in pin:
                            if ph in want:
                                if sd is None:
                                    sd = dict(sl2)
                                if ph.a[0] in loops:
                                    # what a loop starts, or goes on, with: closed, as operands change in the loop
                                    v = self.subst_sel(o, sl2) if ph not in o.phis else o
                                    if v.phis or sum(1 for _ in tm.subterms(v)) > 40:
                                        sd.pop(ph, None)
                                    else:
                                        sd[ph] = v
                                else:
                                    sd[ph] = sd.get(o, o) if o.op == 'phi' else o
                            for t in self._phi_lits(ph):
                                # value of the literal under the incoming operand
                                ot = self._subst1(t, ph, o)
                                vals.append((t, self.decide(ot, nf)))
                        for t, v in vals:
                            if v is None:
                                nf2.pop(t, None)
                            else:
                                nf2[t] = v
                        if sd is not None:
                            sl2 = frozenset(sd.items())
                    elif s2.id in self._phi_at:
                        pass
                    fz = facts if nf2 is fd else frozenset(nf2.items())
                    push(st, s2, c2, fz, sl2, (n, lab))
        out = []
        for (tr, kind, nid), st in results.items():
            out.append(Trace(self, tr, kind, st, parent))
        self.states = getattr(self, 'states', 0) + count
        out.sort(key=lambda x: (len(x.atoms), repr(x.atoms), x.end))
        if os.environ.get('IPA_VACUOUS'):
            seen = {x for t in out for x in t.atoms}
            if start is None and not any(t.end == 'return' for t in out) and any(e.kind == 'return' for e in self.all_effects()):
                print(f'  never returns: {self.func.qual}')
            for k in atoms:
                if k not in seen:
                    import traceback

                    fr = [f for f in traceback.extract_stack() if '/props/' in f.filename]
                    print(f"  never hit: {k}: {atoms[k].desc[:110] if hasattr(atoms[k], 'desc') else ''} in {self.func.qual} ({fr[-1].lineno if fr else ''})")
        return out

    # -- what still matters ---------------------------------------------------
    def _keys_of(self, t, _seen=frozenset()):
        """The values that a literal is about."""
        memo = self.__dict__.setdefault('_keysm', {})
        r = memo.get(t)
        if r is not None:
            return r
        if t.op in ('param', 'free', 'glob') or t.op == 'attr' and t.a[0].op in ('param', 'free'):
            r = frozenset((t,))
        elif t.op == 'phi':
            r = {t}
            seen = {t}
            stack = [t]
            while stack:
                for _, o in self.phi_ops.get(stack.pop(), ()):
                    for p in o.phis:
                        if p not in seen:
                            seen.add(p)
                            stack.append(p)
                    if o.op != 'phi':
                        r |= self._keys_nophi(o)
            r = frozenset(r | seen)
        else:
            r = set()
            for p in t.phis:
                r |= self._keys_of(p)
            r = frozenset(r | self._keys_nophi(t)) or frozenset((t,))
        memo[t] = r
        return r

    def _keys_nophi(self, t):
        out = set()

        def go(x):
            if not isinstance(x, T):
                if isinstance(x, tuple):
                    for y in x:
                        go(y)
                return
            if x.op in ('param', 'free', 'glob') or x.op == 'attr' and x.a[0].op in ('param', 'free'):
                out.add(x)
            elif x.op in ('const', 'phi'):
                pass
            elif x.op in ('alloc', 'comp', 'closure', 'lambda', 'exc'):
                out.add(x)
            else:
                n = len(out)
                for y in x.a:
                    go(y)
                if len(out) == n:
                    out.add(x)

        go(t)
        return out

    def _spread(self, own):
        """For each node, what is used there or later."""
        out = {n.id: set(own.get(n.id, ())) for n in self.order}
        changed = True
        rev = list(reversed(self.order))
        while changed:
            changed = False
            for n in rev:
                o = out[n.id]
                k = len(o)
                for s, _ in n.succ:
                    x = out.get(s.id)
                    if x:
                        o |= x
                if len(o) != k:
                    changed = True
        return out

    def _live_keys(self):
        key = len(self.track)
        m = getattr(self, '_livek', None)
        if m is not None and m[0] == key:
            return m[1]
        own = {}
        for (nid, lab), ls in self._elits.items():
            o = own.setdefault(nid, set())
            for t, p in ls:
                o |= self._keys_of(t)
        for ph, ops in self.phi_ops.items():
            lits = self._phi_lits(ph)
            if lits:
                for pid, op in ops:
                    o = own.setdefault(pid, set())
                    for t in lits:
                        o |= self._keys_of(t)
        for nid, t in list(self._snap_test.items()) + list(self._snap_set.items()):
            own.setdefault(nid, set()).update(self._keys_of(t))
        for n in self.order:
            for e in self.effects(n):
                if e.kind == 'store' and isinstance(e.a[2], T):
                    at = tm.attr(e.a[0], e.a[1])
                    if mk('truth', at) in self.track or mk('isnone', at) in self.track:
                        own.setdefault(n.id, set()).update(self._keys_of(e.a[2]) | self._keys_of(at))
        r = self._spread(own)
        self._livek = (len(self.track), r)
        return r

    def _live_phis(self, amap, want, phi_in, retval, vmap={}):
        own = {}

        def use(nid, phis):
            o = own.setdefault(nid, set())
            stack = [p for p in phis if p in want]
            while stack:
                p = stack.pop()
                if p in o:
                    continue
                o.add(p)
                for _, x in self.phi_ops.get(p, ()):
                    stack.extend(q for q in x.phis if q in want)

        for nid, hits in amap.items():
            for _, _, e in hits:
                for x in e.a:
                    if isinstance(x, T):
                        use(nid, x.phis)
        for nid, hits in vmap.items():
            for _, v in hits:
                use(nid, v.phis)
        for (nid, lab), ls in self._elits.items():
            for t, p in ls:
                use(nid, t.phis)
        for (pid, nid), l in phi_in.items():
            for ph, o in l:
                if ph in want:
                    use(pid, o.phis)
        if retval:
            for n in self.order:
                effs = self.effects(n)
                if effs and effs[-1].kind in ('return', 'raise'):
                    use(n.id, effs[-1].a[0].phis)
        return self._spread(own)

    def _through(self, disp, ex, mode):
        out = []
        for s, lab in self.handler_edges(disp, ex, mode):
            if s.kind == 'dispatch':
                out += self._through(s, ex, mode)
            else:
                out.append((s, lab))
        return out

    def _phi_lits(self, ph):
        m = getattr(self, '_phil', None)
        if m is None:
            m = self._phil = {}
            for t in self.track:
                for p in t.phis:
                    m.setdefault(p, []).append(t)
            # phis feeding others: track the same predicates
            changed = True
            while changed:
                changed = False
                for p, ops in self.phi_ops.items():
                    for t in list(m.get(p, ())):
                        for _, o in ops:
                            if o.op == 'phi':
                                t2 = self._subst1(t, p, o)
                                if t2 not in m.setdefault(o, []):
                                    m[o].append(t2)
                                    self.track.add(t2)
                                    changed = True
        return m.get(ph, ())

    def _subst1(self, t, ph, o):
        def go(x):
            if x is ph:
                return o
            if isinstance(x, T):
                if ph not in x.phis:
                    return x
                if x.op == 'attr':
                    return tm.attr(go(x.a[0]), x.a[1])
                if x.op == 'item':
                    return tm.item(go(x.a[0]), go(x.a[1]))
                return mk(x.op, *[go(y) for y in x.a])
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x

        r = go(t)
        if r.op in ('truth',):
            return r
        if r.op == 'cmp':
            l, p = literal(r, True)
            return l if p else r
        return r

    def callback_calls(self, cb, extra=(), opaque=()):
        """Calls made by a deferred callable, as terms of this function: bound method, partial, lambda or closure.

        Returns [(call, raw)]; raw is the call before captured variables were substituted
        (what it reads is read late), None when the arguments were evaluated eagerly.
       """
        extra = tuple(extra)
        if cb.op in ('lambda', 'closure'):
            f, fr = self.g.lambdas[cb.a[0]]
            binds = dict(cb.a[1])
            params = [p for p in f.all_params]
            for p, x in zip(params, extra):
                binds[p] = x
            lf = Flow(self.repo, f, self_cls=self.g.self_cls, policy=Policy(opaque=opaque))
            out = []
            for e in lf.all_effects():
                if e.kind == 'call':
                    out.append((tm.subst_names(e.a[0], binds), e.a[0]))
            return out
        if cb.op == 'call' and cb.a[0].op == 'glob' and cb.a[0].a[0].rsplit('.', 1)[-1] == 'partial' and cb.a[1]:
            return [(mk('call', *self.norm_call(cb.a[1][0], tuple(cb.a[1][1:]) + extra, cb.a[2])), None)]
        return [(mk('call', cb, extra, ()), None)]

    def subst_sel(self, t, sl):
        """Replace phis by the operand the path selected."""
        d = dict(sl)
        for _ in range(12):
            hit = [p for p in t.phis if p in d and p not in d[p].phis and d[p] is not p]
            if not hit:
                break
            for p in hit:
                t = self._subst1(t, p, d[p])
        return t

    def _decide_sel(self, t, sl, facts):
        d = dict(sl)
        u = t
        for _ in range(4):
            hit = [p for p in u.phis if p in d and d[p] is not p]
            if not hit:
                break
            for p in hit:
                u = self._subst1(u, p, d[p])
        if u is t:
            return None
        k = self.decide(u, facts)
        if k is None:
            v, pol = self.norm_lit(u)
            if v is not u:
                k = self.decide(v, facts)
                if k is not None and not pol:
                    k = not k
        return k

    @staticmethod
    def norm_lit(u):
        if u.op == 'truth':
            return tm.literal(u.a[0], True)
        if u.op == 'cmp':
            return tm.literal(u, True)
        return u, True

    # -- loops ------------------------------------------------------------------
    def body_of(self, head):
        for n in self.order:
            if isinstance(n.note, tuple) and n.note[0] == 'loopbody' and n.note[1] is head:
                return n
        return None

    def _reach(self, start, stop=()):
        seen, stack = set(), [start]
        while stack:
            x = stack.pop()
            for s, lab in x.succ:
                if lab == 'exc' or s.id in seen or s.id in stop:
                    continue
                seen.add(s.id)
                stack.append(s)
        return seen

    def loop_of(self, node):
        """Innermost loop head whose body contains node."""
        best = None
        for h in self.order:
            if h.kind != 'loop':
                continue
            b = self.body_of(h)
            if b is None:
                continue
            body = self._reach(b, {h.id}) | {b.id}
            if node.id in body and h.id in self._reach(node):
                # node must come back to h without leaving through h's exit
                if best is None or len(body) < best[1]:
                    best = (h, len(body))
        return best[0] if best else None

    def body_traces(self, head, atoms, stop=(), **kw):
        return self.traces(atoms, start=self.body_of(head), stop={head.id} | {x.id for x in stop}, **kw)

    def loops(self, p):
        """Loop heads iterating over a term matching p: [(head, bodynode)]."""
        out = []
        for n in self.order:
            if n.kind != 'loop':
                continue
            if n.term is not None:
                t = self.val(n, n.term)
                if t.op == 'copy':
                    t = t.a[0]
                if pat(p).match(t, self.alts) is not None or (
                    t.op == 'call' and t.a[0].op == 'attr' and t.a[0].a[1] in ('items', 'keys', 'values')
                    and pat(p).match(t.a[0].a[0], self.alts) is not None
                ):
                    out.append(n)
        return out


class Trace:
    __slots__ = ('flow', 'atoms', 'end', 'st', 'parent')

    def __init__(self, flow, atoms, end, st, parent):
        self.flow, self.atoms, self.end, self.st, self.parent = flow, atoms, end, st, parent

    @property
    def node(self):
        """Where the trace ended."""
        return self.st[0]

    @property
    def ret(self):
        for x in self.atoms:
            if isinstance(x, tuple) and x[0] == '=':
                return x[1]
        return None

    def values(self, name):
        return [x[1] for x in self.atoms if isinstance(x, tuple) and x[0] == name]

    def __contains__(self, name):
        return name in self.atoms

    def count(self, name):
        return self.atoms.count(name)

    def before(self, a, b):
        """first a occurs before first b (both present)."""
        return a in self.atoms and b in self.atoms and self.atoms.index(a) < self.atoms.index(b)

    def path(self):
        """Branch decisions along one witness path, as 'file:line cond'."""
        out = []
        st = self.st
        while st is not None:
            pr = self.parent[st]
            if pr is None:
                break
            st, (n, lab) = pr
            if n.kind == 'branch':
                t = self.flow.val(n, n.term)
                out.append(f"{n.loc} {'' if lab == 'T' else 'not '}{tm.show(t)[:80]}")
            elif n.kind == 'loop' and n.term is not None and lab in ('iter', 'done'):
                out.append(f"{n.loc} loop {lab}")
            elif lab == 'exc' or (isinstance(lab, tuple) and lab[0] == 'raise'):
                out.append(f"{n.loc} raises")
            elif n.kind == 'ev' and n.ev.kind == 'return':
                out.append(f"{n.loc} return")
        out.reverse()
        return out[-14:]

    def __repr__(self):
        return f"<{self.end}: {' '.join(map(str, self.atoms))}>"
