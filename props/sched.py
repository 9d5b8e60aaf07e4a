"""Task scheduler, value level: what the decisions of S01-S06 are computed from.

The rules of props/task.py look at the order of events; these look at the values the events carry,
resolved along each path (which set a dependency is reduced by, which engine index is used, ...).
"""

import itertools

from ipa import terms as tm
from ipa.atoms import add, argof, call, either, lit, remove

TS = 'controller.task_scheduler:TaskScheduler.'
MOD = 'controller.task_scheduler:TaskScheduler'


# ------------------------------------------------------------------ helpers
def resolved(t, alts):
    """The term with every phi replaced by the operand this path selected (where it is known)."""
    fl = getattr(alts, 'flow', None)
    if fl is None:
        return t
    for _ in range(12):
        hit = False
        for p in list(t.phis):
            x = alts(p)
            if len(x) == 1 and x[0] is not p and p not in x[0].phis:
                t = fl._subst1(t, p, x[0])
                hit = True
        if not hit:
            break
    return t


def seen(kind, fn):
    """Atom: an effect of this kind whose (path-resolved) terms satisfy fn (statically: any alternative may)."""

    def atom(e, alts, b):
        if e.kind != kind:
            return None
        if getattr(alts, 'flow', None) is None:
            return {} if fn is True or any(isinstance(x, tm.T) and x.phis for x in e.a) or fn(*e.a) else None
        return {} if fn(*[resolved(x, alts) if isinstance(x, tm.T) else x for x in e.a]) else None

    atom.desc = f'{kind} …'
    return atom


def test(fn):
    """Atom: a branch literal (term, polarity) satisfying fn."""

    def atom(e, alts, b):
        return {} if e.kind == 'lit' and fn(*e.a) else None

    atom.lit = True
    atom.desc = 'test …'
    return atom


def attr_of(t, *names):
    return t.op == 'attr' and t.a[1] in names


def about(t, base, *names):
    """Does the term read base.<name> for one of the names?"""
    return tm.mentions(t, lambda x: x.op == 'attr' and x.a[1] in names and (base is None or (x.a[0].op == 'param' and x.a[0].a[0] == base)))


SETOPS = {'union': 'or', 'intersection': 'and', 'difference': 'sub', 'copy': 'id'}


def member(t, leaf, alts=None):
    """Is an arbitrary x in the set t?  leaf(term) answers for known sets; None when unknown."""
    k = leaf(t)
    if k is not None:
        return k
    if t.op == 'phi':
        ops = [o for o in (alts(t) if alts else ()) if o.op != 'phi']
        r = {member(o, leaf, alts) for o in ops}
        return r.pop() if len(r) == 1 else None
    if t.op == 'copy':
        return member(t.a[0], leaf, alts)
    if t.op == 'bin':
        op = {'|': 'or', '&': 'and', '-': 'sub', '^': 'xor'}.get(t.a[0])
        if op is None and t.a[0] == '+':
            op = 'or'
        return _comb(op, [member(t.a[1], leaf, alts), member(t.a[2], leaf, alts)]) if op else None
    if t.op == 'alloc' and t.a[1] in ('set', 'list', 'tuple') and not t.a[2]:
        return False
    if t.op == 'tup' and not t.a[0]:
        return False
    if t.op == 'comp' and t.a[0] in ('set', 'list', 'gen') and t.a[3] and t.a[2] is tm.elem(t.a[3][0]) and not t.a[4]:
        return member(t.a[3][0], leaf, alts)
    if t.op == 'call':
        f, args, kw = t.a
        if f.op == 'attr' and f.a[1] in SETOPS:
            return _comb(SETOPS[f.a[1]], [member(x, leaf, alts) for x in (f.a[0],) + tuple(args)])
        if f.op == 'glob' and f.a[0].rsplit('.', 1)[-1] in ('set', 'frozenset', 'list', 'tuple', 'sorted', 'Dependency', 'iter'):
            return member(args[0], leaf, alts) if args else False
        if f.op == 'glob' and f.a[0].rsplit('.', 1)[-1] in ('chain',):
            return _comb('or', [member(x, leaf, alts) for x in args])
    return None


def _comb(op, vs):
    if op == 'id':
        return vs[0]
    if op == 'or':
        return True if any(v is True for v in vs) else None if None in vs else False
    if op == 'and':
        return False if any(v is False for v in vs) else None if None in vs else True
    if op == 'sub':
        if vs[0] is False or any(v is True for v in vs[1:]):
            return False
        return None if None in vs else True
    if op == 'xor':
        return None if None in vs else (sum(vs) % 2 == 1)
    return None


def named(env):
    """leaf function: env maps the last attribute name to membership (`self.all_done` -> env['all_done'])."""

    def leaf(t):
        if t.op == 'attr' and t.a[1] in env:
            return env[t.a[1]]
        if t.op == 'attr' and t.a[1] == 'dependents' and 'after' in env and 'follow' in env:
            return env['after'] or env['follow']
        return None

    return leaf


def worlds(*names):
    for vs in itertools.product((False, True), repeat=len(names)):
        yield dict(zip(names, vs))


# ------------------------------------------------------------------ submission
def is_met(ck, t):
    """An empty dependency: Dependency([]) or a module constant so defined."""
    if t.op == 'call' and t.a[0].op == 'glob' and t.a[0].a[0].rsplit('.', 1)[-1] == 'Dependency':
        return not t.a[1] or member(t.a[1][0], lambda x: None) is False
    if t.op == 'glob':
        import ast

        g = ck.repo.modules['ipyparallel.controller.task_scheduler'].globals if 'ipyparallel.controller.task_scheduler' in ck.repo.modules else ck.repo.module('controller.task_scheduler').globals
        v = g.get(t.a[0].rsplit('.', 1)[-1])
        v = v[-1] if isinstance(v, list) and v else v
        v = getattr(v, 'value', v)
        if isinstance(v, ast.Call) and ast.unparse(v.func).split('.')[-1] == 'Dependency':
            return not v.args or (isinstance(v.args[0], (ast.List, ast.Tuple, ast.Set)) and not v.args[0].elts) or ast.unparse(v.args[0]) in ('set()', 'list()', '()')
    return False


def reductions(t, key):
    """Sets subtracted from Dependency(metadata[key]), outermost first; None when t is not built from it."""
    out = []
    for _ in range(6):
        if t.op == 'call' and t.a[0].op == 'glob' and t.a[0].a[0].rsplit('.', 1)[-1] == 'Dependency' and t.a[1]:
            x = t.a[1][0]
            if x.op in ('get', 'item') and x.a[1] is tm.const(key):
                return out
            if x.op == 'bool' and any(y.op in ('get', 'item') and y.a[1] is tm.const(key) for y in tm.subterms(x)):
                return out
            if x.op == 'phi' or (x.op == 'call' and x.a[0].op == 'attr' and x.a[0].a[1] == 'get' and x.a[1] and x.a[1][0] is tm.const(key)):
                return out
            if x.op == 'call' and x.a[0].op == 'attr' and x.a[0].a[1] == 'difference' and len(x.a[1]) == 1:
                out.append(x.a[1][0])
                t = x.a[0].a[0]
                continue
            if x.op == 'bin' and x.a[0] == '-':
                out.append(x.a[2])
                t = x.a[1]
                continue
        return None
    return None


def jobs(t):
    return t.op == 'call' and t.a[0].op == 'glob' and t.a[0].a[0].rsplit('.', 1)[-1] == 'Job'


JOB_ORDER = ('msg_id', 'raw_msg', 'idents', 'msg', 'header', 'metadata', 'targets', 'after', 'follow', 'timeout')


def job_arg(ck, t, name):
    f = ck.repo.func('controller.task_scheduler:Job.__init__')
    ps = [a.arg for a in f.node.args.args][1:]
    return argof(t, ps.index(name) if name in ps else None, name)


def submission_values(ck, names):
    fl = ck.F(TS + 'dispatch_submission', opaque=names)
    mid = "_['header']['msg_id']"

    def after_is(fn):
        return seen('call', lambda t: jobs(t) and (job_arg(ck, t, 'after') is not None) and fn(job_arg(ck, t, 'after')))

    def met_check(t, p):
        if not (t.op == 'truth' and p):
            return False
        c = t.a[0]
        return (c.op == 'call' and attr_of(c.a[0], 'check') and len(c.a[1]) == 2 and attr_of(c.a[1][0], 'all_completed') and attr_of(c.a[1][1], 'all_failed')
                and reductions(c.a[0].a[0], 'after') is not None)

    def no_after(t, p):
        return t.op == 'truth' and not p and (t.a[0].op == 'get' and t.a[0].a[1] is tm.const('after') or reductions(t.a[0], 'after') == [])

    atoms = dict(
        accept=add('self.all_ids', mid), job=seen('call', jobs), bad=seen('call', lambda t: jobs(t) and _bad_after(ck, job_arg(ck, t, 'after'))),
        empty=after_is(lambda a: is_met(ck, a)), built=after_is(lambda a: reductions(a, 'after') is not None),
        met=test(met_check), none=test(no_after),
        fail=call('self.fail_unreachable(*_)'), run=call('self.maybe_run(_)'), save=call('self.save_unmet(_)'),
        know=seen('call', lambda t: attr_of(t.a[0], 'difference') and t.a[1] and attr_of(t.a[1][0], 'all_ids')),
    )
    for t in fl.traces(atoms):
        ck.paths += 1
        if t.end != 'return' or 'job' not in t:
            continue
        ck.ok('dep.after-kept', 'empty' in t or 'built' in t, fl, 'the time dependency of a task is the one it was submitted with, less what is already satisfied', path=t.path())
        if 'empty' in t and 'built' not in t:
            ck.ok('dep.after-dropped', 'met' in t or 'none' in t, fl,
                  'a time dependency may be dropped only when there was none, or when it is met by the completed and failed tasks', path=t.path())
        ck.ok('dep.accept-first', all(t.before('accept', x) for x in ('fail', 'run', 'save', 'know') if x in t), fl,
              'a submission is known before anything is decided about it: other tasks may name it whatever becomes of it', path=t.path())
    for e in [x for x in fl.all_effects() if x.kind == 'call' and jobs(x.a[0])]:
        f = job_arg(ck, e.a[0], 'follow')
        ck.ok('dep.follow-kept', f is not None and reductions(f, 'follow') == [], e, 'the location dependency of a task is the one it was submitted with')
        tg = job_arg(ck, e.a[0], 'targets')
        ck.ok('dep.targets-kept', tg is not None and tm.mentions(tg, lambda x: x is tm.const('targets')), e, 'the targets of a task are those it was submitted with')
    # nothing is dropped silently
    drop = dict(accept=atoms['accept'], undecoded=_caught(), )
    ck.every('task.all-submissions-accepted', fl, drop, lambda t: 'accept' in t or 'undecoded' in t,
             'every submission that can be decoded is accepted')
    # both dependencies are validated, on every path that lets the task in
    tests = [e.a[0].a[0].a[0] for e in fl.all_effects() if e.kind == 'call' and attr_of(e.a[0].a[0], 'unreachable')]
    direct = [x for x in tests if x.op != 'elem']
    loops = [x for x in tests if x.op == 'elem']
    if direct and not loops:
        def which(t):
            for k in ('after', 'follow'):
                if reductions(t, k) is not None:
                    return k
            return None

        va = dict(job=seen('call', jobs), fail=atoms['fail'], run=atoms['run'], save=atoms['save'])
        for k in ('after', 'follow'):
            va['e' + k] = test(lambda t, p, k=k: t.op == 'truth' and not p and (which(t.a[0]) == k or (t.a[0].op == 'get' and t.a[0].a[1] is tm.const(k))))
            va['s' + k] = test(lambda t, p, k=k: t.op == 'cmp' and t.a[0] == 'in' and not p and which(t.a[2]) == k)
            va['i' + k] = test(lambda t, p, k=k: t.op == 'truth' and not p and t.a[0].op == 'call' and attr_of(t.a[0].a[0], 'difference') and which(t.a[0].a[0].a[0]) == k
                               and len(t.a[0].a[1]) == 1 and attr_of(t.a[0].a[1][0], 'all_ids'))
            va['u' + k] = test(lambda t, p, k=k: t.op == 'truth' and not p and t.a[0].op == 'call' and attr_of(t.a[0].a[0], 'unreachable') and which(t.a[0].a[0].a[0]) == k
                               and len(t.a[0].a[1]) == 2 and attr_of(t.a[0].a[1][0], 'all_completed') and attr_of(t.a[0].a[1][1], 'all_failed'))
        va['met'] = atoms['met']
        va['empty'] = atoms['empty']
        for t in fl.traces(va):
            ck.paths += 1
            if t.end != 'return' or 'fail' in t or not ('run' in t or 'save' in t):
                continue
            for k, txt in (('after', 'time'), ('follow', 'location')):
                good = 'e' + k in t or ('u' + k in t and 'i' + k in t and 's' + k in t) or (k == 'after' and 'empty' in t)
                ck.ok('dep.validated', good, fl, f'a task enters only after its {txt} dependency was found to name other known tasks and to be possible', path=t.path())


def _bad_after(ck, a):
    return a is not None and not is_met(ck, a) and reductions(a, 'after') is None


def _caught():
    from ipa.atoms import caught

    return caught('Exception', 'ValueError', 'KeyError', 'TypeError', 'BaseException', 'DelimiterNotFound')


# ------------------------------------------------------------------ choosing an engine
def no_engine(ck, names):
    """maybe_run, no eligible engine: the task fails exactly when no engine can ever be eligible."""
    fl = ck.F(TS + 'maybe_run', opaque=names)

    def spanned(t):
        """destinations[m] with m taken from a set: that set"""
        return t.op in ('item', 'get') and attr_of(t.a[0], 'destinations') and t.a[1].op == 'elem' and t.a[1].a[0] or None

    dests = [e for e in fl.all_effects() if e.kind in ('add', 'comp_elt') and any(isinstance(x, tm.T) and spanned(x) is not None for x in e.a)]
    comps = [x for t in fl.lit_count for x in tm.subterms(t) if x.op == 'comp' and spanned(x.a[2]) is not None]
    if not comps:
        for e in fl.all_effects():
            if e.kind == 'call':
                comps += [x for x in tm.subterms(e.a[0]) if x.op == 'comp' and spanned(x.a[2]) is not None]
    ck.ok('dep.follow-span', bool(dests or comps), fl, 'the engines that ran the tasks followed must be collected')

    def flag(name, pol):
        return test(lambda t, p: t.op == 'truth' and p == pol and attr_of(t.a[0], name) and attr_of(t.a[0].a[0], 'follow'))

    def exact(s, f):
        """collected from follow & (completed if success) | (failed if failure)"""

        def fn(*a):
            srcs = [spanned(y) for x in a if isinstance(x, tm.T) for y in tm.subterms(x) if spanned(y) is not None]
            for d in srcs:
                for w in worlds('follow', 'all_completed', 'all_failed'):
                    got = member(d, named(w))
                    want = w['follow'] and ((s and w['all_completed']) or (f and w['all_failed']))
                    if got is not None and got != want:
                        return False
            return bool(srcs)

        return fn

    kind = 'add' if dests and dests[0].kind == 'add' else 'comp_elt' if dests else 'call'
    atoms = dict(s=flag('success', True), ns=flag('success', False), f=flag('failure', True), nf=flag('failure', False))
    for s, f in ((True, True), (True, False), (False, True)):
        atoms[f'x{int(s)}{int(f)}'] = seen(kind, exact(s, f))
    atoms['any'] = seen(kind, lambda *a: any(spanned(y) is not None for x in a if isinstance(x, tm.T) for y in tm.subterms(x)))
    for t in fl.traces(atoms):
        ck.paths += 1
        if 'any' not in t or not ({'s', 'ns'} & set(t.atoms)) or not ({'f', 'nf'} & set(t.atoms)):
            continue
        s, f = 's' in t, 'f' in t
        if not (s or f):
            continue
        ck.ok('dep.follow-span', f'x{int(s)}{int(f)}' in t, fl,
              f'with success={s}, failure={f} the engines compared are those of the followed tasks that {"completed" if s else ""}{" or " if s and f else ""}{"failed" if f else ""}', path=t.path())
    # failing: exactly when the followed tasks span engines, or no target can take it
    fa = dict(
        fail=call('self.fail_unreachable(*_)'), sub=call('self.submit_task(*_)'),
        none=lit('not self.available_engines()'),
        tg=lit('job.targets'),
        notg=lit('not job.targets'),
        black=test(lambda t, p: about(t, 'job', 'targets') and about(t, 'job', 'blacklist')),
        alive=test(lambda t, p: about(t, 'job', 'targets') and about(t, 'self', 'targets') and _positive(t, p)),
        dead=test(lambda t, p: about(t, 'job', 'targets') and about(t, 'self', 'targets') and not _positive(t, p)),
        minus=either(remove('job.targets'), add('job.targets')),
        many=lit('1 < len(_)'), few=lit('not 1 < len(_)'), all=lit('job.follow.all'), any=lit('not job.follow.all'),
    )
    for t in fl.traces(fa):
        ck.paths += 1
        if t.end != 'return' or 'sub' in t or 'none' in t:
            continue
        if 'fail' in t:
            ck.ok('dep.fail-only-impossible', ('many' in t and 'all' in t) or ('dead' in t and 'many' not in t) or ('tg' in t and ('notg' in t or 'black' in t)), fl,
                  'a task is failed for lack of an engine only if what it follows spans engines or none of its targets is left', path=t.path())
        else:
            ck.ok('dep.impossible-detected', 'any' in t or 'few' in t, fl, 'an all-mode location dependency spanning engines must be recognised', path=t.path())
            if 'tg' in t:
                ck.ok('dep.targets-impossible', 'alive' in t and ('minus' in t or 'black' in t), fl,
                      'a task with targets keeps waiting only while a target that has not refused it is still there', path=t.path())


def _positive(t, p):
    """Does this literal say that job.targets and self.targets intersect?"""
    if t.op == 'truth' and t.a[0].op == 'call' and attr_of(t.a[0].a[0], 'isdisjoint'):
        return not p
    return p


# ------------------------------------------------------------------ the dependency graph
def unlinked(ck, names):
    """A task that stops waiting is taken out of the graph under each of its dependencies."""
    ug = ck.F(TS + 'update_graph', opaque=names)
    # a lookup that tolerates ids that are no longer waiting needs no unlinking
    need = True
    for e in ug.all_effects():
        for x in e.a:
            if not isinstance(x, tm.T):
                continue
            for c in tm.subterms(x):
                if c.op == 'comp' and tm.mentions(c.a[2], lambda y: attr_of(y, 'queue_map')):
                    if any(l.op == 'cmp' and l.a[0] == 'in' and p and attr_of(l.a[2], 'queue_map') for l, p in ug.comp_guards(c)):
                        need = False
    fu = ck.F(TS + 'fail_unreachable', opaque=names)
    for fl, gone, when in ((fu, remove('self.queue_map', 'msg_id'), 'failed'), (ug, lit('self.maybe_run(_)'), 'ran')):
        cut = [e for e in fl.all_effects() if e.kind == 'remove' and e.a[-1] in ('remove', 'discard') and e.a[0].op in ('item', 'get') and attr_of(e.a[0].a[0], 'graph')]
        if not need and not cut:
            continue
        ck.ok('dep.unlinked', bool(cut), fl, f'a task that {when} must be taken out of the dependency graph')
        for e in cut:
            d = e.a[0].a[1]
            ck.ok('dep.unlinked', d.op == 'elem', e, 'it is unlinked from each of its dependencies')
            if d.op != 'elem':
                continue
            for w in worlds('after', 'follow'):
                got = member(d.a[0], named(w))
                ck.ok('dep.unlinked', got is None or got >= (w['after'] or w['follow']), e, f'it must be unlinked from both its time and its location dependencies (misses one that is {w})')
            h = fl.loop_of(e.node)
            if h is None:
                continue
            ba = dict(cut=lambda x, a, b, e=e: {} if x is e else None, inn=lit('_ in self.graph'), out=lit('_ not in self.graph'))
            for t in fl.body_traces(h, ba):
                ck.paths += 1
                ck.ok('dep.unlinked', 'cut' in t or ('out' in t and 'inn' not in t) or t.end in ('raise', 'exc'), e, 'every dependency still tracked is unlinked', path=t.path())
                ck.ok('dep.unlinked', t.end != 'return', e, 'unlinking must not stop early', path=t.path())
            over = _done(h)
            ck.every('dep.unlinked', fl, dict(gone=gone, over=over), lambda t: 'gone' not in t or 'over' in t, f'a task that {when} must be taken out of the dependency graph')


def _done(h):
    def f(e, a, b):
        return {} if e.kind in ('done', 'iter') and e.node is h else None

    f.edge = True
    f.desc = 'loop'
    return f


def linked(ck, names):
    su = ck.F(TS + 'save_unmet', opaque=names)
    for e, b in su.find(add('self.graph[_d]', 'job.msg_id')):
        d = e.a[0].a[1]
        if d.op != 'elem':
            continue
        for w in worlds('after', 'follow', 'all_done'):
            got = member(d.a[0], named(w))
            if w['all_done'] or got is None:
                continue
            ck.ok('task.graph-linked', got >= (w['after'] or w['follow']), e, f'every unfinished dependency must be linked (misses one that is {w})')
        h = su.loop_of(e.node)
        if h is not None:
            for t in su.body_traces(h, dict(link=lambda x, a, b, e=e: {} if x is e else None, fin=lit('_ in any_of(self.all_done, self.all_completed, self.all_failed)'))):
                ck.paths += 1
                if t.end in ('stop', 'return'):
                    ck.ok('task.graph-linked', t.end == 'stop' and ('link' in t or 'fin' in t), e, 'every unfinished dependency must be linked', path=t.path())


# ------------------------------------------------------------------ the engine that gets the task
def handover(ck):
    st = ck.F(TS + 'submit_task', opaque=('add_job',))

    def eng(t):
        """index term of self.targets[index]"""
        if t.op == 'item' and attr_of(t.a[0], 'targets'):
            return t.a[1]
        return None

    def scheme(t):
        return t.op == 'call' and attr_of(t.a[0], 'scheme') and len(t.a[1]) == 1

    def good(i):
        """a valid choice: scheme(all loads), or selection[scheme(loads of the selection)]"""
        if scheme(i):
            x = i.a[1][0]
            return 'all' if attr_of(x, 'loads') or x.op == 'copy' and attr_of(x.a[0], 'loads') else None
        if i.op == 'item' and scheme(i.a[1]):
            x = i.a[1].a[1][0]
            if x.op == 'comp' and tm.mentions(x.a[2], lambda y: attr_of(y, 'loads')) and tm.mentions(x.a[2], lambda y: y is tm.elem(i.a[0])):
                return 'sel'
            if x.op in ('alloc', 'copy') or x.op == 'call' and x.a[0].op == 'glob':
                return 'sel'  # collected by a loop; covered by load.selected-loads
        return None

    def sent(t):
        if not (attr_of(t.a[0], 'send', 'send_multipart') and attr_of(t.a[0].a[0], 'engine_stream')) or not t.a[1]:
            return None
        for x in tm.subterms(t.a[1][0]):
            if eng(x) is not None:
                return eng(x)
        return None

    def told(t):
        if attr_of(t.a[0], 'send') and len(t.a[1]) > 1 and t.a[1][1] is tm.const('task_destination'):
            for x in tm.subterms(argof(t, 2, 'content') or tm.NONE):
                if eng(x) is not None:
                    return eng(x)
        return None

    def counted(t):
        return t.a[1][0] if attr_of(t.a[0], 'add_job') and t.a[1] else None

    def held(c, k=None, v=None, *r):
        return eng(c.a[1]) if c.op in ('item', 'get') and attr_of(c.a[0], 'pending') else None

    atoms = dict(ind=lit('indices'), nind=lit('not indices'), isnone=lit('indices is None'), notnone=lit('indices is not None'))
    for nm, kind, fn in (('sent', 'call', sent), ('told', 'call', told), ('counted', 'call', counted), ('held', 'add', held)):
        atoms[nm] = seen(kind, lambda *a, fn=fn: fn(*a) is not None)
        atoms[nm + 'all'] = seen(kind, lambda *a, fn=fn: fn(*a) is not None and good(fn(*a)) == 'all')
        atoms[nm + 'sel'] = seen(kind, lambda *a, fn=fn: fn(*a) is not None and good(fn(*a)) == 'sel')
    for t in st.traces(atoms):
        ck.paths += 1
        if t.end != 'return':
            continue
        for nm, txt in (('sent', 'sent to'), ('held', 'recorded as pending on'), ('told', 'reported as given to'), ('counted', 'counted on')):
            if nm not in t:
                continue
            want = 'sel' if ('ind' in t and 'nind' not in t) else 'all' if ('nind' in t and 'ind' not in t) else None
            if want is None:
                continue
            ck.ok('load.chosen-engine', nm + want in t, st,
                  f'the task must be {txt} the engine the scheme chose among the {"eligible" if want == "sel" else "available"} ones', path=t.path())


# ------------------------------------------------------------------ coming back
def refused(ck, names):
    hu = ck.F(TS + 'handle_unmet_dependency', opaque=names)

    def exhausted(t, p):
        return about(t, None, 'blacklist') and about(t, None, 'targets') and tm.mentions(
            t, lambda x: attr_of(x, 'targets') and not (x.a[0].op == 'param' and x.a[0].a[0] == 'self'))

    ck.every('retry.fails-only-exhausted', hu, dict(fail=call('self.fail_unreachable(*_)'), ex=test(exhausted)),
             lambda t: 'fail' not in t or 'ex' in t, 'a returned task is failed at once only when all the targets it named have refused it')


# ------------------------------------------------------------------ rescan
def rescan(ck, names):
    ug = ck.F(TS + 'update_graph', opaque=names)
    take = [e for e in ug.all_effects() if e.kind == 'remove' and e.a[-1] in ('popleft', 'pop') and e.a[0].op in ('phi', 'attr', 'copy', 'call')
            and ug.match('any_of(self.queue, has(self.queue))', e.a[0]) is not None]
    if not take:
        return
    h = ug.loop_of(take[0].node)
    dead = test(lambda t, p: p and t.op == 'truth' and t.a[0].op == 'call' and attr_of(t.a[0].a[0], 'unreachable') and attr_of(t.a[0].a[0].a[0], 'after', 'follow'))
    atoms = dict(skip=lit('_.removed'), fail=call('self.fail_unreachable(_.msg_id)'), tried=call('self.maybe_run(_)'), dead=dead,
                 met=lit('_.after.check(self.all_completed, self.all_failed)'), full=lit('not self.available_engines()'))
    trs = ug.traces(atoms, start=take[0].node, stop={take[0].node.id})
    for t in trs:
        ck.paths += 1
        if t.end in ('raise', 'exc'):
            continue
        if 'skip' in t:
            ck.ok('dep.scan-skip', t.end == 'stop' or not ({'fail', 'tried'} & set(t.atoms)), ug, 'a deleted entry is passed over', path=t.path())
            continue
        ck.ok('dep.scan-fails-only-dead', 'fail' not in t or 'dead' in t, ug, 'a waiting task is failed only when a dependency became impossible', path=t.path())
        ck.ok('dep.scan-tries-ready', not ('met' in t and 'dead' not in t) or 'tried' in t, ug, 'a waiting task whose time dependencies are met is tried', path=t.path())
    # leaving the walk early: only when no engine is left to try
    if h is not None:
        for t in ug.body_traces(h, dict(full=atoms['full'])):
            ck.paths += 1
            ck.ok('dep.scan-stops-only-full', t.end != 'return' or 'full' in t, ug, 'the walk over waiting tasks stops early only when every engine is full', path=t.path())
    # the derived list: every dependent of the finished task, oldest first
    der = [c for e in ug.all_effects() for x in e.a if isinstance(x, tm.T) for c in tm.subterms(x) if c.op == 'comp' and tm.mentions(c.a[2], lambda y: attr_of(y, 'queue_map'))]
    for c in der[:1]:
        gs = ug.comp_guards(c)
        ck.ok('dep.release-all', all(l.op == 'cmp' and l.a[0] == 'in' and p and attr_of(l.a[2], 'queue_map') for l, p in gs), ug, f'every dependent of the finished task is looked at again (filtered by {gs})')
        ck.ok('dep.release-all', tm.mentions(c.a[3][0], lambda y: attr_of(y, 'graph')), ug, 'the tasks looked at are the dependents recorded in the graph')
