"""Engines, by value: what is reported, what is aborted, how long the engine is watched."""

import ast

from ipa import terms as tm
from ipa.terms import T

from .client import _lit
from .common import broad_handlers, call, caught, ret
from .dbval import operands
from .sched import resolved


def only(fl, pattern, t):
    """Every alternative of a value is that, or empty."""
    return all(x.op == 'const' and not x.a[0] or fl.match(pattern, x) is not None for x in operands(fl, t)) and any(fl.match(pattern, x) is not None for x in operands(fl, t))


def handlers_of(node, *excs):
    """Labels of the handler that an exception of one of these types first reaches."""
    seen, stack = set(), [s for s, lab in node.succ if lab == 'exc']
    while stack:
        x = stack.pop()
        if x.id in seen or x.kind == 'exc_exit':
            continue
        seen.add(x.id)
        if x.kind == 'dispatch':
            for s, lab in x.succ:
                if isinstance(lab, tuple) and lab[0] == 'except':
                    names = [n.rsplit('.', 1)[-1] for n in lab[1]] if lab[1] else []
                    if not names or any(n in names for n in (*excs, 'Exception', 'BaseException')):
                        return names
                elif lab == 'uncaught' or s.kind == 'dispatch':
                    stack.append(s)
            continue
        stack.extend(s for s, lab in x.succ if lab != 'exc')
    return None


# ------------------------------------------------------------------ E01
def temporaries(ck, da, rm):
    """A temporary variable that user code removed already does not turn a result into an error."""
    for e in rm:
        src = [c.a[0] for c in da.all_effects() if c.kind == 'call' and c.node is e.node]
        if any(len(c.a[1]) > 1 or c.a[2] for c in src if c.op == 'call'):
            continue
        g = da.guards().get(e.node.id, ())
        if any(p and t.op == 'cmp' and t.a[0] == 'in' and t.a[1] is e.a[1] for t, p in g):
            continue
        hs = handlers_of(e.node, 'KeyError', 'LookupError')
        ck.ok('apply.temporaries', hs is None or bool(hs) and 'BaseException' not in hs, e, 'a temporary variable that is gone already is no error of the request')


def errors(ck, da, ks, path):
    for v in ks.get('ename', ()):
        for x in operands(da, v):
            while x.op == 'call' and x.a[0].op == 'glob' and x.a[0].a[0] == 'str' and len(x.a[1]) == 1:
                x = x.a[1][0]
            ok = x.op == 'attr' and x.a[1] == '__name__' and (da.match('any_of(type(_), _.__class__)', x.a[0]) is not None or x.a[0].op == 'item' and tm.mentions(x.a[0], lambda y: y.op == 'attr' and y.a[1] == 'exc_info'))
            ck.ok('apply.error-content', ok or x.op not in ('attr', 'const'), da, 'the error is named after the exception type', path=path)
    puts = [e for e in da.all_effects() if e.kind == 'add' and e.a[1] is tm.const('traceback')]
    for v in ks.get('traceback', ()):
        for x in [v] if v.op != 'phi' else da.alts(v):
            if x.op != 'attr':
                continue
            at = [e for e in puts if e.a[2] is x]
            safe = at and all(any((p if t.op == 'truth' else not p if t.op == 'isnone' else False) and t.a[0] is x for t, p in da.guards().get(e.node.id, ())) for e in at)
            ck.ok('apply.error-content', bool(safe), da, 'the traceback of an error is a list, also when none was recorded', path=path)


def fresh(ck, da, SER):
    """A traceback is that of this request: what was recorded before is forgotten."""
    uses = [e for e in da.all_effects() for x in e.a if isinstance(x, T) and e.kind == 'add' and tm.mentions(x, lambda y: y.op == 'attr' and y.a[1] == '_last_traceback')]
    if not uses:
        return
    at = dict(clear=lambda e, a, b: {} if e.kind == 'store' and e.a[1] == '_last_traceback' and e.a[2].op in ('const', 'alloc') else {} if e.kind == 'delattr' and e.a[1] == '_last_traceback' else None, use=lambda e, a, b: {} if e in uses else None)
    at['clear'].desc, at['use'].desc = 'forget', 'report'
    for t in da.traces(at, exc='handled'):
        ck.ok('apply.error-content', t.end != 'return' or 'use' not in t or 'clear' in t, da, 'the traceback of an error is not one of an earlier request', path=t.path())


def aborted(ck, sh, REP):
    """A reply that is a coroutine is run."""
    AW = ('isawaitable', 'iscoroutine', 'isfuture')
    subj = [e.a[0] for e, b in sh.find(REP)]
    runs = [e for e in sh.all_effects() if e.kind == 'call' and e.a[0].op == 'call' and any(x in subj for x in e.a[0].a[1]) and e.a[0].a[0].op in ('glob', 'attr') and str(e.a[0].a[0].a[0] if e.a[0].a[0].op == 'glob' else e.a[0].a[0].a[1]).rsplit('.', 1)[-1] in ('ensure_future', 'create_task', 'add_future', 'run_coroutine_threadsafe')]
    if not ck.ok('abort.handled', bool(runs), sh, 'the reply to an aborted request is sent also when sending is asynchronous'):
        return
    for e in runs:
        for t, p in sh.guards().get(e.node.id, ()):
            if t in subj or not any(tm.mentions(t, lambda y, s=s: y is s) for s in subj):
                continue
            x = t.a[0]
            ok = p and t.op == 'truth' and x.op == 'call' and x.a[0].op == 'glob' and (x.a[0].a[0].rsplit('.', 1)[-1] in AW or x.a[0].a[0] in ('isinstance', 'hasattr')) or t.op == 'isnone' and not p or t.op == 'truth' and x in subj and p
            ck.ok('abort.handled', ok, e, 'the reply to an aborted request is sent also when sending is asynchronous')


def aborting(ck, ab, marks, rep, ids):
    """One id may be given as it is; ids are marked before the reply."""
    at = dict(rep=rep, mark=lambda e, a, b: {} if e in marks else None)
    at['mark'].desc = 'remember'
    heads = [h for h in [ab.loop_of(e.node) for e in marks] if h is not None]

    def done(e, a, b):
        return {} if e.kind == 'done' and e.node in heads else None
    done.edge, done.desc = True, 'remembered'
    at['done'] = done

    def single(t, al, depth=0):
        """Whether the ids as they were sent are taken for a list of them."""
        t = resolved(t, al)
        if t.op in ('bool',) and depth < 4:
            return any(single(x, al, depth + 1) for x in t.a[1])
        if t.op == 'copy':
            return single(t.a[0], al, depth + 1)
        return t.op not in ('alloc', 'tup', 'phi', 'const', 'comp') and ab.match(ids, t) is not None

    def raw(e, al, b):
        return {} if e.kind == 'iter' and e.node in heads and single(ab.val(e.node, e.node.term), al) else None
    raw.edge, raw.desc = True, 'ids as sent'
    nstr = _lit(lambda t: t.op == 'truth' and ab.match('isinstance(_, *_)', t.a[0]) is not None and tm.mentions(t.a[0].a[1][1], lambda y: y.op == 'glob' and y.a[0] in ('str', 'bytes')), False)
    yes = _lit(lambda t: t.op == 'truth' and ab.match('isinstance(_, *_)', t.a[0]) is not None and tm.mentions(t.a[0].a[1][1], lambda y: y.op == 'glob' and y.a[0] in ('list', 'tuple', 'set')), True)
    ck.every('abort.marks', ab, dict(at, raw=raw, nstr=nstr, yes=yes), lambda t: 'raw' not in t or 'nstr' in t or 'yes' in t, 'an id that is given alone is one id')
    ck.every('abort.reply', ab, at, lambda t: 'rep' not in t or not any(k in t.atoms[t.atoms.index('rep'):] for k in ('mark', 'done')), 'requests are marked as aborted before that is confirmed')


# ------------------------------------------------------------------ E02
def requested(ck, cr):
    """The id that was asked for is not the id that was assigned: it is compared and reported, nothing else."""
    fn = cr.func.node
    stores = [n.lineno for n in ast.walk(fn) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == 'id' and isinstance(n.value, ast.Name) and n.value.id == 'self']
    if not stores:
        return
    first = min(stores)
    old = {t.id for n in ast.walk(fn) if isinstance(n, ast.Assign) and n.lineno < first for t in n.targets if isinstance(t, ast.Name) and isinstance(n.value, ast.Attribute) and n.value.attr == 'id' and isinstance(n.value.value, ast.Name) and n.value.value.id == 'self'}

    def bad(n, fine):
        if isinstance(n, ast.Compare):
            fine = True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and ast.unparse(n.func.value).endswith('log'):
            fine = True
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in old and not fine:
            yield n
        for c in ast.iter_child_nodes(n):
            yield from bad(c, fine)
    for n in bad(fn, False):
        ck.ok('complete', False, cr, f'the engine uses the id it was assigned, not the one it asked for (line {n.lineno})')


def exact(t):
    return not any(y.op in ('bool', 'phi', 'ifexp') for y in tm.subterms(t))


# ------------------------------------------------------------------ E03
def watching(ck, wt):
    w = call('self.parent_process.wait(*_)')
    run = _lit(lambda t: tm.mentions(t, lambda y: y.op == 'attr' and y.a[1] in ('is_running', 'pid_exists', 'status')), True)
    for t in wt.traces(dict(w=w, tick=caught('TimeoutExpired'), run=run), cap=3, exc='handled'):
        seq = [x for x in t.atoms if x in ('w', 'tick', 'run')]
        twice = any(a == b == 'w' for a, b in zip(seq, seq[1:]))
        ck.ok('exit.noticed', not twice, wt, 'a wait that ends is the end of the engine, whatever its status', path=t.path())


def closed(ck, ph):
    for e in ph.all_effects():
        if e.kind == 'call' and ph.match('self.parent_process.status(*_)', e.a[0]) is not None:
            ck.ok('exit.noticed', handlers_of(e.node, 'NoSuchProcess', 'Error') is not None, e, 'an engine that is gone already is no obstacle')


def exiting(ck, names, NM):
    mn = ck.F(NM + 'main', opaque=names)
    for e in mn.all_effects():
        if e.kind == 'call' and e.a[0].op == 'call' and e.a[0].a[0].op == 'attr' and e.a[0].a[0].a[1] == 'destroy':
            v = dict(e.a[0].a[2]).get('linger', e.a[0].a[1][0] if e.a[0].a[1] else None)
            ck.ok('exit.report', v is None or v is tm.NONE or v.op == 'const' and v.a[0] != 0, e, 'the report is not dropped when the nanny exits')


def confirmed(ck, sr):
    at = dict(s=call('_.send_signal(*_)'))
    for t in sr.traces(at, exc='handled', retval=True):
        ck.ok('signal', t.end != 'return' or 's' in t, sr, 'a signal that could not be sent is not confirmed', path=t.path())


def kept(ck, cr, NANNY):
    """The process of the nanny is kept: its pipe is what tells it that the engine is there."""
    if not cr.find(call(NANNY)):
        return
    held = [e for e in cr.all_effects() if e.kind == 'store' and isinstance(e.a[2], T) and (cr.match(f'{NANNY}[1]', e.a[2]) is not None or cr.match(NANNY, e.a[2]) is not None) and cr.match('self', e.a[0]) is not None]
    ck.ok('complete.nanny', bool(held), cr, 'the pipe to the nanny stays open as long as the engine')
    for e in held:
        again = [x for x in cr.all_effects() if x.kind == 'store' and x.a[0] is e.a[0] and x.a[1] == e.a[1] and x is not e and x.a[2] is tm.NONE]
        for x in again:
            ck.every('complete.nanny', cr, dict(k=lambda ev, a, b: {} if ev is e else None, x=lambda ev, a, b: {} if ev is x else None), lambda t: not t.before('k', 'x'), 'the pipe to the nanny stays open as long as the engine')
