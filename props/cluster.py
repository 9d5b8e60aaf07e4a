"""Clusters: starting, stopping, and the record of what runs."""

import ast
import fnmatch

from ipa import terms as tm

from . import fold
from .client import leaves
from .common import add, argof, awaited, call, is_eff, keyed, lit, prop, raises, remove, store

C = 'cluster.cluster:Cluster'
CM = 'cluster.cluster:ClusterManager'
U = fold.UNKNOWN


def attempt(p):
    a = call(p)
    a.attempt = True
    return a


def op(at, k, p):
    """Atoms for an operation that may be a coroutine: started, awaited, known not to be one."""
    at[k] = call(p)
    at[k + '_w'] = awaited(p)
    at[k + '_n'] = lit(f'not inspect.isawaitable({p})')


def settled(t, k):
    return t.count(k) == 1 and (k + '_w' in t or k + '_n' in t)


@prop('L01', 80)
def l01(ck):
    names = ck.names(C) + ck.names(CM)
    start(ck, names)
    stop(ck, names)
    contexts(ck, names)
    record(ck, names)
    restore(ck, names)
    manager(ck, names)
    clean(ck)
    app(ck)


# ---------------------------------------------------------------- starting


def start(ck, names):
    fl = ck.F(C + '.start_controller', opaque=names)
    MAKE = 'self.controller_launcher_class(*_, **_)'
    CT = f'any_of(self.controller, {MAKE})'
    at = dict(make=call(MAKE), keep=store('self.controller', MAKE), on=call(f'{CT}.on_stop(self._controller_stopped)'), up=call('self.update_cluster_file()'), exit_=call('atexit.register(_)'), reg=call('_._atexit_clusters.add(self)'), reg2=call('_atexit_clusters.add(self)'), reg3=call('ipyparallel.cluster.cluster._atexit_clusters.add(self)'))
    op(at, 'start', CT + '.start()')
    for cur in (None, True):
        for ae in (True, False):
            leaf = fold.leaves(fl, [('self.controller', None if cur is None else fold.Rec()), ('self.shutdown_atexit', ae)])
            for t in fold.cases(fl, leaf, at):
                if t.end == 'return':
                    ok = ck.ok('controller', cur is None, fl, 'a cluster has one controller at most', path=t.path())
                    ok = ok and ck.ok('controller', t.count('make') == t.count('keep') == 1 and settled(t, 'start') and t.before('keep', 'start'), fl, 'a controller is started, once, by a launcher that is remembered', path=t.path())
                    ok = ok and ck.ok('controller', t.count('on') == 1 and t.before('on', 'start'), fl, 'the end of a controller is noticed, however early', path=t.path())
                    ok = ok and ck.ok('controller', 'up' in t and last(t, 'start', 'up') and last(t, 'start_w', 'up'), fl, 'the cluster file tells of the controller once it runs', path=t.path())
                    ok = ok and ck.ok('atexit', bool(t.count('reg') + t.count('reg2') + t.count('reg3')) == ae, fl, 'a cluster is stopped at exit exactly if it is to be', path=t.path())
                elif t.end == 'raise':
                    ck.ok('controller', cur is not None and not t.count('make') + t.count('start'), fl, 'a controller is only refused if there is one', path=t.path())
    for e, b in fl.find(at['make']):
        launched(ck, fl, e)
    # what the controller is told
    told = {}
    for e in fl.all_effects():
        vs = list(e.a[0].a[1]) if e.kind == 'call' else [e.a[2]] if e.kind == 'add' and e.a[2] is not None else []
        for v in vs:
            for k, p in (('ip', 'self.controller_ip'), ('location', 'self.controller_location'), ('args', 'self.controller_args')):
                if not (e.kind == 'call' and fl.match('_.format(*_)', e.a[0]) is not None) and tm.mentions(v, lambda y, p=p: fl.match(p, y) is not None):
                    told.setdefault(k, []).append((e, v))
    for k, flag in (('ip', '--ip='), ('location', '--location=')):
        ck.ok('args', k in told, fl, f'a controller is told its {k}')
        for e, v in told.get(k, ()):
            for leaf in (fold.leaves(fl, [('self.controller_' + k, 'X')]),):
                got = [fold.fold(x, leaf) for x in tm.subterms(v)]
                good = [x for x in got if x is not U and isinstance(x, str) and x.endswith('X') and x != 'X']
                ck.ok('args', not good or flag + 'X' in good, e, f'a controller is told its {k} as {good}')
    ck.ok('args', 'args' in told, fl, 'a controller gets the arguments that were given')
    for e, b in fl.find(store(f'{CT}.controller_args', '_v')):
        own = lambda y: fl.match(f'any_of({MAKE}.controller_args, self.controller.controller_args)', y) is not None  # noqa: E731
        v = e.a[2]
        while v.op == 'copy':
            v = v.a[0]
        ck.ok('args', all(x.op != 'alloc' or _made(fl, x, own) for x in leaves(fl, v)), e, 'a controller keeps the arguments that its launcher has')
    for t in fl.traces(dict(put=store(f'{CT}.controller_args'), start=call(CT + '.start()'), has=lit(f'not ({MAKE}.controller_args is None)'))):
        if t.end == 'return' and 'has' in t:
            ck.ok('args', 'put' in t and t.before('put', 'start'), fl, 'a controller gets its arguments before it is started', path=t.path())
    # engines
    fl = ck.F(C + '.start_engines', opaque=names)
    ES = 'self.engine_launcher_class(*_, **_)'
    ID = 'any_of(engine_set_id, self._new_engine_set_id())'
    SET = f'any_of({ES}, self.engines[{ID}])'
    at = dict(make=call(ES), keep=add('self.engines', ID, ES), on=call(f'{SET}.on_stop(_)'), up=call('self.update_cluster_file()'), env=add(f'{SET}.environment', "'IPP_CONNECTION_INFO'"), env2=call(f'{SET}.environment.update(*_, **_)'), info=awaited('self.controller.get_connection_info(*_)'))
    op(at, 'start', SET + '.start(_)')
    for send in (True, False):
        for have in (True, False):
            leaf = fold.leaves(fl, [('self.controller', fold.Rec() if have else None), ('self.send_engines_connection_env', send)])
            for t in fold.cases(fl, leaf, at):
                if t.end != 'return':
                    continue
                ok = ck.ok('engines', t.count('make') == t.count('keep') == 1 and settled(t, 'start') and t.before('keep', 'start'), fl, 'engines are started, once, by a launcher that is remembered', path=t.path())
                ok = ok and ck.ok('engines', t.count('on') == 1, fl, 'the end of engines is noticed', path=t.path())
                ok = ok and ck.ok('engines', 'up' in t and last(t, 'start', 'up') and last(t, 'start_w', 'up'), fl, 'the cluster file tells of the engines once they run', path=t.path())
                ok = ok and ck.ok('engines.env', t.count('env') + t.count('env2') == (send and have) and (not (send and have) or 'info' in t and (t.before('env', 'start') or t.before('env2', 'start'))), fl, 'engines are told how to connect, before they are started, exactly if that is asked for', path=t.path())
                ck.ok('engines', t.ret is None or all(fl.match(ID, x) is not None for x in leaves(fl, t.ret)), fl, 'the id of the engine set is returned', path=t.path()) if ok else None
    for e, b in fl.find(at['make']):
        kw = launched(ck, fl, e)
        if kw is not None:
            ck.ok('engines', 'engine_set_id' in kw and fl.match(ID, kw['engine_set_id']) is not None, e, 'engines know the id of their set')
    for e, b in fl.find(at['on']):
        x = e.a[0].a[1][0]
        ck.ok('engines', fl.match('any_of(functools.partial(self._engines_stopped, _), functools.partial(self._engines_stopped, engine_set_id=_))', x) is None or fl.match(f'any_of(functools.partial(self._engines_stopped, {ID}), functools.partial(self._engines_stopped, engine_set_id={ID}))', x) is not None, e, 'the end of engines is noticed with the id of their set')
    # (getattr with a default reads as the attribute: what the default is, is a matter of its own)
    GET = lambda e: e.a[0].a[1][2] if e.kind == 'call' and e.a[0].op == 'call' and e.a[0].a[0].op == 'glob' and e.a[0].a[0].a[0] == 'getattr' and len(e.a[0].a[1]) == 3 and e.a[0].a[1][1] is tm.const('engine_count') else None  # noqa: E731
    dflt = [GET(e) for e in fl.all_effects() if GET(e) is not None]
    none = bool(dflt) and all(x is tm.NONE for x in dflt)
    for n in (None, 0, 3):
        for own in (None, 4):
            for count in (U, 2):
                base = n if n is not None else own
                mine = count if count is not U else U if not dflt else None if none else base
                leaf = fold.leaves(fl, [(f'{SET}.engine_count', mine), (f"hasattr({SET}, 'engine_count')", count is not U), ('self.n', own), ('multiprocessing.cpu_count()', 8), ('_.cpu_count()', 8), ('n', n), ('engine_set_id', 'x')])
                want = count if count is not U else base if base is not None else 8
                for t in fold.cases(fl, leaf, {}, {'n': lambda e: argof(e.a[0], 0, 'n') if e.kind == 'call' and fl.match(SET + '.start(_)', e.a[0]) is not None else None, 'd': GET}):
                    for v in t.values('d'):
                        got = fold.fold(v, leaf)
                        ck.ok('engines.n', got is U or none or count is not U or got == base, fl, f'{got} engines are started (asked for: {n}, configured: {own}) instead of {base}', path=t.path())
                    for v in t.values('n'):
                        got = fold.fold(v, leaf)
                        ck.ok('engines.n', got is U or got == want, fl, f'{got} engines are started (asked for: {n}, configured: {own}) instead of {want}', path=t.path())
    # ids of engine sets are unique
    ni = ck.F(C + '._new_engine_set_id', opaque=names)
    for t in ni.traces(dict(free=lit('not (_ in self.engines)')), retval=True):
        if t.end == 'return' and t.ret is not None:
            ck.ok('engines.id', 'free' in t or tm.mentions(t.ret, lambda y: y.op == 'call' and y.a[0].op == 'glob' and y.a[0].a[0].split('.')[0] in ('uuid', 'secrets')), ni, 'engine sets have different ids', path=t.path())
    # all of it
    sc = ck.F(C + '.start_cluster', opaque=names)
    at = dict(c=awaited('self.start_controller(*_)'), e=awaited('self.start_engines(_)'), e2=awaited('self.start_engines(n=_)'), n=call('any_of(self.start_engines(n), self.start_engines(n=n))'), delay=call('asyncio.sleep(self.delay)'))
    for have in (True, False):
        for d in (0, 1):
            leaf = fold.leaves(sc, [('self.controller', fold.Rec() if have else None), ('self.delay', d)])
            for t in fold.cases(sc, leaf, at):
                if t.end == 'return':
                    ck.ok('start', t.count('c') == (not have) and t.count('n') == t.count('e') + t.count('e2') == 1 and (have or t.before('c', 'n')), sc, 'a cluster is started: its controller, if it does not run yet, then n engines', path=t.path())
                    ck.ok('start', not d or 'delay' in t and t.before('delay', 'n') and (have or t.before('c', 'delay')), sc, 'engines are started after the delay', path=t.path())
                    ck.ok('start', t.ret is None or sc.match('self', t.ret) is not None, sc, 'start_cluster returns the cluster', path=t.path())
    co = ck.F(C + '.start_and_connect', opaque=names)
    CL = 'self.connect_client(*_, **_)'
    at = dict(s=awaited('any_of(self.start_cluster(_), self.start_cluster(n=_))'), c=awaited(CL), w=call(CL + '.wait_for_engines(*_, **_)'), waited=awaited(f'any_of(asyncio.wrap_future({CL}.wait_for_engines(*_, **_)), {CL}.wait_for_engines(*_, **_))'), act=call(f'{CL}[:].activate(*_)'), blk=store(f'{CL}[:].block', 'True'))
    vals = {'sn': lambda e: argof(e.a[0], 0, 'n') if e.kind == 'call' and co.match('self.start_cluster(*_, **_)', e.a[0]) is not None else None, 'wn': lambda e: argof(e.a[0], 0, 'n') if e.kind == 'call' and co.match(CL + '.wait_for_engines(*_, **_)', e.a[0]) is not None else None}
    summed, looped = bool(co.find(call('sum(*_)'))), bool(co.loops('self.engines'))
    for n in (None, 0, 3):
        for own in (None, 4):
            for act in (True, False):
                leaf = fold.leaves(co, [('n', n), ('self.n', own), ('activate', act), ('sum(*_)', 7)])
                want = n if n is not None else own
                for t in fold.cases(co, leaf, at, vals):
                    if t.end != 'return':
                        continue
                    ok = ck.ok('connect', t.count('s') == t.count('c') == 1 and t.before('s', 'c') and t.ret is not None and co.match(CL, t.ret) is not None, co, 'a cluster is started, then connected to', path=t.path())
                    for v in t.values('sn'):
                        ck.ok('connect', fold.fold(v, leaf) in (U, want), co, f'{fold.fold(v, leaf)} engines are started (asked for: {n}, configured: {own})', path=t.path())
                    wn = 7 if want is None else want
                    ok = ok and ck.ok('connect.wait', t.count('waited') == t.count('w') and (bool(t.count('w')) == bool(wn) or want is None and looped and not summed) and (not t.count('w') or t.before('c', 'w')), co, f'the engines that were started are waited for (asked for: {n}, configured: {own})', path=t.path())
                    for v in t.values('wn'):
                        ck.ok('connect.wait', fold.fold(v, leaf) in (U, wn), co, f'{fold.fold(v, leaf)} engines are waited for (asked for: {n}, configured: {own})', path=t.path())
                    ok = ok and ck.ok('connect', bool(t.count('act')) == act and (not act or 'blk' in t), co, 'the magics are activated exactly if asked for', path=t.path())
    for e, b in co.find(call(CL + '.wait_for_engines(*_, **_)')):
        kw = dict((k, v) for k, v in e.a[0].a[2])
        ck.ok('connect.wait', 'timeout' in kw and co.match('self.engine_timeout', kw['timeout']) is not None, e, 'engines are waited for as long as configured')
    cc = ck.F(C + '.connect_client', opaque=names)
    for e, b in cc.find(call('any_of(ipyparallel.Client(*_, **_), Client(*_, **_))')):
        kw = dict((k, v) for k, v in e.a[0].a[2] if k)
        x = argof(e.a[0], 0, 'connection_info')
        ck.ok('connect', x is not None and cc.match("self.controller.get_connection_info(*_)['client']", x) is not None, e, "a client connects with the controller's information")
        ck.ok('connect', 'cluster' in kw and cc.match('self', kw['cluster']) is not None and 'profile_dir' in kw and cc.match('self.profile_dir', kw['profile_dir']) is not None and 'cluster_id' in kw and cc.match('self.cluster_id', kw['cluster_id']) is not None, e, 'a client knows its cluster')


def launched(ck, fl, e):
    """A launcher gets the identity of its cluster."""
    kw = dict((k, v) for k, v in e.a[0].a[2] if k)
    if not kw:
        return None
    if fl.func.node.args.kwarg is not None:
        ck.ok('identity', any(k is None for k, v in e.a[0].a[2]), e, 'a launcher gets all options that were given')
    for k, p in (('parent', 'self'), ('profile_dir', 'self.profile_dir'), ('cluster_id', 'self.cluster_id')):
        ck.ok('identity', k in kw and fl.match(p, kw[k]) is not None, e, f'a launcher gets the {k} of its cluster')
    return kw


def last(t, a, b):
    """The last b comes after the last a (if there is any a)."""
    if a not in t:
        return True
    xs = [x for x in t.atoms if x in (a, b)]
    return xs[-1] == b


# ---------------------------------------------------------------- stopping


def stop(ck, names):
    fl = ck.F(C + '.stop_controller', opaque=names)
    at = dict(out=call('self.controller.get_output(remove=True)'), none=store('self.controller', 'None'), up=call('self.update_cluster_file()'))
    op(at, 'stop', 'self.controller.stop()')
    for have in (True, False):
        for run in (True, False):
            leaf = fold.leaves(fl, [('self.controller', fold.Rec() if have else None), ('self.controller.running', run), ("self.controller.state == 'running'", run)])
            for t in fold.cases(fl, leaf, at):
                if t.end == 'return':
                    w = have and run
                    ok = ck.ok('stop', settled(t, 'stop') if w else not t.count('stop'), fl, 'a controller is stopped exactly if it runs', path=t.path())
                    ok = ok and ck.ok('stop', ('none' in t or not have) and 'up' in t and (not have or last(t, 'none', 'up')) and (not w or last(t, 'stop', 'none') and last(t, 'stop_w', 'none')), fl, 'a controller is forgotten after it was stopped, also in the cluster file', path=t.path())
                    ok = ok and ck.ok('stop.output', bool(t.count('out')) == have and (not have or t.before('out', 'none') and (not w or last(t, 'stop', 'out'))), fl, 'the output file of a controller is removed after it was stopped', path=t.path())
    fl = ck.F(C + '.stop_engines', opaque=names)
    S = 'self.engines[engine_set_id]'
    one = dict(out=call(S + '.get_output(remove=True)'), pop=remove('self.engines', 'engine_set_id'), any=remove('self.engines'), up=call('self.update_cluster_file()'))
    op(one, 'stop', S + '.stop()')
    for t in fold.cases(fl, fold.leaves(fl, [('engine_set_id', 'x')]), one):
        if t.end == 'return':
            ok = ck.ok('stop', settled(t, 'stop') and t.count('pop') == t.count('any') == 1 and last(t, 'stop', 'pop') and last(t, 'stop_w', 'pop'), fl, 'engines are stopped, then forgotten', path=t.path())
            ok = ok and ck.ok('stop', last(t, 'pop', 'up') and 'up' in t, fl, 'engines that were stopped are not in the cluster file', path=t.path())
            ok = ok and ck.ok('stop.output', 'out' in t and last(t, 'stop_w', 'out') and last(t, 'stop', 'out'), fl, 'the output files of engines are removed after they were stopped', path=t.path())
    each(ck, fl, 'stop', 'self.stop_engines', '_', 'all engines are stopped')
    sc = ck.F(C + '.stop_cluster', opaque=names)
    G = 'asyncio.gather(*_)'
    for t in sc.traces(dict(c=call('self.stop_controller()'), e=call('self.stop_engines()'), cw=awaited('self.stop_controller()'), ew=awaited('self.stop_engines()'), g=awaited(G))):
        if t.end == 'return':
            ck.ok('stop', t.count('c') == t.count('e') == 1 and ('g' in t or 'cw' in t and 'ew' in t), sc, 'a cluster is stopped: its engines and its controller', path=t.path())
    # signals, restarts
    sg = ck.F(C + '.signal_engines', opaque=names)
    at = {}
    op(at, 'sig', S + '.signal(signum)')
    for t in fold.cases(sg, fold.leaves(sg, [('engine_set_id', 'x')]), at):
        if t.end == 'return':
            ck.ok('signal', settled(t, 'sig'), sg, 'engines get the signal that was sent', path=t.path())
    each(ck, sg, 'signal', 'self.signal_engines', 'signum, _', 'all engines get the signal', 1)
    rs = ck.F(C + '.restart_engines', opaque=names)
    at = dict(stop=awaited('self.stop_engines(engine_set_id)'), start=awaited(f'any_of(self.start_engines({S}.n, engine_set_id), self.start_engines(n={S}.n, engine_set_id=engine_set_id), self.start_engines({S}.n, engine_set_id=engine_set_id))'), any=call('self.start_engines(*_, **_)'))
    for t in fold.cases(rs, fold.leaves(rs, [('engine_set_id', 'x')]), at):
        if t.end == 'return':
            ck.ok('restart', t.count('stop') == t.count('start') == t.count('any') == 1 and t.before('stop', 'any'), rs, 'as many engines are started again under the same id, after the old ones have stopped', path=t.path())
    each(ck, rs, 'restart', 'self.restart_engines', '_', 'all engines are restarted')
    # n is read before the set is gone
    f = ck.repo.func(C + '.restart_engines')
    stops = [n.lineno for n in ast.walk(f.node) if isinstance(n, ast.Call) and ast.unparse(n.func) == 'self.stop_engines']
    for n in ast.walk(f.node):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and ast.unparse(n.value) == 'self.engines' and stops:
            ck.ok('restart', n.lineno <= max(stops), f, 'how many engines there were is known before they are forgotten')


def each(ck, fl, rule, meth, args, msg, pos=0):
    """Without an id, every set is meant."""
    n = 0
    ONE = call(f'{meth}({args})')
    comps = [x for e in fl.all_effects() for y in e.a if hasattr(y, 'op') for x in tm.subterms(y) if x.op == 'comp']
    for e, b in fl.find(ONE):
        x = argof(e.a[0], pos, 'engine_set_id')
        if x is None:
            continue
        n += 1
        ck.ok(rule, any(fl.match(p, x) is not None for p in ('elem(self.engines)', 'engine_set_id')) or x.op == 'elem' or x.op == 'phi', e, msg)
        it = [y for y in tm.subterms(x) if y.op == 'elem']
        for y in it:
            ck.ok(rule, tm.mentions(y, lambda z: fl.match('self.engines', z) is not None), e, msg)
        # every iteration
        h = fl.loop_of(e.node)
        ck.ok(rule, h is not None or any(tm.mentions(c, lambda z: z is e.a[0]) for c in comps), e, msg)
        if h is not None:
            for t in fl.body_traces(h, dict(op=is_eff(e))):
                if t.end in ('stop', 'return'):
                    ck.ok(rule, t.count('op') == 1 and t.end != 'return', e, msg, path=t.path())
    ck.ok(rule, n > 0, fl, msg)
    # and all of them are awaited
    waits = [e for e in fl.all_effects() if e.kind == 'await']
    ck.ok(rule, any(w.a[0] is e.a[0] for e, b in fl.find(ONE) for w in waits) or any(fl.match('any_of(asyncio.gather(*_, **_), asyncio.wait(_, **_), asyncio.wait(_))', w.a[0]) is not None or w.a[0].op == 'elem' for w in waits), fl, msg)


# ---------------------------------------------------------------- contexts


def contexts(ck, names):
    for enter, ex, go, ses, sc, full in (('__aenter__', '__aexit__', 'self.start_and_connect()', 'self.stop_engines()', 'self.stop_controller()', 'self.stop_cluster()'), ('__enter__', '__exit__', 'self.start_and_connect_sync()', 'self.stop_engines_sync()', 'self.stop_controller_sync()', 'self.stop_cluster_sync()')):
        fl = ck.F(C + '.' + enter, opaque=names)
        at = dict(go=attempt(go), up=call(go), keep=store('self._context_client', go), stop=attempt(full), a=attempt(sc), b=attempt(ses))
        for t in fl.traces(at, exc='all', retval=True):
            if t.end == 'return':
                ck.ok('context', t.count('up') == 1 and 'keep' in t and t.ret is not None and fl.match(go, t.ret) is not None, fl, 'the context of a cluster is a client of it', path=t.path())
            elif 'go' in t and 'up' not in t:
                ck.ok('context.fail', 'stop' in t or 'a' in t and 'b' in t, fl, 'a cluster that fails to start does not keep running', path=t.path())
        fl = ck.F(C + '.' + ex, opaque=names)
        at = dict(close=call('self._context_client.close()'), closing=attempt('self._context_client.close()'), eng=attempt(ses), ctl=attempt(sc), eng1=call(ses), ctl1=call(sc), full=attempt(full), full1=call(full), clr=store('self._context_client', 'None'))
        ck.ok('context', bool(fl.find(at['close'])), fl, 'the client of the context is closed')
        for have in (True, False):
            for t in fold.cases(fl, fold.leaves(fl, [('self._context_client', fold.Rec() if have else None)]), at, exc='all'):
                if t.end == 'return':
                    # (the client may have been taken out of the attribute first)
                    ck.ok('context', bool(t.count('close')) == have or 'clr' in t and not t.before('close', 'clr'), fl, 'the client of the context is closed', path=t.path())
                    ck.ok('context', t.count('eng1') == t.count('ctl1') == 1 or t.count('full1') == 1, fl, 'a cluster is stopped when its context is left', path=t.path())
                if t.end in ('return', 'raise', 'exc') and ('eng' in t or 'closing' in t or 'full' in t):
                    ck.ok('context.fail', 'ctl' in t or 'full' in t, fl, 'the controller is stopped even if the engines cannot be', path=t.path())


# ---------------------------------------------------------------- the record


def record(ck, names):
    fl = ck.F(C + '.update_cluster_file', opaque=names)
    at = dict(w=call('self.write_cluster_file()'), r=call('self.remove_cluster_file()'))
    for name in ('', 'f'):
        for run in (True, False):
            leaf = fold.leaves(fl, [('self.cluster_file', name), ('self._is_running()', run)])
            for t in fold.cases(fl, leaf, at):
                if t.end == 'return':
                    ck.ok('file', (t.count('w'), t.count('r')) == ((0, 0) if not name else (1, 0) if run else (0, 1)), fl, f'the cluster file exists exactly while something runs (running: {run}, file: {name!r})', path=t.path())
    ir = ck.F(C + '._is_running', opaque=names)
    mixed = any(e.kind == 'add' and any(hasattr(y, 'op') and ir.match('self.controller', y) is not None for y in e.a) for e in ir.all_effects())
    looped = not ir.find(call('any(_)')) and bool(ir.loops('self.engines'))
    for st in (None, 'before', 'running', 'after'):
        for ens in (True, False):
            rest = fold.leaves(ir, [('self.controller', None if st is None else fold.Rec()), ('self.controller.state', st), ('any(_)', U if mixed else ens), ('all(_)', U if mixed else not ens)])

            def leaf(x, rest=rest, ens=ens):
                v = rest(x)
                if v is U and x.op == 'attr' and x.a[1] == 'state' and tm.mentions(x, lambda y: ir.match('self.engines', y) is not None):
                    return 'running' if ens else 'after'
                return v

            for t in fold.cases(ir, leaf, dict(it=lambda e, alts, env: {} if e.kind == 'iter' else None)):
                if t.end == 'return' and t.ret is not None and not (ens and looped and 'it' not in t):
                    got = fold.fold(t.ret, leaf)
                    ck.ok('running', got is U or bool(got) == (st in ('before', 'running') or ens), ir, f'a cluster with controller {st} and engines {"running" if ens else "stopped"} is running: {got}', path=t.path())
    for e in ir.all_effects():
        if e.kind == 'call' and ir.match('any(_)', e.a[0]) is not None and e.a[0].a[1][0].op == 'comp':
            comp = e.a[0].a[1][0]
            for st in ('running', 'after', 'before'):
                leaf = lambda t, st=st: st if t.op == 'attr' and t.a[1] == 'state' else U  # noqa: E731
                got = fold.fold(comp.a[2], leaf)
                ck.ok('running', got is U or bool(got) == (st != 'after'), e, 'engines that have stopped do not run')
            ck.ok('running', tm.mentions(comp, lambda y: ir.match('self.engines', y) is not None), e, 'all engine sets count')
    wr = ck.F(C + '.write_cluster_file', opaque=names)
    W = 'open(self.cluster_file, *_, **_)'
    at = dict(o=call(W), d=call('json.dump(self.to_dict(), _)'), d2=call('_.write(json.dumps(self.to_dict()))'), mk=call('os.makedirs(*_, **_)'))
    for t in wr.traces(at):
        if t.end == 'return':
            ck.ok('file', t.count('d') + t.count('d2') == 1 and ('o' not in t or t.before('mk', 'o')), wr, 'the cluster file tells what runs', path=t.path())
    for e, b in wr.find(call(W)):
        x = argof(e.a[0], 1, 'mode')
        ck.ok('file', x is None or x.op != 'const' or x.a[0][:1] in ('w', 'x'), e, 'the cluster file is written anew')
    de = ck.F(C + '.__del__', opaque=names)
    for ae in (True, False):
        for run in (True, False):
            leaf = fold.leaves(de, [('self.shutdown_atexit', ae), ('self.controller', fold.Rec() if run else None), ('self.engines', {})])
            for t in fold.cases(de, leaf, dict(s=call('self.stop_cluster_sync()'))):
                if t.end == 'return':
                    ck.ok('atexit', bool(t.count('s')) == (ae and run), de, f'a cluster that is forgotten is stopped exactly if it runs and is to be stopped (stopped at exit: {ae}, running: {run})', path=t.path())
    # what is running may change while something is awaited
    for f in ck.repo.cls(C).methods.values():
        for x in ast.walk(f.node):
            if isinstance(x, ast.For) and any(isinstance(y, ast.Await) for s in x.body for y in ast.walk(s)):
                it = x.iter
                if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in ('items', 'keys', 'values'):
                    it = it.func.value
                ck.ok('each', ast.unparse(it) != 'self.engines', f, f'{f.node.name} looks at all engine sets, whatever changes meanwhile')
    rm = ck.F(C + '.remove_cluster_file', opaque=names)
    for t in rm.traces(dict(r=call('os.remove(self.cluster_file)'), u=call('any_of(os.unlink(self.cluster_file), _.unlink(*_, **_))'), n=lit('not os.path.exists(self.cluster_file)'), n2=lit('not os.path.isfile(self.cluster_file)')), exc='none'):
        if t.end == 'return':
            ck.ok('file', t.count('r') + t.count('u') + t.count('n') + t.count('n2') >= 1, rm, 'the cluster file of a stopped cluster is removed', path=t.path())
    for n in ('_controller_stopped', '_engines_stopped'):
        f = ck.F(f'{C}.{n}', opaque=names)
        ck.every('file', f, dict(up=call('self.update_cluster_file()')), lambda t: 'up' in t, 'the cluster file is updated when something stops')


def restore(ck, names):

    td = ck.F(C + '.to_dict', opaque=names + ('abbreviate_launcher_class',))
    for have in (True, False):
        for st in ('before', 'running', 'after'):
            leaf = fold.leaves(td, [('self.controller', fold.Rec() if have else None), ('self.controller.state', st)])
            put = add('_', "'controller'")
            st_ = call('self.controller.to_dict()')
            for t in fold.cases(td, leaf, dict(put=put, st=st_)):
                if t.end == 'return':
                    w = have and st != 'after'
                    ck.ok('to_dict', bool(t.count('put')) == bool(t.count('st')) == w, td, f'the controller is on record exactly while it runs (there is one: {have}, {st})', path=t.path())
    for e in td.all_effects():
        if e.kind == 'add' and e.a[1] is tm.const('class') and e.a[2] is not None and not tm.mentions(e.a[2], lambda y: y.op == 'attr' and y.a[1].endswith('_launcher_class')):
            ck.ok('to_dict', tm.mentions(e.a[2], lambda y: td.match('any_of(self.__class__, type(self))', y) is not None), e, 'a cluster is on record with its class')
    n = 0
    for e in td.all_effects():
        if e.kind == 'add' and e.a[2] is not None and e.a[1] is not None and td.match('self.engines[elem(self.engines)].to_dict()', e.a[2]) is not None:
            n += 1
            ck.ok('to_dict', td.match('elem(self.engines)', e.a[1]) is not None, e, 'engine sets are on record under their ids')
            h = td.loop_of(e.node)
            if h is not None:
                for st in ('before', 'running', 'after'):
                    leaf = fold.leaves(td, [('self.engines[elem(self.engines)].state', st)])
                    for t in td.body_traces(h, dict(e=is_eff(e)), world=fold.literal(leaf)):
                        if t.end in ('stop', 'return'):
                            ck.ok('to_dict', t.end == 'stop' and t.count('e') == (st != 'after'), e, f'engine sets are on record exactly while they run ({st})', path=t.path())
    fd = ck.F(C + '.from_dict', opaque=names)
    CF = "_.controller_launcher_class.from_dict(d['controller']['state'], *_, **_)"
    for e, b in fd.find(call(CF)):
        at = dict(run=attempt(CF), ran=call(CF), keep=store('_.controller', CF), on=call('_.controller.on_stop(_._controller_stopped)'), on2=call(f'{CF}.on_stop(_._controller_stopped)'), cls=store('_.controller_launcher_class', "d['controller']['class']"))
        for t in fd.traces(at, exc='handled'):
            if t.end != 'return' or 'run' not in t:
                continue
            if 'ran' in t:
                ck.ok('from_dict', 'keep' in t and t.count('on') + t.count('on2') == 1, fd, 'a controller that still runs is taken over, and its end noticed', path=t.path())
            ck.ok('from_dict', 'cls' in t and t.before('cls', 'run'), fd, 'a controller is taken over by the launcher that started it', path=t.path())
    ES = '_.engine_launcher_class.from_dict(*_, **_)'
    for e, b in fd.find(call(ES)):
        h = fd.loop_of(e.node)
        at = dict(run=attempt(ES), ran=call(ES), keep=add('_.engines', '_', ES), on=call(f'any_of(_.engines[_], {ES}).on_stop(_)'))
        kw = dict((k, v) for k, v in e.a[0].a[2] if k)
        x = kw.get('engine_set_id')
        ck.ok('from_dict', x is None or x.op == 'elem', e, 'engine sets keep their ids')
        ck.ok('from_dict', x is not None, e, 'engine sets keep their ids')
        if h is not None:
            for t in fd.body_traces(h, at, exc='handled'):
                if t.end in ('stop', 'return') and 'run' in t:
                    ck.ok('from_dict', t.end == 'stop', fd, 'all engine sets are taken over', path=t.path())
                    if 'ran' in t and t.end == 'stop' and 'keep' in t:
                        ck.ok('from_dict', t.count('on') == 1, fd, 'the end of engines that were taken over is noticed', path=t.path())
                    elif 'ran' in t and t.end == 'stop':
                        ck.ok('from_dict', False, fd, 'engines that still run are taken over', path=t.path())
        for k, b2 in fd.find(add('_.engines', '_', ES)):
            ck.ok('from_dict', x is None or k.a[1] is x, k, 'engine sets keep their ids')
    f = ck.repo.func(C + '.from_dict')
    # stopped ones are no reason to fail
    calls = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'from_dict' and any(k.arg == 'parent' for k in n.keywords)]
    for c in calls:
        tries = [n for n in ast.walk(f.node) if isinstance(n, ast.Try) and any(x is c for y in n.body for x in ast.walk(y))]
        ck.ok('from_dict', any(h.type is None or any(z in ast.unparse(h.type) for z in ('NotRunning', 'LauncherError', 'Exception')) for n in tries for h in n.handlers), f, 'what has stopped is not taken over')
    at = dict(up=call('_.update_cluster_file()'), same=lit('_.to_dict() == d'), same2=lit('d == _.to_dict()'), main=call('cls(*_, **_)'))
    for t in fd.traces(at, retval=True):
        if t.end == 'return' and 'main' in t:
            ck.ok('from_dict', 'up' in t or 'same' in t or 'same2' in t, fd, 'the cluster file is updated if something has stopped meanwhile', path=t.path())
    for e, b in fd.find(call('cls(*_, **_)')):
        sd = [x for x, _ in fd.find(add('kwargs', "'shutdown_atexit'", 'False'))] or [x for k, x in e.a[0].a[2] if k == 'shutdown_atexit']
        ck.ok('from_dict', bool(sd), e, 'a cluster that was not started here is not stopped at exit, unless asked')
    ff = ck.F(C + '.from_file', opaque=names)
    for e, b in ff.find(call('cls.from_dict(*_, **_)')):
        x = argof(e.a[0], 0, 'd')
        ck.ok('from_file', x is not None and ff.match('any_of(json.load(_), json.loads(_))', x) is not None, e, 'a cluster is restored from its file')
    for given in (None, 'f'):
        leaf = fold.leaves(ff, [('cluster_file', given)])
        ops = lambda e: e.a[0].a[1][0] if e.kind == 'call' and e.a[0].op == 'call' and e.a[0].a[0].op == 'glob' and e.a[0].a[0].a[0] == 'open' and e.a[0].a[1] else None  # noqa: E731
        sf = add('kwargs', "'cluster_file'", '_')
        for t in fold.cases(ff, leaf, dict(sd=sf, go=call('cls.from_dict(*_, **_)')), {'o': ops}):
            if t.end != 'return' or 'go' not in t:
                continue
            ck.ok('from_file', t.before('sd', 'go'), ff, 'a cluster keeps the file that it was loaded from', path=t.path())
            for v in t.values('o'):
                want = 'cluster_file' if given else '_.cluster_file'
                ck.ok('from_file', any(ff.match(want, y) is not None for y in leaves(ff, v)), ff, 'the file that was given is loaded', path=t.path())


# ---------------------------------------------------------------- managers, cleaning


def manager(ck, names):
    fl = ck.F(CM + '.new_cluster', opaque=names)
    K = 'self._cluster_key(_)'
    at = dict(put=add('self.clusters', K), any=add('self.clusters'))
    at['dup'] = lit(f'{K} in self.clusters')
    at['new'] = lit(f'not ({K} in self.clusters)')
    for t in fl.traces(at):
        if t.end == 'return':
            ck.ok('manager', 'dup' not in t and 'new' in t and t.count('put') == t.count('any') == 1, fl, 'a cluster does not replace another', path=t.path())
        elif t.end == 'raise':
            ck.ok('manager', 'dup' in t and not t.count('any'), fl, 'only duplicate clusters are refused', path=t.path())
    ld = ck.F(CM + '.load_clusters', opaque=names)
    CL = 'self.clusters[elem(self.clusters)]'
    n = 0
    for e in ld.all_effects():
        if e.kind == 'remove' and ld.match('self.clusters', e.a[0]) is not None:
            n += 1
            h = ld.loop_of(e.node)
            if h is None:
                continue
            for have in (True, False):
                for run in (True, False):
                    leaf = fold.leaves(ld, [(f'{CL}.controller', fold.Rec() if have else None), (f'{CL}._is_running()', run)])
                    for t in ld.body_traces(h, dict(r=is_eff(e)), world=fold.literal(leaf)):
                        if t.end in ('stop', 'return'):
                            ck.ok('manager', t.count('r') == (have and not run) and t.end == 'stop', e, f'a cluster is dropped exactly if it has stopped (started: {have}, running: {run})', path=t.path())
    ck.ok('manager', n > 0, ld, 'clusters that have stopped are dropped')
    LD = 'any_of(Cluster.from_file(*_, **_), ipyparallel.cluster.cluster.Cluster.from_file(*_, **_))'
    body = [ast.unparse(x) for x in ld.func.node.body]
    made = [i for i, x in enumerate(body) if ' for ' in x and 'self.clusters' in x and '.cluster_file: ' in x or '.cluster_file for ' in x]
    gone = [i for i, x in enumerate(body) if 'self.clusters.pop(' in x or 'del self.clusters[' in x]
    ck.ok('manager', not made or not gone or made[0] >= gone[-1], ld, 'what has stopped is not taken for loaded')
    for e, b in ld.find(call(LD)):
        sd = dict((k, v) for k, v in e.a[0].a[2] if k).get('shutdown_atexit')
        ck.ok('manager', sd is None or sd is tm.const(False), e, 'clusters that were not started here are not stopped at exit')
        h = ld.loop_of(e.node)
        if h is None:
            continue
        at = dict(run=attempt(LD), ran=call(LD), put=add('self.clusters', '_', LD))
        for t in ld.body_traces(h, at, exc='handled'):
            if 'run' in t:
                ck.ok('manager', t.end == 'stop', ld, 'clusters that cannot be loaded do not keep others from being loaded', path=t.path())
                ck.ok('manager', t.count('put') == t.count('ran'), ld, 'clusters that were loaded are known', path=t.path())
    for e, b in ld.find(add('self.clusters', '_', LD)):
        ck.ok('manager', ld.match(f'any_of({K}, _)', e.a[1]) is not None and (e.a[1].op != 'call' or ld.match(f'self._cluster_key({LD})', e.a[1]) is not None), e, 'clusters are known by their keys')


def clean(ck):
    fl = ck.F('cluster.cluster:clean_cluster_files', opaque=ck.fnames('cluster.cluster') + ck.names(C))
    LD = 'any_of(Cluster.from_file(*_, **_), ipyparallel.cluster.cluster.Cluster.from_file(*_, **_))'
    RUN = f'{LD}._is_running()'
    for e, b in fl.find(call(LD)):
        h = fl.loop_of(e.node)
        if h is None:
            continue
        at = dict(rm=attempt('any_of(os.remove(_), os.unlink(_))'), load=attempt(LD), loaded=call(LD))
        for force in (True, False):
            for run in (True, False):
                leaf = fold.leaves(fl, [('force', force), (RUN, run), ('log', None)])
                for t in fl.body_traces(h, at, exc='handled', world=fold.literal(leaf)):
                    bad = not force and run and 'loaded' in t
                    if t.end in ('stop', 'return'):
                        ck.ok('clean', not bad and t.count('rm') == 1, fl, f'cluster files are removed, but not while the cluster runs (force: {force}, running: {run})', path=t.path())
                    elif t.end == 'raise':
                        ck.ok('clean', bad, fl, f'cluster files of running clusters are kept, of others removed (force: {force}, running: {run})', path=t.path())
    n = 0
    for e, b in fl.find(call('any_of(os.remove(_), os.unlink(_))')):
        n += 1
        h = fl.loop_of(e.node)
        if h is None:
            continue
        for log in (None, True):
            leaf = fold.leaves(fl, [('log', None if log is None else fold.Rec())])
            try_ = attempt('any_of(os.remove(_), os.unlink(_))')
            for t in fl.body_traces(h, dict(rm=try_, ok=call('any_of(os.remove(_), os.unlink(_))')), exc='handled', world=fold.literal(leaf)):
                if 'rm' in t and 'ok' not in t:
                    ck.ok('clean', t.end != 'raise', fl, 'a file that cannot be removed does not keep others from being removed', path=t.path())
    globs(ck, fl, ('log/ipengine-1.log', 'security/ipcontroller-client.json', 'security/ipcontroller-engine.json', 'security/ipcontroller-x-client.json', 'security/ipcontroller-x-engine.json'))
    globs(ck, ck.F('cluster.cluster:ClusterManager._cluster_files_in_profile_dir'), ('security/cluster-.json', 'security/cluster-x.json', 'security/cluster-x-1.json'))
    ck.ok('clean', n >= 3, fl, 'cluster files, logs and connection files are removed')


def app(ck):
    A = 'cluster.app:IPClusterStart.start'
    fl = ck.F(A, opaque=ck.names('cluster.app:IPClusterStart') + ck.names('cluster.app:IPClusterEngines') + ck.names(C))
    LD = 'any_of(Cluster.from_file(*_, **_), ipyparallel.cluster.cluster.Cluster.from_file(*_, **_))'
    at = dict(exit_=call('self.exit(*_)'), load=call(LD), go=call('self.loop.add_callback(self.start_cluster)'), loop=call('self.loop.start()'), stop=call('self.cluster.stop_cluster_sync()'))
    for file in (True, False):
        for run in (True, False):
            for d in (True, False):
                leaf = fold.leaves(fl, [('os.path.isfile(_)', file), ('os.path.exists(_)', file), (f'{LD}._is_running()', run), ('self.daemonize', d)])
                for t in fold.cases(fl, leaf, at):
                    if t.end == 'return':
                        ck.ok('app', bool(t.count('exit_')) == (file and run), fl, f'ipcluster start refuses to start a second cluster, and only then (file: {file}, running: {run})', path=t.path())
                        if not (file and run):
                            ck.ok('app', t.count('go') == t.count('loop') == 1 and t.before('go', 'loop'), fl, 'ipcluster start starts a cluster', path=t.path())
                            ck.ok('app', bool(t.count('stop')) == (not d), fl, 'ipcluster stops what it started, unless it is to be left running', path=t.path())
    st = ck.F('cluster.app:IPClusterStart.start_cluster', opaque=ck.names('cluster.app:IPClusterStart') + ck.names('cluster.app:IPClusterEngines') + ck.names(C))
    for t in st.traces(dict(s=awaited('self.cluster.start_cluster(*_)'), on=call('self.cluster.controller.on_stop(self.controller_stopped)'))):
        if t.end == 'return':
            ck.ok('app', t.count('s') == 1 and 'on' in t, st, 'ipcluster start starts a cluster and notices when its controller stops', path=t.path())
    cs = ck.F('cluster.app:IPClusterStart.controller_stopped', opaque=ck.names('cluster.app:IPClusterStart') + ck.names('cluster.app:IPClusterEngines'))
    for s in (True, False):
        leaf = fold.leaves(cs, [('self._stopping', s)])
        for t in fold.cases(cs, leaf, dict(s=call('self.loop.add_callback(self.stop_cluster)'))):
            if t.end == 'return':
                ck.ok('app', s or 's' in t, cs, 'a cluster whose controller has stopped is stopped', path=t.path())
    sp = ck.F('cluster.app:IPClusterEngines.stop_cluster', opaque=ck.names('cluster.app:IPClusterStart') + ck.names('cluster.app:IPClusterEngines') + ck.names(C))
    for s in (True, False):
        leaf = fold.leaves(sp, [('self._stopping', s)])
        for t in fold.cases(sp, leaf, dict(s=awaited('self.cluster.stop_cluster()'), l=call('self.loop.add_callback(self.loop.stop)'), l2=call('self.loop.stop()'), f=store('self._stopping', 'True'))):
            if t.end == 'return':
                ck.ok('app', s or t.count('s') == 1 and 'f' in t and t.before('f', 's') and (t.before('s', 'l') or t.before('s', 'l2')), sp, 'a cluster is stopped before ipcluster ends', path=t.path())
                ck.ok('app', not s or not t.count('s'), sp, 'a cluster is stopped once', path=t.path())


def globs(ck, fl, files):
    """The patterns match all such files."""
    pats = []
    leaf = lambda z: '/p' if z.op in ('name', 'param') or z.op == 'elem' else U  # noqa: E731
    for e, b in fl.find(call('any_of(glob.glob(_), glob.glob(_, **_), glob.iglob(_))')):
        got = fold.fold(e.a[0].a[1][0], leaf)
        if got is U or not isinstance(got, str):
            return
        pats.append(got)
    if pats:
        for f in files:
            ck.ok('clean', any(fnmatch.fnmatch('/p/' + f, p) for p in pats), fl, f'files like {f} are found')


def _made(fl, v, pred, seen=None):
    seen = set() if seen is None else seen
    for y in tm.subterms(v):
        if pred(y):
            return True
        if y.op == 'phi' and y not in seen:
            seen.add(y)
            if any(_made(fl, o, pred, seen) for _, o in fl.phi_ops.get(y, ())):
                return True
        if y.op == 'alloc' and y not in seen:
            seen.add(y)
            if any(e.kind == 'add' and e.a[0] is y and hasattr(e.a[1], 'op') and _made(fl, e.a[1], pred, seen) for e in fl.all_effects()):
                return True
    return False
