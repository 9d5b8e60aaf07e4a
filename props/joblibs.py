"""ipyparallel as a backend of joblib."""

from ipa import terms as tm

from . import fold
from .common import argof, call, prop, store

J = 'client._joblib:IPythonParallelBackend'
U = fold.UNKNOWN
LOAD = 'any_of(ipyparallel.Cluster.from_file(*_, **_), _.Cluster.from_file(*_, **_), _.from_file(*_, **_))'
NEW = 'any_of(ipyparallel.Cluster(*_, **_), _.Cluster(*_, **_))'


@prop('J01', 12)
def j01(ck):
    start(ck)
    stop(ck)
    jobs(ck)
    registered(ck)


def start(ck):
    at = dict(
        sup=call('super().__init__(**_)'), load=call(LOAD), new=call(NEW), start=call('_.start_cluster_sync(*_, **_)'), engines=call('_.start_engines_sync(*_, **_)'),
        con=call('_.connect_client_sync(*_, **_)'), wait=call('_.wait_for_engines(*_, **_)'), lbv=call('_.load_balanced_view(*_, **_)'), dv=call('any_of(_.direct_view(*_, **_), _.broadcast_view(*_, **_))'),
        view=store('self._view'), kept=store('self._cluster'), close=call('_.close(*_, **_)'),
    )
    own = dict(c=lambda e: e.a[2] if e.kind == 'store' and e.a[1] == '_client_owner' else None, k=lambda e: e.a[2] if e.kind == 'store' and e.a[1] == '_cluster_owner' else None, v=lambda e: e.a[2] if e.kind == 'store' and e.a[1] == '_view' else None)

    def last(t, k):
        v = t.values(k)
        if v and k != 'v':
            got = fold.fold(v[-1], leaf)
            return v[-1] if got is U else tm.const(bool(got))
        return v[-1] if v else None

    fl = ck.F(J + '.__init__')
    leaf = fold.leaves(fl, [('view', 7)])
    for t in fold.cases(fl, leaf, at, own, exc='none'):
        if t.end != 'return':
            continue
        ck.ok('given', not any(t.count(k) for k in ('load', 'new', 'start', 'engines', 'con', 'wait', 'lbv', 'dv')), fl, 'a view that is given is used as it is', path=t.path())
        ck.ok('given', last(t, 'c') is tm.const(False) and last(t, 'k') is tm.const(False), fl, 'what is given belongs to who gave it', path=t.path())
        ck.ok('given', last(t, 'v') is not None and fl.match('view', last(t, 'v')) is not None, fl, 'the view that is given is used', path=t.path())
        ck.ok('given', t.count('sup') == 1, fl, 'the backend is set up', path=t.path())
    ck.ok('given', bool(fl.find(at['load'])), fl, 'the default cluster is used without a view')
    for running in (True, False):
        for engines in (True, False):
            leaf = fold.leaves(fl, [('view', None), (LOAD + '.engines', engines), ('_.engines', engines)])
            for t in fold.cases(fl, leaf, at, own, exc='handled'):
                if t.end != 'return' or bool(t.count('new')) == running:
                    continue
                ck.ok('default', t.count('load') == running, fl, 'a default cluster that runs is used', path=t.path())
                ck.ok('default', t.count('new') == (not running) and t.count('start') == (not running), fl, f'the default cluster is started {t.count("start")} times, if it runs: {running}', path=t.path())
                if running:
                    ck.ok('default', t.count('engines') == (not engines), fl, f'engines of the default cluster are started {t.count("engines")} times, if there are some: {engines}', path=t.path())
                else:
                    ck.ok('default', t.count('kept') >= 1, fl, 'the cluster that is started is known', path=t.path())
                ck.ok('default', t.count('con') == 1 and t.count('lbv') == 1 and not t.count('dv') and not t.count('close'), fl, 'jobs are distributed by load', path=t.path())
                ck.ok('default', t.count('wait') >= 1 and t.before('wait', 'lbv'), fl, 'engines are waited for', path=t.path())
                ck.ok('default', last(t, 'c') is tm.const(True), fl, 'the client that is opened is closed in the end', path=t.path())
                k = last(t, 'k')
                ck.ok('default', k is tm.const(not running), fl, 'a cluster is stopped in the end if it was started', path=t.path())
                v = last(t, 'v')
                ck.ok('default', v is not None and tm.mentions(v, lambda z: z.op == 'attr' and z.a[1] == 'load_balanced_view'), fl, 'the view is that of the default cluster', path=t.path())
    for e, b in fl.find(at['wait']):
        n = argof(e.a[0], 0, 'n') or tm.NONE
        for v in (3, None):
            leaf = fold.leaves(fl, [('_.n', v), ('len(_.engines)', v or 0)])
            got = fold.fold(n, leaf)
            ck.ok('default', got is U or got == (v or 1), e, f'{got} engines are waited for, of {v}')
        ck.ok('default', argof(e.a[0], 2, 'block') is None or argof(e.a[0], 2, 'block') is tm.const(True), e, 'engines are waited for')
    for e, b in fl.find(at['kept']):
        ck.ok('default', all(fl.match(NEW, y) is not None for y in fl.alts(e.a[2])), e, 'the cluster that is started is known')


def stop(ck):
    fl = ck.F(J + '.terminate')
    at = dict(close=call('_.close(*_, **_)'), mine=call('self._view.client.close(*_, **_)'), stop=call('any_of(_.stop_cluster_sync(*_, **_), _.stop_cluster(*_, **_))'), mine2=call('self._cluster.stop_cluster_sync(*_, **_)'), shut=call('_.shutdown(*_, **_)'), drop=store('self._view', 'None'))
    for c in (True, False):
        for k in (True, False):
            leaf = fold.leaves(fl, [('self._client_owner', c), ('self._cluster_owner', k), ('self._view', 1)])
            for t in fold.cases(fl, leaf, at, {}, exc='none'):
                if t.end != 'return':
                    continue
                ck.ok('stop', t.count('close') == c and t.count('mine') == c, fl, f'the client is closed {t.count("close")} times, if it was opened here: {c}', path=t.path())
                ck.ok('stop', t.count('stop') == k and t.count('mine2') == k, fl, f'the cluster is stopped {t.count("stop")} times, if it was started here: {k}', path=t.path())
                ck.ok('stop', not t.count('shut'), fl, 'nothing else is stopped', path=t.path())
                ck.ok('again', t.count('drop') <= c, fl, 'a view that was given is kept', path=t.path())
                if c:
                    ck.ok('again', t.count('drop') == 1, fl, 'a client that is closed is not used again', path=t.path())
                if c and k:
                    ck.ok('stop', t.before('close', 'stop'), fl, 'the client is closed before the cluster is stopped', path=t.path())


def jobs(ck):
    fl = ck.F(J + '.effective_n_jobs')
    at = dict(con=call('_.connect_client_sync(*_, **_)'))
    leaf = fold.leaves(fl, [('self._view', 1), ('len(self._view)', 5), ('n_jobs', 2)])
    for t in fold.cases(fl, leaf, at, {}, exc='none'):
        if t.end == 'return':
            got = fold.fold(t.ret, leaf) if t.ret is not None else None
            ck.ok('jobs', t.ret is not None and (got is U or got == 5) and tm.mentions(t.ret, lambda z: fl.match('len(self._view)', z) is not None), fl, 'as many jobs run at once as there are engines in the view', path=t.path())
            ck.ok('jobs', not t.count('con'), fl, 'a view that is there is used', path=t.path())
    con = 0
    for m in ('effective_n_jobs', 'configure', 'start_call', 'apply_async', 'terminate'):
        if m not in ck.repo.cls(J).methods:
            continue
        g = ck.F(f'{J}.{m}')
        con += len(g.find(at['con']))
        if m == 'effective_n_jobs' and con:
            for e, b in g.find(store('self._view')):
                ck.ok('again', e.a[2].op == 'const' or tm.mentions(e.a[2], lambda z: z.op == 'attr' and z.a[1] == 'load_balanced_view') or e.a[2].op == 'phi', e, 'the default cluster is connected to again')
            ck.ok('again', bool(g.find(store('self._view'))), g, 'the default cluster is connected to again')
    ck.ok('again', con > 0, fl, 'a backend can be used again')
    fl = ck.F(J + '.apply_async')
    run = call('any_of(self._view.apply_async(*_, **_), self._view.apply(*_, **_), self._view.apply_sync(*_, **_), self._view.map(*_, **_))')
    add = call('_.add_done_callback(*_)')
    done = call('callback(*_)')
    at = dict(run=run, add=add, done=done)
    for cb in (True, False):
        leaf = fold.leaves(fl, [('callback', 1 if cb else None)])
        for t in fold.cases(fl, leaf, at, {}, exc='none'):
            if t.end != 'return':
                continue
            ck.ok('run', t.count('run') == 1, fl, f'a job runs {t.count("run")} times', path=t.path())
            ck.ok('run', t.count('add') == cb and not t.count('done'), fl, f'joblib is told of the result {t.count("add")} times, if it asks for it: {cb}', path=t.path())
            ck.ok('run', t.ret is not None and fl.match('self._view.apply_async(*_)', t.ret) is not None, fl, 'the result of the job is what is returned', path=t.path())
    for e, b in fl.find(run):
        ck.ok('run', fl.match('self._view.apply_async(func)', e.a[0]) is not None, e, 'the job itself is run, and not waited for')
    for e, b in fl.find(add):
        ck.ok('run', fl.match('self._view.apply_async(*_)', e.a[0].a[0].a[0]) is not None, e, 'it is the result of this job that is waited for')
    for e, b in fl.find(add):
        hs = _passed(ck, fl, argof(e.a[0], 0, 'fn') or tm.NONE)
        ck.ok('run', bool(hs) or not tm.mentions(argof(e.a[0], 0, 'fn') or tm.NONE, lambda z: z.op == 'param' and fl.match('callback', z) is not None), e, 'joblib gets the result')
        for h in hs:
            for t in h.traces(dict(c=call('callback(*_)')), exc='none'):
                if t.end == 'return':
                    ck.ok('run', t.count('c') == 1, e, 'joblib gets the result once', path=t.path())
            for x, b in h.find(call('callback(*_)')):
                ck.ok('run', len(x.a[0].a[1]) == 1 and h.match('any_of(_.result(*_), _.get(*_))', x.a[0].a[1][0]) is not None, e, 'joblib gets the result')


def registered(ck):
    reg = call('any_of(register_parallel_backend(*_, **_), _.register_parallel_backend(*_, **_))')
    for spec in ('joblib:register', VIEW + '.register_joblib_backend'):
        fl = ck.F(spec)
        es = [e for e, b in fl.find(reg)]
        ck.ok('register', bool(es), fl, 'the backend is registered')
        for e in es:
            t = e.a[0]
            n, d = argof(t, 0, 'name'), argof(t, 2, 'make_default')
            ck.ok('register', n is not None and fl.match('name', n) is not None, e, 'the backend has the name that was asked for')
            ck.ok('register', d is not None and fl.match('make_default', d) is not None, e, 'the backend is the default one if asked for')
            f = argof(t, 1, 'factory') or tm.NONE
            if spec.startswith('joblib'):
                ck.ok('register', f.op == 'glob' and f.a[0].endswith('IPythonParallelBackend'), e, 'the backend is that of ipyparallel')
            elif f.op == 'call':
                ck.ok('register', any(k == 'view' and fl.match('self', v) is not None for k, v in f.a[2]), e, 'the backend uses this view')
            for h in _passed(ck, fl, f):
                made = [x.a[0] for x, b in h.find(call('any_of(_.IPythonParallelBackend(*_, **_), IPythonParallelBackend(*_, **_))'))]
                ck.ok('register', bool(made), e, 'the backend is that of ipyparallel')
                for x in made:
                    ck.ok('register', any(k == 'view' and h.match('self', v) is not None for k, v in x.a[2]) or any(h.match('self', v) is not None for v in x.a[1][:1]), e, 'the backend uses this view')
                    ck.ok('register', any(k not in ('view', 'parallel') for k, v in x.a[2]), e, 'the backend gets what joblib gives it')
        for t in fl.traces(dict(r=reg), exc='none'):
            if t.end == 'return':
                ck.ok('register', t.count('r') == 1, fl, 'the backend is registered', path=t.path())


def _passed(ck, fl, t):
    """The functions of fl that are passed as t."""
    return [ck.F(fl.g.lambdas[x.a[0]][0]) for x in fl.alts(t) if x.op in ('closure', 'lambda')]


VIEW = 'client.view:LoadBalancedView'
