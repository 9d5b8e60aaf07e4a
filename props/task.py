"""Task scheduler: lifecycle of a task, dependencies, load accounting, engine loss, timeouts, mirroring."""

from ipa import terms as tm
from ipa.atoms import add, argof, call, call_to, caught, either, lit, remove, ret, store
from ipa.checker import assignments, prop, setpred, table

from . import sched

TS = 'controller.task_scheduler:TaskScheduler.'
DEP = 'controller.dependency:Dependency.'
OPS = ('maybe_run', 'save_unmet', 'fail_unreachable', 'submit_task', 'update_graph', 'dispatch_result')

RUN = dict(run=lit('self.maybe_run(_)'), norun=lit('not self.maybe_run(_)'))


def one_of(*names):
    return lambda t: sum(t.count(n) for n in names) == 1


def submission(ck):
    fl = ck.F(TS + 'dispatch_submission', opaque=OPS)
    atoms = dict(
        accept=add('self.all_ids', "_['header']['msg_id']"), **RUN,
        save=call('self.save_unmet(_)'), fail=call('self.fail_unreachable(*_)'),
        already=lit('_ in self.all_failed'), qm=add('self.queue_map', "_['header']['msg_id']"), alive=ALIVE,
    )
    return fl, atoms


ALIVE = either(lit('_ not in any_of(self.all_failed, self.all_done)'), lit('not _.removed'))


def _may_have_failed(ck):
    """Does an unsuccessful attempt to run a task possibly mean that the task was failed?"""
    fl = ck.F(TS + 'maybe_run', opaque=ck.names('controller.task_scheduler:TaskScheduler'))
    return any('fail' in t and not (t.ret is not None and t.ret.op == 'const' and t.ret.a[0]) for t in fl.traces(dict(fail=call('self.fail_unreachable(*_)')), retval=True) if t.end == 'return')


def _no_zombie(t, may):
    """queueing after an unsuccessful attempt needs evidence that the attempt did not fail the task"""
    if not may or 'norun' not in t or 'save' not in t:
        return True
    i = t.atoms.index('norun')
    return 'alive' in t.atoms[i:len(t.atoms) - list(t.atoms)[::-1].index('save')]


@prop('S01', 45)
def s01(ck):
    fl, atoms = submission(ck)

    def fate(t):
        if 'accept' not in t:
            return True
        n = t.count('run') + t.count('save') + t.count('fail') + t.count('already')
        if n != 1:
            return False
        if 'already' in t and 'norun' not in t:
            return False
        if 'run' in t and ('save' in t or 'fail' in t):
            return False
        return True

    ck.every('task.accepted-has-one-fate', fl, atoms, fate,
             'an accepted submission must be assigned, queued or failed exactly once')
    may = _may_have_failed(ck)
    ck.every('task.failed-not-requeued', fl, atoms, lambda t: _no_zombie(t, may), 'a task that was failed while trying to run it must not be queued again')
    ck.exists('task.accepted', fl, atoms['accept'], 'every accepted submission is recorded as known')
    ck.every('task.fail-needs-queue-map', fl, atoms, lambda t: 'fail' not in t or t.before('qm', 'fail'),
             'a task is failed as unreachable only after it is registered as waiting (else no reply is sent)')
    ck.guarded('task.queued-unless-ran', fl, call('self.save_unmet(_)'), [], 'queueing')

    # Job carries what a reply needs
    jf = ck.F('controller.task_scheduler:Job.__init__')
    for a in ('msg_id', 'raw_msg', 'idents', 'header', 'targets', 'after', 'follow', 'timeout'):
        ck.exists('task.job-fields', jf, store(f'self.{a}', a), f'Job must keep {a}')
    ck.exists('task.job-fields', jf, store('self.removed', 'False'), 'a new job is not deleted')
    ck.exists('task.job-fields', jf, store('self.blacklist', 'new(set)'), 'each job has its own blacklist')
    for e, b in fl.find(call('Job(*_)')):
        t = e.a[0]
        for i, a in enumerate(('msg_id', 'raw_msg', 'idents')):
            v = argof(t, i, a)
            want = {'msg_id': "_['header']['msg_id']", 'raw_msg': 'raw_msg', 'idents': 'self.session.feed_identities(*_)[0]'}[a]
            ck.ok('task.job-identity', v is not None and fl.match(want, v) is not None, e,
                  f'the job must carry the {a} of the submission')
    ck.exists('task.job-identity', fl, call('Job(*_)'), 'a job is built from the submission')

    # fail_unreachable: one reply, complete bookkeeping
    fu = ck.F(TS + 'fail_unreachable', opaque=OPS)
    fa = dict(
        known=lit('msg_id in self.queue_map'), unknown=lit('msg_id not in self.queue_map'),
        pop=remove('self.queue_map', 'msg_id'), lazy=store('self.queue_map[msg_id].removed', 'True'),
        done=add('self.all_done', 'msg_id'), failed=add('self.all_failed', 'msg_id'),
        reply=call("self.session.send(self.client_stream, 'apply_reply', *_)"),
        graph=call('self.update_graph(msg_id, *_)'),
    )

    def failed_once(t):
        if 'unknown' in t and 'known' not in t:
            return 'reply' not in t and 'graph' not in t and 'failed' not in t
        return all(t.count(x) == 1 for x in ('pop', 'lazy', 'done', 'failed', 'reply', 'graph')) and t.before(
            'failed', 'graph') and t.before('pop', 'graph') and t.before('lazy', 'graph') and t.before('done', 'graph')

    ck.every('task.fail-replies-once', fu, fa, failed_once,
             'failing a waiting task sends exactly one reply, marks it done and failed, unlinks it, then propagates')
    for e, b in fu.find(fa['reply']):
        t = e.a[0]
        ck.ok('task.fail-reply-addressed', fu.match('self.queue_map[msg_id].header', argof(t, 3, 'parent') or tm.NONE) is not None, e,
              'the failure reply must be parented to the request')
        ck.ok('task.fail-reply-addressed', fu.match('self.queue_map[msg_id].idents', argof(t, 4, 'ident') or tm.NONE) is not None, e,
              'the failure reply must be routed to the submitting client')
        c = argof(t, 2, 'content')
        ck.ok('task.fail-reply-content', c is not None and fu.match("any_of({'status': 'error'}, wrap_exception(*_))", c) is not None, e,
              'the failure reply must carry the wrapped error')
    for e, b in fu.find(fa['graph']):
        v = argof(e.a[0], 1, 'success')
        ck.ok('task.fail-propagates-failure', v is tm.const(False), e, 'dependents must see the task as failed')

    # maybe_run: True exactly when submitted
    mr = ck.F(TS + 'maybe_run', opaque=OPS)
    ma = dict(submit=call('self.submit_task(job, *_)'), fail=call('self.fail_unreachable(*_)'),
              qm=add('self.queue_map', 'job.msg_id', 'job'))
    trs = mr.traces(ma, retval=True)
    ck.paths += len(trs)
    for t in trs:
        if t.end != 'return':
            continue
        v = t.ret
        truth = v.a[0] if v is not None and v.op == 'const' else None
        ck.ok('task.run-result-truthful', truth in (True, False, None) and v.op == 'const' and bool(truth) == (t.count('submit') == 1), mr,
              f'maybe_run must report True exactly when it submitted the task once (events {[a for a in t.atoms if isinstance(a, str)]}, returns {v})',
              path=t.path())
        ck.ok('task.run-result-truthful', 'fail' not in t or ('submit' not in t and t.before('qm', 'fail')), mr,
              'maybe_run fails a task only after registering it, and never also submits it', path=t.path())

    # submit_task: hand over exactly once
    st = ck.F(TS + 'submit_task')
    sa = dict(
        dest=call("self.engine_stream.send(self.targets[_], *_)"),
        body=call('self.engine_stream.send_multipart(job.raw_msg, *_)'),
        pend=add('self.pending[self.targets[_]]', 'job.msg_id', 'job'),
        rotate=either(remove('self.targets'), add('self.targets')),
        read=lambda e, a, b: _getitem(e, 'self.targets', a),
    )
    ck.every('task.handover', st, sa, lambda t: t.count('dest') == 1 and t.count('body') == 1 and t.before('dest', 'body')
             and t.count('pend') == 1, 'submitting sends destination then the original message once, and records it pending there')
    ck.every('task.handover-target-stable', st, sa, lambda t: 'rotate' not in t or 'read' not in t.atoms[t.atoms.index('rotate'):],
             'the chosen engine must be read before the LRU rotation moves it')

    # result dispatch: relay once or run again
    dr = ck.F(TS + 'dispatch_result', opaque=('handle_unmet_dependency', 'update_graph'))
    mid = "_['parent_header']['msg_id']"
    da = dict(
        relay=call('self.client_stream.send_multipart(raw_msg, *_)'),
        again=call('self.handle_unmet_dependency(*_)'),
        unpend=remove('self.pending[self.session.feed_identities(*_)[0][0]]', mid),
        settle=remove('self.retries', mid),
        done=add('self.all_done', mid),
        met=lit("_['metadata'].get('dependencies_met', True)"),
        unmet=lit("not _['metadata'].get('dependencies_met', True)"),
        bad=caught('Exception', 'ValueError', 'KeyError'),
    )
    ck.every('task.result-relayed-once', dr, da,
             lambda t: (t.count('relay') + t.count('again') == 1)
             and ('relay' not in t or (t.count('unpend') == 1 and t.count('done') == 1 and t.before('settle', 'relay')))
             and ('again' not in t or not ({'unpend', 'settle', 'done'} & set(t.atoms))),
             'a result is either relayed once (retry entry retired first, then no longer pending, then done) or the task is tried again')
    ck.every('task.unmet-not-relayed', dr, da, lambda t: 'unmet' not in t or ('again' in t and 'relay' not in t),
             'a result reporting unmet dependencies is never relayed as the answer')
    # relayed to the submitting client
    for e, b in dr.find(add('raw_msg', '_')):
        pass
    swap = [e for e in dr.all_effects() if e.kind == 'add' and dr.match('raw_msg', e.a[0]) is not None]
    ck.ok('task.result-addressed', any(
        e.a[2] is not None and dr.match('[self.session.feed_identities(*_)[0][1], self.session.feed_identities(*_)[0][0]]', e.a[2]) is not None
        for e in swap), swap[0] if swap else dr, 'the reply must be routed to the client, with engine and client identities swapped')

    # another attempt: fate again
    hu = ck.F(TS + 'handle_unmet_dependency', opaque=OPS)
    ha = dict(unpend=remove('self.pending[_]', "parent['msg_id']"), **RUN, save=call('self.save_unmet(_)'),
              fail=call('self.fail_unreachable(*_)'), already=lit('_ in self.all_failed'), qm=add('self.queue_map'), alive=ALIVE)
    ck.every('task.failed-not-requeued', hu, ha, lambda t: _no_zombie(t, may), 'a task that was failed while trying to run it must not be queued again')
    ck.every('task.retry-has-one-fate', hu, ha,
             lambda t: t.count('unpend') == 1 and sum(t.count(x) for x in ('run', 'save', 'fail', 'already')) == 1
             and ('already' not in t or 'norun' in t) and ('fail' not in t or t.before('qm', 'fail')),
             'a task coming back from an engine is unpended and assigned, queued or failed exactly once')

    # queueing
    su = ck.F(TS + 'save_unmet')
    qa = dict(qm=add('self.queue_map', 'job.msg_id', 'job'), q=add('self.queue', 'job'))
    ck.every('task.queue-complete', su, qa, lambda t: t.count('qm') == 1 and t.count('q') == 1,
             'queueing records the job both by id and in order')
    ck.every('task.queue-live', su, dict(live=store('job.removed', 'False'), q=add('self.queue', 'job')),
             lambda t: 'live' in t, 'a queued job must not carry a stale deletion mark')
    # the dependency graph learns about each unfinished dependency
    g = [e for e, b in su.find(add('self.graph[_d]', 'job.msg_id'))]
    ck.ok('task.graph-linked', bool(g), su, 'a queued task must be linked from each unfinished dependency')
    for e in g:
        d = e.a[0].a[1]
        base = d.a[0] if d.op == 'elem' else d
        okk = tm.mentions(base, lambda x: x.op == 'attr' and x.a[1] == 'after') and tm.mentions(
            base, lambda x: x.op == 'attr' and x.a[1] == 'follow') or tm.mentions(base, lambda x: x.op == 'attr' and x.a[1] == 'dependents')
        ck.ok('task.graph-linked', okk, e, 'both time and location dependencies must be linked')

    scan(ck)

    # the queue is only consumed by the graph update
    for f in ck.repo.cls('controller.task_scheduler:TaskScheduler').methods.values():
        if f.name in ('update_graph',):
            continue
        fl2 = ck.F(f, opaque=_all_methods(ck), cls='controller.task_scheduler:TaskScheduler')
        ck.never('task.queue-consumers', fl2, either(remove('self.queue'), store('self.queue')),
                 'only the graph update may take tasks off the queue')
    # engine loss answers the client through the same path
    hs = ck.F(TS + 'handle_stranded_tasks', opaque=OPS)
    ck.exists('task.stranded-dispatched', hs, call('self.dispatch_result(_)'), 'stranded tasks must be settled through the result path')
    # handlers are wired
    start = ck.F(TS + 'start')
    for s, h in (('engine_stream', 'dispatch_result'), ('client_stream', 'dispatch_submission')):
        ck.exists('task.wiring', start, call(f'self.{s}.on_recv(self.{h}, *_)'), f'{h} must receive from {s}')
    all_ = _all_methods(ck)
    sched.linked(ck, all_)
    sched.unlinked(ck, all_)
    sched.rescan(ck, all_)
    sched.refused(ck, all_)


def _all_methods(ck):
    return ck.names('controller.task_scheduler:TaskScheduler')


def _getitem(e, p, alts):
    return {} if e.kind == 'getitem' and tm.pat(p).match(e.a[0], alts) is not None else None


def scan(ck):
    """update_graph: each job taken from the list fails, runs, or goes back in order."""
    ug = ck.F(TS + 'update_graph', opaque=OPS + ('available_engines',))
    take = [e for e in ug.all_effects() if e.kind in ('remove',) and e.a[-1] in ('popleft', 'pop')
            and ug.match('any_of(self.queue, has(self.queue))', e.a[0]) is not None]
    ck.ok('task.scan', len(take) >= 1, ug, 'the graph update must take jobs from the queue')
    if not take:
        return
    head = take[0].node
    job = take[0].a[1]
    restore = [e for e in ug.all_effects() if e.kind == 'add' and ug.match('self.queue', e.a[0]) is not None]
    ck.ok('task.scan-restores', bool(restore), ug, 'jobs that stay waiting must be put back on the queue')
    # the containers whose contents are put back
    conts = set()
    for e in restore:
        x = e.a[1]
        while x.op in ('elem', 'copy'):
            x = x.a[0]
        conts.add(x)
        if x.op in ('phi',):
            conts |= set(ug.alts(x))

    def put(e, a, b):
        if e.kind == 'add' and (e.a[0] in conts or ug.match('self.queue', e.a[0]) is not None) and e.a[1] is job:
            return {}
        return None

    put.desc = 'put back'
    atoms = dict(
        skip=lit('_.removed'), fail=call('self.fail_unreachable(_.msg_id)'), ran=lit('self.maybe_run(_)'),
        put=put, unqueue=remove('self.queue_map', '_.msg_id'), mark=store('_.removed', 'True'),
        byqueue=lit('using_queue'), restore=lambda e, a, b: {} if e in restore else None,
        unreach=either(lit('_.after.unreachable(*_)'), lit('_.follow.unreachable(*_)')),
        timemet=lit('_.after.check(*_)'), notmet=lit('not _.after.check(*_)'),
    )
    # which literal tells that jobs came from the queue: any phi/flag literal true exactly with that choice
    flag = _queue_flag(ug)
    if flag is not None:
        atoms['byqueue'] = lambda e, a, b: {} if e.kind == 'lit' and e.a[0] is flag and e.a[1] else None
        atoms['byqueue'].lit = True
        atoms['notqueue'] = lambda e, a, b: {} if e.kind == 'lit' and e.a[0] is flag and not e.a[1] else None
        atoms['notqueue'].lit = True
    trs = ug.traces(atoms, start=head, stop={head.id})
    ck.paths += len(trs)
    for t in trs:
        if t.end == 'raise':
            continue
        if 'skip' in t.atoms:
            good = not ({'fail', 'ran', 'unqueue'} & set(t.atoms))
            ck.ok('task.scan-lazy-delete', good, ug, 'a lazily deleted job must be skipped', path=t.path())
            continue
        fates = t.count('fail') + t.count('ran')
        waiting = fates == 0
        ck.ok('task.scan-one-fate', fates <= 1, ug, 'a scanned job may be failed or run, not both', path=t.path())
        if 'unreach' in t:
            ck.ok('task.scan-unreachable-fails', 'fail' in t and 'ran' not in t, ug, 'an unreachable waiting task must be failed', path=t.path())
        if waiting and 'notqueue' not in t.atoms:
            ck.ok('task.scan-puts-back', 'put' in t, ug,
                  f'a scanned job that neither ran nor failed must be put back (events {list(t.atoms)})', path=t.path())
        if not waiting:
            ck.ok('task.scan-no-duplicate', 'put' not in t, ug, 'a job that ran or failed must not return to the queue', path=t.path())
        if 'ran' in t:
            ck.ok('task.scan-unqueues', 'unqueue' in t and 'mark' in t, ug,
                  'a job that ran must leave the id map and be marked removed so it cannot run twice', path=t.path())
        if t.end == 'return' and 'notqueue' not in t.atoms:
            ck.ok('task.scan-restore-reached', 'restore' in t or not restore, ug,
                  'leaving the scan must restore the waiting jobs', path=t.path())
    # order is preserved: consuming from the left + extendleft needs reversal
    for e in restore:
        n = e.node
        if n.ev.kind == 'call' and ug._callname(n) == 'extendleft':
            arg = ug.val(n, n.ev.args[0])
            appended = any(
                x.kind == 'add' and x.a[0] in conts and x.a[-1] == 'append' for x in ug.all_effects()
            )
            rev = (arg.op == 'copy' and n.ev.args[0][0] == 'call' and n.ev.args[0][1][-1] == 'reversed') or (
                arg.op == 'item' and arg.a[1].op == 'slice')
            ck.ok('task.scan-order', (not appended) or rev, e, 'waiting jobs must return in their original order')
    # run only when time dependencies are met and reachable
    ck.guarded('task.scan-run-guard', ug, call('self.maybe_run(_j)'),
               [lit('_j.after.check(self.all_completed, self.all_failed)'), lit('not _j.removed')],
               'a waiting task is tried only when its time dependencies are met and it is not deleted')


def _queue_flag(ug):
    """The branch literal that distinguishes walking self.queue from walking a derived list."""
    for t in ug.lit_count:
        if t.op == 'truth' and t.a[0].op == 'phi':
            ops = [o for _, o in ug.phi_ops.get(t.a[0], ())]
            if ops and all(o.op == 'const' and isinstance(o.a[0], bool) for o in ops) and len(set(ops)) == 2:
                nid = t.a[0].a[0]
                for ph in ug._phi_at.get(nid, ()):
                    alts = dict(ug.phi_ops[ph])
                    if any(ug.match('self.queue', o) is not None for o in alts.values()):
                        return t
    return None


# ------------------------------------------------------------------ S02
@prop('S02', 60)
def s02(ck):
    conds = dict(S='self.success', F='self.failure', nofail='failed is None', A='self.all', ne='self')
    names = {'completed': 'C', 'failed': 'F'}
    for fn, spec in (('check', 'check'), ('unreachable', 'unreachable')):
        fl = ck.F(DEP + fn)
        rows = table(ck, fl, conds)
        for asg, end, rv, t in rows:
            if end != 'return':
                continue
            for full in assignments(conds, asg):
                if not (full['S'] or full['F']):
                    continue  # rejected by the constructor
                if not full['ne']:
                    want = ('const', spec == 'check')
                else:
                    s = set()
                    if spec == 'check':
                        if full['S']:
                            s.add('C')
                        if full['F'] and not full['nofail']:
                            s.add('F')
                        want = ('subset' if full['A'] else 'meets', frozenset(s), True)
                    else:
                        if not full['S']:
                            s.add('C')
                        if not full['F'] and not full['nofail']:
                            s.add('F')
                        want = ('meets' if full['A'] else 'subset', frozenset(s), True)
                got = setpred(rv, 'self', names)
                if got != want and got is not None and got[0] != 'const' and want[0] != 'const' and got[1] == want[1] == frozenset():
                    # against the empty set: subset is False, meets is False for non-empty self
                    if got[2] == want[2]:
                        continue
                if rv is not None and got is None:
                    # compound expression: decide each alternative
                    got = _fold(rv, full, names)
                ck.ok(f'dep.{spec}-table', got == want, fl,
                      f'{spec}() for {full} must be {want}, computes {got or rv}', path=t.path(), detail='')
    init = ck.F(DEP + '__init__')
    def flag(k):
        return store(f'self.{k}', f"any_of({k}, dependencies.get('{k}', _), dependencies['{k}'])")

    ia = dict(succ=flag('success'), fail=flag('failure'), al=flag('all'),
              ids=either(call('set.__init__(self, *_)'), call('super().__init__(*_)'), call('self.update(_)')))
    ck.every('dep.init-fields', init, ia, lambda t: all(x in t for x in ia), 'a dependency keeps its mode flags and ids')
    ck.every('dep.init-valid', init, dict(s=lit('success'), f=lit('failure')), lambda t: 's' in t or 'f' in t,
             'depending on neither success nor failure must be rejected')
    # wire form round trip
    ad = ck.F(DEP + 'as_dict')
    keys = set()
    for e in ad.all_effects():
        if e.kind == 'return' and e.a[0].op == 'alloc':
            d = {k.a[0]: v for k, v in e.a[0].a[2] if k.op == 'const'}
            keys = set(d)
            for k in ('all', 'success', 'failure'):
                ck.ok('dep.wire', k in d and ad.match(f'self.{k}', d[k]) is not None, e, f'as_dict must report {k}')
            ck.ok('dep.wire', 'dependencies' in d and tm.mentions(d['dependencies'], lambda x: x.op == 'param' and x.a[0] == 'self'), e,
                  'as_dict must list the ids')
    ck.ok('dep.wire', {'dependencies', 'all', 'success', 'failure'} <= keys, ad, 'as_dict must cover ids and flags')
    for k in ('all', 'success', 'failure'):
        st = [e for e, b in init.find(store(f'self.{k}', '_'))]
        ck.ok('dep.wire', any(init.match(f"dependencies.get('{k}', _)", x) is not None or init.match(f"dependencies['{k}']", x) is not None
              for e in st for x in init.alts(e.a[2]) if True) if st else False, init, f'the wire form of {k} must be honoured')

    # submission: validate before accepting to wait
    fl, atoms = submission(ck)
    atoms = dict(atoms)
    atoms.update(
        selfdep=lit("_['header']['msg_id'] in no(self.all_failed)"), unknown=lit('_.difference(self.all_ids)'),
        dead=lit('_.unreachable(self.all_completed, self.all_failed)'),
        met=lit('_.check(self.all_completed, self.all_failed)'), notmet=lit('not _.check(self.all_completed, self.all_failed)'),
    )
    ck.every('dep.submit-invalid', fl, atoms,
             lambda t: not (('selfdep' in t or 'unknown' in t or 'dead' in t)) or ('fail' in t and 'run' not in t and 'save' not in t),
             'a dependency on itself, on an unknown task or that can no longer be met must fail the submission')
    for nm in ('selfdep', 'unknown', 'dead'):
        ck.exists('dep.submit-checks', fl, _litatom(fl, atoms[nm]), f'submission must test for {nm} dependencies') if False else None
    have = {a for t in fl.traces(atoms) for a in t.atoms}
    for nm, txt in (('selfdep', 'a task depending on itself'), ('unknown', 'dependencies on unknown tasks'),
                    ('dead', 'dependencies that are already impossible'), ('met', 'time dependencies that are already met')):
        ck.ok('dep.submit-checks', nm in have, fl, f'submission must test for {txt}')
    # both kinds of dependency are validated
    for e, b in fl.find(call('_d.unreachable(*_)')) + fl.find(call('_d.difference(self.all_ids)')):
        d = e.a[0].a[0].a[0]
        srcs = set()
        for x in ([d] if d.op != 'elem' else [d.a[0]]):
            for y in tm._deep(x, fl.alts):
                if y.op in ('get', 'item') and tm.is_str(y.a[1]) and y.a[1].a[0] in ('after', 'follow'):
                    srcs.add(y.a[1].a[0])
        if d.op == 'elem':
            ck.ok('dep.submit-both', srcs >= {'after', 'follow'}, e, 'both time and location dependencies must be validated')
    inv = [e for e, b in fl.find(call('self.fail_unreachable(*_)'))]
    G = fl.guards()
    kinds = set()
    for e in inv:
        v = argof(e.a[0], 1, 'why')
        for x in (fl.alts(v) if v is not None and v.op == 'phi' else [v]):
            kinds.add(x.a[0].rsplit('.', 1)[-1] if x is not None and x.op in ('glob',) else ('default' if x is None else str(x)))
    ck.ok('dep.submit-kinds', any('InvalidDependency' in k for k in kinds), fl, 'invalid dependencies are reported as InvalidDependency')
    fu = ck.repo.func(TS + 'fail_unreachable')
    dflt = [tm for tm in fu.node.args.defaults]
    import ast as _ast
    ck.ok('dep.submit-kinds', bool(dflt) and _ast.unparse(dflt[-1]).endswith('ImpossibleDependency'), fu,
          'the default reason for failing a waiting task is ImpossibleDependency')
    # run only when time deps are met
    pa = dict(atoms)
    ck.every('dep.submit-run-guard', fl, dict(tr=call('self.maybe_run(_)'), met=atoms['met']),
             lambda t: 'tr' not in t or t.before('met', 'tr'), 'a submission is tried only when its time dependencies are met')
    # reductions of `after` keep meaning
    for which, flag in (('all_completed', 'success'), ('all_failed', 'failure')):
        hits = [e for e, b in fl.find(call(f'_d.difference(self.{which})'))]
        for e in hits:
            have = G.get(e.node.id, ())
            okk = any(p and t.op == 'truth' and t.a[0].op == 'attr' and t.a[0].a[1] == flag for t, p in have)
            oka = any(p and t.op == 'truth' and t.a[0].op == 'attr' and t.a[0].a[1] == 'all' for t, p in have)
            ck.ok('dep.submit-reduce', okk and oka, e, f'finished dependencies may be dropped only in all-mode when {flag} satisfies them')
    for e, b in fl.find(call('Dependency(*_)')):
        a0 = argof(e.a[0], 0, 'dependencies')
        if a0 is not None and tm.mentions(a0, lambda x: x.op == 'attr' and x.a[1] == 'difference'):
            kw = dict(e.a[0].a[2])
            for k in ('success', 'failure', 'all'):
                ck.ok('dep.submit-reduce', k in kw and kw[k].op == 'attr' and kw[k].a[1] == k, e,
                      f'a reduced dependency must keep its {k} flag')
    # location dependencies
    cr = ck.nested(TS + 'maybe_run', 'can_run')
    conds = dict(hwm='self.hwm', full='self.loads[idx] == self.hwm', black='self.targets[idx] in job.blacklist',
                 tgts='job.targets', intgt='self.targets[idx] in job.targets')
    for asg, end, rv, t in table(ck, cr, conds):
        for full in assignments(conds, asg):
            allowed = not (full['hwm'] and full['full']) and not full['black'] and (not full['tgts'] or full['intgt'])
            is_follow = rv is not None and cr.match('job.follow.check(self.completed[self.targets[idx]], self.failed[self.targets[idx]])', rv) is not None
            okk = is_follow if allowed else (rv is tm.const(False))
            if not allowed and rv is not None and rv.op == 'bool':
                okk = True
            ck.ok('dep.follow-filter', okk, cr, f'engine eligibility for {full} must be {"the follow check on that engine" if allowed else "False"}, is {rv}',
                  path=t.path())
    mr = ck.F(TS + 'maybe_run', opaque=OPS)
    ma = dict(
        submit=call('self.submit_task(job, *_)'), fail=call('self.fail_unreachable(*_)'),
        many=lit('1 < len(_)'), notgt=either(lit('not job.targets'), lit('not job.targets.intersection(self.targets)'),
                                            lit('job.targets.isdisjoint(self.targets)')),
    )
    have = {a for t in mr.traces(ma) for a in t.atoms}
    ck.ok('dep.follow-impossible', 'many' in have, mr, 'following several engines at once must be detected as impossible')
    ck.every('dep.follow-impossible', mr, ma, lambda t: ('many' not in t) or 'fail' in t,
             'a location dependency spanning engines must fail the task')
    ck.every('dep.targets-impossible', mr, dict(fail=ma['fail'], notgt=lit('not job.targets.intersection(self.targets)')),
             lambda t: 'notgt' not in t or 'fail' in t, 'a task whose remaining targets are gone must fail')
    ck.guarded('dep.follow-span-all', mr, call('_.add(self.destinations[_])'), [lit('job.follow.all')],
               'spanning several engines is impossible only in all-mode', missing_ok=True)
    for flag, which in (('success', 'all_completed'), ('failure', 'all_failed')):
        pass
    # the engine is chosen from the filtered set
    for e, b in mr.find(call('self.submit_task(job, *_)')):
        v = argof(e.a[0], 1, 'indices')
        okk = v is not None and (mr.match('any_of(None, has(filter(*_)), new(list))', v) is not None)
        ck.ok('dep.run-filtered', okk, e, 'the task must be submitted to one of the eligible engines')
    G = mr.guards()
    # update graph: results release dependents
    ug = ck.F(TS + 'update_graph', opaque=OPS + ('available_engines',))
    ck.exists('dep.release', ug, remove('self.graph', 'dep_id'), 'a finished task releases its dependents')
    atoms = dict(un=either(lit('_.after.unreachable(self.all_completed, self.all_failed)'), lit('_.follow.unreachable(self.all_completed, self.all_failed)')))
    have = {}
    for k, p in (('after', '_.after.unreachable(self.all_completed, self.all_failed)'), ('follow', '_.follow.unreachable(self.all_completed, self.all_failed)')):
        ck.exists('dep.release-unreachable', ug, call(p), f'waiting tasks must be tested for impossible {k} dependencies')
    scan(ck)
    # results feed the sets dependencies are evaluated against
    dr = ck.F(TS + 'handle_result', opaque=OPS)
    mid = "parent['msg_id']"
    ra = dict(s=lit('success'), ns=lit('not success'), c=add('self.all_completed', mid), f=add('self.all_failed', mid),
              ec=add('self.completed[_]', mid), ef=add('self.failed[_]', mid), d=add('self.all_done', mid),
              dest=add('self.destinations', mid), g=call(f'self.update_graph({mid}, *_)'))
    ck.every('dep.result-recorded', dr, ra, lambda t: (
        ('s' in t) == ('c' in t) == ('ec' in t) and ('ns' in t) == ('f' in t) == ('ef' in t) and 'd' in t and 'dest' in t
        and t.count('g') == 1 and all(t.before(x, 'g') for x in ('c', 'f', 'ec', 'ef', 'd', 'dest') if x in t)),
        'a result must be recorded as completed or failed (globally and for its engine), then dependents updated')
    for e, b in dr.find(ra['g']):
        v = argof(e.a[0], 1, 'success')
        ck.ok('dep.result-recorded', v is not None and dr.match('success', v) is not None, e, 'dependents must learn whether it succeeded')
    dd = ck.F(TS + 'dispatch_result', opaque=OPS + ('handle_unmet_dependency', 'handle_result'))
    for e, b in dd.find(call('self.handle_result(*_)')):
        v = argof(e.a[0], 3, 'success')
        ck.ok('dep.result-status', v is not None and dd.match("_['metadata']['status'] == 'ok'", v) is not None, e,
              'success is exactly status == ok')
    all_ = _all_methods(ck)
    sched.submission_values(ck, all_)
    sched.no_engine(ck, all_)
    sched.unlinked(ck, all_)
    sched.linked(ck, all_)
    sched.rescan(ck, all_)


REENTER = either(*[call(f'self.{m}(*_)') for m in (
    'update_graph', 'maybe_run', 'submit_task', 'add_job', 'dispatch_result', 'dispatch_submission', 'dispatch_notification', 'handle_result',
    'handle_unmet_dependency', 'fail_unreachable', '_register_engine', '_unregister_engine', 'handle_stranded_tasks')],
    call('_.flush(*_)'))


def _between(t, a, b, c):
    """is there a b between an a and the following c?"""
    seen = None
    for x in t.atoms:
        if x == a:
            seen = False
        elif x == b and seen is not None:
            seen = True
        elif x == c and seen:
            return True
    return False


def _litatom(fl, a):
    return a


def _fold(rv, full, names):
    """Evaluate boolean combinations under an assignment, leaving set predicates."""
    if rv.op == 'bool':
        parts = []
        op, vals = rv.a
        for v in vals:
            p = setpred(v, 'self', names) or _cond(v, full)
            parts.append(p)
        neutral = op == 'and'
        rest = [p for p in parts if p != ('const', neutral)]
        if any(p == ('const', not neutral) for p in parts):
            return ('const', not neutral)
        if len(rest) == 1:
            return rest[0]
    return _cond(rv, full)


def _cond(v, full):
    l, p = tm.literal(v, True)
    m = {'S': 'truth(self.success)', 'F': 'truth(self.failure)', 'A': 'truth(self.all)', 'ne': 'truth(self)', 'nofail': 'isnone(failed)'}
    for k, s in m.items():
        if tm.pat(s).match(l) is not None:
            return ('const', full[k] == p)
    return None


# ------------------------------------------------------------------ S03
def _list_ops(fl, name):
    """Shape-changing operations on self.<name>: [(eff, normal form)]; shared loops excluded."""
    out = []
    other = {'targets': 'loads', 'loads': 'targets'}[name]
    for e in fl.all_effects():
        if e.kind not in ('add', 'remove', 'clear') or e.a[-1] == 'key':
            continue
        c = e.a[0]
        if fl.match(f'self.{name}', c) is None:
            continue
        if fl.match(f'self.{other}', c) is not None:
            continue  # one operation applied to both lists
        if e.kind == 'add':
            nf = ('add', e.a[-1], repr(e.a[2]) if e.a[-1] == 'insert' else '')
        elif e.kind == 'remove':
            k = e.a[1]
            if e.a[-1] == 'remove':
                k = tm.call(tm.attr(c, 'index'), (k,), ())
            nf = ('remove', repr(k).replace('self.loads', 'self.targets'))
        else:
            nf = ('clear',)
        out.append((e, nf))
    return out


@prop('S03', 35)
def s03(ck):
    cls = ck.repo.cls('controller.task_scheduler:TaskScheduler')
    names = ck.names('controller.task_scheduler:TaskScheduler')
    touched = 0
    for f in cls.methods.values():
        fl = ck.F(f, opaque=names, cls=cls)
        t_ops, l_ops = _list_ops(fl, 'targets'), _list_ops(fl, 'loads')
        if not t_ops and not l_ops:
            continue
        touched += 1
        ck.ok('load.aligned', sorted(x[1] for x in t_ops) == sorted(x[1] for x in l_ops), fl,
              f'engine list and load list must change together: {[x[1] for x in t_ops]} vs {[x[1] for x in l_ops]}')
        te = {x[0] for x in t_ops}
        le = {x[0] for x in l_ops}
        atoms = dict(t=lambda e, a, b: {} if e in te else None, l=lambda e, a, b: {} if e in le else None,
                     idx=call('self.targets.index(_)'))
        ck.every('load.aligned-paths', fl, atoms, lambda t: t.count('t') == t.count('l'),
                 'engine list and load list must change together on every path')
        ck.every('load.index-before-removal', fl, dict(gone=lambda e, a, b: {} if e in te and e.kind == 'remove' else None, idx=atoms['idx']),
                 lambda t: not t.before('gone', 'idx'), 'the position must be taken before the engine is removed')
        # positions do not survive anything that may reorder the engines
        for e, b in fl.find(atoms['idx']):
            pos = e.a[0]
            reads = [x for x in fl.all_effects() if x is not e and x.node is not e.node and x.kind in ('call', 'add', 'remove', 'store', 'getitem')
                     and any(isinstance(y, tm.T) and tm.mentions(y, lambda z: z is pos) for y in x.a)]
            if not reads:
                continue
            ids = {id(x) for x in reads}
            evts = dict(at=lambda x, a, b, e=e: {} if x is e else None, use=lambda x, a, b: {} if id(x) in ids else None, moves=REENTER)
            ck.every('load.index-fresh', fl, evts, lambda t: not _between(t, 'at', 'moves', 'use'),
                     'the position of an engine must be looked up after anything that can handle other events and move engines', where=e)
    ck.ok('load.aligned', touched >= 2, 'controller.task_scheduler:TaskScheduler', 'registration and unregistration must maintain both lists')
    # rotation in add_job
    aj = ck.F(TS + 'add_job')
    ck.exists('load.add', aj, add('self.loads', 'idx', 'self.loads[idx] + 1'), 'assigning a task must add one to the load of that engine')
    aa = dict(inc=add('self.loads', 'idx', 'self.loads[idx] + 1'), pop=remove('any_of(self.targets, self.loads)', 'idx'),
              app=lambda e, a, b: add('any_of(self.targets, self.loads)')(e, a, b) if e.kind == 'add' and e.a[-1] == 'append' else None)
    ck.every('load.add', aj, aa, lambda t: t.count('inc') == 1 and ('pop' not in t or t.before('inc', 'pop')),
             'the load is counted once, before the engine moves in the order')
    for e, b in aj.find(aa['pop']):
        pass
    mv = [e for e in aj.all_effects() if e.kind == 'remove' and aj.match('any_of(self.targets, self.loads)', e.a[0]) is not None]
    back = [e for e in aj.all_effects() if e.kind == 'add' and e.a[-1] in ('append', 'insert') and aj.match('any_of(self.targets, self.loads)', e.a[0]) is not None]
    for e in back:
        ck.ok('load.rotate', aj.match('_[idx]', e.a[1]) is not None and (e.a[1].op == 'item' and e.a[1].a[0] is e.a[0]), e,
              'rotation must put back exactly the entry it took, in its own list')
        ck.ok('load.rotate', e.a[-1] == 'append', e, 'the engine just used goes to the back of the line')
    ck.ok('load.rotate', len(mv) == len(back), aj, 'rotation must not add or lose entries')
    fj = ck.F(TS + 'finish_job')
    ck.every('load.finish', fj, dict(dec=add('self.loads', 'idx', 'self.loads[idx] - 1')), lambda t: t.count('dec') == 1,
             'finishing a task must subtract one from the load of that engine')
    # register starts at zero
    rg = ck.F(TS + '_register_engine', opaque=names)
    ck.every('load.register', rg, dict(t=add('self.targets', 'uid'), l=add('self.loads', '0'),
                                       c=add('self.completed', 'uid', 'new(set)'), f=add('self.failed', 'uid', 'new(set)'),
                                       p=add('self.pending', 'uid', 'new(dict)'), g=call('self.update_graph(*_)')),
             lambda t: all(t.count(x) == 1 for x in 'tlcfpg') and all(t.before(x, 'g') for x in 'tlcfp'),
             'a new engine starts with load 0 and empty result sets, before waiting tasks are offered to it')
    # available engines
    av = ck.F(TS + 'available_engines')
    for t in av.traces(dict(h=lit('self.hwm'), nh=lit('not self.hwm')), retval=True):
        if t.end != 'return':
            continue
        if 'nh' in t and 'h' not in t:
            ck.ok('load.available', av.match('any_of(range(len(any_of(self.targets, self.loads))), copyof(range(len(any_of(self.targets, self.loads)))))', t.ret) is not None,
                  av, 'without a high-water mark every engine is available', path=t.path())
    puts = [e for e in av.all_effects() if (e.kind == 'add' and e.a[-1] == 'append') or e.kind == 'comp_elt']
    puts = [e for e in puts if av.match('self.targets', e.a[0]) is None]
    inner = [e for e in puts if any(t.op == 'cmp' for t, p in av.guards().get(e.node.id, ()))]
    ck.ok('load.available', bool(inner), av, 'with a high-water mark only engines below it are available')
    for e in inner:
        h = av.loop_of(e.node)
        ck.ok('load.available', h is not None, e, 'all engines must be considered')
        if h is None:
            continue
        pe = lambda x, a, b, e=e: {} if x is e else None  # noqa: E731
        for t in av.body_traces(h, dict(lt=either(lit('self.loads[_] < self.hwm'), lit('elem(self.loads) < self.hwm')), put=pe)):
            if t.end == 'stop':
                ck.ok('load.available-exact', ('lt' in t) == ('put' in t), e, 'an engine is available exactly when its load is below the mark', path=t.path())
    # only eligible engines get tasks
    mr = ck.F(TS + 'maybe_run', opaque=OPS)
    ck.paths_guard('load.none-available', mr, call('self.submit_task(*_)'),
                   dict(av=lit('copyof(range(_))'), av2=lit('self.available_engines()'), av3=either(lit('_'))),
                   'nothing is submitted unless an engine is available')
    some = [t for t, _ in mr.lit_count.items() if t.op == 'truth']
    # the emptiness of the available list is tested
    tr = mr.traces(dict(sub=call('self.submit_task(*_)')), retval=True)
    mo = ck.F(TS + 'maybe_run', opaque=names)
    ck.paths_guard('load.none-available', mo, call('self.submit_task(*_)'), dict(av=lit('self.available_engines()')),
                   'nothing is submitted unless an engine is available')
    for e, b in mo.find(call('filter(_, _)')):
        ck.ok('load.filter-available', mo.match('self.available_engines()', e.a[0].a[1][1]) is not None, e,
              'eligible engines are chosen among the available ones')
    cr = ck.nested(TS + 'maybe_run', 'can_run')
    ck.every('load.filter-hwm', cr, dict(full=lit('self.loads[idx] == self.hwm'), h=lit('self.hwm'), r=ret('False')),
             lambda t: 'full' not in t or 'h' not in t or 'r' in t, 'an engine at the high-water mark is not eligible')
    ck.every('load.must-filter', mo, dict(sub=call('self.submit_task(job, None)'), sub1=call('self.submit_task(job)'),
                                        hwm=lit('not self.hwm'), tg=lit('not job.targets'), fo=lit('not job.follow'), bl=lit('not job.blacklist')),
             lambda t: not ('sub' in t or 'sub1' in t) or all(x in t for x in ('hwm', 'tg', 'fo', 'bl')),
             'the unfiltered choice is allowed only without mark, targets, follow and blacklist')
    # index mapping in submit_task
    st = ck.F(TS + 'submit_task', opaque=('add_job',))
    for e, b in st.find(call('self.add_job(_)')):
        v = e.a[0].a[1][0]
        alts = [x for x in (st.alts(v) if v.op == 'phi' else [v]) if x.op != 'phi']
        for x in alts:
            okk = st.match('indices[self.scheme(_l)]', x) is not None or st.match('self.scheme(_l)', x) is not None
            ck.ok('load.index-map', okk, e, f'the scheme result must be mapped back to an engine index, got {x}')
    rows = st.traces(dict(ind=lit('indices'), nind=lit('not indices'), raw=call('self.add_job(self.scheme(_))'),
                          mapped=call('self.add_job(indices[self.scheme(_)])'), loads_all=call('self.scheme(self.loads)'),
                          loads_sel=call('self.scheme(no(self.loads))')))
    for t in rows:
        if t.end != 'return':
            continue
        if 'ind' in t and 'nind' not in t:
            ck.ok('load.index-map', 'mapped' in t and 'loads_sel' in t and 'raw' not in t, st,
                  'with a restricted choice, the scheme sees the selected loads and its answer indexes the selection', path=t.path())
        elif 'nind' in t and 'ind' not in t:
            ck.ok('load.index-map', 'raw' in t and 'loads_all' in t and 'mapped' not in t, st,
                  'with a free choice, the scheme sees all loads', path=t.path())
    for e, b in st.find(call('self.scheme(no(self.loads))')):
        for v in ([x for x in st.alts(e.a[0].a[1][0]) if x.op != 'phi'] if e.a[0].a[1][0].op == 'phi' else [e.a[0].a[1][0]]):
            if st.match('self.loads', v) is not None:
                continue
            ck.ok('load.selected-loads', v.op == 'comp' and st.match('self.loads[elem(indices)]', v.a[2]) is not None or v.op in ('call',), e,
                  'the selected loads must be the loads of the selected engines, in order')
    # load follows results
    dr = ck.F(TS + 'dispatch_result', opaque=('handle_unmet_dependency', 'handle_result'))
    eng = 'self.session.feed_identities(*_)[0][0]'
    da = dict(live=lit(f'{eng} in self.targets'), dead=lit(f'{eng} not in self.targets'),
              fin=add('self.loads', f'self.targets.index({eng})', '_ - 1'), hr=call('self.handle_result(*_)'), hu=call('self.handle_unmet_dependency(*_)'))
    ck.every('load.result', dr, da, lambda t: t.count('fin') == (1 if 'live' in t else 0) and (
        'fin' not in t or all(t.before('fin', x) for x in ('hr', 'hu') if x in t)),
             'each result of a live engine lowers exactly its load, before the result is acted on')
    ck.exists('load.result', dr, da['fin'], 'results lower the load')
    # freed capacity is offered to waiting tasks
    ug = ck.F(TS + 'update_graph', opaque=names)
    flag = _queue_flag(ug)
    ck.ok('load.rescan', flag is not None, ug, 'the graph update must be able to walk the whole queue')
    ck.every('load.rescan', ug, dict(none=lit('dep_id is None'), der=call('sorted(*_)')), lambda t: 'none' not in t or 'der' not in t,
             'a capacity update (no task id) walks the whole queue')
    ck.every('load.rescan', ug, dict(free=either(lit('any(_)')), h=lit('self.hwm'), der=call('sorted(*_)')),
             lambda t: not ('free' in t and 'h' in t) or 'der' not in t, 'when an engine has just dropped below the mark the whole queue is walked')
    anyc = [e for e, b in ug.find(call('any(_)'))]
    ck.ok('load.rescan-cond', any(ug.match('self.hwm - 1', y) is not None for e in anyc for y in tm._deep(e.a[0].a[1][0], ug.alts)), anyc[0] if anyc else ug,
          'freed capacity is recognised by a load one below the mark')
    hu = ck.F(TS + 'handle_unmet_dependency', opaque=names)
    ha = dict(h=lit('self.hwm'), edge=lit('self.loads[_] == self.hwm - 1'), up=call('self.update_graph(None)'), live=lit('_ in self.targets'))
    ck.every('load.rescan-unmet', hu, ha, lambda t: not ('h' in t and 'edge' in t) or 'up' in t,
             'an engine freed by an unmet dependency offers its slot to waiting tasks')
    ck.ok('load.rescan-unmet', any('edge' in t for t in hu.traces(ha)), hu, 'the freed slot must be recognised')
    # schemes return an index into loads
    m = ck.repo.module('controller.task_scheduler')
    ll = ck.F('controller.task_scheduler:leastload')
    ck.every('load.leastload', ll, dict(r=ret('loads.index(min(loads))')), lambda t: 'r' in t, 'least-load picks the first engine with the lowest load')
    lr = ck.F('controller.task_scheduler:lru')
    ck.every('load.lru', lr, dict(r=ret('0')), lambda t: 'r' in t, 'lru picks the head of the line')
    for nm in ('plainrandom', 'twobin'):
        fl = ck.F('controller.task_scheduler:' + nm)
        rs = [e for e, b in fl.find(call('randint(*_)'))] + [e for e, b in fl.find(call('randrange(*_)'))]
        for e in rs:
            a = e.a[0]
            okk = fl.match('randint(0, len(loads) - 1)', a) is not None or fl.match('randrange(len(loads))', a) is not None or fl.match('randrange(0, len(loads))', a) is not None
            ck.ok('load.random-range', okk, e, 'a random pick must be a valid engine index')
        if nm == 'twobin':
            ck.every('load.twobin', fl, dict(r=ret('min(_, _)')), lambda t: 'r' in t, 'twobin uses the earlier of the two picks')
    opts = cls.attrs.get('scheme_name')
    import ast
    if opts is not None:
        vals = [x.value for x in ast.walk(opts) if isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.isidentifier()]
    sd = ck.F(TS + '_scheme_default')
    ck.every('load.default-scheme', sd, dict(r=ret('leastload')), lambda t: 'r' in t, 'the default scheme is least load')
    sched.handover(ck)


# ------------------------------------------------------------------ S04
@prop('S04', 20)
def s04(ck):
    cls = ck.repo.cls('controller.task_scheduler:TaskScheduler')
    names = ck.names('controller.task_scheduler:TaskScheduler')
    un = ck.F(TS + '_unregister_engine', opaque=names)
    ua = dict(
        flush=call('self.engine_stream.flush(*_)'), out=remove('self.targets', '_'), lo=remove('self.loads', '_'),
        has=lit('self.pending[uid]'), hasnt=lit('not self.pending[uid]'),
        later=call('any_of(self.loop.add_timeout, self.loop.call_later, self.loop.call_at)(*_)'),
        now=call('self.handle_stranded_tasks(uid)'), pc=remove('self.completed', 'uid'), pf=remove('self.failed', 'uid'),
    )
    ck.every('loss.unregister', un, ua, lambda t: t.count('flush') == 1 and t.count('out') == 1 and t.count('lo') == 1
             and t.before('flush', 'out')
             and (('has' in t and ('later' in t or 'now' in t) and 'pc' not in t and 'pf' not in t)
                  or ('hasnt' in t and 'pc' in t and 'pf' in t) or ('has' in t and 'hasnt' in t)),
             'a lost engine stops receiving work; its outstanding tasks are scheduled for settlement, or its records dropped when it has none')
    for e, b in un.find(ua['later']):
        cb = e.a[0].a[1][1] if len(e.a[0].a[1]) > 1 else None
        okk = cb is not None and _calls_back(ck, un, cb, e, 'handle_stranded_tasks', 'uid')
        ck.ok('loss.scheduled', okk, e, 'the delayed settlement must be for the engine that was lost')
    hs = ck.F(TS + 'handle_stranded_tasks', opaque=names)
    disp = [e for e, b in hs.find(call('self.dispatch_result(_)'))]
    ck.ok('loss.each-task', bool(disp), hs, 'each stranded task must be settled through the result path')
    for e in disp:
        h = hs.loop_of(e.node)
        ck.ok('loss.each-task', h is not None, e, 'every stranded task must be settled')
        if h is None:
            continue
        it = hs.val(h, h.term) if h.term is not None else None
        base = it
        safe = it is not None and it.op == 'copy'
        ck.ok('loss.iterates-copy', safe, e, 'settling changes the pending map, so a copy of its keys must be iterated')
        ck.ok('loss.each-task', it is not None and hs.match('has(self.pending[engine])', it) is not None, e, 'all pending tasks of the engine are covered')
        atoms = dict(d=call('self.dispatch_result(_)'), gone=either(lit('_ not in self.pending[engine]'), lit('_ is None')), )
        for t in hs.body_traces(h, atoms):
            if t.end == 'stop':
                ck.ok('loss.each-task', ('d' in t) != ('gone' in t), e, 'a stranded task is settled exactly once, unless it is already gone', path=t.path())
            elif t.end == 'return':
                ck.ok('loss.each-task', False, e, 'settlement must not stop early', path=t.path())
    for e, b in hs.find(call('self.session.msg(*_)')):
        t = e.a[0]
        md = argof(t, 4, 'metadata')
        ck.ok('loss.reply-status', md is not None and hs.match("{'status': 'error', 'engine': _}", md) is not None, e, 'the synthetic reply must report an error from that engine')
        pr = argof(t, 2, 'parent')
        ck.ok('loss.reply-parent', pr is not None and hs.match('self.session.unpack(_)', pr) is not None, e, 'the synthetic reply must answer the original request')
        ct = argof(t, 1, 'content')
        ck.ok('loss.reply-content', ct is not None and hs.match("any_of({'status': 'error'}, wrap_exception(*_))", ct) is not None, e, 'the synthetic reply must carry the wrapped error')
    ck.exists('loss.reply', hs, call('self.session.msg(*_)'), 'a synthetic reply is built')
    ck.exists('loss.engine-error', hs, either(call('error.EngineError(*_)'), call('EngineError(*_)')), 'the error is an EngineError')
    for e, b in hs.find(call('self.session.serialize(*_)')):
        idn = argof(e.a[0], 1, 'ident')
        ck.ok('loss.reply-route', idn is not None and hs.match('[engine, self.session.feed_identities(*_)[0][0]]', idn) is not None, e,
              'the synthetic reply must look as if sent by the engine to the client')
    ck.every('loss.scrub', hs, dict(d=call('self.dispatch_result(_)'), c=remove('self.completed', 'engine'), f=remove('self.failed', 'engine')),
             lambda t: t.count('c') == 1 and t.count('f') == 1 and not t.before('c', 'd') and not t.before('f', 'd')
             and not any(x == 'd' for x in t.atoms[min(t.atoms.index('c'), t.atoms.index('f')):]),
             'the engine records are dropped only after its tasks are settled')
    # retries
    sub = ck.F(TS + 'dispatch_submission', opaque=names)
    ck.every('retry.initial', sub, dict(acc=add('self.all_ids'), r=add('self.retries', "_['header']['msg_id']", "_['metadata'].get('retries', 0)"),
                                       any=either(call('self.maybe_run(_)'), call('self.save_unmet(_)'))),
             lambda t: 'acc' not in t or ('r' in t and not t.before('any', 'r')), 'the retry budget is recorded (default 0) before the task can run')
    dr = ck.F(TS + 'dispatch_result', opaque=('handle_unmet_dependency', 'handle_result'))
    mid = "_['parent_header']['msg_id']"
    da = dict(
        met=lit("_['metadata'].get('dependencies_met', True)"), unmet=lit("not _['metadata'].get('dependencies_met', True)"),
        okk=lit("_['metadata']['status'] == 'ok'"), bad=lit("_['metadata']['status'] != 'ok'"),
        left=lit(f'0 < self.retries[{mid}]'), none=lit(f'not 0 < self.retries[{mid}]'), leftt=lit(f'self.retries[{mid}]'), nonet=lit(f'not self.retries[{mid}]'),
        dec=add('self.retries', mid, f'self.retries[{mid}] - 1'), drop=remove('self.retries', mid),
        again=call('self.handle_unmet_dependency(*_)'), relay=call('self.handle_result(*_)'),
    )

    def policy(t):
        if 'unmet' in t:
            return 'again' in t and 'dec' not in t and 'relay' not in t
        if 'again' in t:
            return 'bad' in t and ('left' in t or 'leftt' in t) and t.count('dec') == 1 and t.before('dec', 'again') and 'drop' not in t
        return 'relay' in t and 'drop' in t and 'dec' not in t and ('okk' in t or 'none' in t or 'nonet' in t)

    ck.every('retry.policy', dr, da, policy,
             'only a failed task with retries left runs again, using one retry; unmet dependencies use none; everything else is relayed')
    hu = ck.F(TS + 'handle_unmet_dependency', opaque=names)
    ck.every('retry.blacklist', hu, dict(bl=add('_.blacklist', 'idents[0]'), run=call('self.maybe_run(_)')),
             lambda t: 'bl' in t and not t.before('run', 'bl'), 'an engine that returned a task is excluded before the next attempt')
    for e, b in hu.find(add('_.blacklist', '_')):
        ck.ok('retry.blacklist', hu.match("self.pending[idents[0]][parent['msg_id']].blacklist", e.a[0]) is not None, e, 'the exclusion is recorded on the returned job')
    ck.every('retry.exhausted', hu, dict(all=lit('_.blacklist == _.targets'), fail=call('self.fail_unreachable(*_)')),
             lambda t: 'all' not in t or 'fail' in t, 'a task refused by all of its targets fails')
    cr = ck.nested(TS + 'maybe_run', 'can_run')
    ck.every('retry.blacklist-respected', cr, dict(bl=lit('self.targets[idx] in job.blacklist'), nbl=lit('self.targets[idx] not in job.blacklist'), f=ret('False')),
             lambda t: ('bl' in t and 'f' in t and 'nbl' not in t) or 'nbl' in t or ('f' in t and 'bl' not in t),
             'an excluded engine is never eligible')
    mr = ck.F(TS + 'maybe_run', opaque=names)
    # notification dispatch
    st = ck.F(TS + 'start', opaque=names)
    handlers = {}
    for e in st.all_effects():
        if e.kind == 'store' and e.a[1] == '_notification_handlers' and e.a[2].op == 'alloc':
            handlers = {k.a[0]: v for k, v in e.a[2].a[2] if k.op == 'const'}
    for k, h in (('registration_notification', '_register_engine'), ('unregistration_notification', '_unregister_engine')):
        ck.ok('loss.notified', k in handlers and st.match(f'self.{h}', handlers[k]) is not None, st, f'{k} must be handled by {h}')
    ck.exists('loss.notified', st, call('self.notifier_stream.on_recv(self.dispatch_notification)'), 'engine notifications must be received')
    dn = ck.F(TS + 'dispatch_notification', opaque=names)
    ck.exists('loss.notified', dn, call("_(_['content']['uuid'].encode(*_))"), 'the notified engine uuid reaches the handler')
    dq = ck.F(TS + 'dispatch_query_reply', opaque=names)
    ck.exists('loss.initial-engines', dq, call('self._register_engine(_.encode(*_))'), 'engines already present are registered')
    sched.refused(ck, names)
    sched.no_engine(ck, names)


def _callback_args(ck, fl, cb, extra, meth):
    """Arguments (as the caller's terms) with which a deferred callback calls self.<meth>, or None."""
    for t, raw in fl.callback_calls(cb, extra, opaque=(meth,)):
        if t.a[0].op == 'attr' and t.a[0].a[1] == meth:
            if raw is not None and any(x.op not in ('free', 'param', 'const') for x in raw.a[1]):
                return None  # evaluated when the callback fires
            return t.a[1]
    return None


def _calls_back(ck, fl, cb, e, meth, argname):
    c = _callback_args(ck, fl, cb, e.a[0].a[1][2:], meth)
    return c is not None and (argname is None or (len(c) == 1 and fl.match(argname, c[0]) is not None))


# ------------------------------------------------------------------ S05
@prop('S05', 8)
def s05(ck):
    cls = ck.repo.cls('controller.task_scheduler:TaskScheduler')
    names = ck.names('controller.task_scheduler:TaskScheduler')
    su = ck.F(TS + 'save_unmet', opaque=names)
    later = call('any_of(self.loop.add_timeout, self.loop.call_later, self.loop.call_at)(*_)')
    sa = dict(has=lit('job.timeout'), hasnt=lit('not job.timeout'), sched=later, q=add('self.queue', 'job'),
              bump=store('job.timeout_id', 'job.timeout_id + 1'))
    ck.every('timeout.armed', su, sa, lambda t: ('sched' in t) == ('has' in t) and t.count('sched') <= 1 and ('has' not in t or t.before('bump', 'sched')),
             'a queued task with a timeout arms exactly one new timer; one without arms none')
    ck.exists('timeout.armed', su, later, 'timers are armed')
    for e, b in su.find(later):
        args = e.a[0].a[1]
        when = args[0]
        f = e.a[0].a[0].a[1]
        okk = su.match('job.timeout', when) is not None if f == 'call_later' else su.match('any_of(time.time() + job.timeout, self.loop.time() + job.timeout)', when) is not None
        ck.ok('timeout.deadline', okk, e, 'the timer fires one timeout after the task was queued')
        if len(args) > 1:
            c = _callback_args(ck, su, args[1], args[2:], 'job_timeout')
            okk = c is not None and len(c) == 2 and su.match('job', c[0]) is not None and su.match('any_of(job.timeout_id + 1, job.timeout_id)', c[1]) is not None
            ck.ok('timeout.captured', okk, e, 'the timer must remember the id it was armed with, not the current one')
    jt = ck.F(TS + 'job_timeout', opaque=names)
    ja = dict(cur=lit('job.timeout_id == timeout_id'), stale=lit('job.timeout_id != timeout_id'), w=lit('job.msg_id in self.queue_map'),
              nw=lit('job.msg_id not in self.queue_map'), fail=call('self.fail_unreachable(job.msg_id, *_)'))
    ck.every('timeout.fires', jt, ja, lambda t: ('fail' in t) == ('cur' in t and 'w' in t), 'a timer fails its task exactly when it is the latest timer and the task is still waiting')
    ck.exists('timeout.fires', jt, ja['fail'], 'an expired task is failed')
    for e, b in jt.find(ja['fail']):
        w = argof(e.a[0], 1, 'why')
        ck.ok('timeout.reason', w is not None and jt.match('error.TaskTimeout', w) is not None, e, 'the reason is TaskTimeout')
    sub = ck.F(TS + 'dispatch_submission', opaque=names)
    for e, b in sub.find(call('Job(*_)')):
        v = argof(e.a[0], 9, 'timeout')
        okk = v is not None and sub.match("any_of(_['metadata'].get('timeout', *_), float(_['metadata'].get('timeout', None)), _['metadata']['timeout'], float(_['metadata']['timeout']))", v) is not None
        ck.ok('timeout.from-request', okk, e, "the timeout is the submission's")
    jf = ck.F('controller.task_scheduler:Job.__init__')
    ck.exists('timeout.initial', jf, store('self.timeout_id', '0'), 'timer ids start at 0')
    # tasks that leave the waiting state leave the id map, so their timers are inert
    fu = ck.F(TS + 'fail_unreachable', opaque=names)
    ck.every('timeout.inert', fu, dict(k=lit('msg_id in self.queue_map'), p=remove('self.queue_map', 'msg_id')), lambda t: 'k' not in t or 'p' in t,
             'a failed task is no longer waiting')
    ug = ck.F(TS + 'update_graph', opaque=names)
    runs = [e for e, b in ug.find(call('self.maybe_run(_)'))]
    for e in runs:
        ck.every('timeout.inert', ug, dict(ran=lit('self.maybe_run(_)'), un=remove('self.queue_map', '_.msg_id')),
                 lambda t: t.count('un') >= t.count('ran'), 'a task that ran is no longer waiting')


# ------------------------------------------------------------------ S06
@prop('S06', 14)
def s06(ck):
    cls = ck.repo.cls('controller.task_scheduler:TaskScheduler')
    names = ck.names('controller.task_scheduler:TaskScheduler')
    sub = ck.F(TS + 'dispatch_submission', opaque=names)
    mon = call("self.mon_stream.send_multipart([b'intask', *_], *_)")
    sa = dict(mon=call('self.mon_stream.send_multipart(*_)'), acc=add('self.all_ids'),
              act=either(call('self.maybe_run(_)'), call('self.save_unmet(_)'), call('self.fail_unreachable(*_)')))
    ck.every('mirror.intask', sub, sa, lambda t: 'acc' not in t or (t.count('mon') == 1 and t.before('mon', 'act')),
             'each accepted submission is mirrored to the hub once, before anything can be said about it')
    _topic(ck, sub, 'mirror.intask', b'intask', 'raw_msg')
    dr = ck.F(TS + 'dispatch_result', opaque=('handle_unmet_dependency', 'handle_result'))
    ra = dict(relay=call('self.handle_result(*_)'), again=call('self.handle_unmet_dependency(*_)'), mon=call('self.mon_stream.send_multipart(*_)'))
    ck.every('mirror.outtask', dr, ra, lambda t: t.count('mon') == t.count('relay') and ('relay' not in t or t.before('relay', 'mon')),
             'each relayed result is mirrored to the hub once, and results that are not relayed never are')
    _topic(ck, dr, 'mirror.outtask', b'outtask', 'raw_msg')
    fu = ck.F(TS + 'fail_unreachable', opaque=names)
    fa = dict(reply=call("self.session.send(self.client_stream, 'apply_reply', *_)"), mon=call('self.session.send(self.mon_stream, *_)'),
              g=call('self.update_graph(*_)'))
    ck.every('mirror.failed', fu, fa, lambda t: t.count('reply') == t.count('mon'), 'each failure reply is mirrored to the hub once')
    for e, b in fu.find(fa['mon']):
        idn = argof(e.a[0], None, 'ident') or argof(e.a[0], 4, 'ident')
        first = _first(fu, idn)
        ck.ok('mirror.failed', first == b'outtask', e, 'the mirrored failure is published as outtask')
        m = e.a[0].a[1][1] if len(e.a[0].a[1]) > 1 else None
        ck.ok('mirror.failed', m is not None and fu.match("self.session.send(self.client_stream, 'apply_reply', *_)", m) is not None, e,
              'the mirrored failure is the very message sent to the client')
        ck.ok('mirror.failed', idn is not None and tm.mentions(idn, lambda x: x.op == 'attr' and x.a[1] == 'idents'), e, 'the mirrored failure keeps the client identity')
    st = ck.F(TS + 'submit_task', opaque=('add_job',))
    ta = dict(sent=call('self.engine_stream.send_multipart(job.raw_msg, *_)'), track=call("self.session.send(self.mon_stream, 'task_destination', *_)"))
    ck.every('mirror.tracktask', st, ta, lambda t: t.count('sent') == t.count('track') == 1, 'each assignment is reported to the hub')
    for e, b in st.find(ta['track']):
        c = argof(e.a[0], 2, 'content')
        ck.ok('mirror.tracktask', c is not None and st.match("{'msg_id': job.msg_id, 'engine_id': self.targets[_].decode(*_)}", c) is not None, e,
              'the report names the task and the engine it was given to')
        ck.ok('mirror.tracktask', _first(st, argof(e.a[0], 4, 'ident')) == b'tracktask', e, 'the report is published as tracktask')
    st2 = ck.F(TS + 'submit_task')
    ck.every('mirror.tracktask', st2, dict(rotate=either(remove('self.targets'), add('self.targets')), read=lambda e, a, b: _getitem(e, 'self.targets', a)),
             lambda t: 'rotate' not in t or 'read' not in t.atoms[t.atoms.index('rotate'):], 'the reported engine must be read before the order of engines changes')
    # the hub understands exactly these topics
    hub = ck.F('controller.hub:Hub.__init__')
    keys = {}
    for e in hub.all_effects():
        if e.kind == 'store' and e.a[1] == 'monitor_handlers' and e.a[2].op == 'alloc':
            keys = {k.a[0]: v for k, v in e.a[2].a[2] if k.op == 'const'}
    for topic, meth in ((b'intask', 'save_task_request'), (b'outtask', 'save_task_result'), (b'tracktask', 'save_task_destination'),
                        (b'in', 'save_queue_request'), (b'out', 'save_queue_result'), (b'inbcast', 'save_broadcast_request'),
                        (b'outbcast', 'save_broadcast_result'), (b'iopub', 'monitor_iopub_message'), (b'heartmonitor', None), (b'incontrol', None), (b'outcontrol', None)):
        ck.ok('mirror.hub-topics', topic in keys and (meth is None or hub.match(f'self.{meth}', keys[topic]) is not None), hub,
              f'the hub must handle {topic!r}' + (f' with {meth}' if meth else ''))


def _first(fl, t):
    """First element of a list term such as [b'x'] + y or [b'x', y]."""
    if t is None:
        return None
    if t.op == 'bin' and t.a[0] == '+':
        return _first(fl, t.a[1])
    if t.op == 'alloc' and t.a[1] == 'list' and t.a[2]:
        x = t.a[2][0]
        return x.a[0] if x.op == 'const' else None
    if t.op == 'tup' and t.a[0]:
        return t.a[0][0].a[0] if t.a[0][0].op == 'const' else None
    return None


def _topic(ck, fl, rule, topic, raw):
    for e, b in fl.find(call('self.mon_stream.send_multipart(*_)')):
        a = e.a[0].a[1][0]
        ck.ok(rule, _first(fl, a) == topic, e, f'must be published under {topic!r}')
        ck.ok(rule, fl.match(f'has({raw})', a) is not None, e, 'the mirrored message is the original one')
