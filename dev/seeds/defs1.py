TS = 'ipyparallel/controller/task_scheduler.py'
BC = 'ipyparallel/controller/broadcast_scheduler.py'
HUB = 'ipyparallel/controller/hub.py'
DD = 'ipyparallel/controller/dictdb.py'
SQ = 'ipyparallel/controller/sqlitedb.py'
SEEDS = {}

SEEDS['s01-failed-requeued'] = dict(
    property='S01',
    needs='a task submitted with a location dependency on two tasks that already finished on different engines',
    breaks='the task is failed as impossible while it is being assigned, and is then put in the waiting queue all the '
    'same: the next rescan finds it again and sends a second reply',
    edits={TS: [("""                if msg_id not in self.all_failed:
                    # could have failed as unreachable
                    self.save_unmet(job)
        else:
            self.save_unmet(job)

    def job_timeout""", """                self.save_unmet(job)
        else:
            self.save_unmet(job)

    def job_timeout""")]},
    demo='''from stub import *

t = Tasks(scheme_name='leastload')
t.s._register_engine(b'A')
t.s._register_engine(b'B')
a = t.submit(targets=['A'])
b = t.submit(targets=['B'])
t.finish(b'A', a)
t.finish(b'B', b)
c = t.submit(follow=[a, b])
assert t.replies(c) == ['ImpossibleDependency'], t.replies(c)
assert c not in t.s.queue_map
t.s._register_engine(b'C')
d = t.submit()
assert t.replies(c) == ['ImpossibleDependency'], t.replies(c)
''')

SEEDS['s02-follow-failed-elsewhere'] = dict(
    property='S02',
    needs='a task that must follow a failed task (failure=True) while a less loaded engine is available',
    breaks='the location dependency is judged by the failures of all engines, so the task runs on an engine where the '
    'task it follows never ran',
    edits={TS: [('return job.follow.check(self.completed[target], self.failed[target])',
                 'return job.follow.check(self.completed[target], self.all_failed)')]},
    demo='''from stub import *
from ipyparallel.controller.dependency import Dependency

t = Tasks(scheme_name='leastload', hwm=0)
for e in (b'A', b'B', b'C'):
    t.s._register_engine(e)
a = t.submit(targets=['B'])
t.finish(b'B', a, 'error')
for _ in range(3):
    t.submit(targets=['B'])
f = Dependency([a], success=False, failure=True).as_dict()
for _ in range(4):
    m = t.submit(follow=f)
    assert t.where(m) == [b'B'], t.where(m)
''')

SEEDS['s03-stale-index'] = dict(
    property='S03',
    needs='a result of another engine that is still in the engine stream when an engine leaves, with a high-water mark '
    'and waiting tasks, so that handling it rotates the engine list',
    breaks='the position of the lost engine is taken before late results are handled: the wrong engine and the wrong '
    'load are dropped, and tasks go on being sent to the engine that is gone',
    edits={TS: [("""        # handle any potentially finished tasks:
        self.engine_stream.flush()
""", """        # position of the engine that left
        idx = self.targets.index(uid)

        # handle any potentially finished tasks:
        self.engine_stream.flush()
"""), ("""        # prevent this engine from receiving work
        idx = self.targets.index(uid)
        self.targets""", """        # prevent this engine from receiving work
        self.targets""")]},
    demo='''from stub import *

t = Tasks(scheme_name='lru', hwm=1)
for e in (b'A', b'B', b'C'):
    t.s._register_engine(e)
ids = [t.submit() for _ in range(5)]
first = {t.where(m)[0]: m for m in ids[:3]}
gone = t.s.targets[1]
late = t.s.targets[0]
t.s.engine_stream.incoming.append(lambda: t.finish(late, first[late]))
t.s._unregister_engine(gone)
assert gone not in t.s.targets, (gone, t.s.targets)
t.check_loads()
''')

SEEDS['s04-last-engine'] = dict(
    property='S04',
    needs='the last remaining engine dies while it has tasks outstanding, and no other engine ever arrives',
    breaks='the tasks of the lost engine are not settled as long as there is no engine: tasks without retries left '
    'are never answered with an engine error',
    edits={TS: [("""        lost = self.pending[engine]
        for msg_id""", """        lost = self.pending[engine]
        if not self.targets:
            # nobody to hand them to: look again later
            self.loop.add_timeout(
                self.loop.time() + 5, lambda: self.handle_stranded_tasks(engine)
            )
            return
        for msg_id""")]},
    demo='''from stub import *

t = Tasks()
t.s._register_engine(b'A')
a = t.submit()
b = t.submit(retries=1)
t.s._unregister_engine(b'A')
for _ in range(5):
    for f in t.s.loop.timers[:1]:
        t.s.loop.timers.remove(f)
        f()
assert len(t.replies(a)) == 1, t.replies(a)
''')

SEEDS['s05-timer-identity'] = dict(
    property='S05',
    needs='a task with a timeout that waits, runs, is returned by the engine and waits again when the first timer fires',
    breaks='the timer callback looks up the timer id when it fires instead of remembering its own, so the timer of an '
    'earlier wait ends the current one',
    edits={TS: [("""            timeout_id = job.timeout_id = job.timeout_id + 1
            self.loop.add_timeout(
                time.time() + job.timeout, lambda: self.job_timeout(job, timeout_id)
            )""", """            job.timeout_id += 1
            self.loop.add_timeout(
                time.time() + job.timeout,
                lambda: self.job_timeout(job, job.timeout_id),
            )""")]},
    demo='''from stub import *

t = Tasks()
a = t.submit(timeout=5)
assert len(t.s.loop.timers) == 1
t.s._register_engine(b'A')
assert t.where(a) == [b'A']
t.finish(b'A', a, 'error', dependencies_met=False)
assert a in t.s.queue_map and len(t.s.loop.timers) == 2
t.s.loop.timers[0]()
assert t.replies(a) == [], t.replies(a)
t.s.loop.timers[1]()
assert t.replies(a) == ['TaskTimeout'], t.replies(a)
''')

SEEDS['s06-retry-reported'] = dict(
    property='S06',
    needs='a task with retries whose first run fails',
    breaks='the failure that is going to be retried is reported to the hub as the final outcome',
    edits={TS: [("""                # relay to client and update graph
                self.handle_result(idents, parent, raw_msg, success)
                # send to Hub monitor
                self.mon_stream.send_multipart([b'outtask'] + raw_msg, copy=False)
""", """                # relay to client and update graph
                self.handle_result(idents, parent, raw_msg, success)
            # send to Hub monitor
            self.mon_stream.send_multipart([b'outtask'] + raw_msg, copy=False)
""")]},
    demo='''from stub import *

t = Tasks()
t.s._register_engine(b'A')
t.s._register_engine(b'B')
a = t.submit(retries=1)
t.finish(t.where(a)[0], a, 'error')
assert t.mirrors(b'outtask', a) == 0
t.finish(t.where(a)[1], a)
assert t.mirrors(b'outtask', a) == 1
''')

SEEDS['s07-bufferless-reply'] = dict(
    property='S07',
    needs='a coalescing broadcast in which an engine answers with an error, whose reply has no buffers',
    breaks='replies without buffers count as not yet arrived, so the combined reply is never sent',
    edits={BC: [("""        if all(
            msg_buffers is not None
            for msg_buffers in self.accumulated_replies[original_msg_id].values()
        ):""", """        if all(self.accumulated_replies[original_msg_id].values()):""")]},
    demo='''from stub import *

s = BroadcastScheduler(session=sess(), is_leaf=True)
fill(s, client_stream=Stream(), engine_stream=Stream(), mon_stream=Stream())
m = s.session.msg('apply_request', {}, metadata={'targets': [('A', 0), ('B', 1)], 'is_coalescing': True})
s.dispatch_submission([zmq.Message(x) for x in s.session.serialize(m, ident=b'client')])
assert len(s.engine_stream.out) == 2
for eng, bufs in ((b'A', [b'x']), (b'B', [])):
    r = s.session.msg('apply_reply', {}, metadata={'original_msg_id': m['header']['msg_id'], 'is_coalescing': True})
    s.dispatch_result([zmq.Message(x) for x in s.session.serialize(r, ident=[eng, b'client']) + bufs])
assert len(s.client_stream.out) == 1, s.client_stream.out
''')

SEEDS['h01-async-handler'] = dict(
    property='H01',
    needs='a request whose handler is asynchronous and fails after it was started, e.g. become_dask without distributed',
    breaks='the awaited part of the handler is outside the error handling: the requester never gets a reply',
    edits={HUB: [("""            f = handler(idents, msg)
            if f and inspect.isawaitable(f):
                await f
        except Exception:
            content = error.wrap_exception()
            self.log.error("Error handling request: %r", msg_type, exc_info=True)
            self.session.send(
                self.query, "hub_error", ident=client_id, content=content, parent=msg
            )
""", """            f = handler(idents, msg)
        except Exception:
            content = error.wrap_exception()
            self.log.error("Error handling request: %r", msg_type, exc_info=True)
            self.session.send(
                self.query, "hub_error", ident=client_id, content=content, parent=msg
            )
            return

        if f and inspect.isawaitable(f):
            await f
""")]},
    demo='''from stub import *
import asyncio

sys.modules['distributed'] = None
h = hub()
m, raw = msg(h, 'become_dask_request')


async def main():
    try:
        r = h.dispatch_query([b'client', b'<IDS|MSG>'] + raw)
        if r is not None:
            await r
    except ImportError:
        pass


asyncio.run(main())
assert len(h.query.out) == 1 and h.query.out[0]['content']['status'] == 'error', h.query.out
''')

SEEDS['h02-restored-counter'] = dict(
    property='H02',
    needs='the engine with the highest id leaves, the controller restarts from its saved state, and a new engine registers',
    breaks='the id counter is rebuilt from the engines still present, so the id of the engine that left is given out again',
    edits={HUB: [("""        self._idcounter = state['next_id']

    # ----""", """        self._idcounter = max(self.engines, default=-1) + 1

    # ----""")]},
    demo='''from stub import *
import tempfile, shutil

d = tempfile.mkdtemp()
try:
    h = hub(engine_state_file=d + '/state.json')

    def register(h, uuid):
        m = h.session.msg('registration_request', {'uuid': uuid})
        h.register_engine(b'e', m)
        h.finish_registration(uuid.encode())

    for u in 'abc':
        register(h, u)
    assert sorted(h.engines) == [0, 1, 2]
    h.unregister_engine(b'e', {'content': {'id': 2}})
    g = hub(engine_state_file=d + '/state.json')
    g._load_engine_state()
    assert sorted(g.engines) == [0, 1]
    register(g, 'd')
    assert sorted(g.engines) == [0, 1, 3], sorted(g.engines)
finally:
    shutil.rmtree(d)
''')

SEEDS['h03-early-output'] = dict(
    property='H03',
    needs='output of a direct request reaches the hub before the request itself',
    breaks='what was recorded before the request arrived is not carried over and is overwritten with empty fields',
    edits={HUB: [("""                        key,
                        evalue,
                    )
                elif evalue and not rvalue:
                    record[key] = evalue
            try:
                self.db.update_record(msg_id, record)
            except Exception:
                self.log.error("DB Error updating record %r", msg_id, exc_info=True)
        except KeyError:
            try:
                self.db.add_record(msg_id, record)
            except Exception:
                self.log.error("DB Error adding record %r", msg_id, exc_info=True)
        except Exception:
            self.log.error("DB Error saving queue request""", """                        key,
                        evalue,
                    )
            try:
                self.db.update_record(msg_id, record)
            except Exception:
                self.log.error("DB Error updating record %r", msg_id, exc_info=True)
        except KeyError:
            try:
                self.db.add_record(msg_id, record)
            except Exception:
                self.log.error("DB Error adding record %r", msg_id, exc_info=True)
        except Exception:
            self.log.error("DB Error saving queue request""")]},
    demo='''from stub import *

h = hub()
h.register_engine(b'e', h.session.msg('registration_request', {'uuid': 'E'}))
h.finish_registration(b'E')
req, raw = msg(h, 'execute_request', {'code': 'print(1)'})
out, rawout = msg(h, 'stream', {'name': 'stdout', 'text': 'hello'}, parent=req['header'])
h.monitor_iopub_message([b'iopub'], rawout)
h.save_queue_request([b'E', b'client'], raw)
rec = h.db.get_record(req['header']['msg_id'])
assert rec['stdout'] == 'hello' and rec['queue'] == 'mux', rec
''')

SEEDS['h04-purge-pending'] = dict(
    property='H04',
    needs='purging by engine while a task is still running on that engine',
    breaks='the records of tasks that have not finished are dropped too, and their results are lost',
    edits={HUB: [("""                            dict(engine_uuid=uid, completed={'$ne': None})
""", """                            dict(engine_uuid=uid, submitted={'$ne': None})
""")]},
    demo='''from stub import *

h = hub()
h.register_engine(b'e', h.session.msg('registration_request', {'uuid': 'E'}))
h.finish_registration(b'E')
a, rawa = msg(h, 'execute_request', {'code': '1'})
h.save_queue_request([b'E', b'client'], rawa)
b, rawb = msg(h, 'execute_request', {'code': '2'})
h.save_queue_request([b'E', b'client'], rawb)
r, rawr = msg(h, 'execute_reply', {'status': 'ok'}, parent=a['header'])
h.save_queue_result([b'client', b'E'], rawr)
h.purge_results(b'client', h.session.msg('purge_request', {'engine_ids': [0]}))
assert h.query.out[-1]['content']['status'] == 'ok'
try:
    h.db.get_record(a['header']['msg_id'])
except KeyError:
    pass
else:
    raise SystemExit('finished record not purged')
h.db.get_record(b['header']['msg_id'])
''')

SEEDS['d01-buffer-accounting'] = dict(
    property='D01',
    needs='records whose buffers are replaced by an update, e.g. a late or repeated result, until the size limit matters',
    breaks='an update takes off the bytes of the new data instead of those it replaces, so the running total drifts and '
    'the limit is enforced too early or too late',
    edits={DD: [("""        self._drop_bytes(_rec)
        _rec.update(rec)""", """        self._drop_bytes(rec)
        _rec.update(rec)""")]},
    demo='''from stub import *
from ipyparallel.controller.hub import empty_record

db = DictDB()
for n in (3, 70, 5):
    if not db._records:
        r = empty_record()
        r['msg_id'] = 'a'
        db.add_record('a', r)
    db.update_record('a', {'result_buffers': [b'x' * n]})
assert db._buffer_bytes == 5, db._buffer_bytes
''')

SEEDS['d02-unset-fields'] = dict(
    property='D02',
    needs='an in-memory query with $nin on a field that is unset in some records',
    breaks='records without a value no longer match "not one of", unlike on the SQLite backend',
    edits={DD: [("""    '$nin': lambda a, b: a not in b,""", """    '$nin': lambda a, b: a is not None and a not in b,""")]},
    demo='''from stub import *
from ipyparallel.controller.hub import empty_record

db = DictDB()
for i, e in enumerate(['x', 'y', None]):
    r = empty_record()
    r['msg_id'] = str(i)
    r['engine_uuid'] = e
    db.add_record(str(i), r)
got = sorted(r['msg_id'] for r in db.find_records({'engine_uuid': {'$nin': ['x', 'z']}}))
assert got == ['1', '2'], got
''')
