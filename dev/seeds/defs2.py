SEEDS = {}
SEEDS['r01-raised-engine'] = dict(
    property='R01',
    needs='an error of several engines, of which one is raised as itself and then shown',
    breaks='the error that is raised no longer tells which engine it comes from',
    edits={'ipyparallel/error.py': [("            raise RemoteError(en, ev, etb, ei)", "            raise RemoteError(en, ev, etb)")]},
    demo='''from ipyparallel import error

info = [dict(engine_id=i, method='apply') for i in range(3)]
many = error.CompositeError('many', [(f'E{i}', str(i), 'tb', info[i]) for i in range(3)])
try:
    many.raise_exception(2)
except error.RemoteError as e:
    got = (e.ename, e.engine_info, str(e))
assert got == ('E2', info[2], '[2:apply] E2: 2'), got
''')
SEEDS['l01-set-ids'] = dict(
    property='L01',
    needs='three engine sets that are started within the same second',
    breaks='the third engine set replaces the second one, which can then neither be stopped nor signalled',
    edits={'ipyparallel/cluster/cluster.py': [("        while engine_set_id in self.engines:", "        if engine_set_id in self.engines:")]},
    demo='''import tempfile, time
from ipyparallel.cluster import cluster as m

with tempfile.TemporaryDirectory() as d:
    c = m.Cluster(profile_dir=d, cluster_file='', load_profile=False, shutdown_atexit=False)
    m.time.time, real = (lambda: 1000.5), m.time.time
    try:
        for i in range(4):
            c.engines[c._new_engine_set_id()] = i
    finally:
        m.time.time = real
    got = dict(c.engines)
    c.engines = {}
assert len(got) == 4, got
''')
SEEDS['g01-engine-zero'] = dict(
    property='G01',
    needs='a log url, and a record of the engine with the id 0',
    breaks='what engine 0 logs is forwarded as that of an engine without an id, so a subscription to engine.0 does not hear it',
    edits={'ipyparallel/engine/log.py': [("        if isinstance(getattr(self.engine, 'id', None), int):", "        if getattr(self.engine, 'id', None):")]},
    demo='''import zmq
from ipyparallel.engine.log import EnginePUBHandler


class Engine:
    id = None


engine, ctx = Engine(), zmq.Context()
sock = ctx.socket(zmq.PUB)
handler = EnginePUBHandler(engine, sock)
got = []
for engine.id in (None, 0, 1):
    got.append(handler.root_topic)
sock.close(0)
ctx.term()
assert got == ['engine', 'engine.0', 'engine.1'], got
''')
SEEDS['j01-failed-job'] = dict(
    property='J01',
    needs='a job of joblib that fails, after another one succeeded, and a backend that is asked for the results',
    breaks='joblib is given the future of a job as if it were its result, so that a job that failed counts as done',
    edits={'ipyparallel/client/_joblib.py': [("lambda f: callback(f.result())", "lambda f: callback(f)")]},
    demo='''from concurrent.futures import Future
from ipyparallel.client._joblib import IPythonParallelBackend


class View:
    def __init__(self):
        self.jobs = []

    def apply_async(self, f):
        self.jobs.append((f, Future()))
        return self.jobs[-1][1]


view, got = View(), []
b = IPythonParallelBackend(view=view)
b.apply_async(lambda: 1, got.append)
b.apply_async(lambda: 2)
for f, future in view.jobs:
    future.set_result(f())
assert got == [1], got
''')
