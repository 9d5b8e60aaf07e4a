"""Stand-ins for sockets, so that the schedulers and the hub can be driven message by message."""
import sys, time, logging, os
sys.path.insert(0, os.getcwd())
import zmq
from traitlets import Any
from jupyter_client.session import Session
from ipyparallel.controller.task_scheduler import TaskScheduler
from ipyparallel.controller.broadcast_scheduler import BroadcastScheduler
from ipyparallel.controller.hub import Hub
from ipyparallel.controller.dictdb import DictDB
logging.disable(logging.CRITICAL)


class Stream:
    def __init__(self, name=''):
        self.name = name
        self.out = []
        self.incoming = []  # callables run by the next flush

    def flush(self, *a, **k):
        todo, self.incoming = self.incoming, []
        for f in todo:
            f()

    def send(self, *a, **k):
        self.out.append(list(a))

    def send_multipart(self, parts, *a, **k):
        self.out.append([bytes(getattr(p, 'bytes', p)) for p in parts])

    def on_recv(self, *a, **k):
        pass


class Sess(Session):
    """records what is sent: (msg_type, content, parent, idents, buffers)"""

    def send(self, stream, msg_or_type, content=None, parent=None, ident=None, buffers=None, **k):
        if isinstance(msg_or_type, str):
            msg = self.msg(msg_or_type, content=content, parent=parent, metadata=k.get('metadata'))
        else:
            msg = msg_or_type
        ident = [ident] if isinstance(ident, bytes) else list(ident or [])
        stream.out.append(dict(msg, ident=ident, buffers=buffers))
        return msg


class Loop:
    def __init__(self):
        self.timers = []

    def time(self):
        return 0.0

    def add_timeout(self, when, f):
        self.timers.append(f)
        return f

    def remove_timeout(self, f):
        if f in self.timers:
            self.timers.remove(f)


def fill(obj, **kw):
    for k, v in kw.items():
        obj._trait_values[k] = v


def sess():
    return Sess(key=b'x')


class Tasks:
    """a task scheduler with everything around it replaced"""

    def __init__(self, **kw):
        self.s = s = TaskScheduler(session=sess(), **kw)
        fill(s, client_stream=Stream('client'), engine_stream=Stream('engine'), notifier_stream=Stream('not'),
             mon_stream=Stream('mon'), loop=Loop())
        self.n = 0

    def submit(self, **md):
        s = self.s.session
        m = s.msg('apply_request', {}, metadata=md)
        self.s.dispatch_submission([zmq.Message(x) for x in s.serialize(m, ident=b'client')])
        return m['header']['msg_id']

    def finish(self, engine, mid, status='ok', **md):
        s = self.s.session
        m = s.msg('apply_reply', {}, parent={'msg_id': mid, 'session': 'a', 'msg_type': 'apply_request'},
                  metadata=dict(md, status=status, engine=engine.decode()))
        self.s.dispatch_result([zmq.Message(x) for x in s.serialize(m, ident=[engine, b'client'])])

    def where(self, mid):
        """engines the task was ever sent to, in order"""
        out, eng = [], None
        for parts in self.s.engine_stream.out:
            if len(parts) == 1:
                eng = parts[0]
            elif any(mid.encode() in p for p in parts):
                out.append(eng)
        return out

    def replies(self, mid):
        """final replies on the client stream: 'error' names or 'ok'"""
        out = []
        for m in self.s.client_stream.out:
            if isinstance(m, dict):
                if m['parent_header'].get('msg_id') == mid:
                    out.append(m['content'].get('ename', 'ok'))
            elif any(mid.encode() in p for p in m):
                out.append('relayed')
        return out

    def mirrors(self, topic, mid):
        n = 0
        for m in self.s.mon_stream.out:
            if isinstance(m, dict):
                hit = m['ident'][:1] == [topic] and (
                    m['parent_header'].get('msg_id') == mid or m['content'].get('msg_id') == mid)
            else:
                hit = m[0] == topic and any(mid.encode() in p for p in m)
            n += bool(hit)
        return n

    def check_loads(self):
        s = self.s
        want = [len(s.pending[t]) for t in s.targets]
        assert list(s.loads) == want, (s.targets, s.loads, want)


class _Hub(Hub):
    query = Any()
    notifier = Any()
    monitor = Any()
    resubmit = Any()
    loop = Any()
    db = Any()


def hub(db=None, **kw):
    return _Hub(session=sess(), query=Stream('query'), notifier=Stream('not'), monitor=Stream('mon'),
                resubmit=Stream('res'), loop=Loop(), db=db or DictDB(), **kw)


def msg(h, mtype, content=None, buffers=(), **kw):
    """a received, still serialized message for the hub: the part after the identities"""
    m = h.session.msg(mtype, content=content or {}, **kw)
    return m, h.session.feed_identities(h.session.serialize(m) + list(buffers))[1]
