"""What a cluster logs: forwarded with --log-url, shown by iplogger, written to files."""

import ast
import re

from ipa import terms as tm

from . import fold
from .common import argof, call, keyed, prop, store

U = fold.UNKNOWN
LW = 'apps.logwatcher:LogWatcher'
HANDLER = re.compile(r'(^|[.:])(Engine)?PUBHandler$')


@prop('G01', 30)
def g01(ck):
    forward(ck, 'controller.app:IPController', 'controller')
    forward(ck, 'engine.app:IPEngine', None)
    topic(ck)
    schedulers(ck)
    logger(ck)
    watcher(ck)
    shown(ck)
    files(ck)


# ---------------------------------------------------------------- forwarding


def _handlers(t):
    """The PUB handlers that are constructed in a term."""
    return [z for z in tm.subterms(t) if z.op == 'call' and z.a[0].op == 'glob' and HANDLER.search(z.a[0].a[0])]


def _handler_atom(log):
    def f(e, alts, env):
        if e.kind != 'call' or not (e.a[0].a[0].op == 'attr' and e.a[0].a[0].a[1] == 'addHandler'):
            return None
        return {} if _handlers(e.a[0]) else None

    f.desc = f'{log}.addHandler(PUBHandler)'
    return f


def _published(ck, rule, fl, e, log, url, level, root, engine=None):
    """One addHandler call: what it publishes, where, and from which level on."""
    ck.ok(rule, fl.match(log, e.a[0].a[0].a[0]) is not None, e, f'records of {log} are forwarded')
    for h in _handlers(e.a[0]):
        sock = [z for z in tm.subterms(h) if z.op == 'call' and z.a[0].op == 'attr' and z.a[0].a[1] == 'socket']
        ck.ok(rule, bool(sock) and all(fl.match('_.socket(zmq.PUB, *_)', z) is not None or fl.match('_.socket(zmq.PUB)', z) is not None for z in sock), e, 'records are published')
        con = [x for x, b in fl.find(call('_.connect(*_)')) if x.a[0].a[0].a[0] in sock]
        ck.ok(rule, len(con) == 1 and all(fl.match(url, argof(x.a[0], 0, 'addr') or tm.NONE) is not None for x in con), e, 'records are published to the log url, once')
        lev = [x for x, b in fl.find(call('_.setLevel(*_)')) if x.a[0].a[0].a[0] is h]
        ck.ok(rule, bool(lev) and all(any(fl.match(level, y) is not None for y in fl.alts(argof(x.a[0], 0, 'level') or tm.NONE)) for x in lev), e, 'records from the log level on are forwarded')
        name = [x.a[2] for x in fl.all_effects() if x.kind == 'store' and x.a[0] is h and x.a[1] == 'root_topic']
        name += [argof(x.a[0], 0, 'root_topic') or tm.NONE for x, b in fl.find(call('_.setRootTopic(*_)')) if x.a[0].a[0].a[0] is h]
        name += [v for k, v in h.a[2] if k == 'root_topic']
        if root is not None:
            ck.ok(rule, len(name) == 1 and fl.match(root, name[0]) is not None, e, f'records are published as those of {root}')
        if engine is not None:
            ck.ok(rule, h.a[0].a[0].endswith('EnginePUBHandler') and fl.match(engine, argof(h, 0, 'engine') or tm.NONE) is not None, e, 'records are published as those of the engine')


def forward(ck, cls, root):
    names = tuple(n for n in ck.names(cls) if n != 'forward_logging')
    fl = ck.F(cls + '.initialize', opaque=names)
    at = dict(h=_handler_atom('self.log'))
    added = [e for e, b in fl.find(at['h'])]
    ck.ok('forward', bool(added), fl, 'the log can be forwarded')
    for e in added:
        _published(ck, 'forward', fl, e, 'self.log', 'self.log_url', 'self.log_level', f"'{root}'" if root else None, None if root else 'self')
    for url in ('tcp://h:1', ''):
        leaf = fold.leaves(fl, [('self.log_url', url)])
        for t in fold.cases(fl, leaf, at, {}, cap=4):
            if t.end == 'return':
                ck.ok('forward', t.count('h') == bool(url), fl, f'the log is forwarded {t.count("h")} times, with the log url {url!r}', path=t.path())


def topic(ck):
    cls = ck.repo.cls('engine.log:EnginePUBHandler')
    fl = ck.F('engine.log:EnginePUBHandler.root_topic')
    if any(isinstance(d, ast.Name) and d.id == 'property' for d in fl.func.node.decorator_list):
        ck.ok('topic', 'root_topic.setter' in cls.methods, fl, 'PUBHandler.__init__ can set the topic')
    for n in (0, 3, None):
        leaf = fold.leaves(fl, [("getattr(self.engine, 'id', None)", n), ('self.engine.id', n), ('isinstance(_, int)', n is not None)])
        for t in fold.cases(fl, leaf, {}, {}):
            if t.end == 'return':
                got = fold.fold(t.ret, leaf)
                if got is U:
                    ck.ok('topic', not tm.mentions(t.ret, lambda z: z.op == 'attr' and z.a[1] != 'id' and fl.match('self.engine', z.a[0]) is not None), fl, 'the origin is the id of the engine', path=t.path())
                ck.ok('topic', got is U or got == ('engine' if n is None else f'engine.{n}'), fl, f'the origin of engine {n} is {got!r}', path=t.path())
    fl = ck.F('engine.log:EnginePUBHandler.__init__')
    sup = call('any_of(_.PUBHandler.__init__(self, *_, **_), super().__init__(*_, **_), _.__init__(self, *_, **_))')
    at = dict(s=sup, e=store('self.engine', 'engine'))
    for t in fl.traces(at):
        if t.end == 'return':
            ck.ok('topic', t.count('e') == 1, fl, 'the handler knows its engine', path=t.path())
            ck.ok('topic', t.count('s') == 1, fl, 'the handler is set up', path=t.path())


SCHED = 'controller.scheduler:get_common_scheduler_streams'


def schedulers(ck):
    fl = ck.F(SCHED, opaque=('connect', 'connect_logger', 'local_logger', 'set_hwm'))
    con = 'any_of(connect_logger(*_, **_), _.connect_logger(*_, **_))'
    loc = 'any_of(local_logger(*_, **_), _.local_logger(*_, **_))'
    for f, params in (('connect_logger', ('logname', 'ctx', 'log_url', None, 'loglevel')), ('local_logger', ('logname', 'loglevel'))):
        g = ck.repo.func('util:' + f)
        ps = [a.arg for a in g.node.args.args]
        got = [e for e in fl.all_effects() if e.kind == 'call' and e.a[0].a[0].op == 'glob' and e.a[0].a[0].a[0].rsplit('.', 1)[-1].rsplit(':', 1)[-1] == f]
        ck.ok('scheduler', bool(got), fl, f'{f} is used')
        for e in got:
            for i, (p, want) in enumerate(zip(ps, params)):
                v = argof(e.a[0], i, p)
                if want is None:
                    ck.ok('scheduler', v is not None and v.op == 'const' and isinstance(v.a[0], str) and v.a[0].split('.')[0] == 'scheduler', e, 'the origin of records is the scheduler')
                elif want == 'ctx':
                    ck.ok('scheduler', v is not None and fl.match('log_url', v) is None, e, 'the context of the process is used')
                else:
                    ck.ok('scheduler', v is not None and fl.match(want, v) is not None, e, f'{f} gets the {want}')
    for thread in (True, False):
        for url in ('tcp://h:1', ''):
            leaf = fold.leaves(fl, [('in_thread', thread), ('log_url', url), ('config', {})])
            at = dict(con=_named('connect_logger'), loc=_named('local_logger'))
            for t in fold.cases(fl, leaf, at, {}, exc='none'):
                if t.end != 'return' or t.ret is None:
                    continue
                want = [] if thread else ['con'] if url else ['loc']
                ck.ok('scheduler', [a for a in ('con', 'loc') for _ in range(t.count(a))] == want, fl, f'a scheduler logs {"to the log url" if want == ["con"] else "locally"} (in a thread: {thread}, log url: {url!r})', path=t.path())
                if t.ret.op == 'tup' and len(t.ret.a[0]) == 7:
                    v = t.ret.a[0][6]
                    name = {'con': 'connect_logger', 'loc': 'local_logger'}.get(want[0]) if want else 'get_logger'
                    ck.ok('scheduler', tm.mentions(v, lambda z: z.op == 'glob' and z.a[0].endswith(name)), fl, f'the log of a scheduler is that of {name}', path=t.path())
    # what is given to the process
    params = [a.arg for a in fl.func.node.args.args]
    n = 0
    for spec in ('controller.scheduler:launch_scheduler', 'controller.broadcast_scheduler:launch_broadcast_scheduler'):
        g = ck.F(spec, opaque=ck.fnames('controller.scheduler') + ck.fnames('controller.broadcast_scheduler') + ('start',))
        for e in g.all_effects():
            if e.kind == 'call' and e.a[0].a[0].op == 'glob' and e.a[0].a[0].a[0].endswith('get_common_scheduler_streams'):
                n += 1
                for p in ('logname', 'log_url', 'loglevel'):
                    v = argof(e.a[0], params.index(p), p)
                    ck.ok('scheduler', v is not None and g.match(p, v) is not None, e, f'the {p} of the scheduler is used')
    ck.ok('scheduler', n >= 2, fl, 'schedulers set up their log')
    g = ck.F('controller.app:IPController.get_python_scheduler_args', opaque=ck.names('controller.app:IPController'))
    for e in g.all_effects():
        if e.kind != 'return':
            continue
        for v in g.alts(e.a[0]):
            for k, want in (('log_url', 'self.log_url'), ('loglevel', 'self.log_level')):

                got = keyed(g, v).get(k)
                ck.ok('scheduler', bool(got) and all(g.match(want, x) is not None for x in got), e, f'a scheduler is given the {k} of the controller')


def _named(name):
    def f(e, alts, env):
        return {} if e.kind == 'call' and e.a[0].a[0].op == 'glob' and re.search(rf'[.:]{name}$', e.a[0].a[0].a[0]) else None

    f.desc = name
    return f


def logger(ck):
    for spec in ('util:connect_logger', 'util:connect_engine_logger'):
        fl = ck.F(spec)
        at = dict(h=_handler_atom('logger'))
        added = [e for e, b in fl.find(at['h'])]
        ck.ok('logger', bool(added), fl, 'the log is forwarded')
        log = 'logging.getLogger(logname)' if spec.endswith('connect_logger') and 'engine' not in spec else 'logging.getLogger()'
        for e in added:
            _published(ck, 'logger', fl, e, log, 'iface', 'any_of(loglevel, int(loglevel), getattr(logging, loglevel))', 'root' if 'engine' not in spec else None, 'engine' if 'engine' in spec else None)
        own = [e for e, b in fl.find(call(log + '.setLevel(*_)'))]
        ck.ok('logger', bool(own), fl, 'the logger passes on records from the log level on')
        for twice in (True, False):
            leaf = fold.leaves(fl, [('any(*_)', twice), ('isinstance(_, *_)', twice)])
            none = 0
            for t in fold.cases(fl, leaf, at, {}, exc='none'):
                if t.end == 'return':
                    none += not t.count('h')
                    ck.ok('logger', twice or t.count('h') == 1, fl, 'one handler publishes a record', path=t.path())
                    ck.ok('logger', twice or (t.ret is not None and fl.match(log, t.ret) is not None), fl, 'the logger is returned', path=t.path())
            ck.ok('logger', bool(none) == twice, fl, 'one handler publishes a record')
    fl = ck.F('util:local_logger')
    at = dict(h=call('logging.getLogger(logname).addHandler(*_)'), l=call('logging.getLogger(logname).setLevel(*_)'))
    for twice in (True, False):
        leaf = fold.leaves(fl, [('any(*_)', twice), ('isinstance(_, *_)', twice)])
        none = 0
        for t in fold.cases(fl, leaf, at, {}, exc='none'):
            if t.end == 'return':
                none += not t.count('h')
                ck.ok('logger', twice or t.count('h') == 1 and t.count('l') >= 1, fl, 'a record is shown once', path=t.path())
                ck.ok('logger', twice or (t.ret is not None and fl.match('logging.getLogger(logname)', t.ret) is not None), fl, 'the logger is returned', path=t.path())
        ck.ok('logger', bool(none) == twice, fl, 'a record is shown once')
    for e, b in fl.find(call('_.setLevel(*_)')):
        v = argof(e.a[0], 0, 'level') or tm.NONE
        ck.ok('logger', any(fl.match('any_of(loglevel, int(loglevel), getattr(logging, loglevel))', y) is not None for y in fl.alts(v)), e, 'records from the log level on are shown')
    fl = ck.F('util:integer_loglevel')
    for e in fl.all_effects():
        if e.kind == 'return':
            for v in fl.alts(e.a[0]):
                ck.ok('logger', fl.match('any_of(loglevel, int(loglevel), getattr(logging, loglevel))', v) is not None or tm.mentions(v, lambda z: fl.match('loglevel', z) is not None), e, 'the log level is the one that was given')


# ---------------------------------------------------------------- iplogger

SUB = 'self.stream.setsockopt(zmq.SUBSCRIBE, _v)'
UNS = 'self.stream.setsockopt(zmq.UNSUBSCRIBE, _v)'


def _bytes(fl, v):
    """Whether a value is bytes: True, False, or None when that cannot be told."""
    got = set()
    for y in fl.alts(v):
        if y.op == 'const':
            got.add(isinstance(y.a[0], bytes))
        elif y.op == 'call' and y.a[0].op == 'attr' and y.a[0].a[1] == 'encode':
            got.add(True)
        elif y.op == 'call' and y.a[0].op == 'glob' and y.a[0].a[0].rsplit('.', 1)[-1] in ('bytes', 'cast_bytes', 'utf8'):
            got.add(True)
        elif y.op in ('fstr', 'elem', 'item', 'attr', 'param'):
            got.add(False)
        else:
            got.add(None)
    return False if False in got else None if None in got else True


def watcher(ck):
    names = ck.names(LW, 'subscribe')
    fl = ck.F(LW + '.__init__', opaque=names)
    at = dict(
        bind=call('self.context.socket(zmq.SUB, *_).bind(self.url)'), bind1=call('self.context.socket(zmq.SUB).bind(self.url)'), stream=store('self.stream'),
        sub=_sub('SUBSCRIBE'), watch=call("any_of(self.on_trait_change(self.subscribe, 'topics'), self.observe(_, *_), self.observe(_, **_))"),
    )
    cls = ck.repo.cls(LW)
    observed = any(isinstance(d, ast.Call) and getattr(d.func, 'id', getattr(d.func, 'attr', '')) == 'observe' and any(isinstance(x, ast.Constant) and x.value == 'topics' for x in d.args) for f in cls.methods.values() for d in f.node.decorator_list)
    for t in fl.traces(at, exc='none'):
        if t.end != 'return':
            continue
        ck.ok('watch', max(t.count('bind'), t.count('bind1')) == 1, fl, 'messages are received at the url', path=t.path())
        ck.ok('watch', t.count('stream') == 1, fl, 'messages are read', path=t.path())
        ck.ok('watch', observed or t.count('watch') >= 1, fl, 'topics can be changed', path=t.path())
    subs = [e for e, b in fl.find(at['sub'])]
    ck.ok('watch', bool(subs), fl, 'topics are subscribed to at first')
    for e, b in fl.find(at['stream']):
        ck.ok('watch', fl.match('_.ZMQStream(self.context.socket(zmq.SUB, *_), *_)', e.a[2]) is not None or tm.mentions(e.a[2], lambda z: fl.match('self.context.socket(zmq.SUB, *_)', z) is not None), e, 'what is read is what was bound')
    fl = ck.F(LW + '.subscribe', opaque=ck.names(LW, '_subscribe'))
    for kind in ('SUBSCRIBE', 'UNSUBSCRIBE'):
        es = [e for e, b in fl.find(_sub(kind))]
        ck.ok('subscribe', bool(es), fl, f'the stream can {kind.lower()}')
        for e in es:
            v = e.a[0].a[1][-1]
            text = e.a[0].a[0].a[1].endswith('_string')
            ck.ok('subscribe', _bytes(fl, v) is not (True if text else False), e, 'a topic is bytes for the socket')
    srcs = [z for e, b in fl.find(_sub('SUBSCRIBE')) for y in fl.alts(e.a[0].a[1][-1]) for z in tm.subterms(y) if z.op == 'elem']
    stored = {}
    for e in fl.all_effects():
        if e.kind == 'store' and fl.match('self', e.a[0]) is not None:
            stored.setdefault(e.a[1], []).extend(fl.alts(e.a[2]))

    def roots(t):
        out = []
        for y in fl.alts(t):
            if y.op == 'phi':
                continue
            if y.op == 'attr' and y.a[1] in stored:
                out += [s for s in stored[y.a[1]] if s.op != 'phi']
            else:
                out.append(y)
        return out

    ck.ok('subscribe', any(tm.mentions(r, lambda z: fl.match('self.topics', z) is not None) for z in srcs for r in roots(z.a[0])), fl, 'the topics that were asked for are subscribed to')
    for z in srcs:
        for r in roots(z.a[0]):
            whole = fl.match('any_of(self.topics, list(self.topics), tuple(self.topics), set(self.topics), sorted(self.topics), self.topics[:], self.topics.copy())', r) is not None
            ck.ok('subscribe', whole or r.op in ('alloc', 'copy') or r.op == 'comp' and not r.a[4] or r.op == 'bin', fl, 'all topics that were asked for are subscribed to')
            if r.op == 'alloc' and r.a[1] == 'list':
                ck.ok('subscribe', all(x.op != 'const' or x.a[0] in ('', b'') for x in r.a[2] if not isinstance(x, tuple)), fl, 'everything is the empty topic')
    for e, b in fl.find(_sub('UNSUBSCRIBE')):
        for y in fl.alts(e.a[0].a[1][-1]):
            for z in tm.subterms(y):
                if z.op == 'elem' and z.a[0].op == 'attr':
                    a = z.a[0].a[1]
                    ck.ok('subscribe', a in stored, e, 'what was subscribed to is known')
            if y.op == 'const':
                ck.ok('subscribe', False, e, 'all former topics are unsubscribed from')
    at = dict(s=_sub('SUBSCRIBE'), u=_sub('UNSUBSCRIBE'))
    for t in fl.traces(at, exc='none', cap=2):
        if t.end == 'return' and t.count('s') and t.count('u'):
            ck.ok('subscribe', not t.before('s', 'u'), fl, 'former topics are unsubscribed from before topics are subscribed to', path=t.path())
    for f, a in (('start', 'self.stream.on_recv(self.log_message)'), ('stop', 'self.stream.stop_on_recv()')):
        g = ck.F(f'{LW}.{f}', opaque=ck.names(LW))
        for t in g.traces(dict(a=call(a)), exc='none'):
            if t.end == 'return':
                ck.ok('watch', t.count('a') == 1, g, f'{f} {f}s the reading of messages', path=t.path())
    app = ck.F('apps.iploggerapp:IPLoggerApp.start', opaque=ck.names('apps.iploggerapp:IPLoggerApp'))
    at = dict(s=call('self.watcher.start()'), l=call('self.watcher.loop.start()'))
    for t in app.traces(at, exc='none'):
        if t.end == 'return':
            ck.ok('watch', t.count('s') == 1 and t.count('l') == 1 and t.before('s', 'l'), app, 'iplogger reads messages', path=t.path())
    app = ck.F('apps.iploggerapp:IPLoggerApp.initialize', opaque=ck.names('apps.iploggerapp:IPLoggerApp', 'init_watcher'))
    at = dict(w=store('self.watcher'), s=call('super().initialize(*_)'), x=call('self.exit(*_)'))
    for t in app.traces(at, exc='none'):
        if t.end == 'return':
            ck.ok('watch', t.count('w') == 1 and t.count('s') == 1 and t.before('s', 'w'), app, 'iplogger listens, with its configuration', path=t.path())
    for e, b in app.find(at['w']):
        for y in app.alts(e.a[2]):
            kw = dict(y.a[2]) if y.op == 'call' else {}
            ck.ok('watch', y.op == 'call' and app.match('self', kw.get('parent', tm.NONE)) is not None and app.match('self.log', kw.get('log', tm.NONE)) is not None, e, 'iplogger shows messages in its log, as configured')


def _sub(kind):
    def f(e, alts, env):
        if e.kind != 'call' or e.a[0].a[0].op != 'attr':
            return None
        t, meth = e.a[0], e.a[0].a[0].a[1]
        if meth in ('setsockopt', 'setsockopt_string', 'set', 'set_string') and len(t.a[1]) == 2:
            return {} if t.a[1][0].op == 'glob' and t.a[1][0].a[0].rsplit('.', 1)[-1] == kind else None
        return {} if meth == kind.lower() and t.a[0].a[0].op == 'attr' and t.a[0].a[0].a[1] == 'stream' and len(t.a[1]) == 1 else None

    f.desc = kind.lower()
    return f


def shown(ck):
    fl = ck.F(LW + '.log_message', opaque=ck.names(LW, '_extract_level'))
    log = call('self.log.log(*_)')
    err = call('any_of(self.log.error(*_, **_), self.log.warning(*_, **_), self.log.exception(*_, **_), self.log.critical(*_, **_))')
    at = dict(log=log, err=err)
    for n, dot in ((1, True), (3, True), (2, False), (2, True)):
        leaf = fold.leaves(fl, [('len(raw)', n), ('raw[0]', b'engine.INFO' if dot else b'INFO'), ("_.endswith('\\n')", False), ("isinstance(_, int)", True)])
        for t in fold.cases(fl, leaf, at, {}, exc='none', cap=4):
            if t.end == 'return':
                good = n == 2 and dot
                ck.ok('shown', t.count('log') == good, fl, f'a message of {n} frames, with{"" if dot else "out"} an origin, is shown {t.count("log")} times', path=t.path())
                ck.ok('shown', bool(t.count('err')) == (not good), fl, 'a malformed message is reported', path=t.path())
    for e, b in fl.find(log):
        lev, text = argof(e.a[0], 0, 'level') or tm.NONE, argof(e.a[0], 1, 'msg') or tm.NONE
        ck.ok('shown', len(e.a[0].a[1]) == 2 or text.op == 'const', e, 'a message is shown as it was sent')
        alts = list(fl.alts(lev))
        ck.ok('shown', any(z.op == 'elem' for z in deep(fl, lev)), e, 'the level is that of the message')
        for y in alts:
            ck.ok('shown', any(z.op in ('elem', 'phi') for z in deep(fl, y)) or fl.match('logging.INFO', y) is not None or y.op == 'const' and y.a[0] in (20, None), e, 'the level is that of the message')
        parts = list(e.a[0].a[1][1:])
        full = [w for p in parts for w in deep(fl, p)]
        ck.ok('shown', any(_frame(fl, w, 1) for w in full), e, 'the text of the message is shown')
        ck.ok('shown', any(_frame(fl, w, 0) for w in full), e, 'the origin of the message is shown')
        for w in full:
            ok = fl.match('raw[_]', w) is None or any(_dec(z) and w in tm.subterms(z) for z in full)
            ck.ok('shown', ok, e, 'text is shown, not bytes')
            if w.op == 'slice' or (w.op == 'item' and w.a[1].op == 'slice'):
                lim = w.a[1] if w.op == 'item' else w
                if tm.mentions(w, lambda z: z.op == 'attr' and z.a[1] == 'split'):
                    continue
                cs = [z.a[0] for z in lim.a if isinstance(z, tm.T) and z.op == 'const' and z.a[0] is not None]
                ck.ok('shown', cs in ([-1], [0, -1]), e, 'the whole text is shown')
        for x, g in _cuts(fl):
            ck.ok('shown', g, x, 'only the end of the line is left out')
    for e, b in fl.find(call('any_of(_.split(*_), _.rsplit(*_), _.partition(*_), _.rpartition(*_))')):
        ck.ok('shown', any(_frame(fl, y, 0) for y in fl.alts(e.a[0].a[0].a[0])), e, 'the level is looked for in the whole topic')
    leaf = fold.leaves(fl, [('len(raw)', 2), ('raw[0]', b'engine.INFO'), ("_.endswith('\\n')", False), ('isinstance(_, int)', True)])
    vals = dict(log=lambda e: e.a[0].a[1][-1] if e.kind == 'call' and len(e.a[0].a[1]) > 1 and fl.match('self.log.log(*_)', e.a[0]) is not None else None)
    for t in fold.cases(fl, leaf, dict(log=log), values=vals, exc='none'):
        for v in t.values('log'):
            ck.ok('shown', not tm.mentions(v, lambda z: z.op in ('slice', 'item') and (z.op == 'slice' or z.a[1].op == 'slice') and not tm.mentions(z, lambda y: y.op == 'attr' and y.a[1] == 'split')), fl, 'the whole text is shown', path=t.path())
    for e in fl.all_effects():
        if e.kind == 'getitem' and e.a[1].op == 'const' and e.a[1].a[0] == -1:
            ck.ok('shown', False, e, 'an empty text is shown')
    # which part of the topic is the level
    fl = ck.F(LW + '._extract_level', opaque=ck.names(LW))
    for e in fl.all_effects():
        if e.kind == 'call' and e.a[0].a[0].op == 'glob' and e.a[0].a[0].a[0] == 'getattr' and fl.match('logging', e.a[0].a[1][0]) is not None:
            ck.ok('level', any(z.kind == 'call' and z.a[0].a[0].op == 'glob' and z.a[0].a[0].a[0] == 'isinstance' for z in fl.all_effects()), e, 'a level is a number')
    at = dict(pop=_is('remove'))
    rets = [z for e in fl.all_effects() if e.kind == 'return' for z in deep(fl, e.a[0])]
    ck.ok('level', bool(fl.find(at['pop'])) or any(z.op == 'slice' or z.op == 'comp' and z.a[4] for z in rets), fl, 'the level is left out of the origin')
    for lv in (True, False) if fl.find(at['pop']) else ():
        leaf = fold.leaves(fl, [('isinstance(_, int)', lv)])
        for h in fl.loops('_'):
            for t in fl.body_traces(h, at, world=fold.literal(leaf), exc='none'):
                ck.ok('level', t.count('pop') == lv, fl, 'the level, and nothing else, is left out of the origin', path=t.path())
                ck.ok('level', (t.end == 'return') == lv, fl, 'the first level that is found is used', path=t.path())
    for e, b in fl.find(_is('remove')):
        ck.ok('level', not (e.a[1].op == 'const'), e, 'the level, and nothing else, is left out of the origin')
    for e, b in fl.find(call("_.split(*_)")):
        ck.ok('level', argof(e.a[0], 0, 'sep') is tm.const('.') and len(e.a[0].a[1]) == 1, e, 'the parts of a topic are divided by dots')
    for e, b in fl.find(call("_s.join(*_)")):
        ck.ok('level', b.get('_s') is tm.const('.'), e, 'the parts of a topic are divided by dots')
        ck.ok('level', not tm.mentions(e.a[0].a[1][0], lambda z: z.op == 'slice') or tm.mentions(e.a[0].a[1][0], lambda z: z.op == 'bin'), e, 'all parts of the origin are shown')


def _is(kind):
    def f(e, alts, env):
        return {} if e.kind == kind else None

    f.desc = kind
    return f


def deep(fl, t):
    seen, todo = [], [t]
    while todo:
        x = todo.pop()
        for z in tm.subterms(x):
            if z in seen:
                continue
            seen.append(z)
            if z.op == 'phi':
                todo += [y for y in fl.alts(z) if y not in seen]
    return seen


def _dec(z):
    return z.op == 'call' and z.a[0].op == 'attr' and z.a[0].a[1] == 'decode' or z.op == 'call' and z.a[0].op == 'glob' and z.a[0].a[0] == 'str'


def _frame(fl, w, i):
    """w is frame i of the message, as text."""
    if w.op == 'item' and w.a[1] is tm.const(i):
        x = w.a[0]
        if x.op == 'comp':
            return _dec(x.a[2]) and len(x.a[3]) == 1 and fl.match('raw', x.a[3][0]) is not None
        if x.op == 'call' and x.a[0].op == 'glob' and x.a[0].a[0] in ('list', 'tuple', 'map'):
            return tm.mentions(x, lambda z: fl.match('raw', z) is not None)
    if _dec(w):
        return fl.match(f'any_of(raw[{i}].decode(*_, **_), str(raw[{i}], *_, **_), str(raw[{i}], **_))', w) is not None or fl.match(f'raw[{i}]', w.a[0].a[0] if w.a[0].op == 'attr' else w) is not None
    return False


def _cuts(fl):
    """(effect, whether what is cut off is the end of a line)"""
    for e, b in fl.find(call('any_of(_.rstrip(*_), _.strip(*_), _.removesuffix(*_))')):
        a = argof(e.a[0], 0, 'chars')
        yield e, a is not None and a.op == 'const' and a.a[0] == '\n' and e.a[0].a[0].a[1] != 'strip'


# ---------------------------------------------------------------- log files

BASE = 'apps.baseapp:BaseParallelApplication'


def _text(fl, t, leaf):
    """The value of a text that is built of known parts."""
    if t.op == 'call' and fl.match('re.escape(_x)', t) is not None:
        v = _text(fl, t.a[1][0], leaf)
        return v if v is U else re.escape(v)
    if t.op == 'fstr':
        vs = [_text(fl, p, leaf) if isinstance(p, tm.T) else p for p in t.a[0]]
        return U if any(v is U for v in vs) else ''.join(str(v) for v in vs)
    return fold.fold(t, leaf)


def files(ck):
    fl = ck.F(BASE + '.reinit_logging', opaque=ck.names(BASE))
    rm = call('any_of(os.remove(_), os.unlink(_), _.unlink(*_, **_), _.remove(_))')
    opened = call('any_of(open(*_, **_), _.open(*_, **_), logging.FileHandler(*_, **_))')
    at = dict(rm=rm, open=opened, drop=call('self.log.removeHandler(*_)'), add=call('self.log.addHandler(*_)'))
    for clean in (True, False):
        for to_file in (True, False):
            leaf = fold.leaves(fl, [('self.clean_logs', clean), ('self.log_to_file', to_file), ('open(*_, **_)', 1), ('_.open(*_, **_)', 1), ('sys.__stderr__', 1)])
            for t in fold.cases(fl, leaf, at, {}, exc='none'):
                if t.end != 'return':
                    continue
                ck.ok('file', clean or not t.count('rm'), fl, 'old log files are removed only when asked for', path=t.path())
                ck.ok('file', t.count('open') == to_file, fl, 'a log file is opened exactly when asked for', path=t.path())
                ck.ok('file', t.count('add') == to_file, fl, 'the log goes to the file exactly when asked for', path=t.path())
    drop = [e for e in fl.all_effects() if e.kind == 'call' and fl.match('self.log.removeHandler(*_)', e.a[0]) is not None or e.kind in ('clear', 'store', 'remove') and tm.mentions(e.a[0], lambda z: fl.match('self.log.handlers', z) is not None) or e.kind == 'store' and e.a[1] == 'handlers']
    ck.ok('file', bool(drop), fl, 'a log file is the only place that is written to')
    ck.ok('file', bool(fl.find(rm)), fl, 'old log files can be removed')
    written = []
    for e, b in fl.find(opened):
        p = argof(e.a[0], 0, 'file')
        for y in fl.alts(p):
            ck.ok('file', tm.mentions(y, lambda z: fl.match('self.profile_dir.log_dir', z) is not None), e, 'the log file is in the directory of logs')
            written += [z for z in tm.subterms(y) if z.op == 'fstr' and not any(z is not w and z in tm.subterms(w) for w in tm.subterms(y) if w.op == 'fstr')]
            ck.ok('file', tm.mentions(y, lambda z: fl.match('os.getpid()', z) is not None), e, 'every process has a log file of its own')
    pats = [e for e, b in fl.find(call('any_of(re.match(*_), re.fullmatch(*_), re.search(*_))'))]
    for e in pats:
        for app, cid, pid in (('ipengine', '', 12), ('ipcontroller', 'c-1.x', 7)):
            leaf = fold.leaves(fl, [('self.name', app), ('self.cluster_id', cid), ('os.getpid()', pid)])
            rx = _text(fl, e.a[0].a[1][0], leaf)
            if rx is U:
                continue
            f = getattr(re, e.a[0].a[0].a[0].rsplit('.', 1)[-1] if e.a[0].a[0].op == 'glob' else e.a[0].a[0].a[1])
            for w in written:
                name = _text(fl, w, leaf)
                if name is U:
                    continue
                ck.ok('clean', bool(f(rx, name)), e, f'the old log file {name} is cleaned up')
                other = name.replace(app, 'other', 1)
                ck.ok('clean', not f(rx, other), e, f'the log file {other} of another program is kept')
                other = name.replace(f'{app}-{cid}', f'{app}-{cid}y', 1)
                ck.ok('clean', not f(rx, other), e, f'the log file {other} of another cluster is kept')
            for keep in (f'{app}.json', f'{app}-{cid}-notes.txt', f'{app}_config.py'):
                ck.ok('clean', not f(rx, keep), e, f'{keep} is kept')
    for e, b in fl.find(rm):
        ck.ok('clean', tm.mentions(e.a[0], lambda z: fl.match('self.profile_dir.log_dir', z) is not None), e, 'only files in the directory of logs are removed')
    if pats:
        for e, b in fl.find(rm):
            for h in fl.loops('_'):
                leaf = fold.leaves(fl, [('any_of(re.match(*_), re.fullmatch(*_), re.search(*_))', None)])
                for t in fl.body_traces(h, dict(rm=rm), world=fold.literal(leaf), exc='none'):
                    ck.ok('clean', not t.count('rm'), fl, 'only old log files are removed', path=t.path())
    g = ck.F(BASE + '.initialize', opaque=ck.names(BASE))
    at = dict(l=call('self.reinit_logging()'))
    for t in g.traces(at, exc='none'):
        if t.end == 'return':
            ck.ok('file', t.count('l') == 1, g, 'logging is set up', path=t.path())
