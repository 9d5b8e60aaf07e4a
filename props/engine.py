"""Engines: running requests, heartbeats, registration and the nanny."""

import ast

from ipa import terms as tm
from ipa.terms import T

from . import engineval
from .client import _lit, effect
from .common import (add, argof, broad_handlers, call, caught, contained, covers, dict_sources, each, either, enclosing, is_eff, keyed, lit, prop, remove, ret, store)

K = 'engine.kernel:IPythonParallelKernel'
KM = f'{K}.'


def render(fl, t, names):
    """Text of a string term, each embedded value replaced by a name of its own."""
    if t.op == 'const' and isinstance(t.a[0], str):
        return t.a[0]
    if t.op == 'fstr':
        out = ''
        for x in t.a[0]:
            if isinstance(x, str):
                out += x
            else:
                out += render(fl, x, names)
        return out
    if t.op == 'bin' and t.a[0] == '+':
        return render(fl, t.a[1], names) + render(fl, t.a[2], names)
    return names.setdefault(t, f'Q{len(names)}q')


def base_handlers(fl, node):
    """Handlers reached by any BaseException raised at node."""
    out, seen = [], set()
    stack = [s for s, lab in node.succ if lab == 'exc']
    while stack:
        x = stack.pop()
        if x.id in seen or x.kind == 'exc_exit':
            continue
        seen.add(x.id)
        if x.kind == 'dispatch':
            for s, lab in x.succ:
                if isinstance(lab, tuple) and lab[0] == 'except':
                    if not lab[1] or 'BaseException' in lab[1]:
                        out.append(s)
                        break
                elif lab == 'uncaught' or s.kind == 'dispatch':
                    stack.append(s)
            continue
        stack.extend(s for s, lab in x.succ if lab != 'exc')
    return out


def contained_base(ck, rule, fl, atom, msg):
    hits = fl.find(atom)
    if not ck.ok(rule, bool(hits), fl, f'{msg} (no construct matches `{atom.desc}`)'):
        return
    for e, b in hits:
        ck.ok(rule, bool(base_handlers(fl, e.node)), e, msg + ' (must also catch exits and interrupts)')


def _alts(fl, t):
    return [x for x in (fl.alts(t) if t.op == 'phi' else [t]) if x.op != 'phi']


def dictval(fl, t):
    """constant-keyed entries of a returned dict"""
    return keyed(fl, t)


@prop('E01', 45)
def e01(ck):
    names = ck.names(K)
    # ---- one reply per apply request
    ar = ck.F(KM + 'apply_request', opaque=names)
    RUN = "self.do_apply(parent['content'], parent['buffers'], parent['header']['msg_id'], self.init_metadata(parent))"
    aa = dict(run=call('self.do_apply(*_)'), bad=lit('_ in _'), rep=call("self.session.send(stream, 'apply_reply', *_)"))
    ck.exists('apply.reply', ar, aa['rep'], 'an apply request is answered')
    ck.every('apply.reply', ar, aa, lambda t: t.count('run') == t.count('rep') <= 1, 'every apply request that is run is answered exactly once')
    ts = [t for t in ar.traces(aa, exc='member') if t.end == 'return']
    ck.ok('apply.reply', bool(ts) and all('run' in t for t in ts), ar, 'every well-formed apply request is run')
    for e, b in ar.find(aa['run']):
        ck.ok('apply.arguments', ar.match(RUN, e.a[0]) is not None, e, 'the request is run with its own content, buffers, id and metadata')
    for e, b in ar.find(aa['rep']):
        t = e.a[0]
        for i, k, p, m in (
            (2, 'content', f'{RUN}[0]', 'the content is the outcome of running the request'),
            (3, 'parent', 'parent', 'the reply answers the request'),
            (4, 'ident', 'ident', 'the reply is routed to the requester'),
            (5, 'buffers', f'{RUN}[1]', 'the result buffers are sent'),
            (9, 'metadata', f'self.finish_metadata(parent, self.init_metadata(parent), {RUN}[0])', 'the status is put into the metadata'),
        ):
            v = argof(t, i, k)
            ck.ok('apply.reply-content', v is not None and ar.match(p, v) is not None, e, m)
    for e, b in ar.find(call('_.flush()')):
        ck.ok('apply.reply', bool(broad_handlers(ar, e.node)), e, 'streams that user code replaced or closed must not prevent the reply')
    # ---- running it
    da = ck.F(KM + 'do_apply', opaque=list(names) + list(ck.fnames('serialize.serialize')))
    UNP = 'unpack_apply_message(bufs, self.shell.user_ns, *_)'
    ex = [e for e, b in da.find(call('exec(*_)'))]
    direct = [e for e, b in da.find(call(f'{UNP}[0](*_)'))]
    SER = call('serialize_object(*_)')
    ck.ok('apply.runs', len(ex) + len(direct) == 1, da, 'the function is called exactly once')
    for a in (call(UNP), SER) + ((call('exec(*_)'),) if ex else (call(f'{UNP}[0](*_)'),)):
        contained_base(ck, 'apply.errors', da, a, 'whatever user code raises becomes an error reply')
    contained(ck, 'apply.errors', da, call('self.shell.showtraceback(*_)'), 'a traceback that cannot be shown must not prevent the reply')
    for e, b in da.find(call('str(exc)')):
        ck.ok('apply.errors', bool(broad_handlers(da, e.node)), e, 'an exception that cannot be printed must not prevent the reply')
    for e in da.all_effects():
        if e.kind == 'call' and e.a[0].op == 'call' and e.a[0].a[0].op == 'glob' and e.a[0].a[0].a[0] in ('str', 'repr') and e.a[0].a[1] and e.a[0].a[1][0].op == 'exc':
            ck.ok('apply.errors', bool(broad_handlers(da, e.node)), e, 'an exception that cannot be printed must not prevent the reply')
    ra = dict(ser=SER, ran=either(call('exec(*_)'), call(f'{UNP}[0](*_)')), unp=call(UNP))
    seen = set()
    for t in da.traces(ra, exc='handled', retval=True):
        if t.end != 'return':
            continue
        r = t.ret
        if not ck.ok('apply.outcome', r is not None and r.op == 'tup' and len(r.a[0]) == 2, da, 'running a request yields content and buffers', path=t.path()):
            continue
        c, bufs = r.a[0]
        st = set()
        for x in _alts(da, c):
            for v in keyed(da, x).get('status', ()):
                st.add(v.a[0] if v.op == 'const' else None)
        seen |= st
        if not ck.ok('apply.outcome', len(st) == 1 and st <= {'ok', 'error'}, da, f'the outcome is either ok or error, got {sorted(map(str, st))}', path=t.path()):
            continue
        good = st == {'ok'}
        isres = da.match('serialize_object(*_)', bufs) is not None
        empty = bufs.op == 'alloc' and not bufs.a[2] or da.match('[]', bufs) is not None
        if good:
            ck.ok('apply.outcome', 'ran' in t and 'ser' in t and 'unp' in t and isres, da, 'a request is ok only when the function returned and its result was serialized', path=t.path())
        else:
            ck.ok('apply.outcome', empty, da, 'an error carries no result buffers', path=t.path())
            for x in _alts(da, c):
                ks = keyed(da, x)
                ck.ok('apply.error-content', {'ename', 'evalue', 'traceback', 'engine_info'} <= set(ks), da, f'an error names type, value, traceback and engine, got {sorted(map(str, ks))}', path=t.path())
                for v in ks.get('ename', ()):
                    ck.ok('apply.error-content', tm.mentions(v, lambda y: y.op == 'attr' and y.a[1] in ('__name__', '__qualname__')) and tm.mentions(v, lambda y: y.op == 'exc'), da, 'the error is named after the exception type')
                engineval.errors(ck, da, ks, t.path())
                for v in ks.get('engine_info', ()):
                    ck.ok('apply.error-content', da.match('self.get_engine_info(*_)', v) is not None, da, 'the error names this engine')
                for v in ks.get('evalue', ()):
                    vs = _alts(da, v)
                    ck.ok('apply.error-content', any(da.match('str(_)', y) is not None and tm.mentions(y, lambda z: z.op == 'exc') for y in vs), da, 'the error carries the message of the exception')
    ck.ok('apply.outcome', seen == {'ok', 'error'}, da, 'both outcomes exist')
    engineval.fresh(ck, da, SER)
    if ex:
        q = {}
        code = render(da, argof(ex[0].a[0], 0, 'x'), q)
        ok1 = False
        keys = {}
        for e in da.all_effects():
            if e.kind == 'add' and da.match('self.shell.user_ns', e.a[0]) is not None and isinstance(e.a[1], T):
                keys[render(da, e.a[1], q)] = (e.a[1], e.a[2])
        try:
            st = ast.parse(code).body
            a = st[0]
            c = a.value
            ok1 = (len(st) == 1 and isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(c, ast.Call) and len(c.args) == 1
                   and isinstance(c.args[0], ast.Starred) and len(c.keywords) == 1 and c.keywords[0].arg is None)
        except (SyntaxError, IndexError, AttributeError):
            pass
        if ck.ok('apply.runs', ok1, ex[0], f'the code that is executed calls the function with its arguments and keeps the result: {code}'):
            R, F, A, W = a.targets[0].id, c.func.id, c.args[0].value.id, c.keywords[0].value.id
            ck.ok('apply.temporaries', len({R, F, A, W}) == 4, ex[0], 'function, arguments and result have different names')
            for n, i in ((F, 0), (A, 1), (W, 2)):
                ck.ok('apply.runs', n in keys and keys[n][1] is not None and da.match(f'{UNP}[{i}]', keys[n][1]) is not None, ex[0], f'the code refers to the unpacked {["function", "arguments", "keyword arguments"][i]}')
            for n in {R, F, A, W} & set(keys):
                ck.ok('apply.temporaries', tm.mentions(keys[n][0], lambda y: y.op == 'param' and y.a[0] == 'msg_id'), ex[0], 'temporary names are unique to the request')
            for e, b in da.find(SER):
                v = argof(e.a[0], 0, 'obj')
                okk = False
                for y in tm.subterms(v):
                    for p in ('self.shell.user_ns.get(_k, *_)', 'self.shell.user_ns.pop(_k, *_)', 'self.shell.user_ns[_k]'):
                        m = da.match(p, y)
                        if m is not None and render(da, m['_k'], q) == R:
                            okk = True
                ck.ok('apply.runs', okk, e, 'what is serialized is the result of the call')
            ns = [argof(ex[0].a[0], i, k) for i, k in ((1, 'globals'), (2, 'locals'))]
            ck.ok('apply.namespace', da.match('any_of(self.shell.user_global_ns, self.shell.user_ns)', ns[0]) is not None and (ns[1] is None or da.match('self.shell.user_ns', ns[1]) is not None), ex[0], "functions run in the user's namespace")
            # temporaries are removed on every way out
            rm = []
            for e in da.all_effects():
                if e.kind == 'remove' and da.match('self.shell.user_ns', e.a[0]) is not None:
                    rm.append(e)
            ck.ok('apply.temporaries', bool(rm), da, 'temporary variables are removed')
            engineval.temporaries(ck, da, rm)
            heads = {}
            for e in rm:
                h = da.loop_of(e.node)
                if h is not None:
                    heads[h.id] = h
                else:
                    heads[e.node.id] = e.node
            covered = set()
            for h in heads.values():
                if h.kind == 'loop' and h.term is not None:
                    it = da.val(h, h.term)
                    for y in tm.subterms(it):
                        if y.op == 'alloc':
                            covered |= {render(da, x[0], q) for x in y.a[2] if isinstance(x, tuple)} | {render(da, x, q) for x in y.a[2] if isinstance(x, T)}
                        if y.op == 'tup':
                            covered |= {render(da, x, q) for x in y.a[0]}
                    for e in rm:
                        if da.loop_of(e.node) is h:
                            for t in da.body_traces(h, dict(rm=is_eff(e), gone=caught('KeyError'), absent=_lit(lambda t, k=e.a[1]: t.op == 'cmp' and t.a[0] == 'in' and t.a[1] is k, False))):
                                if t.end == 'stop':
                                    ck.ok('apply.temporaries', 'rm' in t or 'gone' in t or 'absent' in t, e, 'every temporary variable is removed', path=t.path())
                                elif 'gone' in t:
                                    ck.ok('apply.temporaries', False, e, 'a temporary variable that is gone already does not keep the others', path=t.path())
            covered |= {render(da, e.a[1], q) for e in rm if isinstance(e.a[1], T)}
            ck.ok('apply.temporaries', {F, A, W, R} <= covered, rm[0] if rm else da, f'every temporary variable is removed, not only {sorted(covered)}')
            ta = dict(ex=is_eff(ex[0]), put=lambda e, a, b: {} if e.kind == 'add' and da.match('self.shell.user_ns', e.a[0]) is not None else None)

            def clean(e, a, b):
                return {} if e.kind in ('iter', 'done') and e.node is not None and e.node.id in heads else None

            clean.edge = True
            clean.desc = 'clean up'
            ta['clean'] = clean
            def pop(e, a, b):
                return {} if e in rm else None

            pop.attempt = True
            ta['pop'] = pop
            for s, lab in ex[0].node.succ:
                for t in da.traces(ta, start=(ex[0].node, lab), exc='all'):
                    ck.ok('apply.temporaries', 'clean' in t or 'pop' in t, ex[0], 'temporary variables are removed however the function ends', path=t.path())
    # ---- metadata
    im = ck.F(KM + 'init_metadata', opaque=names)
    PM = "any_of(parent.get('metadata', *_), parent['metadata'])"
    for t in im.traces({}, retval=True):
        if t.end != 'return':
            continue
        ks = keyed(im, t.ret)
        for k, p in (('started', 'datetime.now(_)'), ('dependencies_met', 'True'), ('engine', 'self.ident')):
            ck.ok('reply.metadata', bool(ks.get(k)) and all(engineval.only(im, p, v) for v in ks[k]), im, f'reply metadata has {k}')
        for k in ('is_broadcast', 'is_coalescing', 'original_msg_id', 'label'):
            ck.ok('reply.metadata', bool(ks.get(k)) and all(engineval.only(im, f"any_of({PM}.get('{k}', *_), {PM}['{k}'], bool({PM}.get('{k}', *_)))", v) for v in ks[k]), im, f'reply metadata repeats {k} of the request')
            for v in ks.get(k, ()):
                d = v.a[1][1] if v.op == 'call' and len(v.a[1]) > 1 else None
                if k.startswith('is_'):
                    ck.ok('reply.metadata', d is None or d.op == 'const' and not d.a[0], im, f'{k} defaults to false')
    fm = ck.F(KM + 'finish_metadata', opaque=names)
    fa = dict(
        st=add('metadata', "'status'", "reply_content['status']"), err=lit("reply_content['status'] == 'error'"), nerr=lit("reply_content['status'] != 'error'"),
        un=lit("reply_content['ename'] == 'UnmetDependency'"), nun=lit("reply_content['ename'] != 'UnmetDependency'"),
        unmet=add('metadata', "'dependencies_met'", 'False'), other=add('metadata', "'dependencies_met'"), info=add('metadata', "'engine_info'", 'self.get_engine_info(*_)'))

    def fin(t):
        if t.count('st') != 1:
            return False
        if 'err' in t:
            return 'info' in t and (('un' in t) == ('unmet' in t)) and ('un' in t) != ('nun' in t)
        return 'unmet' not in t and 'other' not in t

    ck.every('reply.status', fm, fa, fin, 'the reply metadata has the status, tells unmet dependencies apart from other errors, and names the engine of an error')
    ck.exists('reply.status', fm, fa['unmet'], 'unmet dependencies are reported as such')
    ck.every('reply.status', fm, dict(r=ret('metadata')), lambda t: 'r' in t, 'the finished metadata is returned')
    ei = ck.F(KM + 'get_engine_info', opaque=names)
    for t in ei.traces({}, retval=True):
        ks = keyed(ei, t.ret) if t.end == 'return' else {}
        for k, p in (('engine_uuid', 'self.ident'), ('engine_id', 'any_of(self.engine_id, self.int_id)')):
            ck.ok('reply.engine', bool(ks.get(k)) and all(ei.match(p, x) is not None for v in ks[k] for x in engineval.operands(ei, v)), ei, f'an error names the engine: {k}')
    ck.exists('reply.engine', ei, add('_', "'method'", 'method'), 'an error names the method')
    de = ck.F(KM + 'do_execute', opaque=names)
    da2 = dict(err=either(lit("_['status'] == 'error'")), nerr=lit("_['status'] != 'error'"), info=add('_', "'engine_info'", 'self.get_engine_info(*_)'))
    ck.every('reply.engine', de, da2, lambda t: ('info' in t) == ('err' in t), 'execution errors name the engine')
    ck.exists('reply.engine', de, da2['info'], 'execution errors name the engine')
    for t in de.traces({}, retval=True):
        if t.end == 'return':
            ck.ok('reply.engine', t.ret is not None and tm.mentions(t.ret, lambda y: y.op == 'attr' and y.a[1] == 'do_execute'), de, "the shell's own reply is returned", path=t.path())
    # ---- aborting
    sh = ck.F(KM + 'should_handle', opaque=names)
    MID = "msg['header']['msg_id']"
    sa = dict(sup=lit('_.should_handle(*_)'), nsup=lit('not _.should_handle(*_)'), ab=lit(f'{MID} in self.aborted'), nab=lit(f'{MID} not in self.aborted'),
              rm=remove('self.aborted', MID), rep=call('self._send_abort_reply(stream, msg, idents)'))
    for t in sh.traces(sa, retval=True):
        if t.end != 'return':
            continue
        v = t.ret.a[0] if t.ret is not None and t.ret.op == 'const' else None
        if 'nsup' in t:
            ck.ok('abort.handled', v is False and 'rep' not in t, sh, 'requests the base kernel refuses stay refused', path=t.path())
        elif 'ab' in t:
            ck.ok('abort.handled', v is False and t.count('rep') == 1 and t.count('rm') == 1, sh, 'an aborted request is not run but answered, once, and forgotten', path=t.path())
        else:
            ck.ok('abort.handled', v is True and 'rep' not in t and 'rm' not in t, sh, 'other requests are handled', path=t.path())
    ck.exists('abort.handled', sh, sa['rep'], 'an aborted request is answered')
    for e, b in sh.find(sa['rep']):
        ck.ok('abort.handled', True, e, '')
    engineval.aborted(ck, sh, sa['rep'])
    ab = ck.F(KM + 'abort_request', opaque=names)
    marks = [e for e in ab.all_effects() if e.kind == 'add' and ab.match('self.aborted', e.a[0]) is not None]
    ck.ok('abort.marks', bool(marks), ab, 'the requests to abort are remembered')
    ids = "any_of(parent['content'].get('msg_ids', *_), parent['content']['msg_ids'])"

    def listed(t):
        """t is exactly the listed requests"""
        if t.op == 'phi':
            return all(listed(x) for x in ab.alts(t) if x.op != 'phi')
        if t.op == 'or':
            return all(listed(x) for x in t.a[0])
        if t.op == 'copy':
            return listed(t.a[0])
        if t.op in ('tup', 'alloc'):
            xs = t.a[0] if t.op == 'tup' else t.a[2]
            return len(xs) == 0 or len(xs) == 1 and isinstance(xs[0], T) and ab.match(ids, xs[0]) is not None
        return ab.match(ids, t) is not None

    for e in marks:
        v = e.a[1]
        x = v if v.op == 'comp' else v.a[0] if v.op == 'elem' and v.a[0].op == 'comp' else None
        if x is not None:
            ck.ok('abort.marks', len(x.a[3]) == 1 and listed(x.a[3][0]) and not x.a[4], e, 'every listed request is aborted')
            ck.ok('abort.marks', tm.mentions(x.a[2], lambda y: y.op == 'elem'), e, 'the listed ids are remembered')
            continue
        h = ab.loop_of(e.node)
        if h is None:
            src = [y.a[0] for y in tm.subterms(v) if y.op == 'elem']
            ck.ok('abort.marks', e.a[-1] == 'all' and len(src) == 1 and listed(src[0]), e, 'every listed request is aborted')
            continue
        ck.ok('abort.marks', listed(ab.val(h, h.term)), e, 'every listed request is aborted')
        each(ck, 'abort.marks', ab, is_eff(e), 'every listed request is aborted')
        ck.ok('abort.marks', tm.mentions(v, lambda y: y.op == 'elem'), e, 'the listed ids are remembered')
    rp = dict(rep=call("self.session.send(stream, 'abort_reply', *_)"))
    ck.every('abort.reply', ab, rp, lambda t: t.count('rep') == 1, 'an abort request is answered exactly once')
    engineval.aborting(ck, ab, marks, rp['rep'], ids)
    # requests come in on the control thread, the queue belongs to the main one
    later = effect('io_loop.add_callback(_abort_queues)', lambda e: e.kind == 'call' and ab.match('any_of(self.io_loop, self.shell_stream.io_loop).add_callback(*_)', e.a[0]) is not None and bool(e.a[0].a[1]) and (
        ab.match('any_of(self._abort_queues, functools.partial(self._abort_queues))', e.a[0].a[1][0]) is not None or e.a[0].a[1][0].op in ('lambda', 'closure')))
    ck.never('abort.thread', ab, call('self._abort_queues(*_)'), 'requests that wait on the shell stream are only touched by its own thread')
    qa = dict(q=later, none=lit(f'not any_of({ids}, [{ids}], _)'), some=lit(f'any_of({ids}, [{ids}], _)'))
    ck.exists('abort.all', ab, qa['q'], 'an abort request that lists nothing aborts everything')
    ck.every('abort.all', ab, qa, lambda t: 'none' not in t or 'some' in t or t.count('q') == 1, 'an abort request that lists nothing aborts everything')
    ck.guarded('abort.all', ab, qa['q'], [lit(f'not any_of({ids}, [{ids}], _)')], 'only an abort request that lists nothing aborts everything')
    cl = ck.F(KM + 'clear_request', opaque=names)
    rc = dict(reset=call('self.shell.reset(*_)'), rep=call("self.session.send(stream, 'clear_reply', *_)"))
    ck.every('clear.reply', cl, rc, lambda t: t.count('reset') == 1 and t.count('rep') == 1 and t.before('reset', 'rep'), 'a clear request empties the namespace and is then answered')
    for fl, rep, who in ((ab, rp['rep'], 'ident'), (cl, rc['rep'], 'idents')):
        for e, b in fl.find(rep):
            ck.ok('control.reply', fl.match('parent', argof(e.a[0], 3, 'parent')) is not None, e, 'the reply answers the request')
            ck.ok('control.reply', fl.match(who, argof(e.a[0], 4, 'ident')) is not None, e, 'the reply is routed to the requester')
            ks = keyed(fl, argof(e.a[0], 2, 'content'))
            ck.ok('control.reply', any(v.op == 'const' and v.a[0] == 'ok' for v in ks.get('status', ())), e, 'the reply states its status')
    # ---- handlers are wired
    ini = ck.F(KM + '__init__', opaque=names)
    ck.every('wiring', ini, dict(r=add('self.shell_handlers', "'apply_request'", 'self.apply_request')), lambda t: t.count('r') == 1, 'apply requests are handled')
    c = ck.repo.cls(K)
    ct = c.attrs.get('control_msg_types')
    lits_ = {x.value for x in ast.walk(ct) if isinstance(x, ast.Constant) and isinstance(x.value, str)} if ct is not None else set()
    ck.ok('wiring', {'abort_request', 'clear_request'} <= lits_, K, 'abort and clear requests are handled on the control channel')
    ck.ok('wiring', ct is not None and any(isinstance(x, ast.Call) or isinstance(x, ast.Attribute) for x in ast.walk(ct)), K, 'the control requests of the base kernel stay')
    ck.every('abort.own-set', ini, dict(s=store('self.aborted', 'new(set)')), lambda t: 's' in t, 'each kernel has its own set of aborted requests')
