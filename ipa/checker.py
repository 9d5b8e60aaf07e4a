"""Rule helpers, findings, evidence."""

import json
import os
import sys
import time
import traceback

from . import atoms as A
from . import terms as tm
from .flow import Flow
from .load import AnalysisBroken, Repo
from .lower import Policy
from .terms import pat

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ck:
    def __init__(self, repo, pid, tier='quick'):
        self.repo = repo
        self.pid = pid
        self.tier = tier
        self.obligations = 0
        self.rules = {}
        self.findings = {}
        self.funcs = set()
        self.flows = {}
        self.paths = 0
        self.notes = []

    # -- access -----------------------------------------------------------
    def F(self, spec, opaque=(), depth=6, only=None, cls=None, bind=None):
        key = (spec if isinstance(spec, str) else spec.qual, tuple(sorted(opaque)), depth, only, cls, str(bind))
        fl = self.flows.get(key)
        if fl is None:
            f = self.repo.func(spec) if isinstance(spec, str) else spec
            sc = self.repo.cls(cls) if isinstance(cls, str) else cls
            if sc is None and isinstance(spec, str) and '.' in spec.partition(':')[2]:
                mod, _, nm = spec.partition(':')
                sc = self.repo.cls(f"{mod}:{nm.split('.')[0]}")
            fl = Flow(self.repo, f, self_cls=sc, policy=Policy(opaque=opaque, depth=depth, only=only), bind=bind)
            self.flows[key] = fl
            self.funcs.add(f.qual)
            self.funcs.update(x.qual for x in fl.g.inlined)
        return fl

    def nested(self, spec, name, opaque=(), **kw):
        f = self.repo.func(spec)
        g = self.repo.nested(f, name)
        return self.F(g, opaque=opaque, **kw)

    # -- results ------------------------------------------------------------
    def ok(self, rule, cond, where, msg, path=None, detail=''):
        """Record one obligation; where: Flow / Func / Eff / str."""
        self.obligations += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        if cond:
            return True
        construct, loc = _where(where)
        key = f"{rule}|{construct}" + (f"|{detail}" if detail else '')
        if key not in self.findings:
            self.findings[key] = dict(
                rule=rule, construct=construct, location=loc, message=msg, path=path or [], detail=detail
            )
        return False

    # -- rule helpers ---------------------------------------------------------
    def exists(self, rule, fl, atom, msg, n=1):
        hits = fl.find(atom)
        self.ok(rule, len(hits) >= n, fl, f"{msg} (no construct matches `{atom.desc}`)")
        return hits

    def never(self, rule, fl, atom, msg):
        hits = fl.find(atom)
        self.ok(rule, not hits, hits[0][0] if hits else fl, msg)
        return not hits

    def every(self, rule, fl, atoms, pred, msg, ends=('return',), where=None, **kw):
        trs = fl.traces(atoms, **kw)
        self.paths += len(trs)
        bad = None
        n = 0
        for t in trs:
            if t.end not in ends:
                continue
            n += 1
            if not pred(t):
                bad = t
                break
        self.ok(
            rule, bad is None, where or fl,
            msg + (f" — path with events [{' → '.join(str(x) for x in bad.atoms) or 'none'}] ending in {bad.end}" if bad else ''),
            path=bad.path() if bad else None,
        )
        return trs

    def guarded(self, rule, fl, atom, lits, msg, missing_ok=False):
        """Every effect matching atom executes only under all the given literals."""
        hits = fl.find(atom)
        if not hits and not missing_ok:
            self.ok(rule, False, fl, f"{msg} (no construct matches `{atom.desc}`)")
            return
        G = fl.guards()
        for e, b in hits:
            have = G.get(e.node.id, frozenset())
            for la in lits if isinstance(lits, (list, tuple)) else [lits]:
                good = any(la(A_lit(l), fl.alts, b) is not None for l in have)
                self.ok(
                    rule, good, e,
                    f"{msg}: `{e!r:.120}` is reachable without `{la.desc}`",
                )

    def paths_guard(self, rule, fl, effect, guard_atoms, msg, exc='member', **kw):
        """On every path, each `effect` is preceded by one of the guard atoms (path-sensitive)."""
        atoms = {'EFFECT': effect}
        atoms.update(guard_atoms)
        trs = fl.traces(atoms, exc=exc, **kw)
        self.paths += len(trs)
        bad = None
        seen = False
        for t in trs:
            if 'EFFECT' in t.atoms:
                seen = True
                if not any(x != 'EFFECT' for x in t.atoms[: t.atoms.index('EFFECT')]):
                    bad = t
        if not seen:
            self.ok(rule, False, fl, f"{msg} (no construct matches `{effect.desc}`)")
        else:
            self.ok(rule, bad is None, fl, msg, path=bad.path() if bad else None)

    def names(self, spec, *minus):
        """Methods the class (and its repo bases) had on the reference tree, as an opaque set.

        Helpers that do not appear here are inlined wherever they are called.
        """
        base = _baseline()
        out = set()
        c = self.repo.cls(spec)
        for k in self.repo.mro(c):
            out |= set(base.get(k.qual.replace('ipyparallel.', '', 1), ()))
        return tuple(sorted(out - set(minus)))

    def fnames(self, mod, *minus):
        return tuple(sorted(set(_baseline().get(mod + ':', ())) - set(minus)))

    def const_attr(self, c, name):
        k, v = self.repo.class_attr(c, name)
        return v


_BASE = {}


def _baseline():
    if not _BASE:
        with open(os.path.join(VERIF, 'ipa', 'baseline.json')) as fh:
            _BASE.update(json.load(fh))
    return _BASE


def A_lit(l):
    from .flow import Eff

    return Eff('lit', l, None)


def _where(w):
    if isinstance(w, str):
        return w, ''
    if isinstance(w, Flow):
        return w.func.qual.replace('ipyparallel.', '', 1), w.func.loc()
    if hasattr(w, 'qual'):
        return w.qual.replace('ipyparallel.', '', 1), w.loc() if hasattr(w, 'loc') else ''
    if hasattr(w, 'node'):
        return w.node.func.qual.replace('ipyparallel.', '', 1), w.node.loc
    return str(w), ''


REGISTRY = {}


def prop(pid, min_obligations=1, explanation='', assumptions=()):
    def deco(fn):
        REGISTRY[pid] = dict(fn=fn, min=min_obligations, explanation=explanation, assumptions=list(assumptions))
        return fn

    return deco


def load_known(pid):
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf8'):
            line = line.strip()
            if line.startswith('finding:'):
                head, _, text = line[len('finding:') :].strip().partition(' :: ')
                d = dict(x.split('=', 1) for x in head.split(' ') if '=' in x)
                if d.get('property') == pid:
                    out[d['key']] = text
    return out


def run(pid, tier='quick', root=None):
    t0 = time.time()
    root = root or os.environ.get('IPA_ROOT', '/repo')
    if pid not in REGISTRY:
        print(f"unknown property {pid}")
        return 2
    ent = REGISTRY[pid]
    broken = None
    ck = None
    try:
        repo = Repo(root)
        ck = Ck(repo, pid, tier)
        ent['fn'](ck)
        if ck.obligations < ent['min']:
            raise AnalysisBroken(f"only {ck.obligations} rule instances, expected at least {ent['min']}")
    except AnalysisBroken as e:
        broken = str(e)
    except Exception as e:  # a rule met a construct it cannot read
        tb = traceback.extract_tb(e.__traceback__)[-1]
        broken = f'{type(e).__name__}: {e} at {os.path.basename(tb.filename)}:{tb.lineno}'
        if os.environ.get('IPA_DEBUG'):
            traceback.print_exc()
    if broken is not None and (ck is None or not ck.findings):
        print(f"ANALYSIS-BROKEN property={pid}: {broken}")
        return 2
    if broken is not None:
        print(f"  (analysis stopped early: {broken})")
    known = load_known(pid)
    viol = []
    for key, f in ck.findings.items():
        k = key.replace(' ', '_')
        if k in known:
            print(f"KNOWN-FINDING: property={pid} {known[k]}")
        else:
            viol.append((k, f))
    rc = 0
    scratch = bool(os.environ.get('IPA_SCRATCH'))
    out = '/tmp/ipa-scratch' if scratch else os.path.join(VERIF, 'out')
    os.makedirs(out, exist_ok=True)
    if viol:
        rc = 1
        rp = os.path.join(out, f"{pid}.json")
        with open(rp, 'w') as fh:
            json.dump([dict(key=k, **f) for k, f in viol], fh, indent=1)
        for k, f in viol:
            print(f"  [{f['rule']}] {f['construct']} ({f['location']}): {f['message']}")
            for p in f['path']:
                print(f"      via {p}")
            print(f"      key={k}")
        print(f"VIOLATION property={pid} replay={rp}")
    ev = {
        'property': pid,
        'tier': tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'explanation': ent['explanation']
            or 'Each rule instance is decided on the inlined control-flow graphs of the listed functions.',
            'obligations': ck.obligations,
            'discharged': ck.obligations - len(ck.findings),
            'rules': ck.rules,
            'functions_analysed': sorted(ck.funcs),
            'graph_nodes': sum(len(f.order) for f in ck.flows.values()),
            'path_classes': ck.paths,
            'exploded_states': sum(getattr(f, 'states', 0) for f in ck.flows.values()),
            'files_parsed': len(repo.modules),
        },
        'assumptions': ent['assumptions']
        or ['calls into third-party libraries behave as documented', 'no monkey-patching of the analysed classes'],
        'wall_s': round(time.time() - t0, 3),
        'violations': len(viol),
    }
    d = out if scratch else os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{pid}.json"), 'w') as fh:
        json.dump(ev, fh, indent=1)
    print(f"{pid}: {ck.obligations} obligations, {len(ck.findings)} findings ({len(viol)} new), {ev['wall_s']}s")
    return rc


# -- decision tables ---------------------------------------------------------
def table(ck, fl, conds, exc='member'):
    """Rows (assignment, end, return term) of a function over named conditions."""
    atoms = {}
    for k, src in conds.items():
        atoms[k] = A.lit(src, True)
        atoms['!' + k] = A.lit(src, False)
    rows = []
    trs = fl.traces(atoms, exc=exc, retval=True, cap=1)
    ck.paths += len(trs)
    for t in trs:
        asg = {}
        for a in t.atoms:
            if isinstance(a, str):
                asg[a.lstrip('!')] = not a.startswith('!')
        rows.append((asg, t.end, t.ret, t))
    return rows


def assignments(names, fixed):
    free = [n for n in names if n not in fixed]
    for i in range(2 ** len(free)):
        d = dict(fixed)
        for j, n in enumerate(free):
            d[n] = bool(i >> j & 1)
        yield d


def setexpr(t, names):
    """Union of named base sets, or None. names: {T or pattern: label}."""
    for p, lab in names.items():
        if pat(p).match(t) is not None:
            return frozenset([lab])
    if t.op in ('alloc', 'comp') and t.op == 'alloc' and t.a[1] == 'set' and not t.a[2]:
        return frozenset()
    if t.op == 'copy':
        return setexpr(t.a[0], names)
    if t.op == 'alloc' and t.a[1] in ('list', 'set') and not t.a[2]:
        return frozenset()
    if t.op == 'tup' and not t.a[0]:
        return frozenset()
    if t.op == 'bin' and t.a[0] == '|':
        a, b = setexpr(t.a[1], names), setexpr(t.a[2], names)
        return a | b if a is not None and b is not None else None
    if t.op == 'call' and t.a[0].op == 'attr' and t.a[0].a[1] == 'union':
        out = setexpr(t.a[0].a[0], names)
        for x in t.a[1]:
            y = setexpr(x, names)
            if out is None or y is None:
                return None
            out = out | y
        return out
    if t.op == 'call' and t.a[0].op == 'glob' and t.a[0].a[0] == 'set' and not t.a[1]:
        return frozenset()
    return None


def setpred(t, me, names, pol=True):
    """Canonical ('subset'|'meets', set, polarity) of a predicate about `me` against base sets."""
    if t.op == 'un' and t.a[0] == 'not':
        return setpred(t.a[1], me, names, not pol)
    if t.op == 'call' and t.a[0].op == 'glob' and t.a[0].a[0] == 'bool' and len(t.a[1]) == 1:
        return setpred(t.a[1][0], me, names, pol)
    is_me = lambda x: pat(me).match(x) is not None  # noqa: E731
    if t.op == 'const' and isinstance(t.a[0], bool):
        return ('const', t.a[0] == pol)
    if t.op == 'call' and t.a[0].op == 'attr' and len(t.a[1]) == 1:
        o, m = t.a[0].a
        x = t.a[1][0]
        if m == 'issubset' and is_me(o):
            s = setexpr(x, names)
            return s if s is None else ('subset', s, pol)
        if m == 'issuperset' and is_me(x):
            s = setexpr(o, names)
            return s if s is None else ('subset', s, pol)
        if m == 'isdisjoint':
            s = setexpr(x if is_me(o) else o, names) if is_me(o) or is_me(x) else None
            return s if s is None else ('meets', s, not pol)
        if m == 'intersection' and (is_me(o) or is_me(x)):
            s = setexpr(x if is_me(o) else o, names)
            return s if s is None else ('meets', s, pol)
        if m == 'difference' and is_me(o):
            s = setexpr(x, names)
            return s if s is None else ('subset', s, not pol)
    if t.op == 'bin' and t.a[0] == '&' and (is_me(t.a[1]) or is_me(t.a[2])):
        s = setexpr(t.a[2] if is_me(t.a[1]) else t.a[1], names)
        return s if s is None else ('meets', s, pol)
    if t.op == 'bin' and t.a[0] == '-' and is_me(t.a[1]):
        s = setexpr(t.a[2], names)
        return s if s is None else ('subset', s, not pol)
    if t.op == 'cmp' and t.a[0] in ('<=', '>='):
        l, r = (t.a[1], t.a[2]) if t.a[0] == '<=' else (t.a[2], t.a[1])
        if is_me(l):
            s = setexpr(r, names)
            return s if s is None else ('subset', s, pol)
    if t.op == 'call' and t.a[0].op == 'glob' and t.a[0].a[0] in ('any', 'all') and len(t.a[1]) == 1:
        g = t.a[1][0]
        if g.op == 'comp' and len(g.a[3]) == 1 and is_me(g.a[3][0]) and g.a[4] == 0:
            c = g.a[2]
            if c.op == 'cmp' and c.a[0] in ('in', 'not in') and c.a[1].op == 'elem':
                s = setexpr(c.a[2], names)
                if s is None:
                    return None
                if t.a[0].a[0] == 'any':
                    return ('meets', s, pol) if c.a[0] == 'in' else ('subset', s, not pol)
                return ('subset', s, pol) if c.a[0] == 'in' else ('meets', s, not pol)
    return None
