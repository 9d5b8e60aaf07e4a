"""Generate properties.jsonl and MANIFEST.json from dev/props_src.txt (run by hand; outputs are committed)."""
import json, re, sys
sys.path.insert(0, '/verif')
sys.setrecursionlimit(20000)
import props
from ipa.checker import REGISTRY

TECH = {}
out, checks, na = [], [], []
text = open('/verif/dev/props_src.txt').read()
for block in re.split(r'^# ', text, flags=re.M)[1:]:
    head, _, body = block.partition('\n')
    pid, _, title = head.partition(' ')
    f = {}
    cur = None
    for line in body.splitlines():
        m = re.match(r'^(statement|over|quant|why|files|mech|state|observe|tech|note|na): ?(.*)$', line)
        if m:
            cur = m.group(1)
            f.setdefault(cur, []).append(m.group(2))
        elif line.strip() and cur:
            f[cur][-1] += ' ' + line.strip()
    g = lambda k: ' '.join(f.get(k, ['']))
    pairs = lambda k: [dict(name=x.split(' @ ')[0].strip(), where=x.split(' @ ')[1].strip()) for x in f.get(k, [])]
    d = dict(id=pid, title=title.strip(), statement=g('statement'),
             quantifier=dict(over=g('over').split(), text=g('quant')), why_tests_cant=g('why'),
             anchors=dict(files=g('files').split(), mechanism=pairs('mech')))
    if 'observe' in f:
        d['anchors']['observe_at'] = [g('observe')]
    assert len(d['title']) <= 80, d['title']
    out.append(d)
    if 'na' in f:
        na.append(dict(property=pid, reason=g('na')))
        assert pid not in REGISTRY
    else:
        assert pid in REGISTRY, pid
        checks.append(dict(property=pid, quick_cmd=f'python3 check.py {pid}', thorough_cmd=f'python3 check.py {pid} --tier thorough',
                           technique=g('tech') or 'path-sensitive dataflow/effect analysis over inlined control-flow graphs',
                           level='other', level_note=g('note') or 'Static: every path of the analysed functions (loops summarised, exceptions considered where a handler or finally can observe them); rules are stated on canonical effects, so they decide the mechanism rather than run it.'))
missing = set(REGISTRY) - {d['id'] for d in out}
assert not missing, missing
with open('/verif/properties.jsonl', 'w') as fh:
    for d in out:
        fh.write(json.dumps(d) + '\n')
man = dict(version=1, setup_cmd='python3 check.py selftest', checks=checks, not_applicable=na,
           notes='Pure static analysis; python3 standard library only. IPA_ROOT selects another tree to analyse.')
json.dump(man, open('/verif/MANIFEST.json', 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
    for d in out:
        jsonschema.validate(d, json.load(open('/root/.vp/PROPERTIES.schema.json')))
    print('schemas ok')
except ImportError:
    print('no jsonschema')
print(len(out), 'properties', len(checks), 'checks', len(na), 'n/a')
