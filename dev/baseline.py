"""Record which methods exist on the reference tree: helpers added later are always inlined."""
import json, sys
sys.path.insert(0, '/verif')
from ipa.load import Repo
r = Repo('/repo')
out = {}
for m in r.modules.values():
    for c in m.classes.values():
        out[c.qual.replace('ipyparallel.', '', 1)] = sorted(c.methods)
    out[m.name.replace('ipyparallel.', '', 1) + ':'] = sorted(m.functions)
json.dump(out, open('/verif/ipa/baseline.json', 'w'), indent=0, sort_keys=True)
print(len(out), list(out)[:4])
