#!/bin/sh
# every variant file and every check, in parallel; short summary
cd /verif
for f in ${@:-dev/*.txt}; do case $f in *props_src*) continue;; esac
 (MUT_JOBS=3 python3 dev/mut.py $f > /tmp/all.$(basename $f) 2>&1; grep -E "^(MISSED|FALSE|!!)|variants" /tmp/all.$(basename $f) | head -12 | cut -c1-200) & done
wait
python3 check.py $(python3 -c "
import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))" 2>/dev/null) 2>&1 | grep -E "VIOLATION|BROKEN|KNOWN" | head -20
