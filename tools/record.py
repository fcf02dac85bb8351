#!/usr/bin/env python3
"""record.py UNIT..: record names of locals and structure of the functions under contract
on the tree the contracts were written for (run on the unchanged tree only)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ext = os.environ.get('VX_EXT', '/tmp/ext/release/vx-extract')
for d in ('locals', 'baseline'):
    os.makedirs(os.path.join(V, 'contracts', d), exist_ok=True)
for u in sys.argv[1:]:
    loc = os.path.join(V, 'contracts/locals', u + '.json')
    r = subprocess.run([ext, os.path.join(V, 'contracts', u + '.vc'), '--repo', '/repo', '--out', '/tmp/rec.rs', '--map', '/tmp/rec.json', '--record-locals', loc] + (['--expanded', '/tmp/w/expanded.rs'] if u in ('accts', 'hist', 'solv') else []))
    assert r.returncode == 0
    m = json.load(open('/tmp/rec.json'))
    out = {}
    for f in m['fns']:
        lab = set()
        for c in f['clauses']:
            lab.update(c['labels'])
        if f['group']:
            lab.update(f['group'].split(','))
        out[f['key']] = dict(loops=f['loops'], inlined=f['inlined'], labels=sorted(lab))
    json.dump(out, open(os.path.join(V, 'contracts/baseline', u + '.json'), 'w'), indent=1, sort_keys=True)
    print(u, len(out), 'functions')
