#!/usr/bin/env python3
"""Writes MANIFEST.json from the check programs present and the notes below."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# id: (technique, what the exploration covers and leaves out)
T = {
    'C01': ('property-based round-trip testing (generated images, shrinking)', 'Generated images up to 300x300 in every lossless writer, format, palette type and compression setting; bounded sampling, 2D images only.'),
    'C07': ('property-based testing against a reference conversion, metamorphic (no-op and undo) relations', 'All pairs of formats and types by sampling, images up to 40x40x4, chains up to 4; signed types only for shape, memory safety and sign; quantisation to indices is judged by C19.'),
}
exec(open(os.path.join(V, 'tools', 'notes.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'notes.py')) else None

props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
have = {re.match(r'c\d\d', os.path.basename(f)).group(0).upper() for f in glob.glob(os.path.join(V, 'harness', 'c[0-9][0-9]_*.cpp'))}
checks, na = [], []
for p in props:
    if p in have and p in T:
        checks.append(dict(property=p, quick_cmd='VERIF_TIER=quick python3 run.py ' + p, thorough_cmd='VERIF_TIER=thorough python3 run.py ' + p,
                           technique=T[p][0], level='exploration', level_note=T[p][1]))
    else:
        na.append(dict(property=p, reason=NA.get(p, 'No check has been built for it yet.') if 'NA' in globals() else 'No check has been built for it yet.'))
json.dump(dict(version=1, setup_cmd='python3 run.py --setup', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
