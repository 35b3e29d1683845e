#!/usr/bin/env python3
"""usage: mkseed.py SPEC.py   where SPEC.py defines SEEDS = [dict(id,prop,needs,breaks,edits=[(file,old,new)],demo)]"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
T = '/tmp/mkseed'
for s in ns['SEEDS']:
    if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]:
        continue
    subprocess.run(f'rm -rf {T}; git clone -q /repo {T}', shell=True, check=True)
    for f, old, new in s['edits']:
        p = os.path.join(T, f)
        t = open(p).read()
        assert t.count(old) == 1, (s['id'], f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    d = f'{V}/seeded/{s["id"]}'
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(subprocess.run('git diff', shell=True, cwd=T, stdout=subprocess.PIPE, text=True).stdout)
    open(d + '/demo.cc', 'w').write(s['demo'])
    subprocess.run(f'cp {V}/tools/demo.sh {d}/demo.sh', shell=True)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    print('made', s['id'])
subprocess.run(f'rm -rf {T}', shell=True)
