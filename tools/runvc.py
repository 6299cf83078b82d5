#!/usr/bin/env python3
"""runvc.py [PATTERN] [--jobs N]: run every contract item whose 'prop name' matches and print one line each."""
import sys, os, re, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
import check
from pyvc import vc
pat = sys.argv[1] if len(sys.argv) > 1 else ''
jobs = int(sys.argv[sys.argv.index('--jobs') + 1]) if '--jobs' in sys.argv else 6
check.load_items('')
seen = {}
for it in vc.ITEMS:
    if re.search(pat, it.prop + ' ' + it.name) and it.name not in seen: seen[it.name] = it
items = list(seen.values())
t0 = time.time()
for it, r in zip(items, check.run_items(items, jobs, 3000)):
    print(it.prop, it.name, r['status'], f"{sum(o['status']=='proved' for o in r['obligations'])}/{len(r['obligations'])}", r['wall'], (r.get('detail') or '')[:200], [(o['name'], o['status'], o['detail'][:160]) for o in r['obligations'] if o['status'] != 'proved'][:3])
print(f'{time.time()-t0:.0f} s')
