"""Regenerates spec/covers.json: the cover points every contract must reach (vacuity guard).  Run on a tree that passes."""
import collections
import json
import os
import shutil
import sys
import tempfile
from concurrent.futures import ProcessPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import build      # noqa: E402
import driver     # noqa: E402
import table      # noqa: E402


def main():
    work = tempfile.mkdtemp(prefix='vp_cov_')
    acc = {}
    try:
        with ProcessPoolExecutor(8) as ex:
            futs = []
            for cfg, (p, err) in ex.map(driver.pch_job, list(table.CONFIGS), [work] * len(table.CONFIGS)):
                by = collections.OrderedDict()
                for k, op in table.entries(cfg):
                    by.setdefault(k['name'], []).append(op)
                for n, ops in by.items():
                    futs.append(ex.submit(driver.job, cfg, [(n, ops)], work, p, {}))
            for f in futs:
                r, bad = f.result()
                for b in bad:
                    print('does not compile', b['cfg'], b['kit'], b['op'])
                for x in r:
                    if x['status'] != 'ok':
                        print(x['cfg'], x['kit'], x['op'], x['status'], x['reason'], [y['label'] for y in x['failures']][:3])
                    key = x['kit'] + '/' + x['op']
                    s = set(x['covers'])
                    acc[key] = acc[key] & s if key in acc else s
    finally:
        shutil.rmtree(work, True)
    inv = collections.defaultdict(list)
    for k, s in acc.items():
        if not s:
            print('no cover point', k)
        inv[tuple(sorted(s))].append(k)
    sets = sorted(inv)
    with open(os.path.join(build.SPEC, 'covers.json'), 'w') as f:
        json.dump({'sets': [list(s) for s in sets], 'keys': [sorted(inv[s]) for s in sets]}, f, indent=0)
        f.write('\n')
    print(len(acc), 'contracts', len(sets), 'distinct sets')


main()
