"""Writes fixtures/adm.json: anomalous dimensions computed by lib/oneloop.py for all WET sectors without penguin diagrams, and for the
scalar and tensor operators of the other sectors."""
import json
import os
import sys
from multiprocessing import Pool

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, 'lib')]
import bases                                            # noqa: E402
import oneloop                                          # noqa: E402

PENGUIN = ('cu', 'db', 'sb', 'sd', 'mue', 'mutau', 'taue', 'dF=0', 'ffnunu')


def work(s):
    names = [n for n in sorted(bases.sectors('WET', 'JMS')[s]) if '_' in n and len(n.split('_')[1]) == 4]
    if s in PENGUIN:
        names = [n for n in names if n[0] in 'ST']
    if s.endswith('nunu') or s.startswith('nunu') or not names:
        return s, None
    try:
        out = {}
        for g in 'es':
            m = oneloop.adm(tuple(names), g)
            out[g] = [[i, j, float(round(m[i, j], 12))] for i in range(len(names)) for j in range(len(names)) if abs(m[i, j]) > 1e-11]
        out['names'] = names
        return s, out
    except ValueError as e:
        return s, str(e)


if __name__ == '__main__':
    with Pool(8) as p:
        d = dict(p.imap_unordered(work, sorted(bases.sectors('WET', 'JMS'))))
    for s in sorted(d):
        if isinstance(d[s], str):
            print(s, d[s][:300])
    d = {s: d[s] for s in sorted(d) if isinstance(d[s], dict)}
    json.dump(d, open(os.path.join(HERE, 'fixtures', 'adm.json'), 'w'), separators=(',', ':'))
    print(len(d), 'sectors')
