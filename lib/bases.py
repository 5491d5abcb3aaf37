"""The basis definitions, read from the fixture files independently of the code under test."""
import functools
import glob
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
DIR = os.path.join(HERE, '..', 'fixtures', 'bases')


@functools.lru_cache(None)
def _raw():
    out = {}
    for p in glob.glob(os.path.join(DIR, '*.basis.json')) + glob.glob(os.path.join(DIR, 'child', '*.basis.json')):
        d = json.load(open(p))
        out[d['eft'], d['basis']] = d
    return out


@functools.lru_cache(None)
def sectors(eft, basis):
    """{sector: {name: is_real}}"""
    d = _raw()[eft, basis]
    out = {}
    if d.get('parent'):
        out.update(sectors(eft, d['parent']))
    for s, c in d['sectors'].items():
        out[s] = {k: bool((v or {}).get('real', False)) for k, v in c.items()}
    return out


@functools.lru_cache(None)
def names(eft, basis, secs=None):
    """{name: is_real} of all coefficients (optionally of some sectors)"""
    return {k: r for s, c in sorted(sectors(eft, basis).items()) if secs is None or s in secs
            for k, r in sorted(c.items())}


@functools.lru_cache(None)
def sector_of(eft, basis):
    return {k: s for s, c in sectors(eft, basis).items() for k in c}


def all_bases():
    return sorted(_raw())


@functools.lru_cache(None)
def eft_sectors(eft):
    return tuple(sorted(json.load(open(os.path.join(DIR, '%s.eft.json' % eft.lower())))['sectors']))
