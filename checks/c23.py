"""C23: a calculation may be interrupted, stored, restarted, split into parts and stated in any equivalent basis."""
import io
import json

import numpy as np
from hypothesis import strategies as st

from harness import Sub, check
import bases
import gen
import physics
from checks.c17 import CHAIN, INPUT, OUTPUT, SCALES, PARS, agree, direct, seclist

NEEDS_REF = False
ASSUMPTIONS = ['coefficient sets are complete in the JMS and in the three complete SMEFT bases, so that nothing is lost on the way',
               'the accuracy of the numerical SMEFT evolution is the subject of C14']
COMPLETE = {'SMEFT': ('Warsaw', 'Warsaw up', 'Higgs-Warsaw up')}
# the phase of these is a convention where the SMEFT evolution changes the quark masses (see DESIGN.md)
BNV = ('duql', 'qque', 'qqql', 'duue')
BELOW = {'WET': 'mb_matchingscale', 'WET-4': 'mc_matchingscale'}


def W(d, scale, eft, basis, opts, ctor='init'):
    import wilson
    from wilson import wcxf
    if ctor == 'init':
        w = wilson.Wilson(dict(d), scale, eft, basis)
    else:
        wc = gen.make_wc(wcxf, eft, basis, scale, d)
        if ctor == 'from_wc':
            w = wilson.Wilson.from_wc(wc)
        else:
            f = io.StringIO()
            wc.dump(f, fmt=ctor)
            f.seek(0)
            w = wilson.Wilson.load_wc(f)
    for k, v in opts.items():
        w.set_option(k, v)
    return w


def result(w, r, secs='all'):
    kw = {} if secs == 'all' else {'sectors': tuple(secs)}
    wc = w.match_run(r['scale'], r['eft'], r['basis'], **kw)
    check((wc.eft, wc.basis, wc.scale) == (r['eft'], r['basis'], r['scale']), 'labels of the result')
    return wc


def reach(r, *starts):
    """a mere translation is not available between all bases"""
    for s in starts:
        if not direct(s, r):
            r = dict(r, basis='Warsaw' if r['eft'] == 'SMEFT' else 'JMS')
    return r


def nz(d):
    return {k: v for k, v in d.items() if v != 0}


# generators -------------------------------------------------------------------------------------------------------------------
@st.composite
def options(draw, smeft):
    o = {}
    if draw(st.booleans()):
        o['mb_matchingscale'] = draw(st.floats(3.6, 5.5))
    if draw(st.booleans()):
        o['mc_matchingscale'] = draw(st.floats(1.25, 2.0))
    if draw(st.booleans()):
        o['parameters'] = {p: draw(physics.value(p)) for p in draw(st.lists(st.sampled_from(PARS), max_size=5, unique=True))}
    if draw(st.integers(0, 2)) == 0:
        o['qed_order'] = 0
    if smeft:
        o['smeft_accuracy'] = 'leadinglog' if draw(st.integers(0, 3)) else 'integrate'
        if draw(st.booleans()):
            o['smeft_matchingscale'] = draw(st.floats(75, 180))
        if draw(st.integers(0, 3)) == 0:
            o['smeft_matching_order'] = 1
    return o


@st.composite
def below(draw, first, last=None):
    """a request in a WET; scale anywhere in its range"""
    eft = last or draw(st.sampled_from(CHAIN[CHAIN.index(first):]))
    lo, hi = {'WET': (4.0, 160.0), 'WET-4': (1.3, 5.0), 'WET-3': (1.1, 2.5)}[eft]
    return {'eft': eft, 'scale': draw(st.one_of(st.floats(lo, hi), st.sampled_from(SCALES[eft]))), 'basis': draw(st.sampled_from(OUTPUT[eft]))}


@st.composite
def wetinput(draw, basis=None, eft=None):
    eft = eft or draw(st.sampled_from(['WET', 'WET', 'WET-4', 'WET-3']))
    basis = basis or draw(st.sampled_from(INPUT[eft]))
    have = sorted(x for x, c in bases.sectors(eft, basis).items() if c)
    secs = sorted(draw(st.lists(st.sampled_from(have), min_size=1, max_size=3, unique=True)))
    lo, hi = {'WET': (4.0, 160.0), 'WET-4': (1.3, 5.0), 'WET-3': (1.1, 2.5)}[eft]
    return {'eft': eft, 'basis': basis, 'secs': secs, 'scale': draw(st.one_of(st.floats(lo, hi), st.sampled_from(SCALES[eft]))),
            'C': draw(gen.wcset(eft, basis, secs=secs, exp=draw(st.sampled_from([0, -8])), max_size=5))}


def inputs(s, bnv=True):
    return nz({k: v for k, v in gen.expand(s['C'], s['eft'], s['basis'], s.get('secs')).items() if bnv or k.split('_')[0] not in BNV})


@st.composite
def restarts(draw):
    s = draw(wetinput(eft=draw(st.sampled_from(['WET', 'WET', 'WET-4']))))
    i = CHAIN.index(s['eft'])
    r = draw(below(s['eft'], last=draw(st.sampled_from(CHAIN[i + 1:]))))
    j = CHAIN.index(r['eft'])
    return {'s': s, 'o': draw(options(False)), 'r': r, 'stop': draw(st.integers(i, j - 1)), 'after': draw(st.booleans()),
            'ctor': draw(st.sampled_from(['init', 'from_wc', 'json', 'yaml']))}


def body_restart(c, ctx):
    """stopping in the JMS basis at a threshold, before or after the heavy quark is removed"""
    s, o, r = c['s'], c['o'], c['r'] if c['after'] else dict(c['r'], basis='JMS')
    if s['scale'] == dict({'mb_matchingscale': 4.2, 'mc_matchingscale': 1.3}, **o)[BELOW[s['eft']]]:
        s = dict(s, scale=s['scale'] * 1.01)        # running to the same scale differs by rounding from no running
    d = inputs(s)
    ctx.label('%s -> %s' % (s['eft'], r['eft']))
    full = result(W(d, s['scale'], s['eft'], s['basis'], o), r).dict
    eft = CHAIN[c['stop']]
    defaults = {'mb_matchingscale': 4.2, 'mc_matchingscale': 1.3}
    mu = dict(defaults, **o)[BELOW[eft]]
    if c['after']:
        eft = CHAIN[c['stop'] + 1]
    mid = result(W(d, s['scale'], s['eft'], s['basis'], o), {'eft': eft, 'scale': mu, 'basis': 'JMS'})
    again = result(W(mid.dict, mu, eft, 'JMS', o, c['ctor']), r).dict
    ctx.nontrivial(any(full.values()))
    big = {}
    if not c['after']:      # rounding, while running to the same scale, moves 1e-16 of a heavy coefficient
        sec = bases.sector_of(eft, 'JMS')
        for k, v in mid.dict.items():
            big[sec[k]] = max(big.get(sec[k], 0), 1e-3 * abs(v))
    agree(again, full, r, '%s at %s GeV, stopped in %s at %s GeV, restarted (%s)' % (s['eft'], s['scale'], eft, mu, c['ctor']), rtol=1e-9, big=big)


@st.composite
def smeft(draw, exp=-8, bases_=COMPLETE['SMEFT']):
    b = draw(st.sampled_from(bases_))
    return {'eft': 'SMEFT', 'basis': b, 'scale': draw(st.one_of(st.floats(95, 5000), st.sampled_from([1000.0, 91.1876, 160.0]))),
            'C': draw(gen.wcset('SMEFT', b, exp=exp, max_size=5, families=False))}


@st.composite
def restartsm(draw):
    return {'s': draw(smeft()), 'o': draw(options(True)), 'r': draw(below('WET')), 'ctor': draw(st.sampled_from(['init', 'from_wc', 'json', 'yaml'])),
            'smeft': draw(st.integers(0, 3)) == 0}


def body_restartsm(c, ctx):
    """stopping at the electroweak scale, in the WET or still in the SMEFT"""
    s, o, r = c['s'], c['o'], c['r']
    d = inputs(s, not c['smeft'])
    mu = o.get('smeft_matchingscale', 91.1876)
    ctx.label(o['smeft_accuracy'])
    full = result(W(d, s['scale'], 'SMEFT', s['basis'], o), r).dict
    stop = {'eft': 'SMEFT', 'basis': 'Warsaw', 'scale': mu} if c['smeft'] and s['scale'] != mu else {'eft': 'WET', 'basis': 'JMS', 'scale': mu}
    mid = result(W(d, s['scale'], 'SMEFT', s['basis'], o), stop)
    again = result(W(mid.dict, mu, stop['eft'], stop['basis'], o, c['ctor']), r).dict
    ctx.nontrivial(any(full.values()))
    agree(again, full, r, 'SMEFT at %s GeV, stopped as %s at %s GeV, restarted (%s)' % (s['scale'], stop['eft'], mu, c['ctor']), rtol=1e-9 if stop['eft'] == 'WET' else 1e-7)


@st.composite
def inputbasis(draw):
    s = draw(wetinput())
    return {'s': s, 'o': draw(options(False)), 'r': draw(below(s['eft'])), 'ctor': draw(st.sampled_from(['init', 'from_wc', 'json', 'yaml']))}


def body_inputbasis(c, ctx):
    """coefficients translated to JMS first"""
    s, o, r = c['s'], c['o'], c['r']
    if r['eft'] == s['eft'] and r['scale'] == s['scale']:
        return                                              # translation only, not always available
    d = inputs(s)
    ctx.label('%s %s' % (s['eft'], s['basis']))
    full = result(W(d, s['scale'], s['eft'], s['basis'], o), r).dict
    from wilson import wcxf
    wc = gen.make_wc(wcxf, s['eft'], s['basis'], s['scale'], d)
    jms = wc.translate('JMS', parameters=dict(o.get('parameters', {}))).dict
    again = result(W(jms, s['scale'], s['eft'], 'JMS', o, c['ctor']), r).dict
    ctx.nontrivial(any(full.values()))
    agree(again, full, r, '%s given in the basis %s or in JMS' % (s['eft'], s['basis']), rtol=1e-8)


@st.composite
def inputsm(draw):
    s = draw(smeft())
    return {'s': s, 'o': draw(options(True)), 'r': draw(st.one_of(below('WET'), st.fixed_dictionaries({
        'eft': st.just('SMEFT'), 'scale': st.sampled_from(SCALES['SMEFT']), 'basis': st.sampled_from(COMPLETE['SMEFT'])}))),
        'to': draw(st.sampled_from([b for b in COMPLETE['SMEFT'] if b != s['basis']])), 'ctor': draw(st.sampled_from(['init', 'from_wc', 'json', 'yaml']))}


def body_inputsm(c, ctx):
    s, o = c['s'], c['o']
    r = reach(c['r'], s, dict(s, basis=c['to']))
    d = inputs(s, False)
    ctx.label('%s -> %s' % (s['basis'], r['eft']))
    full = result(W(d, s['scale'], 'SMEFT', s['basis'], o), r).dict
    from wilson import wcxf
    other = gen.make_wc(wcxf, 'SMEFT', s['basis'], s['scale'], d).translate(c['to'], parameters=dict(o.get('parameters', {}))).dict
    again = result(W(other, s['scale'], 'SMEFT', c['to'], o, c['ctor']), r).dict
    ctx.nontrivial(any(full.values()))
    top = max((abs(v) for v in full.values()), default=0)
    tol = 1e-4 if o['smeft_accuracy'] == 'leadinglog' else 3e-3      # accuracy of the SM parameters
    for k in set(full) | set(again):
        g, e = again.get(k, 0), full.get(k, 0)
        check(abs(g - e) <= tol * abs(e) + 1e-2 * tol * top, lambda: 'SMEFT given in %s or %s: %s is %s, expected %s' % (s['basis'], c['to'], k, g, e))


@st.composite
def sums(draw):
    s = draw(wetinput())
    return {'s': s, 'D': draw(gen.wcset(s['eft'], s['basis'], secs=s['secs'], exp=0, max_size=5)), 'o': draw(options(False)), 'r': draw(below(s['eft'])),
            'x': draw(gen.factors()), 'y': draw(gen.factors())}


def body_sums(c, ctx):
    s, o, r, x, y = c['s'], c['o'], reach(c['r'], c['s']), c['x'], c['y']
    d, e = inputs(s), inputs(dict(s, C=c['D']))
    f = lambda z: result(W(z, s['scale'], s['eft'], s['basis'], o), r).dict       # noqa: E731
    fd, fe, fz = f(d), f(e), f({k: x * d.get(k, 0) + y * e.get(k, 0) for k in set(d) | set(e)})
    ctx.nontrivial(any(fd.values()) and any(fe.values()))
    ctx.label('%s -> %s' % (s['eft'], r['eft']))
    sec = bases.sector_of(r['eft'], r['basis'])
    mag, big = {}, {}
    for k in set(fd) | set(fe):
        mag[k] = abs(x * fd.get(k, 0)) + abs(y * fe.get(k, 0))
        big[sec[k]] = max(big.get(sec[k], 0), mag[k])
    top = max(big.values(), default=0)
    for k in set(fz) | set(mag):
        g, w = fz.get(k, 0), x * fd.get(k, 0) + y * fe.get(k, 0)
        check(abs(g - w) <= 1e-8 * mag.get(k, 0) + 1e-9 * big.get(sec[k], 0) + 1e-12 * top + 1e-300,
              lambda: 'the sum of two sets of coefficients: %s is %s, expected %s' % (k, g, w))


@st.composite
def sumsm(draw):
    s = draw(smeft(exp=-15))
    o = draw(options(True))
    o['smeft_accuracy'] = 'leadinglog' if draw(st.integers(0, 1)) else 'integrate'
    return {'s': s, 'D': draw(gen.wcset('SMEFT', s['basis'], exp=-15, max_size=5, families=False)), 'o': o, 'r': draw(below('WET')),
            'x': draw(gen.factors()), 'y': draw(gen.factors())}


def body_sumsm(c, ctx):
    """small coefficients: the result is linear

    1e-15/GeV^2 changes the mass of the up quark by 5e-6; rounding in the one-loop matching is of the order of
    1e-19; the phases of the leptons depend on the neutrino masses in any case"""
    s, o, r, x, y = c['s'], c['o'], c['r'], c['x'], c['y']
    d, e = ({k: v for k, v in inputs(dict(s, C=z), False).items() if k[:9] != 'llphiphi_'} for z in (s['C'], c['D']))
    r = dict(r, basis='JMS')
    f = lambda z: result(W(z, s['scale'], 'SMEFT', s['basis'], o), r).dict       # noqa: E731
    fd, fe, fz = f(d), f(e), f({k: x * d.get(k, 0) + y * e.get(k, 0) for k in set(d) | set(e)})
    ctx.nontrivial(any(fd.values()) and any(fe.values()))
    ctx.label(o['smeft_accuracy'])
    mag = {k: abs(x * fd.get(k, 0)) + abs(y * fe.get(k, 0)) for k in set(fd) | set(fe)}
    top = max(mag.values(), default=0)
    tol = 1e-4 if o['smeft_accuracy'] == 'leadinglog' else 2e-3
    floor = (2e-18 if o.get('smeft_matching_order') else 1e-19) * (1 + abs(x) + abs(y))
    for k in set(fz) | set(mag):
        g, w = fz.get(k, 0), x * fd.get(k, 0) + y * fe.get(k, 0)
        check(abs(g - w) <= tol * mag.get(k, 0) + 5e-2 * tol * top + floor, lambda: 'the sum of two sets of small coefficients: %s is %s, expected %s' % (k, g, w))


@st.composite
def selections(draw):
    s = draw(st.one_of(wetinput(), wetinput(), wetinput(), smeft()))
    r = draw(below('WET' if s['eft'] == 'SMEFT' else s['eft']))
    pool = [x for x in (s.get('secs') or []) if x in bases.sectors(r['eft'], r['basis'])] * 3 + sorted(bases.sectors(r['eft'], r['basis']))
    o = draw(options(s['eft'] == 'SMEFT'))
    if s['eft'] == 'SMEFT':
        o['smeft_accuracy'] = 'leadinglog'
    return {'s': s, 'o': o, 'r': r, 'secs': draw(seclist(pool)), 'list': draw(st.sampled_from(['one', 'each', 'all', 'reverse']))}


def body_selections(c, ctx):
    """sectors together, one after the other, or everything"""
    s, o, r, secs = c['s'], c['o'], reach(c['r'], c['s']), c['secs']
    secs = [x for x in secs if x in bases.sectors(r['eft'], r['basis'])]
    secs = list(dict.fromkeys(secs))
    d = inputs(s)
    ctx.label(c['list'])
    f = lambda x: result(W(d, s['scale'], s['eft'], s['basis'], o), r, x).dict    # noqa: E731
    together = f(secs)
    if c['list'] == 'reverse':
        other = f(secs[::-1])
    elif c['list'] == 'all':
        nm = bases.names(r['eft'], r['basis'], tuple(sorted(secs)))
        other = {k: v for k, v in f('all').items() if k in nm}
    else:
        other = {}
        for x in secs:
            part = f([x])
            check(not set(nz(part)) & set(nz(other)), lambda: 'a coefficient appears in two sectors: %s' % sorted(set(part) & set(other))[:3])
            other.update(part)
    ctx.nontrivial(any(together.values()))
    nm = bases.names(r['eft'], r['basis'], tuple(sorted(secs)))
    for k in nz(together):
        check(k in nm, lambda: '%s does not belong to the requested sectors %s' % (k, secs))
    agree(together, other, r, 'sectors %s requested together, compared with %s' % (secs, c['list']), rtol=1e-9)


@st.composite
def numbers(draw):
    s = draw(wetinput())
    s['scale'] = float(draw({'WET': st.sampled_from([160, 80, 5, 10]), 'WET-4': st.sampled_from([2, 3, 4, 5]), 'WET-3': st.sampled_from([2])}[s['eft']]))
    r = draw(below(s['eft']))
    r['scale'] = draw(st.sampled_from({'WET': [160, 80, 5, 10], 'WET-4': [2, 3, 4, 5], 'WET-3': [2]}[r['eft']]))
    return {'s': s, 'o': draw(options(False)), 'r': r, 'kind': draw(st.sampled_from(['int', 'npfloat', 'npint', 'npcomplex', 'complex', 'list']))}


def body_numbers(c, ctx):
    """the type of the numbers does not matter"""
    s, o, r, k = c['s'], c['o'], reach(c['r'], c['s']), c['kind']
    d = inputs(s)
    ctx.label(k)
    full = result(W(d, s['scale'], s['eft'], s['basis'], o), dict(r, scale=float(r['scale']))).dict
    a, b, e = s['scale'], r['scale'], d
    if k == 'int':
        a, b = int(a), int(b)
    elif k == 'npfloat':
        a, b = np.float64(a), np.float64(b)
        e = {n: np.complex128(v) if isinstance(v, complex) else np.float64(v) for n, v in d.items()}
    elif k == 'npint':
        a, b = int(a), np.int64(b)
    elif k == 'npcomplex':
        e = {n: np.complex128(v) for n, v in d.items() if not bases.names(s['eft'], s['basis'])[n]}
        e.update({n: v for n, v in d.items() if n not in e})
    elif k == 'complex':
        e = {n: v if bases.names(s['eft'], s['basis'])[n] else complex(v) for n, v in d.items()}
    w = W(e, a, s['eft'], s['basis'], o)
    if k == 'list':
        secs = sorted(bases.sectors(r['eft'], r['basis']))
        wc = w.match_run(b, r['eft'], r['basis'], sectors=tuple(secs))
    else:
        wc = w.match_run(b, r['eft'], r['basis'])
    ctx.nontrivial(any(full.values()))
    agree(wc.dict, full, r, 'numbers given as %s' % k, rtol=1e-9)


SUBS = [
    Sub('restart', restarts, body_restart, 100, 4000, rule='the result is not empty'),
    Sub('restartsm', restartsm, body_restartsm, 24, 1000, rule='the result is not empty'),
    Sub('inputbasis', inputbasis, body_inputbasis, 100, 4000, rule='the result is not empty'),
    Sub('inputsm', inputsm, body_inputsm, 20, 1000, rule='the result is not empty'),
    Sub('sums', sums, body_sums, 80, 4000, rule='both results are not empty'),
    Sub('sumsm', sumsm, body_sumsm, 12, 600, rule='both results are not empty'),
    Sub('selections', selections, body_selections, 60, 3000, rule='the result is not empty'),
    Sub('numbers', numbers, body_numbers, 60, 2000, rule='the result is not empty'),
]
