"""C08: WET translations between JMS, flavio, Bern and FlavorKit are consistent."""
import functools
import json
import math

import numpy as np
from hypothesis import strategies as st

from harness import Sub, check
import bases
import gen
import neighbour
import physics

NEEDS_REF = True
ASSUMPTIONS = ['the definitions of the bases are compared with a pinned copy of the code and, for the semileptonic, dipole, '
               'Delta F=2 and charged-current coefficients of one flavour each, with formulas written down independently',
               'which coefficients have a counterpart in the other basis is taken from the pinned copy']
EFTS = ('WET', 'WET-4', 'WET-3')
PAIRS = [('JMS', 'flavio'), ('flavio', 'JMS'), ('JMS', 'Bern'), ('Bern', 'JMS'), ('flavio', 'Bern'), ('Bern', 'flavio')]
ROUTES = [(e, a, b) for e in EFTS for a, b in PAIRS] + [('WET', 'JMS', 'FlavorKit'), ('WET', 'FlavorKit', 'JMS'),
                                                        ('WET', 'FlavorKit', 'flavio')]
BACK = {('JMS', 'FlavorKit'), ('FlavorKit', 'JMS')} | set(PAIRS)
EXPORTS = [('WET', 'JMS', 'EOS'), ('WET', 'JMS', 'formflavor')]
TWOSTEP = [('flavio', 'JMS', 'Bern'), ('Bern', 'JMS', 'flavio'), ('FlavorKit', 'JMS', 'flavio')]
KEYS = ('GF', 'alpha_e', 'alpha_s', 'Vus', 'Vub', 'Vcb', 'gamma', 'm_b', 'm_s', 'm_c', 'm_u', 'm_d', 'm_e', 'm_mu', 'm_tau')


def tr(d, eft, a, b, p, scale, secs=None, mod=None):
    from wilson import wcxf
    wc = gen.make_wc(mod or wcxf, eft, a, scale, d)
    p0 = json.dumps(p)
    v0 = json.dumps(wc.values, sort_keys=True)
    kw = {}
    if p is not None:
        kw['parameters'] = p
    if secs is not None:
        kw['sectors'] = tuple(secs)
    out = wc.translate(b, **kw)
    check(json.dumps(p) == p0, 'the parameters were modified')
    check(json.dumps(wc.values, sort_keys=True) == v0, 'the input was modified')
    check((out.eft, out.basis, out.scale) == (eft, b, scale), 'labels of the result')
    d = out.dict
    names = bases.names(eft, b)
    for k, v in d.items():
        check(k in names, lambda: 'coefficient %s is not in the basis %s of %s' % (k, b, eft))
    return d


def check_real(d, eft, b, what, noise=0):
    names = bases.names(eft, b)
    big = gen.maxabs(d)
    for k, v in d.items():
        if names[k]:
            check(abs(complex(v).imag) <= 1e-9 * max(abs(v), 1e-6 * big) + noise, lambda: '%s: the real coefficient %s is %s' % (what, k, v))


def scales():
    return st.one_of(st.sampled_from([2.0, 4.2, 5.0, 80.0, 91.1876]), st.floats(2, 200))


@functools.lru_cache(None)
def reproduced(eft, a, b):
    """coefficients of a that a -> b -> a reproduces, in the pinned copy"""
    import refwilson.wcxf
    d = gen.expand({'kind': 'dense', 'seed': 4711, 'keep': 1.0, 'exp': 0}, eft, a)
    out = tr(d, eft, a, b, None, 5.0, mod=refwilson.wcxf)
    back = tr(out, eft, b, a, None, 5.0, mod=refwilson.wcxf)
    return frozenset(k for k in d if abs(back.get(k, 0) - d[k]) < 1e-7)


@st.composite
def coeffs(draw, eft, a):
    """coefficient sets, half of the time concentrated on one or two sectors"""
    kind = draw(st.integers(0, 2))
    if kind == 0:
        have = sorted(s for s, c in bases.sectors(eft, a).items() if c)
        secs = draw(st.lists(st.sampled_from(have), min_size=1, max_size=2, unique=True))
        return {'kind': 'sparse', 'vals': {k: draw(gen.coeff(bases.names(eft, a)[k])) for k in
                draw(st.lists(st.sampled_from(sorted(bases.names(eft, a, tuple(secs)))), min_size=1, max_size=6, unique=True))}}
    return draw(gen.wcset(eft, a, exp=draw(st.sampled_from([0, -8, -16])), max_size=8))


@st.composite
def routes(draw):
    eft, a, b = draw(st.sampled_from(ROUTES))
    return {'eft': eft, 'a': a, 'b': b, 'p': draw(physics.params(KEYS)), 'scale': draw(scales()),
            'C': draw(coeffs(eft, a)), 'D': draw(gen.wcset(eft, a, max_size=4)),
            'x': draw(gen.factors()), 'y': draw(gen.factors())}


def relsame(got, exp, what, rtol=1e-9, big=None, frac=1e-11, floor=1e-14, also=None):
    """agreement relative to each value; tiny absolute allowance relative to the largest value of the same kind"""
    fam = {}
    for d in (got, exp, also or {}):
        for k, v in d.items():
            f = k.split('_')[0]
            fam[f] = max(fam.get(f, 0.0), abs(v))
    top = max(fam.values(), default=0.0)
    for k in set(got) | set(exp):
        g, e = got.get(k, 0), exp.get(k, 0)
        tol = rtol * abs(e) + frac * max(fam[k.split('_')[0]], big or 0) + floor * top
        check(abs(g - e) <= tol, lambda: '%s: %s is %s, expected %s' % (what, k, g, e))


def body_roundtrip(c, ctx):
    eft, a, b, p, s = c['eft'], c['a'], c['b'], c['p'], c['scale']
    d = gen.expand(c['C'], eft, a)
    ctx.label('%s %s -> %s' % (eft, a, b))
    out = tr(d, eft, a, b, p, s)
    check_real(out, eft, b, '%s %s -> %s' % (eft, a, b))
    if (a, b) in BACK:
        back = tr(out, eft, b, a, p, s)
        keep = reproduced(eft, a, b)
        ctx.nontrivial(any(k in keep and v != 0 for k, v in d.items()))
        e = {k: v for k, v in d.items() if k in keep}
        g = {k: back.get(k, 0) for k in keep}
        relsame(g, e, '%s: %s -> %s -> %s' % (eft, a, b, a), rtol=1e-8, big=gen.maxabs(d))
        again = tr(back, eft, a, b, p, s)
        relsame(again, out, '%s: %s -> %s -> %s -> %s' % (eft, a, b, a, b), rtol=1e-8)
    else:
        ctx.nontrivial(any(v != 0 for v in out.values()))


def body_linear(c, ctx):
    eft, a, b, p, s = c['eft'], c['a'], c['b'], c['p'], c['scale']
    ctx.label('%s %s -> %s' % (eft, a, b))
    x, y = c['x'], c['y']
    d, e = gen.expand(c['C'], eft, a), gen.expand(c['D'], eft, a)
    f = lambda z: tr(z, eft, a, b, p, s)        # noqa: E731
    z = {k: x * d.get(k, 0) + y * e.get(k, 0) for k in set(d) | set(e)}
    fd, fe, fz = f(d), f(e), f(z)
    ctx.nontrivial(bool(fd) and bool(fe))
    exp = {k: x * fd.get(k, 0) + y * fe.get(k, 0) for k in set(fd) | set(fe)}
    mag = {k: abs(x * fd.get(k, 0)) + abs(y * fe.get(k, 0)) for k in exp}
    fam = {}
    for k, v in mag.items():
        fam[k.split('_')[0]] = max(fam.get(k.split('_')[0], 0), v)
    top = max(fam.values(), default=0.0)
    for k in set(exp) | set(fz):
        tol = 1e-9 * mag.get(k, 0) + 1e-10 * fam.get(k.split('_')[0], 0) + 1e-13 * top + 1e-300
        check(abs(fz.get(k, 0) - exp.get(k, 0)) <= tol, lambda: '%s %s -> %s is not linear: %s is %s, expected %s' % (
            eft, a, b, k, fz.get(k, 0), exp.get(k, 0)))
    # parameters: explicit defaults change nothing; quark masses enter only through their running
    out = tr(d, eft, a, b, physics.full(p), s)
    relsame(out, fd, 'explicit default parameters', rtol=1e-11)


def body_twostep(c, ctx):
    eft, p, s = c['eft'], c['p'], c['scale']
    a, m, b = c['route']
    d = gen.expand(c['C'], eft, a)
    direct = tr(d, eft, a, b, p, s)
    two = tr(tr(d, eft, a, m, p, s), eft, m, b, p, s)
    relsame(direct, two, '%s: %s -> %s compared with the route via %s' % (eft, a, b, m), rtol=1e-8)
    ctx.nontrivial(any(v != 0 for v in direct.values()))
    ctx.label('%s %s' % (eft, '-'.join(c['route'])))


@st.composite
def twostep(draw):
    r = draw(st.sampled_from(TWOSTEP))
    eft = 'WET' if r[0] == 'FlavorKit' else draw(st.sampled_from(EFTS))
    return {'eft': eft, 'route': list(r), 'p': draw(physics.params(KEYS)), 'scale': draw(scales()), 'C': draw(coeffs(eft, r[0]))}


@st.composite
def sectorcase(draw):
    eft, a, b = draw(st.sampled_from(ROUTES + EXPORTS))
    sa = bases.sectors(eft, a)
    have = sorted(s for s, x in sa.items() if x)
    secs = draw(st.lists(st.sampled_from(have), min_size=1, max_size=3, unique=True))
    C = draw(st.one_of(gen.wcset(eft, a, max_size=8), st.builds(lambda q, s: {'kind': 'dense', 'seed': s, 'keep': q, 'exp': 0},
                                                              st.sampled_from([1.0, 0.3]), gen.seeds())))
    return {'eft': eft, 'a': a, 'b': b, 'use': secs, 'p': draw(physics.params(KEYS)), 'scale': draw(scales()), 'C': C,
            'inside': draw(st.booleans())}


def body_sectors(c, ctx):
    eft, a, b, p, s = c['eft'], c['a'], c['b'], c['p'], c['scale']
    d = gen.expand(c['C'], eft, a)
    sa, sb = bases.sector_of(eft, a), bases.sector_of(eft, b)
    ctx.label('%s %s -> %s' % (eft, a, b))
    if c['inside']:
        d = {k: v for k, v in d.items() if sa[k] in c['use']}
    full = tr(d, eft, a, b, p, s)
    part = tr(d, eft, a, b, p, s, secs=c['use'])
    inner = lambda z: {k: v for k, v in z.items() if sb[k] in c['use']}     # noqa: E731
    ctx.nontrivial(bool(inner(full)))
    relsame(inner(part), inner(full), '%s %s -> %s with sectors %s' % (eft, a, b, c['use']), rtol=1e-12)
    # coefficients outside the requested sectors are absent or unchanged
    for k, v in part.items():
        if k not in inner(part) and v != 0:
            f = full.get(k, 0)
            check(abs(v - f) <= 1e-9 * abs(f), lambda: 'with sectors %s, %s is %s instead of %s' % (c['use'], k, v, f))
    # no leakage: a translation never moves coefficients into other sectors
    if c['inside']:
        big = gen.maxabs(full)
        for k, v in full.items():
            check(sb[k] in c['use'] or abs(v) <= 1e-13 * big, lambda: 'input only in sectors %s, but %s (sector %s) is %s' % (
                c['use'], k, sb[k], v))


@st.composite
def eachsector(draw):
    eft, a, b = draw(st.sampled_from(ROUTES + EXPORTS))
    return {'eft': eft, 'a': a, 'b': b, 'p': draw(physics.params(KEYS)), 'scale': draw(scales()), 'C': draw(gen.wcset(eft, a, exp=-6))}


def body_eachsector(c, ctx):
    """every sector of the basis requested on its own"""
    eft, a, b, p, s = c['eft'], c['a'], c['b'], c['p'], c['scale']
    d = gen.expand(c['C'], eft, a)
    sb = bases.sector_of(eft, b)
    full = tr(d, eft, a, b, p, s)
    ctx.label('%s %s -> %s' % (eft, a, b))
    ctx.nontrivial(any(v != 0 for v in full.values()))
    for sec in sorted(set(bases.sectors(eft, a)) & set(bases.sectors(eft, b))):
        part = tr(d, eft, a, b, p, s, secs=[sec])
        relsame({k: v for k, v in part.items() if sb[k] == sec}, {k: v for k, v in full.items() if sb[k] == sec},
                '%s %s -> %s with the sector %s' % (eft, a, b, sec), rtol=1e-12, frac=1e-14, floor=0)


def body_reference(c, ctx):
    import refwilson.wcxf
    eft, a, b, p, s = c['eft'], c['a'], c['b'], c['p'], c['scale']
    d = gen.expand(c['C'], eft, a)
    ctx.label('%s %s -> %s' % (eft, a, b))
    got = tr(d, eft, a, b, p, s)
    exp = tr(d, eft, a, b, p, s, mod=refwilson.wcxf)
    ctx.nontrivial(any(v != 0 for v in exp.values()))
    relsame(got, exp, '%s %s -> %s (published definition)' % (eft, a, b), rtol=1e-9)


# --- independent formulas -------------------------------------------------------------------------------------------

DI = {'d': 0, 's': 1, 'b': 2}
UI = {'u': 0, 'c': 1}
LI = {'e': 0, 'mu': 1, 'tau': 2}


def jms(d, op, *ind):
    """element of a JMS tensor from the non-redundant set, using the symmetries of the published basis"""
    names = bases.names('WET', 'JMS')
    n = lambda *x: op + '_' + ''.join(str(i + 1) for i in x)     # noqa: E731
    if n(*ind) in names:
        return d.get(n(*ind), 0)
    if len(ind) == 4 and op.startswith('V'):
        i, j, k, l = ind
        for m, conj in (((j, i, l, k), True), ((k, l, i, j), False), ((l, k, j, i), True)):
            if n(*m) in names and (conj or op in ('VddLL', 'VddRR', 'VeeLL', 'VeeRR', 'VnunuLL', 'VuuLL', 'VuuRR')):
                v = d.get(n(*m), 0)
                return np.conj(v) if conj else v
    raise KeyError(n(*ind))


@st.composite
def formulas(draw):
    return {'p': draw(physics.params(KEYS)), 'scale': draw(scales()), 'C': draw(coeffs('WET', 'JMS')),
            'dense': draw(st.booleans()), 'seed': draw(gen.seeds())}


def body_formulas(c, ctx):
    p = physics.full(c['p'])
    d = gen.expand(c['C'] if not c['dense'] else {'kind': 'dense', 'seed': c['seed'], 'keep': 1.0, 'exp': -6}, 'WET', 'JMS')
    V = physics.ckm(p)
    out = tr(d, 'WET', 'JMS', 'flavio', c['p'], c['scale'])
    exp = {}
    J = functools.partial(jms, d)
    N0 = 4 * p['GF'] / math.sqrt(2)
    aem = p['alpha_e'] / (4 * math.pi)
    for q1, q2 in (('b', 's'), ('b', 'd'), ('s', 'd')):
        i, j = DI[q2], DI[q1]                   # operator  (qbar_2 ... q_1)
        xi = V[2, j] * np.conj(V[2, i])
        for n1 in LI:
            for n2 in LI:
                if q1 == 's' and n1 == n2 == 'tau':
                    continue
                k, l = LI[n2], LI[n1]      # operator (lbar_2 ... l_1)
                N = N0 * xi * aem
                LL, LR = J('VedLL', k, l, i, j), J('VdeLR', i, j, k, l)
                RR, RL = J('VedRR', k, l, i, j), J('VedLR', k, l, i, j)
                t = '%s%s%s%s' % (q1, q2, n1, n2)
                exp['C9_' + t], exp['C10_' + t] = (LR + LL) / 2 / N, (LR - LL) / 2 / N
                exp['C9p_' + t], exp['C10p_' + t] = (RR + RL) / 2 / N, (RR - RL) / 2 / N
    for q1, q2 in (('b', 's'), ('b', 'd'), ('s', 'd')):
        i, j = DI[q2], DI[q1]
        t = q1 + q2 + q1 + q2
        exp['CVLL_' + t], exp['CVRR_' + t] = J('VddLL', i, j, i, j), J('VddRR', i, j, i, j)
    for u in UI:
        for dd in DI:
            for l in LI:
                t = '%s%s%snu%s' % (dd, u, l, l)
                N = N0 * V[UI[u], DI[dd]]
                exp['CVL_' + t] = np.conj(d.get('VnueduLL_%d%d%d%d' % (LI[l] + 1, LI[l] + 1, DI[dd] + 1, UI[u] + 1), 0)) / -N
    exp = {k: v for k, v in exp.items() if k in bases.names('WET', 'flavio')}
    ctx.nontrivial(any(v != 0 for v in exp.values()))
    got = {k: out.get(k, 0) for k in exp}
    relsame(got, exp, 'JMS -> flavio, independent formulas', rtol=1e-9, frac=1e-13)


def dense(seed, exp=0, q=1.0):
    return {'kind': 'dense', 'seed': seed, 'keep': q, 'exp': exp}


P0 = {'Vus': 0.3, 'Vub': 0.02, 'Vcb': 0.1, 'gamma': 0.9, 'GF': 1.2e-5, 'alpha_e': 0.008, 'alpha_s': 0.11, 'm_b': 4.3, 'm_s': 0.1,
      'm_c': 1.2, 'm_u': 0.003, 'm_d': 0.004, 'm_e': 6e-4, 'm_mu': 0.1, 'm_tau': 1.9}


def every():
    return [{'eft': e, 'a': a, 'b': b, 'p': P0 if i % 2 else None, 'scale': 5.0 + i, 'C': dense(i), 'D': dense(i + 100, q=0.3),
             'x': 0.7, 'y': -1.3} for i, (e, a, b) in enumerate(ROUTES)]


def exactly(got, exp, what):
    relsame(got, exp, what, rtol=1e-12, frac=1e-14, floor=0)


FULL = {k: physics.DEFAULT[k] for k in KEYS}
MIN = gen.sparsify(lambda c: c['eft'], lambda c: c.get('a') or c['route'][0], ('C', 'D'))
SUBS = [
    Sub('history', lambda: neighbour.histories(ROUTES, physics.params(KEYS), FULL, (2., 200.)),
        neighbour.body(lambda r, d, p, s: tr(d, r[0], r[1], r[2], p, s), FULL, exactly), 60, 3000, rule='a result is not empty',
        examples=lambda: neighbour.every(ROUTES, FULL, (2., 200.))),
    Sub('eachsector', eachsector, body_eachsector, 24, 600, rule='the complete image is not zero', examples=lambda: [
        {'eft': e, 'a': a, 'b': b, 'p': P0, 'scale': 4.6, 'C': dense(11 + i, -6)} for i, (e, a, b) in enumerate(ROUTES + EXPORTS)]),
    Sub('roundtrip', routes, body_roundtrip, 200, 4000, rule='a coefficient with a counterpart is non-zero', minimise=MIN, examples=every),
    Sub('linear', routes, body_linear, 150, 3000, rule='both inputs have an image', minimise=MIN),
    Sub('twostep', twostep, body_twostep, 120, 3000, rule='the image is non-zero', minimise=MIN,
        examples=[{'eft': e, 'route': r, 'p': P0, 'scale': 4.2, 'C': dense(3)} for e in EFTS for r in map(list, TWOSTEP[:2])]
        + [{'eft': 'WET', 'route': list(TWOSTEP[2]), 'p': P0, 'scale': 4.2, 'C': dense(3)}]),
    Sub('sectors', sectorcase, body_sectors, 150, 4000, rule='the image in the requested sectors is non-zero', minimise=MIN),
    Sub('reference', routes, body_reference, 200, 4000, rule='the image is non-zero', minimise=MIN, examples=every),
    Sub('formulas', formulas, body_formulas, 200, 4000, rule='a coefficient covered by the independent formulas is non-zero',
        minimise=gen.sparsify('WET', 'JMS')),
]
