"""C07: SMEFT basis changes are invertible and use the requested CKM matrix."""
import json

import numpy as np
from hypothesis import strategies as st

from harness import Sub, check, Violation
import bases
import gen
import neighbour
import physics
import tensors as T

NEEDS_REF = True
ASSUMPTIONS = ['coefficients of the Higgs-Warsaw basis: besides the inversion, composition and linearity laws, the '
               'definitions themselves are compared with a pinned copy of the code']
W, UP, HIGGS, MASS = 'Warsaw', 'Warsaw up', 'Higgs-Warsaw up', 'Warsaw mass'
ROUTES = {(W, UP), (UP, W), (W, HIGGS), (HIGGS, W), (UP, HIGGS), (HIGGS, UP)}
KEYS = ('Vus', 'Vub', 'Vcb', 'gamma', 'GF', 'alpha_e', 'alpha_s', 'm_Z', 'm_W', 'm_h')


def tr(d, a, b, p, scale=1000.0, mod=None):
    from wilson import wcxf
    m = mod or wcxf
    wc = gen.make_wc(m, 'SMEFT', a, scale, d)
    p0 = json.dumps(p)
    v0 = json.dumps(wc.values, sort_keys=True)
    out = wc.translate(b, parameters=p) if p is not None else wc.translate(b)
    check(json.dumps(p) == p0, 'the parameters were modified')
    check(json.dumps(wc.values, sort_keys=True) == v0, 'the input was modified')
    check((out.eft, out.basis, out.scale) == ('SMEFT', b, scale), 'labels of the result')
    return out


def valid(out, b):
    names = bases.names('SMEFT', b)
    d = out.dict
    big = gen.maxabs(d)
    for k, v in d.items():
        check(k in names, lambda: 'coefficient %s is not in basis %s' % (k, b))
        if names[k]:
            check(abs(complex(v).imag) <= 1e-9 * max(big, 1e-300), lambda: 'real coefficient %s is %s' % (k, v))
    return d


@st.composite
def routes(draw):
    a, b = draw(st.sampled_from(sorted(ROUTES)))
    return {'a': a, 'b': b, 'p': draw(physics.params(KEYS)), 'scale': draw(gen.logfloat(100, 1e6)),
            'scale2': draw(gen.logfloat(100, 1e6)),
            'C': draw(gen.wcset('SMEFT', a, exp=draw(st.sampled_from([0, -6, -8])), max_size=8)),
            'D': draw(gen.wcset('SMEFT', a, exp=0, max_size=4)),
            'x': draw(gen.factors()), 'y': draw(gen.factors())}


def body_routes(c, ctx):
    a, b, p = c['a'], c['b'], c['p']
    d = gen.expand(c['C'], 'SMEFT', a)
    ctx.nontrivial(any(v != 0 for v in d.values()))
    ctx.label('%s -> %s' % (a, b))
    out = valid(tr(d, a, b, p, c['scale']), b)
    back = valid(tr(out, b, a, p, c['scale']), a)
    gen.same(back, d, '%s -> %s -> back' % (a, b), rtol=1e-8, scale=max(gen.maxabs(d), gen.maxabs(out), 1e-300))
    # direct and two-step
    third = ({W, UP, HIGGS} - {a, b}).pop()
    mid = tr(d, a, third, p, c['scale']).dict
    two = tr(mid, third, b, p, c['scale']).dict
    s = max(gen.maxabs(out), gen.maxabs(mid), 1e-300)
    gen.same(two, out, '%s -> %s -> %s compared with the direct route' % (a, third, b), rtol=1e-8, scale=s)
    # independent of the scale
    other = tr(d, a, b, p, c['scale2']).dict
    check(other == tr(d, a, b, p, c['scale']).dict, 'the result depends on the scale')
    # parameters: defaults made explicit
    if p is not None or c['x'] > 0:
        gen.same(tr(d, a, b, physics.full(p), c['scale']).dict, out, 'explicit default parameters', rtol=1e-12)
    if {a, b} == {W, UP}:
        only = {k: physics.full(p)[k] for k in physics.CKM}
        gen.same(tr(d, a, b, only, c['scale']).dict, out, 'only the CKM parameters may matter', rtol=1e-12)
    # linear
    e = gen.expand(c['D'], 'SMEFT', a)
    gen.linear(lambda z: tr(z, a, b, p).dict, d, e, c['x'], c['y'], 'linearity of %s -> %s' % (a, b), rtol=1e-8)


@st.composite
def upcase(draw):
    a = draw(st.sampled_from([W, UP]))
    return {'a': a, 'p': draw(physics.params(KEYS)), 'C': draw(gen.wcset('SMEFT', a, exp=draw(st.sampled_from([0, -7])), max_size=8))}


def body_up(c, ctx):
    """rotation of the quark doublet by the CKM matrix (independent rotation, CKM and symmetry factors)"""
    a = c['a']
    b = UP if a == W else W
    d = gen.expand(c['C'], 'SMEFT', a)
    V = physics.ckm(physics.full(c['p']))
    U = {f: np.eye(3) for f in 'ulde'}
    U['q'] = V.conj().T if a == W else V
    exp = T.reduce_all('SMEFT', T.rotate(T.expand_all('SMEFT', d), U))
    exp = {k: (v.real if bases.names('SMEFT', b)[k] else v) for k, v in exp.items()}
    got = valid(tr(d, a, b, c['p']), b)
    gen.same(got, exp, '%s -> %s' % (a, b), rtol=1e-9)
    ctx.nontrivial(any(v != 0 for k, v in d.items() if 'q' in T.SMEFT_FIELDS.get(k.split('_')[0], '')))


@st.composite
def masscase(draw):
    return {'p': draw(physics.params(KEYS)), 'C': draw(st.one_of(
        gen.wcset('SMEFT', W, exp=draw(st.sampled_from([0, -7, -13])), max_size=8),
        st.builds(lambda s, k, x: {'kind': 'dense', 'seed': s, 'keep': k, 'exp': -8, 'prefix': x}, gen.seeds(), st.sampled_from([1.0, 0.4, 0.15]),
                  st.lists(st.sampled_from(['llphiphi', 'uphi', 'uG', 'uB', 'uW']), min_size=1, unique=True))))}


def body_mass(c, ctx):
    d = gen.expand(c['C'], 'SMEFT', W)
    V = physics.ckm(physics.full(c['p']))
    out = tr(d, W, MASS, c['p'])
    got = valid(out, MASS)
    names = bases.names('SMEFT', MASS)
    full = T.expand_all('SMEFT', d, scaled=False)
    exp = {k: v for k, v in d.items() if k in names}
    for op in ('uphi', 'uG', 'uW', 'uB'):
        exp.update(T.reduce_all('SMEFT', {op: V @ full[op]}, scaled=False))
    s = np.sort(np.linalg.svd(full['llphiphi'], compute_uv=False))
    for i in range(3):
        for j in range(3):
            exp.pop('llphiphi_%d%d' % (i + 1, j + 1), None)
    exp.update({'llphiphi_%d%d' % (i + 1, i + 1): s[i] for i in range(3)})
    ops = {k.split('_')[0] for k in got} | {k.split('_')[0] for k in exp}
    for op in ops:
        g = {k: v for k, v in got.items() if k.split('_')[0] == op}
        e = {k: v for k, v in exp.items() if k.split('_')[0] == op}
        gen.same(g, e, 'Warsaw mass basis', rtol=1e-9)
    for k in d:
        if k.split('_')[0] not in ('uphi', 'uG', 'uW', 'uB', 'llphiphi'):
            check(got.get(k, 0) == d[k], lambda: '%s changed from %s to %s' % (k, d[k], got.get(k)))
    ctx.nontrivial(any(k.split('_')[0] in ('uphi', 'uG', 'uW', 'uB', 'llphiphi') for k in d))


@st.composite
def refcase(draw):
    a, b = draw(st.sampled_from([(UP, HIGGS), (HIGGS, UP), (W, HIGGS), (HIGGS, W)]))
    return {'a': a, 'b': b, 'p': draw(physics.params(KEYS)), 'C': draw(gen.wcset('SMEFT', a, max_size=6))}


def body_ref(c, ctx):
    import refwilson.wcxf
    d = gen.expand(c['C'], 'SMEFT', c['a'])
    got = tr(d, c['a'], c['b'], c['p']).dict
    exp = tr(d, c['a'], c['b'], c['p'], mod=refwilson.wcxf).dict
    gen.same(got, exp, '%s -> %s (published definition)' % (c['a'], c['b']), rtol=1e-9)
    ctx.label('%s -> %s' % (c['a'], c['b']))


@st.composite
def zcoupl(draw):
    return {'p': draw(physics.params(KEYS)), 'C': draw(gen.wcset('SMEFT', UP, max_size=10)), 'seed': draw(gen.seeds())}


def body_physical(c, ctx):
    """physical meaning of the vertex corrections: with phiWB, phiD, phil3_11, phil3_22, ll_1221 zero the Z and W vertex
    corrections are the standard combinations of the Higgs-current coefficients; custodial relation for quarks"""
    d = gen.expand(c['C'], 'SMEFT', UP)
    for k in ('phiWB', 'phiD', 'phil3_11', 'phil3_22', 'll_1221'):
        d.pop(k, None)
    h = tr(d, UP, HIGGS, c['p']).dict
    full = T.expand_all('SMEFT', d)
    V = physics.ckm(physics.full(c['p']))
    exp = {'deltagWlL': full['phil3'], 'deltagZeL': -(full['phil1'] + full['phil3']) / 2, 'deltagZeR': -full['phie'] / 2,
           'deltagZuL': (full['phiq3'] - full['phiq1']) / 2, 'deltagZdL': -V.conj().T @ (full['phiq1'] + full['phiq3']) @ V / 2,
           'deltagZuR': -full['phiu'] / 2, 'deltagZdR': -full['phid'] / 2, 'deltagWqR': -full['phiud'] / 2}
    e, g = {}, {}
    for k, t in exp.items():
        for i in range(3):
            for j in range(3):
                n = '%s_%d%d' % (k, i + 1, j + 1)
                if n in bases.names('SMEFT', HIGGS):
                    e[n] = t[i, j]
                    g[n] = h.get(n, 0)
    gen.same(g, e, 'vertex corrections', rtol=1e-9)
    ctx.nontrivial(any(abs(v) > 0 for v in e.values()))


def exactly(got, exp, what):
    gen.same(got, exp, what, rtol=1e-12)


HROUTES = [('SMEFT', a, b) for a, b in sorted(ROUTES) + [(W, MASS), (W, UP), (UP, W)]]
FULL = {k: physics.DEFAULT[k] for k in KEYS}
SUBS = [
    Sub('history', lambda: neighbour.histories(HROUTES, physics.params(KEYS), FULL, (50., 1e6)),
        neighbour.body(lambda r, d, p, s: tr(d, r[1], r[2], p, s).dict, FULL, exactly), 60, 2500, rule='a result is not empty',
        examples=lambda: neighbour.every(HROUTES, FULL, (50., 1e6))),
    Sub('routes', routes, body_routes, 40, 1200, rule='some coefficient is non-zero',
        minimise=gen.sparsify('SMEFT', lambda c: c['a'], ('C', 'D')),
        examples=[{'a': a, 'b': b, 'p': {'Vus': 0.3, 'Vub': 0.02, 'Vcb': 0.1, 'gamma': 0.9}, 'scale': 1000., 'scale2': 91.,
                   'C': {'kind': 'dense', 'seed': 7, 'keep': 1.0, 'exp': 0}, 'D': {'kind': 'dense', 'seed': 8, 'keep': 0.3, 'exp': 0},
                   'x': 0.7, 'y': -1.3} for a, b in sorted(ROUTES)]),
    Sub('rotation', upcase, body_up, 120, 3000, rule='a coefficient with quark doublets is present',
        minimise=gen.sparsify('SMEFT', lambda c: c['a'])),
    Sub('mass', masscase, body_mass, 200, 4000, rule='an up-type dipole, Yukawa or the neutrino operator is present',
        minimise=gen.sparsify('SMEFT', W)),
    Sub('reference', refcase, body_ref, 120, 3000, rule='all', minimise=gen.sparsify('SMEFT', lambda c: c['a'])),
    Sub('physical', zcoupl, body_physical, 200, 4000, rule='some vertex correction is non-zero', minimise=gen.sparsify('SMEFT', UP)),
]
