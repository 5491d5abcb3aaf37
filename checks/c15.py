"""C15: Standard Model parameter extraction inverts the SMEFT relations."""
import math

import numpy as np
from hypothesis import strategies as st

from harness import Sub, check, HarnessError, Violation
import gen
import physics
import tensors as T

NEEDS_REF = False
ASSUMPTIONS = ['the oracle uses its own expressions for the observables (potential minimum and curvature by differentiation, gauge boson mass '
               'matrix diagonalised numerically, singular values of mass matrices, rephasing invariant CKM angle)',
               'the input values are those of wilson.run.smeft.smpar.p read at run time']
BOS = ('phi', 'phiBox', 'phiD', 'phiG', 'phiB', 'phiW', 'phiWB')
NF = ('G', 'W', 'Gtilde', 'Wtilde', 'phiGtilde', 'phiBtilde', 'phiWtilde', 'phiWtildeB')
CKM = ('Vus', 'Vub', 'Vcb', 'gamma')
MASSES = ('m_e', 'm_mu', 'm_tau', 'm_u', 'm_c', 'm_t', 'm_d', 'm_s', 'm_b')


def smpar():
    import wilson                                                   # noqa: F401
    import wilson.run.smeft.smpar as s
    for k in ('m2Lambda_to_vMh2', 'vMh2_to_m2Lambda', 'get_gpbar', 'smeftpar', 'smpar', 'p'):
        if not hasattr(s, k):
            raise HarnessError('wilson.run.smeft.smpar.%s not found' % k)
    return s


def rel(a, b):
    return abs(a - b) / abs(b) if b else abs(a)


signed = lambda lo, hi, zero=True: st.builds(                         # noqa: E731
    lambda x, s: x * s, gen.logfloat(lo, hi, (0.0,) if zero else ()), st.sampled_from([1.0, -1.0]))


@st.composite
def higgs(draw):
    return {'v': draw(st.one_of(st.just(246.21965), st.floats(50, 500))), 'Mh': draw(st.one_of(st.just(125.0), st.floats(10, 400))),
            'phi': draw(signed(1e-16, 1e-4)), 'phiBox': draw(signed(1e-10, 1e-5)), 'phiD': draw(signed(1e-10, 1e-5)),
            'complex': draw(st.booleans()), 'direct': draw(st.booleans())}


def cdict(c):
    f = complex if c['complex'] else float
    return {k: f(c[k]) for k in ('phi', 'phiBox', 'phiD')}


def potential_ok(v, Mh2, m2, L, C, what, tol):
    """v is a stationary point of the potential with the curvature of the physical mass"""
    c, kin = C['phi'].real, C['phiBox'].real - C['phiD'].real / 4
    # V(h) = -m2 h^2/2 + L h^4/8 - C h^6/8; first and second derivative at v
    terms = [-m2 * v, L * v ** 3 / 2, -0.75 * c * v ** 5]
    check(abs(sum(terms)) <= tol * max(map(abs, terms)), lambda: '%s: v=%s is not a minimum of the potential' % (what, v))
    curv = [-m2, 1.5 * L * v ** 2, -15 / 4 * c * v ** 4]
    got = Mh2 * (1 - 2 * kin * v ** 2)
    check(abs(sum(curv) - got) <= tol * (max(map(abs, curv)) + abs(got)), lambda: '%s: m_h^2=%s, but the potential has curvature %s' % (what, Mh2, sum(curv)))


def body_higgs(c, ctx):
    s = smpar()
    C = cdict(c)
    v, Mh2 = c['v'], c['Mh'] ** 2
    kin = C['phiBox'].real - C['phiD'].real / 4
    ctx.nontrivial(C['phi'] != 0 or kin != 0)
    d = s.vMh2_to_m2Lambda(v, Mh2, C)
    check(set(d) >= {'m2', 'Lambda'}, lambda: 'keys %s' % sorted(d))
    m2, L = d['m2'], d['Lambda']
    potential_ok(v, Mh2, m2, L, C, 'parameters from vev and mass', 1e-10)
    big = max(abs(L), 3 * abs(C['phi'].real) * v ** 2)
    # the other stationary point is taken for a Higgs kinetic term of the wrong sign
    if 1 - 2 * kin * v ** 2 > 1e-3 and Mh2 * (1 - 2 * kin * v ** 2) > 1e-6 * big * v ** 2:
        e = s.m2Lambda_to_vMh2(m2, L, C)
        amp = big * v ** 2 / (Mh2 * (1 - 2 * kin * v ** 2))     # cancellations
        tol = min(1e-11 * (1 + amp) ** 2 * (1 + 1 / (1 - 2 * kin * v ** 2)), 1e-3)
        check(rel(e['v'], v) < tol, lambda: 'v=%s -> m2, Lambda -> v=%s' % (v, e['v']))
        check(rel(e['Mh2'], Mh2) < 10 * tol, lambda: 'Mh2=%s -> m2, Lambda -> %s' % (Mh2, e['Mh2']))
        ctx.label('inverted')


@st.composite
def potentials(draw):
    return {'m2': draw(st.one_of(signed(1.0, 1e6), st.floats(5000, 10000))), 'L': draw(st.one_of(signed(1e-3, 10), st.floats(0.1, 0.4))),
            'phi': draw(signed(1e-9, 1e-4)), 'phiBox': draw(signed(1e-10, 1e-4)), 'phiD': draw(signed(1e-10, 1e-4)),
            'complex': draw(st.booleans())}


def body_potential(c, ctx):
    s = smpar()
    C = cdict(c)
    m2, L, ph = c['m2'], c['L'], C['phi'].real
    kin = C['phiBox'].real - C['phiD'].real / 4
    # is there a stationary point with v^2 > 0, positive mass and positive curvature or kinetic term as required?
    if ph == 0:
        roots = [2 * m2 / L] if L else []
    else:
        disc = L ** 2 - 12 * ph * m2
        if abs(disc) < 1e-9 * L ** 2:
            return
        roots = [(L - math.sqrt(disc)) / (3 * ph)] if disc > 0 else []
    if any(abs(1 - 2 * kin * x) < 1e-9 for x in roots):
        return                                              # no kinetic term
    good = [x for x in roots if x > 0 and (L - 3 * ph * x) / (1 - 2 * kin * x) > 0]
    if L == 0:
        return
    ctx.label('solution' if good else 'no solution')
    try:
        e = s.m2Lambda_to_vMh2(m2, L, C)
    except ValueError:
        check(not good, lambda: 'ValueError although v^2=%s solves the equations' % good)
        return
    check(good, lambda: 'no physical solution, but v=%s, Mh2=%s was returned' % (e['v'], e['Mh2']))
    check(e['v'] > 0 and e['Mh2'] > 0, 'non-positive vev or mass')
    amp = 1 + 12 * abs(ph * m2) / L ** 2 + L ** 2 / max(abs(L ** 2 - 12 * ph * m2), 1e-300)
    potential_ok(e['v'], e['Mh2'], m2, L, C, 'vev and mass from parameters', 1e-10 * amp)
    d = s.vMh2_to_m2Lambda(e['v'], e['Mh2'], C)
    x = e['v'] ** 2
    w = 1e-10 * amp * (1 + abs(2 * kin * x)) * (1 + abs(1 / (1 - 2 * kin * x)))
    check(abs(d['Lambda'] - L) <= w * (abs(L) + 3 * abs(ph) * x), lambda: 'Lambda=%s -> v, Mh2 -> %s' % (L, d['Lambda']))
    check(abs(d['m2'] - m2) <= w * (abs(m2) + abs(L) * x + abs(ph) * x * x), lambda: 'm2=%s -> v, Mh2 -> %s' % (m2, d['m2']))


@st.composite
def bad_higgs(draw):
    c = draw(higgs())
    c['bad'] = draw(st.sampled_from(['v', 'Mh2', 'both']))
    c['val'] = draw(st.sampled_from([0.0, -1.0, -246.0, float('nan'), -1e-300]))
    return c


def body_bad(c, ctx):
    s = smpar()
    v, Mh2 = c['v'], c['Mh'] ** 2
    if c['bad'] in ('v', 'both'):
        v = c['val']
    if c['bad'] in ('Mh2', 'both'):
        Mh2 = c['val']
    try:
        d = s.vMh2_to_m2Lambda(v, Mh2, cdict(c))
    except ValueError:
        return
    raise Violation('v=%s, Mh2=%s is accepted: %s' % (v, Mh2, d))


@st.composite
def gaugecase(draw):
    return {'e': draw(st.floats(0.25, 0.4)), 'g': draw(st.floats(0.5, 0.8)), 'v': draw(st.one_of(st.just(246.22), st.floats(200, 300))),
            'phiWB': draw(signed(1e-14, 1e-4)), 'phiB': draw(signed(1e-12, 5e-6)), 'complex': draw(st.booleans())}


def body_gauge(c, ctx):
    s = smpar()
    f = complex if c['complex'] else float
    C = {'phiWB': f(c['phiWB']), 'phiB': f(c['phiB'])}
    ctx.nontrivial(c['phiWB'] != 0)
    e, g, v = c['e'], c['g'], c['v']
    eps = c['phiWB'] * v ** 2

    def charge(x):
        """electric charge from the kinetic mixing: eigenvalues of the propagator, own derivation to first order in eps"""
        th = math.atan2(x, g)
        return g * math.sin(th) * (1 - eps * math.sin(th) * math.cos(th))
    try:
        gp = s.get_gpbar(e, g, v, C)
    except ValueError:
        ctx.label('no solution')
        check(charge(3.0) < e, lambda: 'ValueError although the electric charge %s is reached below g\'=3 (%s)' % (e, charge(3.0)))
        return
    ctx.label('solution')
    x = gp / (1 - c['phiB'] * v ** 2)
    check(rel(charge(x.real), e) < 1e-9, lambda: 'the hypercharge coupling %s gives the electric charge %s instead of %s' % (gp, charge(x.real), e))
    check(abs(complex(gp).imag) == 0 and gp.real > 0, lambda: 'coupling %s' % gp)


def wcs(c):
    """all coefficients that matter; magnitudes in units of 1/v^2"""
    rng = np.random.default_rng(c['seed'])
    v2 = 246.22 ** 2
    C = {}
    for k in BOS:
        C[k] = (complex if c['complex'] else float)(rng.uniform(-1, 1) * c['size'] / v2 if k in c['ops'] else 0)
    for k in ('uphi', 'dphi', 'ephi'):
        C[k] = (rng.normal(size=(3, 3)) + 1j * rng.normal(size=(3, 3))) * c['size'] / v2 if k in c['ops'] else np.zeros((3, 3), complex)
    C['llphiphi'] = np.zeros((3, 3), complex)
    if 'llphiphi' in c['ops']:
        a = (rng.normal(size=(3, 3)) + 1j * rng.normal(size=(3, 3))) * 1e-15
        C['llphiphi'] = a + a.T
    for k in c.get('extra', ()):        # coefficients without influence
        C[k] = complex(rng.normal() * 1e-6)
    return C


@st.composite
def observables(draw):
    return {'seed': draw(gen.seeds()), 'ops': draw(st.one_of(st.just(list(BOS + ('uphi', 'dphi', 'ephi', 'llphiphi'))), st.lists(
        st.sampled_from(BOS + ('uphi', 'dphi', 'ephi', 'llphiphi')), unique=True))), 'size': draw(gen.logfloat(1e-4, 0.1)),
        'complex': draw(st.booleans()), 'basis': draw(st.sampled_from(['Warsaw', 'Warsaw up'])), 'scale': draw(gen.logfloat(80, 1e6)),
        'extra': draw(st.lists(st.sampled_from(NF), max_size=2, unique=True)),
        'rot': draw(st.lists(st.sampled_from('qudle'), unique=True)), 'rseed': draw(gen.seeds()),
        'par': draw(st.one_of(st.just({}), physics.params(keys=('GF', 'alpha_e', 'alpha_s', 'm_W', 'm_h') + CKM, none=False)))}


class patched:
    """temporarily other input values"""

    def __init__(self, s, d):
        self.p, self.d = s.p, d

    def __enter__(self):
        self.old = dict(self.p)
        self.p.update(self.d)

    def __exit__(self, *a):
        self.p.clear()
        self.p.update(self.old)


def derived(C):
    """observables from the Lagrangian parameters, own derivation"""
    o = {}
    L, m2, ph = C['Lambda'].real, C['m2'].real, C['phi'].real
    # minimum by Newton iteration from the approximate vev
    v = 246.22
    for _ in range(100):
        f = -m2 + L * v ** 2 / 2 - 0.75 * ph * v ** 4
        v -= f / (L * v - 3 * ph * v ** 3)
    v2 = v * v
    kin = C['phiBox'].real - C['phiD'].real / 4
    o['GF'] = 1 / (math.sqrt(2) * v2)
    o['m_h'] = math.sqrt((L * v2 - 3 * ph * v2 ** 2) / (1 - 2 * kin * v2))
    gb, gpb, gsb = (complex(C[a]).real / (1 - C[b].real * v2) for a, b in (('g', 'phiW'), ('gp', 'phiB'), ('gs', 'phiG')))
    o['alpha_s'] = gsb ** 2 / (4 * math.pi)
    o['m_W'] = gb * v / 2
    th = math.atan2(gpb, gb)
    eps = C['phiWB'].real * v2
    o['alpha_e'] = (gb * math.sin(th) * (1 - eps * math.sin(th) * math.cos(th))) ** 2 / (4 * math.pi)
    o['m_Z'] = math.hypot(gb, gpb) / 2 * v * (1 + eps * math.sin(th) * math.cos(th)) * (1 + C['phiD'].real * v2 / 4)
    lft = {}
    for f, ns in (('e', ('m_e', 'm_mu', 'm_tau')), ('u', ('m_u', 'm_c', 'm_t')), ('d', ('m_d', 'm_s', 'm_b'))):
        M = v / math.sqrt(2) * (C['G' + f] - C[f + 'phi'] * v2 / 2)
        w, U = np.linalg.eigh(M @ M.conj().T)
        sv = np.sort(np.linalg.svd(M, compute_uv=False))
        o.update(zip(ns, sv))
        lft[f] = U
    K = lft['u'].conj().T @ lft['d']
    o['Vus'], o['Vub'], o['Vcb'] = abs(K[0, 1]), abs(K[0, 2]), abs(K[1, 2])
    o['gamma'] = float(np.angle(-K[0, 0] * K[0, 2].conj() / (K[1, 0] * K[1, 2].conj())))
    return o


def compare(got, exp, what, tol, keys=None):
    for k in keys if keys is not None else exp:
        check(k in got, lambda: '%s: %s is missing' % (what, k))
        x = got[k]
        check(not isinstance(x, complex) and math.isfinite(x), lambda: '%s: %s=%r' % (what, k, x))
        t = tol.get(k, tol['']) if isinstance(tol, dict) else tol
        check(rel(x, exp[k]) <= t, lambda: '%s: %s is %s, expected %s' % (what, k, x, exp[k]))


# rounding: the smallest singular values and mixing angles lose accuracy to the largest mass and the size of the coefficients
PREC = {'': 1e-9, 'm_u': 1e-7, 'm_d': 1e-8, 'm_e': 1e-8, 'gamma': 1e-6, 'Vub': 1e-6, 'Vcb': 1e-6, 'Vus': 1e-6,
        'GF': 1e-6, 'm_h': 1e-6, 'm_W': 1e-6, 'm_Z': 1e-6, 'alpha_e': 1e-6, 'alpha_s': 1e-6}
PREC.update({k: 1e-6 for k in MASSES})


def body_observables(c, ctx):
    s = smpar()
    C = wcs(c)
    keep = {k: np.array(v) for k, v in C.items()}
    ctx.nontrivial(len(c['ops']) > 0)
    with patched(s, c['par']):
        exp = dict(s.p)
        eps = C['phiWB'].real * 246.22 ** 2
        par = s.smeftpar(c['scale'], C, c['basis'])
        for k in keep:
            check(np.array_equal(keep[k], C[k]), lambda: 'the coefficient %s was modified' % k)
        check(set(par) >= {'g', 'gp', 'gs', 'Lambda', 'm2', 'Gu', 'Gd', 'Ge'}, lambda: 'parameters %s' % sorted(par))
        full = dict(C, **par)
        got = s.smpar(full)
    exp.pop('m_Z')
    keys = [k for k in exp if k in ('GF', 'alpha_e', 'alpha_s', 'm_W', 'm_h') + CKM + MASSES]
    compare(got, exp, 'observables from the parameters (%s)' % c['basis'], PREC, keys)
    own = derived(full)
    compare(own, exp, 'own calculation of the observables (%s)' % c['basis'], PREC, keys)
    compare(got, own, 'observables from the parameters', PREC)
    # basis: the mass matrices are the ones of the requested basis
    v2 = 1 / math.sqrt(2) / exp['GF']
    M = {f: math.sqrt(v2 / 2) * (par['G' + f] - C[f + 'phi'] * v2 / 2) for f in 'eud'}
    diag = ('e', 'd') if c['basis'] == 'Warsaw' else ('e', 'u')
    for f in diag:
        off = M[f] - np.diag(np.diag(M[f]))
        check(np.max(np.abs(off)) < 1e-9 * np.max(np.abs(M[f])), lambda: 'mass matrix of %s is not diagonal in the basis %s' % (f, c['basis']))
        check(np.all(np.diag(M[f]).real > 0) and np.max(np.abs(np.diag(M[f]).imag)) < 1e-9 * np.max(np.abs(M[f])), 'diagonal masses not positive')
    V = physics.ckm(exp)
    f, W = ('u', V.conj().T) if c['basis'] == 'Warsaw' else ('d', V)
    ms = [exp[k] for k in (('m_u', 'm_c', 'm_t') if f == 'u' else ('m_d', 'm_s', 'm_b'))]
    check(np.max(np.abs(M[f] - W @ np.diag(ms))) < 1e-8 * ms[-1], lambda: 'mass matrix of %s does not contain the CKM matrix in the standard convention' % f)
    # observables do not depend on the flavour basis
    if c['rot']:
        ctx.label('rotated')
        rng = np.random.default_rng(c['rseed'])
        U = {k: T.unitary(rng) if k in c['rot'] else np.eye(3) for k in 'qudle'}
        h = lambda a, m, b: U[a].conj().T @ m @ U[b]                     # noqa: E731
        R = dict(full)
        for k, a, b in (('Gu', 'q', 'u'), ('Gd', 'q', 'd'), ('Ge', 'l', 'e'), ('uphi', 'q', 'u'), ('dphi', 'q', 'd'), ('ephi', 'l', 'e')):
            R[k] = h(a, full[k], b)
        R['llphiphi'] = U['l'].T @ full['llphiphi'] @ U['l']
        compare(s.smpar(R), got, 'observables after a flavour rotation', dict(PREC, m_u=1e-5, m_d=1e-5, m_e=1e-5, gamma=1e-5))


@st.composite
def bad_basis(draw):
    return {'basis': draw(st.sampled_from(['warsaw', 'JMS', '', 'Warsaw mass', 'Higgs-Warsaw up', 'Warsaw  up', 'up'])), 'seed': 1, 'ops': [], 'size': 1e-3,
            'complex': True}


def body_badbasis(c, ctx):
    s = smpar()
    try:
        s.smeftpar(100.0, wcs(c), c['basis'])
    except ValueError:
        return
    raise Violation('the basis %r is accepted' % c['basis'])


# automatic initialisation --------------------------------------------------------------------------------------------------
def families():
    import bases
    fam = {}
    for n in bases.names('SMEFT', 'Warsaw'):
        fam.setdefault(n.split('_')[0], []).append(n)
    return fam


# coefficients that do not affect the Standard Model parameters directly, but those they mix into (by about 10% at 500 GeV; half of it is used)
MIXING = {'lequ1_2233': 2.2e-8, 'lequ1_3333': 3.7e-7, 'lequ1_1133': 1.1e-10, 'qu1_2332': 2e-7, 'qu8_2332': 1.4e-7, 'quqd1_3333': 4e-7, 'phi': 1.3e-6, 'uphi_33': 2e-6}


@st.composite
def init(draw):
    kind = draw(st.sampled_from(['sm', 'bosonic', 'lfv', 'yukawa', 'tiny', 'mixing', 'mixing']))
    fam = families()
    if kind == 'mixing':
        return {'kind': kind, 'scale': draw(st.floats(350.0, 600.0)),
                'vals': {k: [MIXING[k] * draw(st.sampled_from([0.5, -0.5, 0.45])), 0.0]
                         for k in draw(st.lists(st.sampled_from(sorted(MIXING)), min_size=1, max_size=1))}}
    hi = {'sm': 1e16, 'tiny': 1e10, 'bosonic': 1e4, 'lfv': 3e3, 'yukawa': 3e3}[kind]
    scale = draw(gen.logfloat(95, hi, (1000.0, 91.1876)))
    vals = {}
    if kind == 'bosonic':
        for k in draw(st.lists(st.sampled_from(BOS + NF + ('phil1', 'phil3', 'phiq1', 'phiq3', 'phiu', 'phid', 'phie')), min_size=1, max_size=3, unique=True)):
            n = draw(st.sampled_from(fam[k]))
            vals[n] = draw(gen.coeff(n.split('_')[0] in BOS + NF or n[-1] == n[-2], -8))
    elif kind == 'lfv':
        for _ in range(draw(st.integers(1, 2))):
            n = 'ephi_' + draw(st.sampled_from(['12', '13', '23', '21', '31', '32']))
            m = {'12': 1e-8, '21': 1e-9, '13': 1e-7, '23': 1e-7, '31': 1e-9, '32': 1e-8}[n[-2:]]
            if 'ephi_' + n[:-3:-1] in vals:        # M_12 M_21 / m_mu >> m_e: the electron mass would be fine-tuned
                continue
            vals[n] = [m * draw(st.sampled_from([0.5, 1.0, 0.0, -0.7])), m * draw(st.sampled_from([0.3, 1.0, 0.0, -0.7]))]
    elif kind == 'yukawa':
        for _ in range(draw(st.integers(1, 2))):
            f = draw(st.sampled_from('ud'))
            n = f + 'phi_' + draw(st.sampled_from(['12', '13', '23', '22', '33']))
            m = {'12': 2e-9, '22': 1e-8, '13': 3e-8, '23': 1e-7, '33': 1e-7}[n[-2:]]      # mixing by at most 0.2
            vals[n] = [m * draw(st.sampled_from([0.5, 1.0, 0.0, -0.7])), m * draw(st.sampled_from([0.3, 1.0, 0.0, -0.7]))]
    elif kind == 'tiny':
        for k in draw(st.lists(st.sampled_from(sorted(fam)), min_size=1, max_size=6, unique=True)):
            n = draw(st.sampled_from(fam[k]))
            if k != 'llphiphi':
                vals[n] = [draw(st.sampled_from([1e-12, -1e-12])), 0.0]
    return {'kind': kind, 'scale': scale, 'vals': vals}


def body_init(c, ctx):
    s = smpar()
    import wilson
    from wilson import wcxf
    from wilson.run.smeft import SMEFT
    wc = gen.make_wc(wcxf, 'SMEFT', 'Warsaw', c['scale'], {k: complex(*v) for k, v in c['vals'].items()})
    ctx.label(c['kind'])
    ctx.nontrivial(c['scale'] != 91.1876)
    sm = SMEFT(wc)
    got = sm.get_smpar()
    exp = {k: v for k, v in s.p.items() if k != 'm_Z'}
    # coefficients are kept constant while the couplings are determined: errors are of the order of their change
    t = math.log(c['scale'] / 91.1876)
    tol = {'sm': 0.01, 'tiny': 0.02, 'bosonic': 0.01, 'lfv': 0.04 * (1 + t), 'yukawa': 0.04 * (1 + t), 'mixing': 0.02}[c['kind']]
    if c['kind'] == 'mixing':
        exp = {k: v for k, v in exp.items() if k[0] == 'm' or k == 'GF'}
    if c['kind'] == 'yukawa':           # small mixing angles would need a better estimate
        exp = {k: v for k, v in exp.items() if k not in CKM}
    compare(got, exp, 'Standard Model inputs at the electroweak scale after initialisation at %g GeV' % c['scale'], tol)
    zero = complex(0)
    check(rel(got['m_Z'], s.p['m_Z']) < tol + 0.01, lambda: 'm_Z=%s' % got['m_Z'])
    for k in ('g', 'gp', 'gs', 'Lambda', 'm2'):
        check(abs(complex(sm.C_in[k]).imag) <= 1e-9 * abs(sm.C_in[k]), lambda: 'coupling %s=%s is not real' % (k, sm.C_in[k] + zero))
    if c['scale'] < 2000 and c['kind'] in ('sm', 'bosonic', 'tiny'):
        compare(sm.get_smpar(accuracy='leadinglog'), exp, 'the same with leading logarithms', 0.15)
    # another scale than the Z mass
    from wilson.run.smeft import rge
    sc = (75.0, 160.0, 250.0)[len(c['vals']) % 3]
    acc = 'leadinglog' if c['scale'] > 1500 or len(c['vals']) % 2 else 'integrate'
    f = rge.smeft_evolve if acc == 'integrate' else rge.smeft_evolve_leadinglog
    try:
        own = s.smpar(f(sm.C_in, c['scale'], sc))
    except ValueError:                                             # (far away, the leading logarithm may have no electroweak minimum)
        return
    for k, v in sm.get_smpar(accuracy=acc, scale_sm=sc).items():
        check(abs(v - own[k]) <= 1e-6 * abs(own[k]), lambda: '%s at %g GeV (%s) is %s, running the couplings there gives %s' % (k, sc, acc, v, own[k]))


@st.composite
def precise(draw):
    return {'scale': draw(st.floats(300.0, 1500.0)),
            'vals': {k: [draw(st.sampled_from([1, -1])) * draw(gen.logfloat(5e-8, 1e-6, (1e-6,))), 0.0]
                     for k in draw(st.lists(st.sampled_from(['phiWB', 'phiB', 'phiW', 'uB_33', 'uW_33']), min_size=1, max_size=2, unique=True))}}


def body_precise(c, ctx):
    """the running of the coefficients between the input and the electroweak scale is taken into account: what remains is of second order"""
    s = smpar()
    from wilson import wcxf
    from wilson.run.smeft import SMEFT
    sm = SMEFT(gen.make_wc(wcxf, 'SMEFT', 'Warsaw', c['scale'], {k: complex(*v) for k, v in c['vals'].items()}))
    got = sm.get_smpar()['alpha_e']
    S, L = sum(abs(v[0]) for v in c['vals'].values()) * 1e6, math.log(c['scale'] / 91.1876)
    ctx.nontrivial(S > 0.2)
    check(rel(got, s.p['alpha_e']) <= 3.5e-4 * S * L ** 2 + 3e-5,
          lambda: 'alpha_e=%s at the electroweak scale after initialisation at %g GeV instead of %s' % (got, c['scale'], s.p['alpha_e']))


def body_accuracy(c, ctx):
    from wilson import wcxf
    from wilson.run.smeft import SMEFT
    sm = SMEFT(gen.make_wc(wcxf, 'SMEFT', 'Warsaw', 1000.0, {}))
    try:
        sm.get_smpar(accuracy=c['accuracy'])
    except ValueError:
        return
    raise Violation('accuracy=%r is accepted' % c['accuracy'])


SUBS = [
    Sub('higgs', higgs, body_higgs, 1000, 20000, rule='a coefficient contributes',
        examples=[{'v': 246.22, 'Mh': 125.0, 'phi': p, 'phiBox': b, 'phiD': d, 'complex': True, 'direct': True}
                  for p in (0.0, 1e-6, -1e-6, 1e-8, -1e-5, 1e-15) for b, d in ((0, 0), (1e-6, 0), (0, 1e-6), (-1e-6, 2e-6))]),
    Sub('potential', potentials, body_potential, 1000, 40000, rule='potential with its own classification of solutions'),
    Sub('positive', bad_higgs, body_bad, 60, 400, rule='always'),
    Sub('gauge', gaugecase, body_gauge, 1000, 20000, rule='the coefficient that mixes the gauge bosons is non-zero',
        examples=[{'e': 0.3134, 'g': 0.65, 'v': 246.22, 'phiWB': p, 'phiB': b, 'complex': x} for p in (0.0, 1e-6, -1e-6, 1e-5, 1e-4, 1e-3)
                  for b in (0.0, 1e-6) for x in (True, False)]),
    Sub('observables', observables, body_observables, 700, 10000, rule='at least one coefficient is non-zero'),
    Sub('basis', bad_basis, body_badbasis, 7, 7, rule='always'),
    Sub('precise', precise, body_precise, 25, 1000, rule='coefficients that change the couplings by more than 1e-3',
        examples=[{'scale': 1000.0, 'vals': {k: [x, 0.0]}} for k in ('phiB', 'phiWB', 'uB_33') for x in (1e-6, -5e-7)]),
    Sub('init', init, body_init, 40, 1500, rule='the input scale differs from the electroweak scale',
        examples=[{'kind': 'sm', 'scale': x, 'vals': {}} for x in (200.0, 1e4, 1e9, 1e13, 1e16)] +
                 [{'kind': 'lfv', 'scale': 1000.0, 'vals': {'ephi_12': [0.0, 1e-8]}}]),
    Sub('accuracy', lambda: st.fixed_dictionaries({'accuracy': st.sampled_from(['', 'LL', None, 'Integrate', 'leading log', 1, True])}), body_accuracy,
        7, 7, rule='always'),
]
