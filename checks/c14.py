"""C14: SMEFT evolution solves the renormalisation group equation."""
import copy
import math

import numpy as np
from hypothesis import strategies as st

from harness import Sub, check, HarnessError, Violation
import bases
import gen
import physics
import tensors as T

NEEDS_REF = False
ASSUMPTIONS = ['the beta functions themselves are the subject of C13; here they are integrated independently (own Runge-Kutta steps with the '
               'beta functions projected on the index symmetries of the operators)']
SM0 = ('g', 'gp', 'gs', 'Lambda', 'm2')
SMY = ('Gu', 'Gd', 'Ge')
BOS = ('G', 'Gtilde', 'W', 'Wtilde', 'phi', 'phiBox', 'phiD', 'phiG', 'phiB', 'phiW', 'phiWB', 'phiGtilde', 'phiBtilde', 'phiWtilde', 'phiWtildeB')
FERM = tuple(T.SMEFT_FIELDS)
LOOP = 16 * math.pi ** 2
YUK = {'Gu': ('q', 'u'), 'Gd': ('q', 'd'), 'Ge': ('l', 'e')}


def api():
    import wilson                                                   # noqa: F401
    from wilson.run.smeft import rge, SMEFT
    for f in ('smeft_evolve', 'smeft_evolve_leadinglog'):
        if not hasattr(rge, f):
            raise HarnessError('rge.%s not found' % f)
    return rge, SMEFT


def ckeys():
    import wilson                                                   # noqa: F401
    from wilson.util import smeftutil
    return list(smeftutil.C_keys)


def sm_point(rng, rot, mu='low'):
    """realistic Standard Model parameters, optionally in a random flavour basis"""
    d = {'g': 0.65 + 0j, 'gp': 0.36 + 0j, 'gs': 1.1 + 0j, 'Lambda': 0.25 + 0j, 'm2': 8000 + 0j}
    V = physics.ckm(physics.DEFAULT)
    yu, yd, ye = np.diag([7e-6, 3.6e-3, 0.95]), np.diag([1.5e-5, 3e-4, 0.016]), np.diag([3e-6, 6e-4, 0.0102])
    d['Gu'], d['Gd'], d['Ge'] = V.conj().T @ yu + 0j, yd + 0j, ye + 0j
    U = {f: T.unitary(rng) if rot else np.eye(3) for f in 'qudle'}
    for k, (a, b) in YUK.items():
        d[k] = U[a].conj().T @ d[k] @ U[b]
    return d


def point(c):
    rng = np.random.default_rng(c['seed'])
    C = sm_point(rng, c['rot'])
    if abs(math.log(c['a'] / 91.1876)) > 0.5:
        C = integrate_sm(C, 91.1876, c['a'])
    s = 10.0 ** c['exp']
    ops = c['ops'] if c['ops'] is not None else BOS + FERM
    for k in BOS:
        C[k] = complex(rng.normal() * s) if k in ops else 0j
    for k in FERM:
        t = T.rand_symmetric(np.random.default_rng([c['seed'], FERM.index(k)]), T.SMEFT_CLASS[k]) * s
        if k == 'llphiphi':
            t = t * 1e-3
        C[k] = t + 0j if k in ops else np.zeros(np.shape(t), complex)
    return {k: C[k] for k in ckeys()}


def scales(draw, lo=100, hi=1e16, near=False):
    a = draw(gen.logfloat(lo, hi, (91.1876, 1000.0, 1e4)))
    if near:
        return a, a * math.exp(draw(st.sampled_from([1e-3, -1e-3, 1e-2])))
    b = draw(gen.logfloat(lo, hi, (91.1876, 1000.0, 1e4)))
    if abs(math.log(b / a)) < 0.3:
        b = a * (3.0 if a < 1e10 else 1 / 3.0)
    return a, b


@st.composite
def points(draw, hi=1e16):
    ops = draw(st.one_of(st.none(), st.lists(st.sampled_from(BOS + FERM), min_size=1, max_size=4, unique=True)))
    a, b = scales(draw, hi=hi)
    return {'seed': draw(gen.seeds()), 'ops': ops, 'rot': draw(st.booleans()), 'exp': draw(st.sampled_from([-8, -9, -7])), 'a': a, 'b': b}


def project(b):
    """index symmetries of the operators"""
    b = dict(b)
    b['ee'] = (b['ee'] + np.swapaxes(b['ee'], 0, 2)) / 2
    t = lambda p: np.einsum(p + 't->prst', b['qqql'])                   # noqa: E731
    b['qqql'] = (4 * t('prs') - t('psr') - t('rps') + t('rsp') + t('spr') + 2 * t('srp')) / 6
    return b


def beta(C, newphys=True):
    import wilson.run.smeft.beta as B
    return project(B.beta({k: C[k] for k in ckeys()}, newphys=newphys))


def integrate(C, a, b, newphys=True, h=0.6):
    """own fourth-order Runge-Kutta steps"""
    L = math.log(b / a)
    n = max(4, int(math.ceil(abs(L) / h)))
    dt = L / n / LOOP
    ks = list(C)
    add = lambda X, f, D: {k: X[k] + f * D[k] for k in ks}               # noqa: E731
    X = dict(C)
    for _ in range(n):
        k1 = beta(X, newphys)
        k2 = beta(add(X, dt / 2, k1), newphys)
        k3 = beta(add(X, dt / 2, k2), newphys)
        k4 = beta(add(X, dt, k3), newphys)
        X = {k: X[k] + dt / 6 * (k1[k] + 2 * k2[k] + 2 * k3[k] + k4[k]) for k in ks}
    return X


def integrate_sm(C, a, b):
    D = dict(C)
    for k in ckeys():
        if k not in D:
            D[k] = 0j if k in BOS else np.zeros(np.shape(T.rand_symmetric(np.random.default_rng(0), T.SMEFT_CLASS[k])), complex)
    D = integrate(D, a, b, False, h=1.5)
    return {k: D[k] for k in C}


def size(X, k, S):
    """typical size of a quantity: its own, or for coefficients that are generated only the size of all coefficients"""
    m = float(np.max(np.abs(X[k])))
    return m if k in SM0 + SMY else max(m, 1e-4 * S if k != 'llphiphi' else m)


def close(got, exp, what, tol, smtol=None, atol=1e-300):
    S = max(float(np.max(np.abs(exp[k]))) for k in BOS + FERM if k != 'llphiphi')
    check(set(got) >= set(exp), lambda: '%s: keys missing: %s' % (what, sorted(set(exp) - set(got))))
    for k in exp:
        g, e = np.asarray(got[k]), np.asarray(exp[k])
        check(g.shape == e.shape, lambda: '%s: shape of %s' % (what, k))
        d = np.abs(g - e)
        t = (smtol if smtol is not None and k in SM0 + SMY else tol) * size(exp, k, S)
        check(np.max(d) <= t + atol, lambda: '%s: %s%s is %s, expected %s' % (what, k, list(map(int, np.unravel_index(np.argmax(d), d.shape))),
                                                                           np.ravel(g)[np.argmax(d)], np.ravel(e)[np.argmax(d)]))


def evolve(C, a, b, **kw):
    rge, _ = api()
    D = {k: (v.copy() if np.ndim(v) else v) for k, v in C.items()}
    out = rge.smeft_evolve(D, a, b, **kw)
    for k in C:
        check(np.array_equal(D[k], C[k]), lambda: 'the input %s was modified' % k)
    return out


def leadinglog(C, a, b, **kw):
    rge, _ = api()
    D = {k: (v.copy() if np.ndim(v) else v) for k, v in C.items()}
    out = rge.smeft_evolve_leadinglog(D, a, b, **kw)
    for k in C:
        check(np.array_equal(D[k], C[k]), lambda: 'the input %s was modified' % k)
    return out


STRICT = {'rtol': 1e-8, 'atol': 1e-14}


def body_integrate(c, ctx):
    C = point(c)
    kw = dict(c['kw'])
    newphys = c['newphys']
    L = abs(math.log(c['b'] / c['a']))
    ctx.nontrivial(L > 0.5)
    ctx.label('options %s' % sorted(kw))
    if newphys is not None:
        kw['newphys'] = newphys
    exp = integrate(C, c['a'], c['b'], newphys is not False)
    got = evolve(C, c['a'], c['b'], **kw)
    r = kw.get('rtol')
    # requested precision of single steps, accumulated (the error norm is an average over all components, so that
    # with the default options a single component may be less precise than all of them together)
    if r is None:
        S = max(float(np.max(np.abs(exp[k]))) for k in BOS + FERM if k != 'llphiphi')
        rms = math.sqrt(np.mean([float(np.mean(np.abs((got[k] - exp[k]) / max(size(exp, k, S), 1e-100)) ** 2)) for k in exp]))
        check(rms <= 0.02, lambda: 'solution from %g to %g GeV: mean relative deviation %g' % (c['a'], c['b'], rms))
    tol = 1e-5 if r is not None else 0.2
    close(got, exp, 'solution from %g to %g GeV' % (c['a'], c['b']), tol, atol=1e-12 if r is not None else 1e-300)
    if newphys is False:
        for k in BOS + FERM:
            check(np.array_equal(got[k], C[k]), lambda: '%s runs although new physics is switched off' % k)


@st.composite
def integrations(draw):
    c = draw(points())
    c['kw'] = draw(st.sampled_from([{}, {}, STRICT, dict(STRICT, method='DOP853'), {'rtol': 1e-7, 'atol': 1e-13}]))
    c['newphys'] = draw(st.sampled_from([None, None, True, False]))
    if c['kw'] and max(c['a'], c['b']) > 1e8:        # cost
        c['a'], c['b'] = min(c['a'], 1e8), min(c['b'], 3e7)
    return c


def body_ll(c, ctx):
    C = point(c)
    kw = {} if c['newphys'] is None else {'newphys': c['newphys']}
    b = beta(C, c['newphys'] is not False)
    L = math.log(c['b'] / c['a']) / LOOP
    got = leadinglog(C, c['a'], c['b'], **kw)
    ctx.nontrivial(c['newphys'] is not False)
    close(got, {k: C[k] + L * b[k] for k in C}, 'leading logarithm', 1e-11)
    # exactly linear in the logarithm
    half = leadinglog(C, c['a'], math.sqrt(c['a'] * c['b']), **kw)
    close({k: C[k] + 2 * (half[k] - C[k]) for k in C}, got, 'leading logarithm over half the distance', 1e-11)
    same = leadinglog(C, c['a'], c['a'], **kw)
    for k in C:
        check(np.array_equal(same[k], C[k]), lambda: 'leading logarithm to the same scale changes %s' % k)


@st.composite
def llpoints(draw):
    c = draw(points())
    c['newphys'] = draw(st.sampled_from([None, True, False]))
    return c


def body_small(c, ctx):
    """to the same scale nothing happens; for small intervals the solution is the leading logarithm"""
    C = point(c)
    same = evolve(C, c['a'], c['a'])
    for k in C:
        check(np.max(np.abs(same[k] - C[k])) == 0, lambda: 'evolution to the same scale changes %s' % k)
    e = c['eps']
    b = c['a'] * math.exp(e)
    x, y = evolve(C, c['a'], b), leadinglog(C, c['a'], b)
    ctx.nontrivial(True)
    S = max(float(np.max(np.abs(C[k]))) for k in BOS + FERM)
    for k in C:
        if k == 'llphiphi':
            continue
        d = float(np.max(np.abs(x[k] - y[k])))
        change = float(np.max(np.abs(y[k] - C[k])))
        ref = max(change, abs(e) / LOOP * size(C, k, S))
        check(d <= 3 * abs(e) * ref + 1e-12 * float(np.max(np.abs(C[k]))) + 3e3 * (e / LOOP) ** 2 * S, lambda: 'evolution over a logarithm of %g differs from the leading logarithm for %s: %s instead of %s' % (
            e, k, np.max(np.abs(x[k] - C[k])), change))


@st.composite
def smalls(draw):
    c = draw(points(hi=1e10))
    c['eps'] = draw(st.sampled_from([1e-2, -1e-2, 1e-3, 0.05, -0.05, 1e-4, -5e-4, 2e-6]))
    return c


def body_compose(c, ctx):
    C = point(c)
    a, b = c['a'], c['b']
    m = math.sqrt(a * b) * c['off']
    ctx.nontrivial(abs(math.log(b / a)) > 0.5)
    direct = evolve(C, a, b, **STRICT)
    there = evolve(C, a, m, **STRICT)
    close(evolve(there, m, b, **STRICT), direct, 'through the intermediate scale %g' % m, 1e-5, atol=1e-12)
    back = evolve(direct, b, a, **STRICT)
    close(back, C, 'to %g and back' % b, 2e-5, atol=1e-12)


@st.composite
def composed(draw):
    c = draw(points(hi=1e6))
    c['off'] = draw(st.sampled_from([1.0, 2.0, 0.3, 30.0]))
    return c


# user interface ---------------------------------------------------------------------------------------------------------
def make(c):
    from wilson import wcxf
    vals = {k: complex(*v) for k, v in c['vals'].items()}
    return gen.make_wc(wcxf, 'SMEFT', 'Warsaw', c['a'], vals)


_fam = {}


@st.composite
def wcs(draw, hi=1e6, llphiphi=True, small=False):
    if not _fam:
        for n in bases.names('SMEFT', 'Warsaw'):
            _fam.setdefault(n.split('_')[0], []).append(n)
    names = bases.names('SMEFT', 'Warsaw')
    vals = {}
    for f in draw(st.lists(st.sampled_from(sorted(_fam)), min_size=1, max_size=6)):
        n = draw(st.sampled_from(_fam[f]))
        e = -15 if f == 'llphiphi' else (-11 if f in ('ephi', 'dphi', 'uphi', 'lequ1', 'quqd1', 'quqd8', 'le', 'ledq', 'eB', 'eW') else -8)
        if small and f in ('qu1', 'qu8', 'qd1', 'qd8', 'uG', 'uW', 'uB', 'dG', 'dW', 'dB', 'lequ3', 'phiud'):
            e = -11                                       # mix into the Yukawa couplings
        if f == 'llphiphi' and not llphiphi:
            continue
        vals[n] = draw(gen.coeff(names[n], e))
    if draw(st.booleans()):
        for i in ('11', '12', '13', '22', '23', '33'):      # generic neutrino mixing
            if llphiphi:
                vals['llphiphi_' + i] = [draw(st.sampled_from([1e-15, -2e-15, 5e-16])), draw(st.sampled_from([1e-15, -3e-15, 4e-16]))]
    a, b = scales(draw, hi=hi)
    return {'vals': vals, 'a': a, 'b': b, 'acc': draw(st.sampled_from(['leadinglog', 'leadinglog', 'integrate'])), 'seed': draw(gen.seeds()),
            'kw': draw(st.sampled_from([{}, {'rtol': 1e-6}, {'rtol': 1e-5, 'atol': 1e-13}, {'method': 'DOP853'}]))}


def default_basis(C, tol=1e-9):
    """own rotation to the basis with diagonal mass matrices of down quarks and charged leptons and standard CKM matrix.
    Lepton phases are only fixed for massless neutrinos."""
    v = 246.22
    mass = lambda f: C['G' + f] - C[f + 'phi'] * v ** 2 / 2               # noqa: E731

    def svd(M):
        L, s, R = np.linalg.svd(M)
        o = np.argsort(s)
        return L[:, o], s[o], R.conj().T[:, o]
    Lu, mu, Ru = svd(mass('u'))
    Ld, md, Rd = svd(mass('d'))
    Le, me, Re = svd(mass('e'))
    V = Lu.conj().T @ Ld
    # phases: V_ud, V_us, V_cb, V_tb real positive and the unitarity-triangle condition
    std = physics.ckm(parameters(V))                     # overall phase: see below
    # V_ij = e^{i a_i} std_ij e^{-i b_j}
    M = V * std.conj()
    b = -np.angle(M[0, :])
    a = np.array([np.angle(M[i, :] * np.exp(1j * b)) for i in range(3)])
    j = [0, 1, 2]
    aa = np.array([a[i, 1] if i == 1 else a[i, 2] for i in j])
    aa[0] = 0.0
    Ld = Ld * np.exp(-1j * -b) if False else Ld * np.exp(1j * b)
    Rd = Rd * np.exp(1j * b)
    Lu, Ru = Lu * np.exp(1j * aa), Ru * np.exp(1j * aa)
    W = Lu.conj().T @ Ld
    if np.max(np.abs(W - std)) > 1e-6:
        raise HarnessError('own CKM phase convention failed: %s' % np.max(np.abs(W - std)))
    ph = np.exp(-1j * np.angle(np.diag(Le)))
    q = np.exp(-1j * np.angle(Ld[2, 2]))                 # baryon number: Ld[2, 2] is positive
    Lu, Ru, Ld, Rd = Lu * q, Ru * q, Ld * q, Rd * q
    return {'q': Ld, 'u': Ru, 'd': Rd, 'l': Le * ph, 'e': Re * ph}


def parameters(V):
    p = {'Vus': abs(V[0, 1]), 'Vub': abs(V[0, 2]), 'Vcb': abs(V[1, 2])}
    p['gamma'] = float(np.angle(-V[0, 0] * V[0, 2].conj() / (V[1, 0] * V[1, 2].conj())))
    return p


def rotate(C, U):
    out = dict(C)
    out.update(T.rotate({k: C[k] for k in FERM}, U))
    for k, (a, b) in YUK.items():
        out[k] = U[a].conj().T @ C[k] @ U[b]
    return out


def result(wc, c):
    """the dictionary of a result, checked for formal validity"""
    check((wc.eft, wc.basis) == ('SMEFT', 'Warsaw'), lambda: 'result in %s, %s' % (wc.eft, wc.basis))
    check(wc.scale == c['b'], lambda: 'result at the scale %s instead of %s' % (wc.scale, c['b']))
    wc.validate()
    names = bases.names('SMEFT', 'Warsaw')
    big = max([abs(v) for v in wc.dict.values()] + [1e-300])
    for k, v in wc.dict.items():
        check(k in names, lambda: 'unknown coefficient %s' % k)
        check(math.isfinite(abs(v)), lambda: '%s=%s' % (k, v))
        if names[k]:
            check(abs(complex(v).imag) <= 1e-10 * big, lambda: 'the real coefficient %s is %s' % (k, v))
    return {k: complex(v) for k, v in wc.dict.items()}


def body_api(c, ctx):
    rge, SMEFT = api()
    wc = make(c)
    before = copy.deepcopy((wc.eft, wc.basis, wc.scale, wc.values))
    sm = SMEFT(wc)
    C0 = {k: np.array(v) for k, v in sm.C_in.items()}
    # the coefficients are taken over exactly, with all their index symmetries
    full = T.expand_all('SMEFT', {k: complex(*v) for k, v in c['vals'].items()})
    for k, t in full.items():
        check(np.max(np.abs(np.asarray(sm.C_in[k]) - t)) <= 1e-14 * np.max(np.abs(t)), lambda: 'initial condition for %s' % k)
    kw = dict(c.get('kw', {})) if c['acc'] == 'integrate' else {}          # options of the solver
    got = result(sm.run(c['b'], accuracy=c['acc'], **kw), c)
    check((wc.eft, wc.basis, wc.scale, wc.values) == before, 'the coefficients of the caller were modified')
    for k in C0:
        check(np.array_equal(C0[k], sm.C_in[k]), lambda: 'the initial condition %s was modified by running' % k)
    C = {k: (complex(v) if np.ndim(v) == 0 else np.array(v, complex)) for k, v in sm.C_in.items()}
    out = evolve(C, c['a'], c['b'], **kw) if c['acc'] == 'integrate' else leadinglog(C, c['a'], c['b'])
    ctx.label(c['acc'] + (' with options' if kw else ''))
    ctx.nontrivial(len(got) > 0)
    U = default_basis(out)
    R = rotate(out, U)
    exp = T.reduce_all('SMEFT', {k: R[k] for k in BOS + FERM})
    if any(k.startswith('llphiphi') and abs(complex(*v)) > 0 for k, v in c['vals'].items()):
        # lepton phases follow the PMNS matrix: compare what does not depend on them
        ctx.label('neutrino masses')
        exp = {k: v for k, v in exp.items() if phase_free(k)}
        got = {k: v for k, v in got.items() if phase_free(k)}
    tol = 1e-7
    S = max([abs(v) for k, v in exp.items()] + [1e-300])
    for k in set(got) | set(exp):
        g, e = got.get(k, 0), exp.get(k, 0)
        check(abs(g - e) <= tol * abs(e) + 1e-7 * S, lambda: '%s at %g GeV is %s, expected %s' % (k, c['b'], g, e))
    if c['acc'] == 'leadinglog':
        again = result(sm.run(c['b'], accuracy='leadinglog'), c)
        check(all(again.get(k) == v for k, v in got.items()), 'a second request gives another result')


def phase_free(k):
    f, _, i = k.partition('_')
    if f in ('duql', 'qque', 'qqql', 'duue'):
        return False
    fields = T.SMEFT_FIELDS.get(f)
    if fields is None:
        return True
    n = {}
    for x, j in zip(fields.split(), i):
        if x[0] in 'le':
            n[j] = n.get(j, 0) + (-1 if x.endswith('*') else 1)
    return not any(n.values())


def body_basis(c, ctx):
    """the result does not depend on the flavour basis in which couplings and coefficients are given"""
    rge, SMEFT = api()
    wc = make(c)
    sm = SMEFT(wc)
    C = {k: (complex(v) if np.ndim(v) == 0 else np.array(v, complex)) for k, v in sm.C_in.items()}
    rng = np.random.default_rng(c['seed'])
    massless = not any(k.startswith('llphiphi') and abs(complex(*v)) > 0 for k, v in c['vals'].items())
    U = {f: T.unitary(rng) for f in 'qudle'}
    if c['dense']:
        for k in FERM:
            if k != 'llphiphi' and k in c['dense']:
                C[k] = T.rand_symmetric(np.random.default_rng([c['seed'], FERM.index(k)]), T.SMEFT_CLASS[k]) * 1e-8
        sm.C_in = {k: C[k] for k in ckeys()}
    exp = result(sm.run(c['b'], accuracy=c['acc']), c)
    R = rotate(C, U)
    sm.C_in = {k: R[k] for k in ckeys()}
    got = result(sm.run(c['b'], accuracy=c['acc']), c)
    ctx.nontrivial(len(exp) > 0)
    ctx.label(c['acc'])
    ctx.label('massless' if massless else 'massive')
    S = max([abs(v) for v in exp.values()] + [1e-300])
    # rounding is enhanced by the hierarchy of the masses
    # (the step size control acts on single components)
    tol = 1e-6 if c['acc'] == 'leadinglog' else 1e-2         # (quqd1 is generated)
    for k in set(got) | set(exp):
        g, e = got.get(k, 0), exp.get(k, 0)
        if not phase_free(k):
            g, e = abs(g), abs(e)
        s = 1e-15 if k.startswith('llphiphi') else S
        check(abs(g - e) <= tol * abs(e) + tol * s, lambda: '%s is %s when the input is given in another flavour basis, otherwise %s' % (k, g, e))


@st.composite
def basiscases(draw):
    c = draw(wcs(hi=1e5))
    # quqd1: the beta function of dphi is not covariant (known finding of C13)
    c['vals'] = {k: v for k, v in c['vals'].items() if not k.startswith('quqd1')}
    c['dense'] = draw(st.lists(st.sampled_from([k for k in FERM if k not in ('llphiphi', 'quqd1')]), max_size=3, unique=True))
    c['acc'] = draw(st.sampled_from(['leadinglog', 'leadinglog', 'leadinglog', 'integrate']))
    if c['acc'] == 'integrate':                           # those generate quqd1
        c['dense'] = [k for k in c['dense'] if k not in ('uG', 'uW', 'uB', 'dG', 'dW', 'dB', 'quqd8', 'uphi', 'dphi', 'lequ1', 'ledq', 'phiud')]
        c['vals'] = {k: v for k, v in c['vals'].items() if k.split('_')[0] not in ('uG', 'uW', 'uB', 'dG', 'dW', 'dB', 'quqd8')}
    return c


LEPTONIC = ('llphiphi', 'phil1', 'phil3', 'eW', 'eB', 'ephi', 'lq1', 'lq3', 'ld', 'lu', 'll', 'ledq', 'lequ1', 'lequ3')


@st.composite
def pmnscases(draw):
    a, b = scales(draw, hi=1e6)
    names = bases.names('SMEFT', 'Warsaw')
    vals = {}
    for f in draw(st.lists(st.sampled_from(LEPTONIC[1:]), max_size=3, unique=True)):
        n = draw(st.sampled_from([k for k in sorted(names) if k.split('_')[0] == f]))
        vals[n] = draw(gen.coeff(names[n], -11 if f in ('ephi', 'lequ1', 'ledq', 'eB', 'eW') else -9))
    return {'a': a, 'b': b, 'seed': draw(gen.seeds()), 'exp': draw(st.sampled_from([-15, -15, -16, -18, -20])), 'vals': vals,
            'zero': draw(st.one_of(st.just([]), st.lists(st.sampled_from(['11', '22', '33', '12', '13', '23']), max_size=3, unique=True), st.sampled_from([['11'], ['22'], ['33']])))}


def body_pmns(c, ctx):
    """with neutrino masses, the lepton phases are those of the standard PMNS matrix, whatever the basis of the input"""
    rge, SMEFT = api()
    rng = np.random.default_rng(c['seed'])
    vals = dict(c['vals'])
    for i in ('11', '12', '13', '22', '23', '33'):
        z = rng.uniform(0.3, 1) * np.exp(2j * math.pi * rng.uniform()) * 10.0**c['exp']
        if i in c.get('zero', []):          # texture zeros
            z = 0j
        vals['llphiphi_' + i] = [float(z.real), float(z.imag)]
    c = dict(c, vals=vals)
    sm = SMEFT(make(c))
    exp = result(sm.run(c['b'], accuracy='leadinglog'), c)
    ctx.nontrivial(True)
    M = np.zeros((3, 3), complex)
    for k, v in exp.items():
        if k.startswith('llphiphi'):
            i, j = int(k[-2]) - 1, int(k[-1]) - 1
            M[i, j] = M[j, i] = v / 10.0**c['exp']
    w, U = np.linalg.eigh(M.conj().T @ M)
    gap = min(w[1] - w[0], w[2] - w[1]) / w[2]
    small = np.min(np.abs(U))
    U = U @ np.diag(np.exp(-1j * np.array([np.angle(U[0, 0]), np.angle(U[0, 1]), np.angle(U[2, 2])])))
    if gap > 1e-3 and small > 1e-2:
        ctx.label('standard form')
        check(abs(np.angle(U[1, 2])) < 1e-2, lambda: 'the PMNS matrix is not in the standard form: U23 has the phase %s' % np.angle(U[1, 2]))
        s13 = abs(U[0, 2])
        d = -np.angle(U[0, 2])
        c12, s12, c23, s23 = U[0, 0].real, U[0, 1].real, abs(U[2, 2]), abs(U[1, 2])
        n = math.sqrt(1 - s13**2)
        c12, s12, c23, s23 = c12 / n, s12 / n, c23 / n, s23 / n
        check(abs(U[1, 0] - (-s12 * c23 - c12 * s23 * s13 * np.exp(1j * d))) < 1e-2, lambda: 'the PMNS matrix is not in the standard form: U21 is %s' % U[1, 0])
    C = {k: (complex(v) if np.ndim(v) == 0 else np.array(v, complex)) for k, v in sm.C_in.items()}
    V = {f: T.unitary(rng) for f in 'qudle'}
    R = rotate(C, V)
    sm.C_in = {k: R[k] for k in ckeys()}
    got = result(sm.run(c['b'], accuracy='leadinglog'), c)
    if not (gap > 1e-3 and small > 1e-2):
        return
    S = max([abs(v) for k, v in exp.items() if not k.startswith('llphiphi')] + [1e-300])
    for f in LEPTONIC:
        ks = [k for k in set(exp) | set(got) if k.split('_')[0] == f]
        s = max([abs(exp.get(k, 0)) for k in ks] + [0])
        for k in ks:
            g, e = got.get(k, 0), exp.get(k, 0)
            check(abs(g - e) <= 2e-4 * s + (1e-7 * S if f != 'llphiphi' else 0), lambda: '%s is %s when the input is given in another flavour basis, otherwise %s' % (k, g, e))


def body_identity(c, ctx):
    """running to the same scale"""
    _, SMEFT = api()
    c = dict(c, b=c['a'])
    sm = SMEFT(make(c))
    got = result(sm.run(c['a'], accuracy=c['acc']), c)
    exp = {k: complex(*v) for k, v in c['vals'].items()}
    ctx.nontrivial(any(exp.values()))
    S = max([abs(v) for v in exp.values()] + [1e-300])
    for k in set(got) | set(exp):
        g, e = got.get(k, 0), exp.get(k, 0)
        check(abs(g - e) <= (1e-12 * abs(e) if k in BOS else 2e-3 * S), lambda: '%s is %s after running to the same scale, before %s' % (k, g, e))


def body_errors(c, ctx):
    _, SMEFT = api()
    from wilson import wcxf
    if c['what'] == 'accuracy':
        sm = SMEFT(gen.make_wc(wcxf, 'SMEFT', 'Warsaw', 1000.0, {'G': 1e-8}))
        f = lambda: sm.run(100.0, accuracy=c['val'])                     # noqa: E731
    elif c['what'] == 'basis':
        w = gen.make_wc(wcxf, 'SMEFT', 'Warsaw up', 1000.0, {'G': 1e-8})
        f = lambda: SMEFT(w)                                             # noqa: E731
    else:
        w = gen.make_wc(wcxf, c['what'], 'JMS', 4.0, {'G': 1e-8})
        f = lambda: SMEFT(w)                                             # noqa: E731
    try:
        f()
    except ValueError:
        return
    raise Violation('accepted: %s' % c)


SUBS = [
    Sub('integrate', integrations, body_integrate, 14, 400, rule='scales differ by more than a factor 1.6',
        examples=[{'seed': 3, 'ops': None, 'rot': True, 'exp': -8, 'a': 1e4, 'b': 91.1876, 'kw': {}, 'newphys': None},
                  {'seed': 4, 'ops': None, 'rot': True, 'exp': -8, 'a': 91.1876, 'b': 1e4, 'kw': STRICT, 'newphys': None}]),
    Sub('leadinglog', llpoints, body_ll, 60, 2500, rule='coefficients run'),
    Sub('small', smalls, body_small, 20, 800, rule='always'),
    Sub('compose', composed, body_compose, 5, 150, rule='scales differ by more than a factor 1.6'),
    Sub('api', lambda: wcs(), body_api, 30, 1500, rule='the result is not empty'),
    Sub('basis', basiscases, body_basis, 40, 1500, rule='the result is not empty'),
    Sub('pmns', pmnscases, body_pmns, 25, 1000, rule='always'),
    Sub('identity', lambda: wcs(hi=1e5, llphiphi=False, small=True), body_identity, 40, 1500, rule='some coefficient is non-zero'),
    Sub('errors', lambda: st.one_of(st.fixed_dictionaries({'what': st.just('accuracy'), 'val': st.sampled_from(['', 'LL', None, 'Integrate', 1])}),
                                    st.fixed_dictionaries({'what': st.sampled_from(['basis', 'WET', 'WET-4'])})), body_errors, 8, 8, rule='always'),
]
