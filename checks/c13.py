"""C13: The SMEFT beta functions are flavour covariant and the published ones."""
import math

import numpy as np
from hypothesis import strategies as st

from harness import Sub, check, HarnessError
import gen
import tensors as T

NEEDS_REF = True
ASSUMPTIONS = ['the complete anomalous-dimension matrix is compared with a pinned copy; independent oracles are the Standard Model beta '
               'functions, published gauge and mixing terms, and the symmetry and scaling laws every correct matrix obeys']
SM0 = ('g', 'gp', 'gs', 'Lambda', 'm2')
SMY = ('Gu', 'Gd', 'Ge')
ODD = ('Gtilde', 'Wtilde', 'phiGtilde', 'phiBtilde', 'phiWtilde', 'phiWtildeB')
BOS = ('G', 'W', 'phi', 'phiBox', 'phiD', 'phiG', 'phiB', 'phiW', 'phiWB') + ODD
FERM = tuple(T.SMEFT_FIELDS)
OPS = BOS + FERM
YUK = {'Gu': 'q* u', 'Gd': 'q* d', 'Ge': 'l* e'}
# (Delta B, Delta L) classes
BNV = ('duql', 'qque', 'qqql', 'duue')
# powers of couplings: an operator with n fields counts as lambda^(n-2)
WEIGHT = {k: 2 for k in OPS}
WEIGHT.update({'G': 1, 'Gtilde': 1, 'W': 1, 'Wtilde': 1, 'phi': 4, 'uphi': 3, 'dphi': 3, 'ephi': 3})
WEIGHT.update({'g': 1, 'gp': 1, 'gs': 1, 'Gu': 1, 'Gd': 1, 'Ge': 1, 'Lambda': 2, 'm2': 0})
KEYS = SM0 + SMY + OPS


def mod(ref=False):
    if ref:
        import refwilson.run.smeft.beta as b
    else:
        import wilson                                               # noqa: F401
        import wilson.run.smeft.beta as b
    if not hasattr(b, 'beta'):
        raise HarnessError('wilson.run.smeft.beta.beta not found')
    return b


def order(ref=False):
    if ref:
        from refwilson.util import smeftutil
    else:
        import wilson                                               # noqa: F401
        from wilson.util import smeftutil
    return list(smeftutil.C_keys)


# Known finding: one term of the beta function of dphi is not covariant (see known_findings.txt).  The laws are checked with
# this term put right; the correction is only applied where the defect is there (a repaired tree is judged as it is).
def extra(C):
    Gu, Q = np.array(C['Gu'], complex), np.array(C['quqd1'], complex)
    d = Gu.conj().T
    return 12 * (np.einsum('tprs,pt', Q, Gu @ d @ Gu) - np.einsum('tprs,pt', Q, d @ Gu @ d))


def has_defect(ref=False, memo={}):
    if ref:
        return True
    if 'd' not in memo:
        memo['d'] = False
        C = point({'seed': 3, 'ops': ['quqd1'], 'sm': ['Gu'], 'diag': False})
        rng = np.random.default_rng(1)
        U = {f: T.unitary(rng) if f in 'qu' else np.eye(3) for f in 'qudle'}
        D = rotate(C, U)
        raw, rot = beta(C)['dphi'], beta(D)['dphi']
        fine = lambda x, y: np.max(np.abs(y - U['q'].conj().T @ x)) < 1e-9 * np.max(np.abs(y))      # noqa: E731
        memo['d'] = not fine(raw, rot) and fine(raw + extra(C), rot + extra(D))
    return memo['d']


def known_findings():
    return ['beta function of dphi: the term with quqd1 and three Gu is not covariant'] if has_defect() else []


def beta(C, ref=False, **kw):
    """evaluate on an ordered dictionary, check that the input is left alone"""
    out = raw_beta(C, ref, **kw)
    if kw.get('newphys') is not False and has_defect(ref):
        out['dphi'] = out['dphi'] + extra(C)
    return out


def raw_beta(C, ref=False, **kw):
    b = mod(ref)
    keys = order()
    D = {k: (np.array(C[k], complex) if np.ndim(C[k]) else complex(C[k])) for k in keys}
    E = {k: (v.copy() if np.ndim(v) else v) for k, v in D.items()}
    out = b.beta(D, **kw)
    for k in keys:
        check(np.array_equal(D[k], E[k]), lambda: 'the input %s was modified' % k)
    check(set(out) == set(keys), lambda: 'keys of the result: %s' % sorted(set(out) ^ set(keys)))
    for k in keys:
        check(np.shape(out[k]) == np.shape(D[k]), lambda: 'shape of beta[%s]: %s' % (k, np.shape(out[k])))
    return {k: np.array(out[k], complex) for k in keys}


def point(c):
    """full dictionary of couplings and coefficients; a pure function of the case"""
    rng = np.random.default_rng(c['seed'])
    C = {}
    z = lambda: complex(rng.normal())                 # noqa: E731
    for k in SM0:
        C[k] = z() if k in c['sm'] else 0j
    for k in SMY:
        y = rng.normal(size=(3, 3)) + 1j * rng.normal(size=(3, 3))
        if c.get('diag'):
            y = np.diag(np.abs(np.diag(y))) + 0j
        C[k] = y if k in c['sm'] else np.zeros((3, 3), complex)
    ops = c['ops'] if c['ops'] is not None else OPS
    for k in BOS:
        C[k] = z() if k in ops else 0j
    for k in FERM:
        t = T.rand_symmetric(np.random.default_rng([c['seed'], OPS.index(k)]), T.SMEFT_CLASS[k])
        C[k] = t if k in ops else np.zeros(np.shape(t), complex)
    return C


@st.composite
def points(draw, ops=OPS, some=True):
    kind = draw(st.integers(0, 2))
    o = None if kind == 0 and len(ops) == len(OPS) else draw(st.lists(st.sampled_from(ops), min_size=1 if some else 0,
                                                                     max_size=3 if kind == 1 else 12, unique=True))
    sm = draw(st.one_of(st.just(list(SM0 + SMY)), st.lists(st.sampled_from(SM0 + SMY), unique=True, min_size=1)))
    return {'seed': draw(gen.seeds()), 'ops': o, 'sm': sm, 'diag': draw(st.integers(0, 4)) == 0}


def fierz(b):
    """C_ee and C_qqql are only defined up to terms that vanish by Fierz identities (the evolution projects them, see C14)"""
    if 'ee' in b:
        b = dict(b, ee=(b['ee'] + np.swapaxes(b['ee'], 0, 2)) / 2)
    if 'qqql' in b:
        t = lambda p: np.einsum(p + 't->prst', b['qqql'])               # noqa: E731
        b = dict(b, qqql=(4 * t('prs') - t('psr') - t('rps') + t('rsp') + t('spr') + 2 * t('srp')) / 6)
    return b


def close(got, exp, what, rtol=1e-9, scale=None):
    """agreement relative to the largest element of each tensor and to the size of the whole (cancellations)"""
    big = max([np.max(np.abs(v)) for v in exp.values()] + [np.max(np.abs(v)) for v in got.values()])
    got, exp = fierz(got), fierz(exp)
    for k in exp:
        d = np.abs(np.asarray(got[k]) - np.asarray(exp[k]))
        m = np.max(d)
        t = rtol * np.max(np.abs(exp[k])) + rtol * 1e-3 * (big if scale is None else scale)
        check(m <= t, lambda: '%s: beta function of %s%s is %s, expected %s' % (
            what, k, list(map(int, np.unravel_index(np.argmax(d), d.shape))), np.ravel(got[k])[np.argmax(d)], np.ravel(exp[k])[np.argmax(d)]))


def alive(b, ctx):
    ctx.nontrivial(any(np.max(np.abs(b[k])) > 0 for k in OPS))


def rotate(C, U):
    R = T.rotate({k: C[k] for k in FERM}, U)
    out = dict(C)
    out.update(R)
    for k, f in YUK.items():
        a, b = f.replace('*', '').split()
        out[k] = U[a].conj().T @ C[k] @ U[b]
    return out


def body_covariance(c, ctx):
    C = point(c)
    rng = np.random.default_rng([c['seed'], 99])
    U = {f: T.unitary(rng) if f in c['rot'] else np.eye(3) for f in 'qudle'}
    b = beta(C)
    alive(b, ctx)
    ctx.label('rotating %s' % ''.join(sorted(c['rot'])))
    close(beta(rotate(C, U)), rotate(b, U), 'after a flavour rotation of %s' % ','.join(c['rot']))


@st.composite
def rotated(draw):
    c = draw(points())
    c['rot'] = draw(st.lists(st.sampled_from('qudle'), min_size=1, unique=True))
    return c


def body_cp(c, ctx):
    C = point(c)
    cp = lambda X: {k: -np.conj(v) if k in ODD else np.conj(v) for k, v in X.items()}       # noqa: E731
    b = beta(C)
    alive(b, ctx)
    close(beta(cp(C)), cp(b), 'after CP conjugation')


@st.composite
def weighted(draw):
    c = draw(points())
    c['lam'] = draw(st.sampled_from([-1.0, 2.0, 0.5, 3.0]))
    c['kap'] = draw(st.sampled_from([1.0, 4.0, 0.25]))
    return c


def body_weights(c, ctx):
    """powers of couplings (an operator with n fields counts n-2, a loop 2) and of mass dimensions"""
    C = point(c)
    lam, kap = c['lam'], c['kap']

    def scale(X, extra):
        out = {}
        for k, v in X.items():
            m = 0 if k in ('g', 'gp', 'gs', 'Lambda') + SMY else (1 if k == 'm2' else (-0.5 if k == 'llphiphi' else -1))
            out[k] = v * lam ** (WEIGHT[k] + extra) * kap ** m
        return out
    b = beta(C)
    alive(b, ctx)
    got, exp = beta(scale(C, 0)), scale(b, 2)
    close(got, exp, 'couplings scaled by %g, mass dimensions by %g' % (lam, kap), rtol=1e-8)


@st.composite
def lin(draw):
    c = draw(points())
    c['seed2'] = draw(gen.seeds())
    c['ops2'] = draw(st.one_of(st.none(), st.lists(st.sampled_from(OPS), min_size=1, max_size=4, unique=True)))
    c['x'], c['y'] = draw(gen.factors()), draw(gen.factors())
    return c


def body_linear(c, ctx):
    C = point(c)
    D = point(dict(c, seed=c['seed2'], ops=c['ops2']))
    x, y = c['x'], c['y']
    sm = {k: C[k] for k in SM0 + SMY}
    D.update(sm)
    Z = dict(sm, **{k: 0 * C[k] for k in OPS})
    M = dict(sm, **{k: x * C[k] + y * D[k] for k in OPS})
    b0, bc, bd, bm = beta(Z), beta(C), beta(D), beta(M)
    for k in OPS:
        check(np.max(np.abs(b0[k])) == 0, lambda: 'beta function of %s is %s without any coefficients' % (k, b0[k]))
    exp = {k: b0[k] + x * (bc[k] - b0[k]) + y * (bd[k] - b0[k]) for k in b0}
    alive(bc, ctx)
    size = max(np.max(np.abs(v)) for q in (bc, bd, bm) for v in q.values())
    close(bm, exp, 'linearity in the dimension-six coefficients', scale=10 * size)
    # the other way round: the coefficients enter the running of couplings only together with the Higgs mass term
    c2 = dict(C, m2=0j)
    z2 = dict(Z, m2=0j)
    p, q = beta(c2), beta(z2)
    close({k: p[k] for k in SM0 + SMY}, {k: q[k] for k in SM0 + SMY}, 'couplings without the Higgs mass parameter', scale=10 * size)


def body_symmetry(c, ctx):
    C = point(c)
    b = beta(C)
    alive(b, ctx)
    big = max(np.max(np.abs(v)) for v in b.values())
    b = fierz(b)
    for k in FERM:
        v = T.law_violation(T.SMEFT_CLASS[k], b[k])
        check(v <= 1e-10 * big, lambda: 'beta function of %s violates its index symmetry by %s' % (k, v))
    for k in BOS + SM0:
        check(abs(b[k].imag) <= 1e-10 * big, lambda: 'beta function of the real quantity %s is %s' % (k, b[k]))


def body_number(c, ctx):
    """number violation: each class only feeds itself"""
    C = point(c)
    b = beta(C)
    alive(b, ctx)
    for cls in (BNV, ('llphiphi',), tuple(k for k in OPS if k not in BNV + ('llphiphi',))):
        D = {k: (v if k not in OPS or k in cls else 0 * v) for k, v in C.items()}
        p = beta(D)
        for k in OPS:
            if k in cls:
                d = np.max(np.abs(p[k] - b[k]))
                check(d <= 1e-9 * np.max(np.abs(b[k])) + 1e-12, lambda: 'beta function of %s depends on coefficients of another number class' % k)
            else:
                check(np.max(np.abs(p[k])) == 0, lambda: '%s is generated although only the coefficients %s are non-zero' % (k, [
                    q for q in cls if np.any(C[q] != 0)]))
    # the couplings do not depend on number-violating coefficients at all
    D = {k: (0 * v if k in BNV + ('llphiphi',) else v) for k, v in C.items()}
    p = beta(D)
    close({k: b[k] for k in SM0 + SMY}, {k: p[k] for k in SM0 + SMY}, 'couplings without number-violating coefficients')


def sm_beta(C):
    g, gp, gs, L, m2 = (C[k].real for k in SM0)
    Gu, Gd, Ge = C['Gu'], C['Gd'], C['Ge']
    H = lambda x: x @ x.conj().T                    # noqa: E731
    u, d, e = H(Gu), H(Gd), H(Ge)
    tr = lambda x: np.trace(x).real                 # noqa: E731
    gam = 3 * tr(u) + 3 * tr(d) + tr(e)
    return {'g': -19 / 6 * g ** 3, 'gp': 41 / 6 * gp ** 3, 'gs': -7 * gs ** 3,
            'Lambda': 12 * L ** 2 - L * (9 * g ** 2 + 3 * gp ** 2) + 9 / 4 * g ** 4 + 3 / 4 * gp ** 4 + 3 / 2 * g ** 2 * gp ** 2
            + 4 * gam * L - 4 * (3 * tr(u @ u) + 3 * tr(d @ d) + tr(e @ e)),
            'm2': m2 * (6 * L - 9 / 2 * g ** 2 - 3 / 2 * gp ** 2 + 2 * gam),
            'Gu': 1.5 * (u - d) @ Gu + (gam - 17 / 12 * gp ** 2 - 9 / 4 * g ** 2 - 8 * gs ** 2) * Gu,
            'Gd': 1.5 * (d - u) @ Gd + (gam - 5 / 12 * gp ** 2 - 9 / 4 * g ** 2 - 8 * gs ** 2) * Gd,
            'Ge': 1.5 * e @ Ge + (gam - 15 / 4 * gp ** 2 - 9 / 4 * g ** 2) * Ge}


def body_sm(c, ctx):
    C = point(c)
    b = beta(C, newphys=False)
    ctx.nontrivial(len(c['sm']) >= 2)
    f = beta(C)
    close({k: b[k] for k in SM0 + SMY}, {k: f[k] for k in SM0 + SMY}, 'couplings with and without the running of the coefficients')
    for k in OPS:
        check(np.max(np.abs(b[k])) == 0, lambda: '%s runs although new physics is switched off' % k)
    Z = {k: (0 * v if k in OPS else v) for k, v in C.items()}
    z = beta(Z)
    close({k: z[k] for k in SM0 + SMY}, sm_beta(C), 'Standard Model (all coefficients zero)')
    z = beta(Z, newphys=False)
    close({k: z[k] for k in SM0 + SMY}, sm_beta(C), 'Standard Model (new physics switched off)')


def gauge(C):
    """published terms of the anomalous dimension proportional to two gauge couplings (no Yukawa couplings, no lambda); only
    coefficients whose complete result is simple"""
    g, gp, gs = (C[k].real for k in ('g', 'gp', 'gs'))
    g2, g1, g3 = g ** 2, gp ** 2, gs ** 2
    yq, yu, yd, yl, ye = 1 / 6, 2 / 3, -1 / 3, -1 / 2, -1
    b1 = -41 / 6
    a = {'G': 15 * g3 * C['G'], 'Gtilde': 15 * g3 * C['Gtilde'], 'W': 29 / 2 * g2 * C['W'], 'Wtilde': 29 / 2 * g2 * C['Wtilde'],
         'llphiphi': -3 * g2 * C['llphiphi'],
         'lequ1': -(11 / 3 * g1 + 8 * g3) * C['lequ1'] + (18 * g2 + 30 * g1) * C['lequ3'],
         'lequ3': (2 / 9 * g1 - 3 * g2 + 8 / 3 * g3) * C['lequ3'] + (3 * g2 + 5 * g1) / 8 * C['lequ1'],
         'ledq': -(8 / 3 * g1 + 8 * g3) * C['ledq'],
         'duql': -(4 * g3 + 9 / 2 * g2 + 11 / 6 * g1) * C['duql'], 'qque': -(4 * g3 + 9 / 2 * g2 + 23 / 6 * g1) * C['qque'],
         'phiG': (-3 / 2 * g1 - 9 / 2 * g2 - 14 * g3) * C['phiG'], 'phiGtilde': (-3 / 2 * g1 - 9 / 2 * g2 - 14 * g3) * C['phiGtilde'],
         'phiB': (-3 / 2 * g1 - 9 / 2 * g2 - 2 * b1 * g1 + 2 * g1) * C['phiB'] + 3 * g * gp * C['phiWB'],
         'phiud': -3 * g1 * C['phiud']}
    a['phiWB'] = None
    S = lambda x, y: -3 * x * x + 8 * x * y - 3 * y * y             # noqa: E731
    R = lambda x, y: 3 * x * x + 4 * x * y + 3 * y * y - b1         # noqa: E731
    del a['phiWB'], a['phiB']
    # dipoles without the mixing among each other: only one family of gauge field at a time is used
    a['dip'] = {'eW': (-11 / 12 * g2 + S(ye, yl) * g1), 'eB': (-9 / 4 * g2 + R(ye, yl) * g1),
                'uG': (-17 / 3 * g3 - 9 / 4 * g2 + S(yu, yq) * g1), 'dG': (-17 / 3 * g3 - 9 / 4 * g2 + S(yd, yq) * g1),
                'uW': (8 / 3 * g3 - 11 / 12 * g2 + S(yu, yq) * g1), 'dW': (8 / 3 * g3 - 11 / 12 * g2 + S(yd, yq) * g1),
                'uB': (8 / 3 * g3 - 9 / 4 * g2 + R(yu, yq) * g1), 'dB': (8 / 3 * g3 - 9 / 4 * g2 + R(yd, yq) * g1)}
    return a


def body_gauge(c, ctx):
    C = point(c)
    for k in SMY + ('Lambda', 'm2'):
        C[k] = 0 * C[k]
    a = gauge(C)
    dip = a.pop('dip')
    b = beta(C)
    close({k: b[k] for k in a}, a, 'published gauge terms')
    ctx.nontrivial(any(np.any(a[k] != 0) for k in a))
    for k, f in dip.items():        # dipole alone
        D = {q: (v if q not in OPS or q == k else 0 * v) for q, v in C.items()}
        p = beta(D)
        close({k: p[k]}, {k: f * C[k]}, 'published gauge terms')


@st.composite
def gaugepoints(draw):
    c = draw(points())
    c['sm'] = draw(st.lists(st.sampled_from(['g', 'gp', 'gs']), unique=True, min_size=1))
    return c


def body_vector(c, ctx):
    C = point(c)
    from wilson.util import smeftutil
    b = mod()
    keys = order()
    D = {k: (np.array(C[k], complex) if np.ndim(C[k]) else complex(C[k])) for k in keys}
    kw = {'newphys': c['newphys']} if c['newphys'] is not None else {}
    full = raw_beta(C, **kw)
    alive(full, ctx)
    exp = np.concatenate([np.ravel(full[k]) for k in keys])
    got = b.beta_array(D, **kw)
    check(np.shape(got) == np.shape(exp), 'length of the vector form')
    d = np.abs(got - exp)
    i = int(np.argmax(d))
    check(d[i] <= 1e-12 * np.max(np.abs(exp)), lambda: 'vector form: element %d is %s, expected %s' % (i, got[i], exp[i]))
    # conversion between vector and dictionary
    y = smeftutil.C_dict2array(D)
    check(np.array_equal(y, np.concatenate([np.ravel(D[k]) for k in keys])), 'vector of the coefficients')
    back = smeftutil.C_array2dict(y)
    for k in keys:
        check(np.array_equal(back[k], D[k]), lambda: 'dictionary from the vector: %s' % k)
    # a returned array can be changed by the caller without affecting later results
    r1 = b.beta(D, **kw)
    for v in r1.values():
        if np.ndim(v) and getattr(v, 'flags').writeable:
            try:
                np.ndarray.__setitem__(v, Ellipsis, 7.0)
            except (TypeError, ValueError):
                pass
    r2 = raw_beta(C, **kw)
    close(r2, full, 'second evaluation', rtol=1e-13)


@st.composite
def vectors(draw):
    c = draw(points())
    c['newphys'] = draw(st.sampled_from([None, True, False]))
    return c


@st.composite
def histories(draw):
    """several evaluations in one process, some of them differing only in one quantity: results may not depend on the order"""
    base = draw(points())
    n = draw(st.integers(2, 4))
    return {'base': base, 'change': [draw(st.lists(st.sampled_from(KEYS), min_size=1, max_size=3, unique=True)) for _ in range(n)],
            'how': [draw(st.sampled_from(['neg', 'zero', 'transpose', 'conj', 'scale', 'same'])) for _ in range(n)]}


def body_history(c, ctx):
    C = point(c['base'])
    P = [C]
    for ks, how in zip(c['change'], c['how']):
        D = dict(C)
        for k in ks:
            v = np.array(C[k])
            f = {'neg': lambda v: -v, 'zero': lambda v: 0 * v, 'conj': np.conj, 'scale': lambda v: 1.5 * v, 'same': lambda v: v,
                 'transpose': lambda v: v}[how]
            w = f(v)
            if k in SM0 + BOS:
                w = complex(w.real)
            elif how == 'transpose' and k in SMY:
                w = np.swapaxes(v, 0, 1)
            D[k] = w
        P.append(D)
    P.append(C)
    ctx.nontrivial(len(P) > 2)
    exp = [beta(x, ref=True) for x in reversed(P)][::-1]
    for i, x in enumerate(P):
        close(beta(x), exp[i], 'evaluation number %d of a sequence' % (i + 1))


def body_reference(c, ctx):
    C = point(c)
    b = beta(C)
    alive(b, ctx)
    e = beta(C, ref=True)
    for k in KEYS:
        close({k: b[k]}, {k: e[k]}, 'published beta functions', rtol=1e-10)


def single():
    """every operator alone, generic couplings"""
    return [{'seed': 17 + i, 'ops': [k], 'sm': list(SM0 + SMY), 'diag': False} for i, k in enumerate(OPS)]


R = 'a beta function of a coefficient is non-zero'
FULL = {'seed': 5, 'ops': None, 'sm': list(SM0 + SMY), 'diag': False}
SUBS = [
    Sub('covariance', rotated, body_covariance, 80, 4000, rule=R, examples=[dict(FULL, rot=list('qudle'))] + [dict(FULL, rot=[f]) for f in 'qudle']),
    Sub('cp', points, body_cp, 80, 4000, rule=R, examples=[FULL]),
    Sub('weights', weighted, body_weights, 80, 4000, rule=R, examples=[dict(FULL, lam=2.0, kap=4.0), dict(FULL, lam=-1.0, kap=1.0)]),
    Sub('linear', lin, body_linear, 60, 3000, rule=R),
    Sub('symmetry', points, body_symmetry, 80, 4000, rule=R, examples=[FULL]),
    Sub('number', points, body_number, 50, 2500, rule=R, examples=[FULL]),
    Sub('sm', points, body_sm, 80, 4000, rule='at least two couplings are non-zero', examples=[FULL]),
    Sub('gauge', gaugepoints, body_gauge, 40, 2000, rule='one of the coefficients with a published simple result is non-zero',
        examples=[dict(FULL, sm=[x]) for x in ('g', 'gp', 'gs')] + [dict(FULL, sm=['g', 'gp', 'gs'])]),
    Sub('vector', vectors, body_vector, 60, 3000, rule=R),
    Sub('history', histories, body_history, 30, 1500, rule='at least two different points'),
    Sub('reference', points, body_reference, 100, 5000, rule=R, examples=single),
]
