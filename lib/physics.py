"""Generators for input parameters and the independent CKM matrix.

The external library ckmutil is only defined for 0 < gamma < pi/2 (it divides by tan(gamma) and returns
the principal branch of an arctangent): gamma is drawn from that range."""
import numpy as np
from hypothesis import strategies as st

DEFAULT = {'m_W': 80.385, 'm_Z': 91.1876, 'm_h': 125., 'GF': 1.1663787e-5, 'alpha_e': 1 / 127.9, 'alpha_s': 0.1185,
           'Vus': 0.2243, 'Vub': 3.62e-3, 'Vcb': 4.221e-2, 'gamma': 1.27, 'm_b': 4.18, 'm_s': 0.095, 'm_c': 1.28,
           'm_u': 0.0022, 'm_d': 0.0047, 'm_e': 0.0005109989461, 'm_mu': 0.1056583745, 'm_tau': 1.77686}
# defaults of matching and SMEFT evolution: MSbar parameters at the scale m_Z
SMEFT = dict(DEFAULT, m_e=0.000511, m_mu=0.1057, m_tau=1.777, m_u=0.00127, m_c=0.635, m_d=0.0027, m_s=0.0551, m_b=2.85, m_t=169.0,
             m_W=80.20, m_Z=91.46, m_h=130.6)
RANGE = {'m_W': (79.5, 81.5), 'm_Z': (90, 93), 'm_h': (100, 150), 'GF': (1.1e-5, 1.25e-5), 'alpha_e': (1 / 140, 1 / 120),
         'alpha_s': (0.1, 0.13), 'Vus': (0.1, 0.4), 'Vub': (1e-3, 0.05), 'Vcb': (0.01, 0.2), 'gamma': (0.2, 1.5),
         'm_b': (3.9, 4.5), 'm_s': (0.07, 0.13), 'm_c': (1.1, 1.45), 'm_u': (0.001, 0.004), 'm_d': (0.003, 0.007),
         'm_e': (0.0004, 0.0007), 'm_mu': (0.08, 0.13), 'm_tau': (1.5, 2.0)}
CKM = ('Vus', 'Vub', 'Vcb', 'gamma')


def value(k):
    lo, hi = RANGE[k]
    return st.floats(lo, hi, allow_nan=False)


@st.composite
def params(draw, keys=tuple(DEFAULT), none=True, ckm=True):
    """None, or a dictionary overriding some defaults"""
    if none and draw(st.integers(0, 4)) == 0:
        return None
    if draw(st.integers(0, 1)):
        ks = list(keys)
    else:
        ks = draw(st.lists(st.sampled_from(list(keys)), max_size=6, unique=True))
    if ckm and draw(st.booleans()):
        ks = list(ks) + [k for k in CKM if k not in ks]
    return {k: draw(value(k)) for k in ks}


def full(p, smeft=False):
    d = dict(SMEFT if smeft else DEFAULT)
    d.update(p or {})
    return d


def ckm(p):
    """CKM matrix in the standard phase convention from Vus, |Vub|, Vcb and the angle gamma
    (own derivation: the phase delta is found numerically from the definition of gamma)."""
    s13 = p['Vub']
    c13 = np.sqrt(1 - s13 ** 2)
    s12, s23 = p['Vus'] / c13, p['Vcb'] / c13
    c12, c23 = np.sqrt(1 - s12 ** 2), np.sqrt(1 - s23 ** 2)

    def V(delta):
        e = np.exp(1j * delta)
        return np.array([[c12 * c13, s12 * c13, s13 / e],
                         [-s12 * c23 - c12 * s23 * s13 * e, c12 * c23 - s12 * s23 * s13 * e, s23 * c13],
                         [s12 * s23 - c12 * c23 * s13 * e, -c12 * s23 - s12 * c23 * s13 * e, c23 * c13]])
    g = p['gamma']
    delta = g
    for _ in range(200):
        v = V(delta)
        got = np.angle(-v[0, 0] * v[0, 2].conj() / (v[1, 0] * v[1, 2].conj()))
        step = np.angle(np.exp(1j * (g - got)))
        delta += step
        if abs(step) < 1e-15:
            break
    return V(delta)
