"""Independent tree-level matching of the SMEFT (Warsaw-up basis) onto the WET (JMS), to linear order in the coefficients.

Derivation: four-fermion operators are expanded in SU(2) components; W and Z exchange with the couplings of the broken phase
(vertex corrections from the Higgs-current operators, input scheme m_W, G_F, alpha_e) is added and Fierz-transformed to the
operators of the JMS basis; left-handed down quarks are rotated by the CKM matrix.  The linear part is extracted by a central
difference, so the Standard Model and all even orders drop out."""
import math

import numpy as np

import physics
import tensors as T

E = np.einsum
I3 = np.eye(3)

def left_down(op):
    """{index position: -1 (barred) or +1} of the left-handed down quarks of an operator"""
    if op in ('dgamma', 'dG', 'egamma', 'ugamma', 'uG'):
        return {0: -1} if op[0] == 'd' else {}
    table = {'SduuLL': {0: 1}, 'SduuLR': {0: 1}, 'SuudRL': {2: 1}, 'SuddLL': {1: 1, 2: 1}, 'SdudRL': {2: 1}, 'SdduRL': {}, 'SduuRL': {},
             'SduuRR': {}, 'SuudLR': {}}
    if op in table:
        return table[op]
    if op in ('G', 'Gtilde'):
        return {}
    chi = op[-2:]
    body = op[1:-2].lstrip('18')
    f = []
    while body:
        n = 2 if body.startswith('nu') else 1
        f.append(body[:n])
        body = body[n:]
    if len(f) == 2:
        f = [f[0], f[0], f[1], f[1]]
    assert len(f) == 4, op
    if op[0] == 'V':
        h = [chi[0], chi[0], chi[1], chi[1]]
    else:                       # scalar and tensor: (xbar_L y_R)(zbar_L w_R) or (xbar_L y_R)(zbar_R w_L)
        h = ['L', 'R', 'L', 'R'] if chi == 'RR' else ['L', 'R', 'R', 'L']
    return {n: (1 if n % 2 else -1) for n in range(4) if f[n] == 'd' and h[n] == 'L'}


def rotate_left_down(C, V):
    out = {}
    for op, t in C.items():
        t = np.asarray(t)
        for ax, s in left_down(op).items():
            u = V if s > 0 else V.conj()
            t = np.moveaxis(np.tensordot(t, u, axes=(ax, 0)), -1, ax)
        out[op] = t
    return out


def couplings(C, p):
    GF, mW, e = p['GF'], p['m_W'], math.sqrt(4 * math.pi * p['alpha_e'])
    # muon decay: 4 GF/sqrt2 = 2/v^2 (1 + v^2 (phil3_11 + phil3_22)) - (ll_1221 + ll_2112)
    inv = 4 * GF / math.sqrt(2) + (C['ll'][0, 1, 1, 0] + C['ll'][1, 0, 0, 1]) - 2 * (C['phil3'][0, 0] + C['phil3'][1, 1])
    v2 = 2 / inv.real
    v = math.sqrt(v2)
    g2 = 2 * mW / v
    x = C['phiWB'] * v2
    # e = g1 g2/sqrt(g1^2+g2^2) (1 - g1 g2/(g1^2+g2^2) x): solve for g1
    g1 = e / math.sqrt(1 - e * e / g2 ** 2)
    for _ in range(200):
        n = g1 ** 2 + g2 ** 2
        f = g1 * g2 / math.sqrt(n) * (1 - g1 * g2 / n * x) - e
        h = 1e-7
        ff = (g1 + h) * g2 / math.sqrt((g1 + h) ** 2 + g2 ** 2) * (1 - (g1 + h) * g2 / ((g1 + h) ** 2 + g2 ** 2) * x) - e
        step = f * h / (ff - f)
        g1 -= step
        if abs(step) < 1e-16:
            break
    n = g1 ** 2 + g2 ** 2
    mZ2 = v2 / 4 * n + v2 * v2 / 8 * C['phiD'] * n + v2 * v2 / 2 * g1 * g2 * C['phiWB']
    s2 = g1 ** 2 / n + g1 * g2 * (g2 ** 2 - g1 ** 2) / n ** 2 * x
    gZ = e / math.sqrt(s2 * (1 - s2)) * (1 + n / (2 * g1 * g2) * x)
    return v2, g1, g2, mZ2, s2, gZ


def broken(C, p):
    """WET coefficients (Lagrangian = sum over all indices) before rotating the down quarks, including the SM"""
    v2, g1, g2, mZ2, s2, gZ = couplings(C, p)
    v = math.sqrt(v2)
    mW = p['m_W']
    Z = {'nuL': I3 / 2 - v2 / 2 * (C['phil1'] - C['phil3']),
         'eL': I3 * (-1 / 2 + s2) - v2 / 2 * (C['phil1'] + C['phil3']), 'eR': I3 * s2 - v2 / 2 * C['phie'],
         'uL': I3 * (1 / 2 - 2 / 3 * s2) - v2 / 2 * (C['phiq1'] - C['phiq3']),
         'dL': I3 * (-1 / 2 + s2 / 3) - v2 / 2 * (C['phiq1'] + C['phiq3']),
         'uR': -I3 * 2 / 3 * s2 - v2 / 2 * C['phiu'], 'dR': I3 * s2 / 3 - v2 / 2 * C['phid']}
    Wl, Wq, WR = I3 + v2 * C['phil3'], I3 + v2 * C['phiq3'], v2 / 2 * C['phiud']
    z = -gZ ** 2 / mZ2
    w = -g2 ** 2 / (2 * mW ** 2)

    def zz(a, b):
        return z * E('pr,st->prst', Z[a], Z[b])

    def fierz_same(X):
        """average over the Fierz-related index orders of identical currents"""
        return (X + E('ptsr->prst', X)) / 2
    c = {}
    D = dict(C)
    t = lambda x: E('stpr->prst', x)            # noqa: E731
    # --- vector operators LL
    c['VnunuLL'] = fierz_same(D['ll'] + zz('nuL', 'nuL') / 2)
    c['VeeLL'] = fierz_same(D['ll'] + zz('eL', 'eL') / 2)
    # (nubar_p e_t)(ebar_s nu_r) -> (nubar_p nu_r)(ebar_s e_t)
    c['VnueLL'] = D['ll'] + t(D['ll']) + zz('nuL', 'eL') + w * E('pt,rs->prst', Wl, Wl.conj())
    c['VnuuLL'] = D['lq1'] + D['lq3'] + zz('nuL', 'uL')
    c['VnudLL'] = D['lq1'] - D['lq3'] + zz('nuL', 'dL')
    c['VeuLL'] = D['lq1'] - D['lq3'] + zz('eL', 'uL')
    c['VedLL'] = D['lq1'] + D['lq3'] + zz('eL', 'dL')
    c['VnueduLL'] = 2 * D['lq3'] + w * E('pr,ts->prst', Wl, Wq.conj())
    c['VuuLL'] = D['qq1'] + D['qq3'] + zz('uL', 'uL') / 2
    c['VddLL'] = D['qq1'] + D['qq3'] + zz('dL', 'dL') / 2
    cc = 2 * (D['qq3'] + t(D['qq3'])) + w * E('pr,ts->prst', Wq, Wq.conj())    # (ubar_p d_r)(dbar_s u_t)
    cross = E('ptsr->prst', cc)               # colour-crossed (ubar u)(dbar d) after Fierz
    c['V1udLL'] = D['qq1'] + t(D['qq1']) - D['qq3'] - t(D['qq3']) + zz('uL', 'dL') + cross / 3
    c['V8udLL'] = 2 * cross
    # --- RR
    for a, f, g in (('uu', 'uR', 'uR'), ('dd', 'dR', 'dR')):
        c['V%sRR' % a] = D[a] + zz(f, g) / 2
    c['VeeRR'] = fierz_same(D['ee'] + zz('eR', 'eR') / 2)
    c['VeuRR'] = D['eu'] + zz('eR', 'uR')
    c['VedRR'] = D['ed'] + zz('eR', 'dR')
    c['V1udRR'] = D['ud1'] + zz('uR', 'dR') + (w * E('pt,rs->prst', WR, WR.conj())) / 3
    c['V8udRR'] = D['ud8'] + 2 * w * E('pt,rs->prst', WR, WR.conj())
    # --- LR
    for n, k, a, b in (('VnueLR', 'le', 'nuL', 'eR'), ('VeeLR', 'le', 'eL', 'eR'), ('VnuuLR', 'lu', 'nuL', 'uR'),
                       ('VnudLR', 'ld', 'nuL', 'dR'), ('VeuLR', 'lu', 'eL', 'uR'), ('VedLR', 'ld', 'eL', 'dR'),
                       ('VueLR', 'qe', 'uL', 'eR'), ('VdeLR', 'qe', 'dL', 'eR'), ('V1uuLR', 'qu1', 'uL', 'uR'),
                       ('V1udLR', 'qd1', 'uL', 'dR'), ('V1duLR', 'qu1', 'dL', 'uR'), ('V1ddLR', 'qd1', 'dL', 'dR')):
        c[n] = D[k] + zz(a, b)
    for n, k in (('V8uuLR', 'qu8'), ('V8udLR', 'qd8'), ('V8duLR', 'qu8'), ('V8ddLR', 'qd8')):
        c[n] = D[k]
    c['VnueduLR'] = w * E('pr,ts->prst', Wl, WR.conj())
    c['V1udduLR'] = w * E('pr,ts->prst', Wq, WR.conj())
    # --- scalars, tensors
    c['SedRL'] = c['SnueduRL'] = D['ledq']
    c['SnueduRR'], c['SeuRR'] = D['lequ1'], -D['lequ1']
    c['TnueduRR'], c['TeuRR'] = D['lequ3'], -D['lequ3']
    c['S1udRR'], c['S8udRR'] = D['quqd1'], D['quqd8']
    c['S1udduRR'], c['S8udduRR'] = -t(D['quqd1']), -t(D['quqd8'])
    # --- dipoles
    cw, sw_ = g2 / math.hypot(g1, g2), g1 / math.hypot(g1, g2)
    for f, s in (('e', -1), ('d', -1), ('u', 1)):
        c[f + 'gamma'] = v / math.sqrt(2) * (cw * D[f + 'B'] + s * sw_ * D[f + 'W'])
    c['uG'], c['dG'] = v / math.sqrt(2) * D['uG'], v / math.sqrt(2) * D['dG']
    c['G'], c['Gtilde'] = D['G'], D['Gtilde']
    # --- baryon number violation
    q = D['qqql']
    c['SduuLL'] = c['SuddLL'] = E('rpst->prst', q) - E('rspt->prst', q) + E('srpt->prst', q)
    c['SduuLR'] = -D['qque'] - E('rpst->prst', D['qque'])
    c['SduuRL'], c['SdudRL'] = D['duql'], -D['duql']
    c['SduuRR'] = D['duue']
    return c


def linear_match(d, p, basis='Warsaw up'):
    """{JMS name: value} to linear order in the coefficients d (non-redundant, Warsaw or Warsaw-up basis)"""
    p = physics.full(p, smeft=True)
    C = T.expand_all('SMEFT', d)
    V = physics.ckm(p)
    if basis == 'Warsaw':
        U = {f: I3 for f in 'ulde'}
        U['q'] = V.conj().T
        C = T.rotate(C, U)
    big = max([np.max(np.abs(x)) for x in C.values()] + [0])
    if big == 0:
        return {}
    v2 = 1 / (math.sqrt(2) * p['GF'])
    eps = 1e-4 / v2 / big
    f1 = broken({k: eps * x for k, x in C.items()}, p)
    f2 = broken({k: -eps * x for k, x in C.items()}, p)
    lin = {k: (f1[k] - f2[k]) / (2 * eps) for k in f1}
    lin = rotate_left_down(lin, V)
    return T.reduce_all('WET', {k: x for k, x in lin.items()}, scaled=True)
