"""Exact lepton-flavour symmetries of SMEFT -> WET matching and of WET running: independent rephasing of every lepton family, and
exchange of two lepton families together with their masses.  Works on dictionaries of named (non-redundant) coefficients."""
import numpy as np

import tensors as T


def wet_fields(op):
    """[(field, -1 if barred else 1)] per index, in the conventions of the JMS basis"""
    if op in ('G', 'Gtilde'):
        return []
    if op in ('egamma', 'ugamma', 'dgamma', 'uG', 'dG'):
        return [(op[0], -1), (op[0], 1)]
    if op.startswith('S') and op[1:4] in ('duu', 'udd', 'uud', 'dud', 'ddu', 'ddd') and len(op) == 6:
        lepton = 'e' if op[1:4].count('u') == 2 else 'nu'          # baryon-number violation: last index is the lepton
        return [(q, 1) for q in op[1:4]] + [(lepton, 1)]
    body, f = op[1:-2].lstrip('18'), []
    while body:
        n = 2 if body.startswith('nu') else 1
        f.append(body[:n])
        body = body[n:]
    if len(f) == 2:
        f = [f[0], f[0], f[1], f[1]]
    return [(x, -1 if i % 2 == 0 else 1) for i, x in enumerate(f)]


def transform_wet(d, U, eft='WET'):
    """JMS coefficients after the lepton fields (left- and right-handed) are replaced, psi_i = U_ia psi'_a"""
    out = {}
    for op, x in T.expand_all(eft, d).items():
        x = np.asarray(x, complex)
        for ax, (f, s) in enumerate(wet_fields(op)):
            if f in ('e', 'nu'):
                x = np.moveaxis(np.tensordot(x, U if s > 0 else U.conj(), axes=(ax, 0)), -1, ax)
        out[op] = x
    return T.reduce_all(eft, out)


def transform_smeft(d, U):
    """the same for SMEFT coefficients (Warsaw or Warsaw-up basis)"""
    r = {f: np.eye(3) for f in 'qud'}
    r['l'] = r['e'] = U
    return T.reduce_all('SMEFT', T.rotate(T.expand_all('SMEFT', d), r))


def rephasing(phases):
    return np.diag(np.exp(1j * np.asarray(phases, float)))


EMU = np.array([[0, 1, 0], [1, 0, 0], [0, 0, 1]], complex)


def swap_masses(p):
    """input parameters with the electron and muon masses exchanged"""
    return dict(p, m_e=p['m_mu'], m_mu=p['m_e'])
