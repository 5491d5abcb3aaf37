"""One-loop anomalous dimensions of four-fermion operators from photon and gluon exchange between their legs, computed numerically
from the Dirac and colour algebra (no penguin diagrams).  Independent of the tables in the code under test."""
import functools
import itertools

import numpy as np

import bases
import flavsym

# Dirac matrices in the chiral representation
_s = [np.eye(2), np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.array([[1, 0], [0, -1]])]
_Z = np.zeros((2, 2))
G = [np.block([[_Z, _s[0]], [_s[0], _Z]])] + [np.block([[_Z, _s[i]], [-_s[i], _Z]]) for i in (1, 2, 3)]
METRIC = [1, -1, -1, -1]
G5 = 1j * G[0] @ G[1] @ G[2] @ G[3]
P = {'L': (np.eye(4) - G5) / 2, 'R': (np.eye(4) + G5) / 2}
# charge conjugation: psi^T C
CC = 1j * G[2] @ G[0]
# Gell-Mann matrices / 2
_l = np.zeros((8, 3, 3), complex)
_l[0][0, 1] = _l[0][1, 0] = 1
_l[1][0, 1], _l[1][1, 0] = -1j, 1j
_l[2][0, 0], _l[2][1, 1] = 1, -1
_l[3][0, 2] = _l[3][2, 0] = 1
_l[4][0, 2], _l[4][2, 0] = -1j, 1j
_l[5][1, 2] = _l[5][2, 1] = 1
_l[6][1, 2], _l[6][2, 1] = -1j, 1j
_l[7] = np.diag([1, 1, -2]) / np.sqrt(3)
TA = _l / 2
CHARGE = {'u': 2 / 3, 'd': -1 / 3, 'e': -1.0, 'nu': 0.0}
EPS = np.zeros((3, 3, 3))
for _p in itertools.permutations(range(3)):
    EPS[_p] = np.linalg.det(np.eye(3)[list(_p)])


def dirac(kind, a, b):
    """sum of Gamma (x) Gamma' with the chiralities of the plain legs"""
    if kind == 'V':
        return sum(m * np.einsum('ab,cd->abcd', g @ P[a], g @ P[b]) for g, m in zip(G, METRIC))
    if kind == 'S':
        return np.einsum('ab,cd->abcd', P[a], P[b])
    out = 0
    for m in range(4):
        for n in range(4):
            s = 0.5j * (G[m] @ G[n] - G[n] @ G[m])
            out = out + METRIC[m] * METRIC[n] * np.einsum('ab,cd->abcd', s @ P[a], s @ P[b])
    return out


def colour(legs, octet):
    n = [3 if f in 'ud' else 1 for f in legs]
    if octet:
        return np.einsum('Aij,Akl->ijkl', TA, TA)
    return np.einsum('ij,kl->ijkl', np.eye(n[0]), np.eye(n[2]))


class Operator:
    """fields: four (family, index, chirality); tensor[spin*colour of each leg]; legs 0 and 2 are barred"""

    def __init__(self, name):
        op, _, idx = name.partition('_')
        f = [x for x, _ in flavsym.wet_fields(op)]
        idx = [int(i) for i in idx]
        chir, kind = op[-2:], op[0]
        self.bnv = all(s == 1 for _, s in flavsym.wet_fields(op))
        if self.bnv:
            # (q1^T C P q2)(q3^T C P l) eps
            d = np.einsum('ab,cd->abcd', CC @ P[chir[0]], CC @ P[chir[1]])
            c = EPS[:, :, :, None]
            ch = [chir[0], chir[0], chir[1], chir[1]]
        else:
            d = dirac(kind, *chir)
            c = colour(f, op[1] == '8')
            flip = {'L': 'R', 'R': 'L'}
            a, b = chir
            ch = [a, a, b, b] if kind == 'V' else [flip[a], a, flip[b], b]
        n = c.shape
        t = np.einsum('abcd,ijkl->aibjckdl', d, c).reshape([4 * k for k in n])
        self.tensor, self.legs = t, [(f[i], idx[i], ch[i]) for i in range(4)]

    def key(self):
        if self.bnv:
            return ('b',) + tuple(sorted(self.legs))
        return (tuple(sorted([self.legs[0], self.legs[2]])), tuple(sorted([self.legs[1], self.legs[3]])))

    def canonical(self, t):
        """tensor with the legs in sorted order, antisymmetrised over legs with the same field"""
        pos = [[0, 1, 2, 3]] if self.bnv else [[0, 2], [1, 3]]
        for p in pos:
            t = _antisym(t, self.legs, p)
        return t.ravel()


def _parity(q):
    return -1 if sum(q[i] > q[j] for i in range(len(q)) for j in range(i + 1, len(q))) % 2 else 1


def _antisym(t, legs, p):
    target = sorted(legs[i] for i in p)
    out, n = 0, 0
    for q in itertools.permutations(range(len(p))):
        if [legs[p[i]] for i in q] != target:
            continue
        ax = list(range(4))
        for i, j in enumerate(q):
            ax[p[i]] = p[j]
        out, n = out + _parity(q) * np.transpose(t, ax), n + 1
    return out / n


def _legmats(op, i, gauge):
    """(couplings, matrices) of a leg: list over gauge generators"""
    f = op.legs[i][0]
    bar = i in (0, 2)
    conj = op.bnv and bar                         # psi^T C behaves like the barred charge-conjugate field
    if gauge == 'e':
        n = 3 if f in 'ud' else 1
        return [np.eye(n) * CHARGE[f] * (-1 if conj else 1)]
    if f not in 'ud':
        return None
    return [(-x.T if conj else x) for x in TA]


def _apply(t, i, m):
    return np.moveaxis(np.tensordot(m, t, axes=(1, i)), 0, i)


def divergence(op, gauge):
    """coefficient of alpha/(4 pi) 1/epsilon in Feynman gauge"""
    t = op.tensor
    out = np.zeros_like(t, dtype=complex)
    cf = 4 / 3
    for i in range(4):
        f = op.legs[i][0]
        out = out - 0.5 * (CHARGE[f] ** 2 if gauge == 'e' else (cf if f in 'ud' else 0)) * t
    for i, j in itertools.combinations(range(4), 2):
        a, b = _legmats(op, i, gauge), _legmats(op, j, gauge)
        if a is None or b is None or not np.any(a) or not np.any(b):
            continue
        bi, bj = i in (0, 2), j in (0, 2)
        sign = -1 if bi == bj else 1
        for x, y in zip(a, b):
            for m in range(4):
                for n in range(4):
                    # barred leg: gamma^m gamma^n from the left, other leg: gamma^n gamma^m from the right
                    left = CC @ G[m] @ G[n] @ np.linalg.inv(CC) if op.bnv else G[m] @ G[n]
                    mat = lambda bar, c: np.kron(left, c) if bar else np.kron(G[n] @ G[m], c).T       # noqa: E731
                    out = out + sign / 4 * METRIC[m] * METRIC[n] * _apply(_apply(t, i, mat(bi, x)), j, mat(bj, y))
    return out


@functools.lru_cache(None)
def adm(names, gauge):
    """gamma (dC_j/dlnmu = alpha/(4 pi) sum_i C_i gamma_ij) for the named JMS coefficients"""
    ops = [Operator(n) for n in names]
    g = np.zeros((len(ops), len(ops)))
    groups = {}
    for i, o in enumerate(ops):
        groups.setdefault(o.key(), []).append(i)
    for idx in groups.values():
        B = np.array([ops[i].canonical(ops[i].tensor) for i in idx]).T
        for i in idx:
            d = ops[i].canonical(divergence(ops[i], gauge))
            x, res = np.linalg.lstsq(B, d, rcond=None)[:2]
            r = np.max(np.abs(B @ x - d))
            if np.linalg.matrix_rank(B, tol=1e-9) < len(idx) or r > 1e-9 or np.max(np.abs(x.imag)) > 1e-9:
                raise ValueError('operators %s do not form a basis (%g)' % ([names[k] for k in idx], r))
            g[i, idx] = -2 * x.real
    return g


def sector(eft, name):
    return tuple(sorted(bases.sectors(eft, 'JMS')[name]))
