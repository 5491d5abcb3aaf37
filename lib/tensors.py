"""Independent model of flavour tensors: index symmetries and fermion field content of the
SMEFT (Warsaw) and WET (JMS) operators.  Written from the operator definitions
(arXiv:1008.4884, arXiv:1709.04486), not from the code under test."""
import functools
import itertools

import numpy as np

import bases

# generators of the symmetry group of each class: (permutation p, sign, conjugate) meaning
# C[i0,i1,..] = sign * C[i_p0, i_p1, ..] (complex conjugated)
GEN = {
    1: [], 3: [],
    2: [((1, 0), 1, True)],
    9: [((1, 0), 1, False)],
    4: [((2, 3, 0, 1), 1, False), ((1, 0, 3, 2), 1, True)],
    41: [((2, 3, 0, 1), 1, False)],
    5: [((1, 0, 3, 2), 1, True)],
    6: [((2, 3, 0, 1), 1, False), ((0, 3, 2, 1), 1, False), ((1, 0, 3, 2), 1, True)],
    7: [((1, 0, 2, 3), 1, False)],
    71: [((1, 0, 2, 3), -1, False)],
}

# field of each flavour index; * = conjugated (barred) field
SMEFT_FIELDS = {
    'uphi': 'q* u', 'dphi': 'q* d', 'ephi': 'l* e',
    'uG': 'q* u', 'uW': 'q* u', 'uB': 'q* u', 'dG': 'q* d', 'dW': 'q* d', 'dB': 'q* d', 'eW': 'l* e', 'eB': 'l* e',
    'phil1': 'l* l', 'phil3': 'l* l', 'phie': 'e* e', 'phiq1': 'q* q', 'phiq3': 'q* q', 'phiu': 'u* u',
    'phid': 'd* d', 'phiud': 'u* d', 'llphiphi': 'l l',
    'll': 'l* l l* l', 'qq1': 'q* q q* q', 'qq3': 'q* q q* q', 'lq1': 'l* l q* q', 'lq3': 'l* l q* q',
    'ee': 'e* e e* e', 'uu': 'u* u u* u', 'dd': 'd* d d* d', 'eu': 'e* e u* u', 'ed': 'e* e d* d',
    'ud1': 'u* u d* d', 'ud8': 'u* u d* d', 'le': 'l* l e* e', 'lu': 'l* l u* u', 'ld': 'l* l d* d',
    'qe': 'q* q e* e', 'qu1': 'q* q u* u', 'qu8': 'q* q u* u', 'qd1': 'q* q d* d', 'qd8': 'q* q d* d',
    'ledq': 'l* e d* q', 'quqd1': 'q* u q* d', 'quqd8': 'q* u q* d', 'lequ1': 'l* e q* u', 'lequ3': 'l* e q* u',
    'duql': 'd u q l', 'qque': 'q q u e', 'qqql': 'q q q l', 'duue': 'd u u e',
}
SMEFT_CLASS = {}
for _k in SMEFT_FIELDS:
    SMEFT_CLASS[_k] = 1 if len(SMEFT_FIELDS[_k].split()) == 2 else 3
for _k in ('phil1', 'phil3', 'phie', 'phiq1', 'phiq3', 'phiu', 'phid'):
    SMEFT_CLASS[_k] = 2
SMEFT_CLASS['llphiphi'] = 9
for _k in ('ll', 'qq1', 'qq3', 'uu', 'dd'):
    SMEFT_CLASS[_k] = 4
SMEFT_CLASS['ee'] = 6
for _k in ('lq1', 'lq3', 'eu', 'ed', 'ud1', 'ud8', 'le', 'lu', 'ld', 'qe', 'qu1', 'qu8', 'qd1', 'qd8'):
    SMEFT_CLASS[_k] = 5
SMEFT_CLASS['qque'] = 7
SMEFT_CLASS['qqql'] = 8

WET_CLASS = {'egamma': 1, 'uG': 1, 'dG': 1, 'ugamma': 1, 'dgamma': 1}
for _k in ('S1udRR S1udduRR S8udRR S8udduRR SedRL SedRR SeuRL SeuRR SnueduRL SnueduRR TedRR TeuRR TnueduRR '
           'V1udduLR V8udduLR VnueduLL VnueduLR SuddLL SduuLL SduuLR SduuRL SdudRL SduuRR').split():
    WET_CLASS[_k] = 3
for _k in 'VuuRR VddRR VuuLL VddLL'.split():
    WET_CLASS[_k] = 4
for _k in 'S1ddRR S1uuRR S8uuRR SeeRR S8ddRR'.split():
    WET_CLASS[_k] = 41
for _k in ('VnueLL VnuuLL VnudLL VeuLL VedLL V1udLL V8udLL VeuRR VedRR V1udRR V8udRR VnueLR VeeLR VnuuLR VnudLR '
           'VeuLR VedLR VueLR VdeLR V1uuLR V8uuLR V1udLR V8udLR V1duLR V8duLR V1ddLR V8ddLR').split():
    WET_CLASS[_k] = 5
for _k in 'VeeLL VeeRR VnunuLL'.split():
    WET_CLASS[_k] = 6
for _k in 'SuudLR SuudRL SdduRL'.split():
    WET_CLASS[_k] = 71

CLASS = {'SMEFT': SMEFT_CLASS, 'WET': WET_CLASS}
BASIS = {'SMEFT': 'Warsaw', 'WET': 'JMS'}


@functools.lru_cache(None)
def reps(eft):
    """{operator: {index tuple: is_real}} of the non-redundant coefficients; () for scalars"""
    out = {}
    for n, r in bases.names(eft, BASIS[eft]).items():
        if '_' in n:
            k, i = n.split('_')
            out.setdefault(k, {})[tuple(int(x) - 1 for x in i)] = r
        else:
            out[n] = {(): True}
    return out


@functools.lru_cache(None)
def group(cls, n):
    """All elements (perm, sign, conj) of the symmetry group (possibly with both signs: then zero)."""
    e = (tuple(range(n)), 1, False)
    seen, todo = {e}, [e]
    while todo:
        p, s, c = todo.pop()
        for q, t, d in GEN[cls]:
            # C[i] = s C[i_p] ; C[j] = t C[j_q]  ->  C[i] = s t C[(i_p)_q]
            x = (tuple(p[a] for a in q), s * t, c != d)
            if x not in seen:
                seen.add(x)
                todo.append(x)
    return sorted(seen)


@functools.lru_cache(None)
def shape(eft, op):
    r = list(reps(eft)[op])
    if r == [()]:
        return ()
    m = [max(i[a] for i in r) + 1 for a in range(len(r[0]))]
    if CLASS[eft][op] == 71:
        m[0] = m[1]
    return tuple(m)


@functools.lru_cache(None)
def orbit_map(eft, op):
    """{full index: (representative index, sign, conj, fixed_real)} and {full index: d}; classes != 8"""
    cls = CLASS[eft][op]
    sh = shape(eft, op)
    g = group(cls, len(sh))
    rp = reps(eft)[op]
    m, d = {}, {}
    for idx in itertools.product(*[range(s) for s in sh]):
        images = {}
        for p, s, c in g:
            images.setdefault(tuple(idx[a] for a in p), set()).add((s, c))
        hit = [j for j in images if j in rp]
        # the dimension-5 coefficient is the symmetric matrix itself: no symmetry factors
        d[idx] = 1 if cls == 9 else len({j for j, x in images.items() if any(not c for _, c in x)})
        zero = (-1, False) in images[idx]
        if zero:
            m[idx] = None
            continue
        assert len(hit) == 1, (eft, op, idx, hit)
        s, c = sorted(images[hit[0]], key=lambda t: t[1])[0]
        m[idx] = (hit[0], s, c, (1, True) in images[idx])
    return m, d


@functools.lru_cache(None)
def _class8():
    """(basis of the symmetric subspace of the quark indices, non-redundant index list)"""
    rel = []
    idx = list(itertools.product(range(3), repeat=3))
    pos = {x: n for n, x in enumerate(idx)}
    for i, j, k in idx:
        v = np.zeros(27)
        v[pos[i, j, k]] += 1
        v[pos[j, i, k]] += 1
        v[pos[k, i, j]] -= 1
        v[pos[k, j, i]] -= 1
        rel.append(v)
    u, s, vt = np.linalg.svd(np.array(rel))
    null = vt[np.sum(s > 1e-10):]
    rp = sorted({i[:3] for i in reps('SMEFT')['qqql']})
    assert len(rp) == len(null), (len(rp), len(null))
    return null, [pos[x] for x in rp], idx


def expand_op(eft, op, vals, scaled):
    """Full tensor of one operator from its non-redundant values {index: number}.
    scaled: with the symmetry factors (the Lagrangian of the full sum equals the one of the
    non-redundant sum), otherwise the representative entries keep their values."""
    cls = CLASS[eft].get(op)
    sh = shape(eft, op)
    if sh == ():
        return complex(vals.get((), 0)).real
    out = np.zeros(sh, dtype=complex)
    if cls == 8:
        null, rp, idx = _class8()
        x = np.zeros((27, 3), dtype=complex)
        for i, v in vals.items():
            x[idx.index(tuple(i[:3])), i[3]] = v
        if scaled:
            y = null.T @ (null @ x)
        else:
            y = null.T @ np.linalg.solve(null[:, rp].T, x[rp])
        return y.reshape(3, 3, 3, 3)
    m, d = orbit_map(eft, op)
    for i, t in m.items():
        if t is None:
            continue
        r, s, c, real = t
        if r not in vals:
            continue
        v = complex(vals[r])
        v = s * (v.conjugate() if c else v)
        if real:
            v = complex(v.real, 0)
        out[i] = v / d[i] if scaled else v
    return out


def split(d):
    """{name: value} -> {op: {index: value}}"""
    out = {}
    for n, v in d.items():
        if '_' in n:
            k, i = n.split('_')
            out.setdefault(k, {})[tuple(int(x) - 1 for x in i)] = v
        else:
            out[n] = {(): v}
    return out


def join(op, idx):
    return op if idx == () else op + '_' + ''.join(str(i + 1) for i in idx)


def expand_all(eft, d, scaled=True, missing=True):
    s = split(d)
    return {op: expand_op(eft, op, s.get(op, {}), scaled) for op in (reps(eft) if missing else s)}


def reduce_op(eft, op, T, scaled):
    """non-redundant values from a symmetric tensor"""
    cls = CLASS[eft].get(op)
    if shape(eft, op) == ():
        return {op: T}
    T = np.asarray(T)
    if cls == 8 and scaled:
        null, rp, idx = _class8()
        # find x supported on the representatives with P x = T
        a = null[:, rp]
        x = np.linalg.solve(a, null @ T.reshape(27, 3))
        return {join(op, tuple(idx[r]) + (l,)): x[n, l] for n, r in enumerate(rp) for l in range(3)}
    out = {}
    m, d = orbit_map(eft, op) if cls != 8 else (None, None)
    for i in reps(eft)[op]:
        out[join(op, i)] = T[i] * (d[i] if scaled and cls != 8 else 1)
    return out


def reduce_all(eft, C, scaled=True):
    out = {}
    for op, T in C.items():
        out.update(reduce_op(eft, op, T, scaled))
    return out


def law_violation(cls, T):
    """Largest violation of the index symmetries of a class."""
    if cls == 8:
        t = np.asarray(T)
        return np.max(np.abs(t + np.einsum('jikl->ijkl', t) - np.einsum('kijl->ijkl', t) - np.einsum('kjil->ijkl', t)))
    w = 0.0
    for p, s, c in GEN.get(cls, []):
        t = s * np.transpose(T, np.argsort(p))
        w = max(w, float(np.max(np.abs(T - (t.conj() if c else t)))))
    return w


def rand_symmetric(rng, cls, n=3):
    """A random tensor obeying the laws of a class (projection of a random tensor)."""
    nd = 2 if cls in (1, 2, 9) else 4
    T = rng.normal(size=(n,) * nd) + 1j * rng.normal(size=(n,) * nd)
    if cls == 8:
        null, rp, idx = _class8()
        return (null.T @ (null @ T.reshape(27, 3))).reshape(3, 3, 3, 3)
    out, g = 0, group(cls, nd)
    for p, s, c in g:
        t = s * np.transpose(T, np.argsort(p))
        out = out + (t.conj() if c else t)
    return out / len(g)


def rotate(C, U, n=None):
    """Rotate every SMEFT coefficient tensor: C'_{ab..} = prod(U_f[i,a] or conj) C_{ij..}"""
    out = {}
    for op, T in C.items():
        f = SMEFT_FIELDS.get(op)
        if f is None:
            out[op] = T
            continue
        t = np.asarray(T)
        for ax, x in enumerate(f.split()):
            u = U[x[0]]
            u = u.conj() if x.endswith('*') else u
            t = np.moveaxis(np.tensordot(t, u, axes=(ax, 0)), -1, ax)
        out[op] = t
    return out


def unitary(rng, n=3, special=None):
    """Haar-random unitary matrix, or a special one."""
    if special == 'identity':
        return np.eye(n, dtype=complex)
    if special == 'phases':
        return np.diag(np.exp(2j * np.pi * rng.random(n)))
    if special == 'perm':
        return np.eye(n, dtype=complex)[rng.permutation(n)]
    z = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
    q, r = np.linalg.qr(z)
    u = q * (np.diag(r) / np.abs(np.diag(r)))
    if special == 'real':
        q, r = np.linalg.qr(rng.normal(size=(n, n)))
        return (q * np.sign(np.diag(r))).astype(complex)
    return u
