"""C06: flavour rotations act on every SMEFT operator as the U(3)^5 group."""
import numpy as np
from hypothesis import strategies as st

from harness import Sub, check, Violation
import bases
import gen
import tensors as T

NEEDS_REF = False
ASSUMPTIONS = ['the fermion field of every flavour index is taken from the published operator definitions '
               '(table in lib/tensors.py)']
F = 'qudle'
KINDS = ['haar', 'haar', 'identity', 'phases', 'perm', 'real', 'ckm']


def rot(C, U):
    from wilson.util import smeft_warsaw
    return smeft_warsaw.flavor_rotation(C, U['q'], U['u'], U['d'], U['l'], U['e'])


def rotkw(C, U):
    from wilson.util import smeft_warsaw
    return smeft_warsaw.flavor_rotation(C, Uq=U['q'], Uu=U['u'], Ud=U['d'], Ul=U['l'], Ue=U['e'])


def unitaries(kinds, rng):
    out = {}
    for f, k in zip(F, kinds):
        if k == 'ckm':
            import ckmutil
            out[f] = ckmutil.ckm.ckm_tree(0.2 + 0.05 * rng.random(), 0.003 + 0.002 * rng.random(), 0.04, 6 * rng.random())
        else:
            out[f] = T.unitary(rng, 3, None if k == 'haar' else k)
    return out


@st.composite
def cases(draw):
    ops = draw(st.one_of(st.none(), st.lists(st.sampled_from(sorted(T.SMEFT_CLASS)), min_size=1, max_size=6, unique=True)))
    return {'ops': ops, 'seed': draw(gen.seeds()),
            'kinds': [draw(st.sampled_from(KINDS)) for _ in F],
            'data': draw(st.sampled_from(['random', 'symmetric', 'file', 'real', 'unit'])),
            'scalars': draw(st.lists(st.sampled_from(['G', 'W', 'phi', 'phiBox', 'phiD', 'phiB', 'phiWtildeB', 'Gtilde', 'phiG']), max_size=4, unique=True))}


def tensors(c, rng):
    ops = c['ops'] if c['ops'] is not None else sorted(T.SMEFT_CLASS)
    C = {}
    for op in ops:
        sh = T.shape('SMEFT', op)
        if c['data'] == 'symmetric':
            C[op] = T.rand_symmetric(rng, T.SMEFT_CLASS[op])
        elif c['data'] == 'file':
            C[op] = T.expand_op('SMEFT', op, {i: (rng.normal() if r else complex(*rng.normal(size=2)))
                                              for i, r in T.reps('SMEFT')[op].items() if rng.random() < 0.5}, True)
        elif c['data'] == 'real':
            C[op] = rng.normal(size=sh)
        elif c['data'] == 'unit':
            C[op] = np.zeros(sh, dtype=complex)
            C[op][tuple(rng.integers(0, 3, len(sh)))] = complex(*rng.normal(size=2))
        else:
            C[op] = rng.normal(size=sh) + 1j * rng.normal(size=sh)
    for s in c['scalars']:
        C[s] = float(rng.normal())
    return C


def body(c, ctx):
    rng = np.random.default_rng(c['seed'])
    C = tensors(c, rng)
    U = unitaries(c['kinds'], rng)
    C0 = {k: np.array(v) for k, v in C.items()}
    U0 = {k: np.array(v) for k, v in U.items()}
    ctx.nontrivial(any(k != 'identity' for k in c['kinds']))
    ctx.label(c['data'])
    R = rot(C, U)
    for k in C:
        check(np.array_equal(C[k], C0[k]), lambda: 'the rotation modified its input %s' % k)
    for f in F:
        check(np.array_equal(U[f], U0[f]), 'the rotation modified a rotation matrix')
    check(set(R) == set(C), lambda: 'operators appeared or disappeared: %r' % sorted(set(R) ^ set(C)))
    gen.same(R, T.rotate(C0, U), 'rotated tensor', rtol=1e-11)
    for s in c['scalars']:
        check(R[s] == C[s], lambda: 'bosonic coefficient %s changed' % s)
    gen.same(rotkw(C, U), R, 'rotation with named arguments', rtol=1e-14)
    # identity
    I = {f: np.eye(3) for f in F}
    gen.same(rot(C, I), C0, 'rotation by the identity', rtol=1e-13)
    # inverse and composition
    inv = {f: u.conj().T for f, u in U.items()}
    gen.same(rot(R, inv), C0, 'inverse rotation', rtol=1e-11)
    W = unitaries(list(reversed(c['kinds'])), rng)
    gen.same(rot(R, W), rot(C, {f: U[f] @ W[f] for f in F}), 'composition of two rotations', rtol=1e-11)
    # laws
    for op, t in R.items():
        cls = T.SMEFT_CLASS.get(op)
        if cls is None:
            continue
        n0, n1 = np.linalg.norm(C0[op]), np.linalg.norm(t)
        check(abs(n0 - n1) <= 1e-11 * n0, lambda: 'norm of %s changed from %g to %g' % (op, n0, n1))
        if c['data'] in ('symmetric', 'file'):
            check(T.law_violation(cls, t) <= 1e-11 * max(n0, 1e-300), lambda: 'rotated %s violates its index symmetry' % op)
    # one operator at a time
    for op in list(C)[:: max(1, len(C) // 6)]:
        one = rot({op: C[op]}, U)
        check(set(one) == {op}, lambda: 'rotating only %s gives %r' % (op, sorted(one)))
        check(np.max(np.abs(one[op] - R[op])) <= 1e-13 * max(np.max(np.abs(R[op])), 1e-300), lambda: 'result for %s depends on other operators' % op)


@st.composite
def lin(draw):
    return {'seed': draw(gen.seeds()), 'a': draw(gen.factors()), 'b': draw(gen.factors()), 'field': draw(st.sampled_from(list(F))),
            'ph': draw(st.floats(-3.1, 3.1))}


def body_linear(c, ctx):
    """complex-linear, and a phase of one field multiplies each operator by its charge"""
    rng = np.random.default_rng(c['seed'])
    U = unitaries(['haar'] * 5, rng)
    A = tensors({'ops': None, 'data': 'random', 'scalars': []}, rng)
    B = tensors({'ops': None, 'data': 'random', 'scalars': []}, rng)
    z = c['a'] + 1j * c['b']
    RA, RB = rot(A, U), rot(B, U)
    RC = rot({k: z * A[k] + B[k] for k in A}, U)
    gen.same(RC, {k: z * RA[k] + RB[k] for k in A}, 'linearity', rtol=1e-10)
    P = {f: np.eye(3, dtype=complex) for f in F}
    P[c['field']] = np.exp(1j * c['ph']) * np.eye(3)
    RP = rot(A, P)
    for k, t in A.items():
        q = sum((-1 if x.endswith('*') else 1) for x in T.SMEFT_FIELDS[k].split() if x[0] == c['field'])
        check(np.max(np.abs(RP[k] - np.exp(1j * q * c['ph']) * t)) <= 1e-11 * np.max(np.abs(t)),
              lambda: 'phase rotation of %s: %s does not have charge %d' % (c['field'], k, q))
    ctx.label(c['field'])


@st.composite
def full(draw):
    return {'seed': draw(gen.seeds()), 'kinds': [draw(st.sampled_from(KINDS)) for _ in F], 'ops': draw(st.one_of(st.none(), st.lists(
        st.sampled_from(sorted(T.SMEFT_CLASS)), min_size=1, max_size=8, unique=True))), 'sm': draw(st.booleans()), 'data': 'random', 'scalars': []}


def body_full(c, ctx):
    """the rotation used in the running: all coefficients together with the Standard Model parameters"""
    from wilson.run.smeft import SMEFT
    from wilson.util import smeftutil
    f = getattr(SMEFT, '_flavor_rotation', None)
    if f is None:       # no part of the public interface
        ctx.nontrivial(False)
        return
    rng = np.random.default_rng(c['seed'])
    U = unitaries(c['kinds'], rng)
    C = {k: (np.zeros(s, complex) if s != 1 else 0j) for k, s in smeftutil.C_keys_shape.items()}
    C.update(tensors(c, rng))
    for k, s in smeftutil.C_keys_shape.items():
        if s == 1:
            C[k] = float(rng.normal())
    for k in ('Gu', 'Gd', 'Ge'):
        C[k] = rng.normal(size=(3, 3)) + 1j * rng.normal(size=(3, 3))
    C0 = {k: np.array(v) for k, v in C.items()}
    kw = {} if c['sm'] else {'sm_parameters': False}
    R = f(C, Uq=U['q'], Uu=U['u'], Ud=U['d'], Ul=U['l'], Ue=U['e'], **kw)
    ctx.nontrivial(any(k != 'identity' for k in c['kinds']))
    for k in C:
        check(np.array_equal(C[k], C0[k]), lambda: 'the rotation modified its input %s' % k)
    dim4 = set(smeftutil.dim4_keys)
    check(set(R) == (set(C) if c['sm'] else set(C) - dim4), lambda: 'parameters: %s' % sorted(set(R) ^ set(C)))
    gen.same({k: R[k] for k in T.SMEFT_CLASS if k in C}, T.rotate({k: C0[k] for k in T.SMEFT_CLASS if k in C}, U), 'rotated tensor', rtol=1e-11)
    for k in R:
        if k not in T.SMEFT_CLASS and k not in ('Gu', 'Gd', 'Ge'):
            check(R[k] == C[k], lambda: 'parameter %s changed' % k)
    for k, a, b in (('Gu', 'q', 'u'), ('Gd', 'q', 'd'), ('Ge', 'l', 'e')) if c['sm'] else ():
        check(np.max(np.abs(R[k] - U[a].conj().T @ C0[k] @ U[b])) <= 1e-12 * np.max(np.abs(C0[k])), lambda: 'Yukawa coupling %s' % k)


SUBS = [
    Sub('group', cases, body, 350, 5000, rule='at least one of the five matrices is not the identity',
        examples=[{'ops': None, 'seed': s, 'kinds': ['haar'] * 5, 'data': d, 'scalars': ['G', 'phi']}
                  for s in (1, 2) for d in ('random', 'symmetric', 'file', 'real', 'unit')]),
    Sub('full', full, body_full, 300, 2000, rule='at least one of the five matrices is not the identity'),
    Sub('linear', lin, body_linear, 200, 1500, rule='all'),
]
