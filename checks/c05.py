"""C05: index symmetries - file form and full tensors of coefficients agree."""
import numpy as np
from hypothesis import strategies as st

from harness import Sub, check, Violation
import bases
import gen
import tensors as T

NEEDS_REF = False
ASSUMPTIONS = ['the symmetry class of every operator is taken from the published operator definitions (table in '
               'lib/tensors.py); the non-redundant coefficient names are those of the basis files']

EFTS = ('SMEFT', 'WET')


def util(eft):
    import wilson.util as u
    return u.smeftutil if eft == 'SMEFT' else u.wetutil


def dim4(eft):
    return (['g', 'gp', 'gs', 'Lambda', 'm2'], {'Gu': 3, 'Gd': 3, 'Ge': 3}) if eft == 'SMEFT' else \
        (['e', 'gs'], {'Md': 3, 'Mu': 2, 'Me': 3, 'Mnu': 3})


@st.composite
def coeffs(draw):
    eft = draw(st.sampled_from(EFTS))
    return {'eft': eft, 'C': draw(gen.wcset(eft, T.BASIS[eft], exp=draw(st.sampled_from([0, 0, -6, -12, 3])), max_size=12))}


def _copy(C):
    return {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in C.items()}


def _unchanged(C, C0, what):
    check(set(C) == set(C0), what + ' changed the keys of its input')
    for k in C:
        check(np.array_equal(np.asarray(C[k]), np.asarray(C0[k])), lambda: '%s modified its input %s' % (what, k))


def laws(eft, C, what, tol=1e-12):
    for op, t in C.items():
        cls = T.CLASS[eft].get(op)
        if cls is None:
            check(np.imag(t) == 0, lambda: '%s: scalar %s is not real' % (what, op))
        elif eft == 'SMEFT' or min(np.shape(t)) == 3 or cls in (5, 4, 41, 6, 71):
            if cls in (4, 41, 6, 7) and len(set(np.shape(t))) > 1:
                raise Violation('%s: %s has shape %s' % (what, op, np.shape(t)))
            b = float(np.max(np.abs(t))) if np.size(t) else 0
            w = T.law_violation(cls, np.asarray(t))
            check(w <= tol * max(b, 1e-300), lambda: '%s: %s violates its index symmetry by %g' % (what, op, w))


def body_expand(c, ctx):
    eft = c['eft']
    u = util(eft)
    d = gen.expand(c['C'], eft, T.BASIS[eft])
    d0 = dict(d)
    ctx.nontrivial(any(v != 0 for v in d.values()))
    for k in sorted({k.split('_')[0] for k in d}):
        ctx.label('class %s' % T.CLASS[eft].get(k, 0))
    # with symmetry factors
    got = u.wcxf2arrays_symmetrized(d)
    check(d == d0, 'wcxf2arrays_symmetrized modified its input')
    check(set(got) == set(T.reps(eft)), lambda: 'full tensors for %r missing/extra' % sorted(set(got) ^ set(T.reps(eft))))
    exp = T.expand_all(eft, d, scaled=True)
    for op in exp:
        check(np.shape(got[op]) == np.shape(exp[op]), lambda: 'tensor %s has shape %s' % (op, np.shape(got[op])))
    gen.same(got, exp, 'full tensor (symmetry factors)', rtol=1e-12)
    laws(eft, got, 'wcxf2arrays_symmetrized')
    # and back
    keep = _copy(got)
    back = u.arrays2wcxf_nonred(got)
    _unchanged(got, keep, 'arrays2wcxf_nonred')
    names = bases.names(eft, T.BASIS[eft])
    for k, v in back.items():
        check(k in names, lambda: 'reduced form has the undefined coefficient %s' % k)
        check(np.ndim(v) == 0, lambda: 'reduced coefficient %s is not a number' % k)
        # class 8 coefficients are combinations of several entries: rounding residues may appear
        check(v != 0, lambda: 'reduced form lists a zero coefficient %s' % k)
    gen.same(back, d, 'reduce(expand(C))', rtol=1e-12)
    for op, v in T.split(back).items():
        if T.CLASS[eft].get(op) != 8:
            for i in v:
                check(d.get(T.join(op, i), 0) != 0, lambda: 'reduced form has a coefficient that was not there: %s' % T.join(op, i))
    # without symmetry factors
    arr = u.wcxf2arrays(d)
    ops = {k.split('_')[0] for k in d}
    check(set(arr) == ops, lambda: 'wcxf2arrays: operators %r' % sorted(set(arr) ^ ops))
    for op, vals in T.split(d).items():
        a = np.zeros(T.shape(eft, op), dtype=complex) if T.shape(eft, op) else None
        if a is None:
            check(complex(arr[op]) == complex(vals[()]), 'wcxf2arrays: scalar %s' % op)
        else:
            for i, v in vals.items():
                a[i] = v
            check(np.array_equal(np.asarray(arr[op]), a), lambda: 'wcxf2arrays: %s' % op)
    keep = _copy(arr)
    sym = u.symmetrize(arr)
    _unchanged(arr, keep, 'symmetrize')
    check(set(sym) == ops, 'symmetrize changed the set of operators')
    gen.same(sym, T.expand_all(eft, d, scaled=False, missing=False), 'symmetrize', rtol=1e-12)
    laws(eft, sym, 'symmetrize')
    again = u.symmetrize(_copy(sym))
    gen.same(again, sym, 'symmetrize twice', rtol=1e-12)
    flat = u.arrays2wcxf(sym)
    for k, v in d.items():
        check(abs(flat.get(k, 0) - v) <= 1e-12 * abs(v), lambda: 'symmetrize lost the value of %s: %s' % (k, flat.get(k)))
    nr = u.symmetrize_nonred(arr)
    _unchanged(arr, keep, 'symmetrize_nonred')
    check(set(nr) == ops, 'symmetrize_nonred changed the set of operators')
    gen.same(nr, {k: exp[k] for k in ops}, 'symmetrize_nonred', rtol=1e-12)
    full = u.add_missing(nr)
    check(set(nr) == ops, 'add_missing modified its input')
    gen.same(full, exp, 'add_missing', rtol=1e-12)


@st.composite
def packs(draw):
    return {'eft': draw(st.sampled_from(EFTS)), 'seed': draw(gen.seeds()), 'complex': draw(st.booleans()),
            'symmetric': draw(st.booleans())}


def body_pack(c, ctx):
    """flat vectors, padding, plain index form: lossless for arbitrary tensors"""
    eft = c['eft']
    u = util(eft)
    rng = np.random.default_rng(c['seed'])
    scal, mats = dim4(eft)
    C = {k: float(rng.normal()) for k in scal}
    C.update({k: rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n)) for k, n in mats.items()})
    for op in T.reps(eft):
        sh = T.shape(eft, op)
        C[op] = rng.normal(size=sh) + (1j * rng.normal(size=sh) if c['complex'] else 0) if sh else float(rng.normal())
    if c['symmetric']:
        C.update(T.expand_all(eft, {n: (rng.normal() if r else complex(*rng.normal(size=2)))
                                    for n, r in bases.names(eft, T.BASIS[eft]).items()}))
    keep = _copy(C)
    check(set(u.C_keys) == set(C) and len(u.C_keys) == len(C), 'C_keys')
    vec = u.C_dict2array(C)
    _unchanged(C, keep, 'C_dict2array')
    n = sum(int(np.size(v)) for v in C.values())
    check(np.shape(vec) == (n,), lambda: 'flat vector has shape %s, expected %d' % (np.shape(vec), n))
    back = u.C_array2dict(vec)
    check(set(back) == set(C), 'C_array2dict: keys')
    for k in C:
        check(np.shape(back[k]) == np.shape(C[k]) and np.array_equal(back[k], C[k]), lambda: 'vector form changed %s' % k)
    w = rng.normal(size=n)
    check(np.array_equal(u.C_dict2array(u.C_array2dict(w)), w), 'C_dict2array(C_array2dict(v)) != v')
    # padding
    p = u.pad_C(C)
    _unchanged(C, keep, 'pad_C')
    check(set(p) == set(C), 'pad_C lost a key')
    for k, v in C.items():
        if np.ndim(v) == 0:
            check(p[k] == v, 'pad_C changed the number %s' % k)
            continue
        check(np.shape(p[k]) == (3,) * np.ndim(v), lambda: 'padded %s has shape %s' % (k, np.shape(p[k])))
        q = np.zeros((3,) * v.ndim, dtype=complex)
        q[tuple(slice(0, s) for s in v.shape)] = v
        check(np.array_equal(p[k], q), lambda: 'pad_C changed %s' % k)
    q = u.unpad_C(p)
    for k in C:
        check(np.shape(q[k]) == np.shape(C[k]) and np.array_equal(q[k], C[k]), lambda: 'unpad(pad) changed %s' % k)
    p1 = u.pad_C(C, fill_value=1)
    pf = u.pad_C(C, fill_value=2.5)
    if eft == 'WET':
        for f, pp in ((1, p1), (2.5, pf)):
            m = pp['Mu']
            check(np.all(m[2] == f) and np.all(m[:, 2] == f) and np.array_equal(m[:2, :2], C['Mu']), 'padding with %s' % f)
    # plain (redundant) index form
    d = u.arrays2wcxf(C)
    check(len(d) == n, lambda: 'arrays2wcxf: %d entries of %d' % (len(d), n))
    for k, v in C.items():
        for i in np.ndindex(*np.shape(v)):
            key = T.join(k, i)
            check(d.get(key) == (v[i] if i else v), lambda: 'arrays2wcxf: %s' % key)
    e = u.wcxf2arrays(d)
    for k in C:
        check(np.array_equal(np.asarray(e[k]), np.asarray(C[k])), lambda: 'wcxf2arrays(arrays2wcxf) changed %s' % k)
    ctx.label(eft)


@st.composite
def statics(draw):
    return {'cls': draw(st.sampled_from([2, 9, 4, 41, 5, 6, 7, 71, 8])), 'seed': draw(gen.seeds()),
            'what': draw(st.sampled_from(['random', 'random', 'symmetric', 'unit', 'integers', 'ones'])),
            'nan': draw(st.integers(0, 4)) == 0}


# an operator with the complete non-redundant index set of each class
REP = {2: ('SMEFT', 'phil1'), 9: ('SMEFT', 'llphiphi'), 4: ('SMEFT', 'qq1'), 41: ('WET', 'S1ddRR'),
       5: ('SMEFT', 'lq1'), 6: ('SMEFT', 'ee'), 7: ('SMEFT', 'qque'), 71: ('WET', 'SdduRL'), 8: ('SMEFT', 'qqql')}


def _rep(cls):
    eft, op = REP[cls]
    r = T.reps(eft)[op]
    if cls == 71:       # the third and fourth index run over three values here
        r = {(i, j, k, l): False for (i, j) in {x[:2] for x in r} for k in range(3) for l in range(3)}
    return r


def body_static(c, ctx):
    """the symmetrisation of each class of tensors, on arbitrary input"""
    from wilson.util.common import EFTutil
    cls = c['cls']
    f = getattr(EFTutil, 'symmetrize_%d' % cls)
    rng = np.random.default_rng(c['seed'])
    nd = 2 if cls in (2, 9) else 4
    sh = (3,) * nd
    if c['what'] == 'symmetric':
        t = T.rand_symmetric(rng, cls)
    elif c['what'] == 'unit':
        t = np.zeros(sh, dtype=complex)
        t[tuple(rng.integers(0, 3, nd))] = rng.normal() + 1j * rng.normal()
    elif c['what'] == 'integers':
        t = rng.integers(-3, 4, sh)             # integer input
    elif c['what'] == 'ones':
        t = rng.normal(size=sh)                 # real input
    else:
        t = rng.normal(size=sh) + 1j * rng.normal(size=sh)
    if cls == 71:       # entries that are not coefficients (they vanish by antisymmetry) are zero on input
        for i in range(3):
            t[i, i] = 0
    t0 = np.array(t)
    s = f(t)
    check(np.array_equal(t, t0), 'symmetrize_%d modified its input' % cls)
    check(np.shape(s) == sh and np.iscomplexobj(s), 'shape or type')
    b = float(np.max(np.abs(t0)))
    check(T.law_violation(cls, s) <= 1e-13 * b, lambda: 'symmetrize_%d: the result violates the symmetry by %g' % (cls, T.law_violation(cls, s)))
    for i, real in _rep(cls).items():
        e = t0[i].real if real else t0[i]
        check(abs(s[i] - e) <= 1e-13 * b, lambda: 'symmetrize_%d changed the entry %s from %s to %s' % (cls, i, e, s[i]))
    check(np.max(np.abs(f(s) - s)) <= 1e-13 * b, 'symmetrize_%d is not idempotent' % cls)
    if c['what'] == 'symmetric':
        check(np.max(np.abs(s - t0)) <= 1e-13 * b, 'symmetrize_%d changed a symmetric tensor' % cls)
    if cls == 8:
        check(np.max(np.abs(EFTutil.unscale_8(T_rep(EFTutil.scale_8(t0))) - T_rep(t0))[MASK8()]) <= 1e-13 * b,
              'unscale_8 is not the inverse of scale_8')
        z = np.where(MASK8(), t0, 0)
        p = f(EFTutil.scale_8(z))
        e = T.expand_op('SMEFT', 'qqql', {i: z[i] for i in T.reps('SMEFT')['qqql']}, True)
        check(np.max(np.abs(p - e)) <= 1e-13 * b, 'scale_8 and symmetrize_8 are not the projection on the symmetric tensors')
    ctx.label('class %d %s' % (cls, c['what']))


def T_rep(t):
    return t


def MASK8():
    m = np.zeros((3, 3, 3, 3), dtype=bool)
    for i in T.reps('SMEFT')['qqql']:
        m[i] = True
    return m


@st.composite
def full(draw):
    return {'eft': draw(st.sampled_from(EFTS)), 'seed': draw(gen.seeds()), 'exp': draw(st.sampled_from([0, -8, 4]))}


def body_symmetric(c, ctx):
    """symmetric tensors -> file form -> the same tensors; symmetrising changes nothing"""
    eft = c['eft']
    u = util(eft)
    rng = np.random.default_rng(c['seed'])
    C = {}
    for op in T.reps(eft):
        sh = T.shape(eft, op)
        if not sh:
            C[op] = float(rng.normal()) * 10. ** c['exp']
            continue
        t = T.rand_symmetric(rng, T.CLASS[eft][op])
        C[op] = t[tuple(slice(0, s) for s in sh)] * 10. ** c['exp']
    keep = _copy(C)
    s = u.symmetrize(C)
    gen.same(s, keep, 'symmetrising symmetric tensors', rtol=1e-12)
    d = u.arrays2wcxf_nonred(C)
    gen.same(d, T.reduce_all(eft, keep), 'non-redundant coefficients of symmetric tensors', rtol=1e-12)
    names = bases.names(eft, T.BASIS[eft])
    for k, v in d.items():
        check(not names[k] or abs(complex(v).imag) <= 1e-12 * abs(v), lambda: 'real coefficient %s became %s' % (k, v))
    r = u.wcxf2arrays_symmetrized(d)
    gen.same(r, keep, 'expand(reduce(C))', rtol=1e-12)
    _unchanged(C, keep, 'arrays2wcxf_nonred / symmetrize')
    # unscale_dict keeps the redundant entries consistent with the names
    un = u.unscale_dict(C)
    _unchanged(C, keep, 'unscale_dict')
    flat = u.arrays2wcxf(un)
    gen.same({k: flat[k] for k in names}, T.reduce_all(eft, keep), 'unscale_dict', rtol=1e-12)
    ctx.label(eft)


# ---------------------------------------------------------------- the tensors used by the translators
@st.composite
def jms(draw):
    secs = draw(st.one_of(st.none(), st.lists(st.sampled_from(bases.eft_sectors('WET')), min_size=1, max_size=4, unique=True)))
    return {'secs': secs, 'C': draw(gen.wcset('WET', 'JMS', secs, max_size=10)), 'how': draw(gen.seeds())}


def body_jms(c, ctx):
    from wilson.util import wet_jms
    d = gen.expand(c['C'], 'WET', 'JMS', c['secs'])
    ctx.nontrivial(any(v != 0 for v in d.values()))
    d0 = dict(d)
    # any sector argument or none
    for secs in ([None] if c['secs'] is None else [tuple(c['secs'])]):
        a = wet_jms.JMS_to_array(d, sectors=secs) if secs else wet_jms.JMS_to_array(d)
        check(d == d0, 'JMS_to_array modified its input')
        inside = bases.names('WET', 'JMS', secs)
        ops = {k.split('_')[0] for k in inside}
        check(set(a) == ops, lambda: 'JMS_to_array: operators %r' % sorted(set(a) ^ ops))
        for op in ops:
            sh = T.shape('WET', op)
            if not sh:
                check(a[op] == d.get(op, 0), 'JMS_to_array: %s' % op)
                continue
            e = T.expand_op('WET', op, T.split(d).get(op, {}), False)
            g = a[op][tuple(slice(0, s) for s in sh)]
            m = T.orbit_map('WET', op)[0]
            for i in np.ndindex(*sh):
                if m[i] is None or (T.WET_CLASS[op] == 6 and m[i][0] != i) or (secs and T.join(op, m[i][0]) not in inside):
                    continue
                check(abs(g[i] - e[i]) <= 1e-13 * abs(e[i]), lambda: 'JMS_to_array: %s is %s, expected %s' % (T.join(op, i), g[i], e[i]))
        if secs is None:
            b = {k: v for k, v in a.items()}
            sc = wet_jms.scale_dict_wet(b)
            un = wet_jms.unscale_dict_wet(sc)
            for op in b:
                x, y, z = np.asarray(un[op]), np.asarray(b[op]), np.asarray(sc[op])
                ok = ~np.isnan(y)
                check(np.all(np.abs(x - y)[ok] <= 1e-13 * np.abs(y)[ok]), lambda: 'unscale(scale) changed %s' % op)
                if T.shape('WET', op):
                    sl = tuple(slice(0, s) for s in T.shape('WET', op))
                    e = T.expand_op('WET', op, T.split(d).get(op, {}), True)
                    g = z[sl]
                    if T.WET_CLASS[op] == 6:
                        e = np.where(np.isnan(g), 0, e)
                    g = np.where(np.isnan(g), 0, g)
                    check(np.max(np.abs(g - e)) <= 1e-12 * max(np.max(np.abs(e)), 1e-300), lambda: 'scale_dict_wet: %s' % op)
    # redundant names -> basis names
    rng = np.random.default_rng(c['how'])
    red = {}
    for k, v in d.items():
        op, idx = (k.split('_') + [''])[:2]
        if not idx:
            red[k] = v
            continue
        cls = T.CLASS['WET'][op]
        if cls == 6:
            red[k] = v
            continue
        i = tuple(int(x) - 1 for x in idx)
        els = T.group(cls, len(i))
        p, s, cj = els[rng.integers(len(els))]
        j = tuple(i[a] for a in p)
        x = complex(v)
        red[T.join(op, j)] = s * (x.conjugate() if cj else x)
    red0 = dict(red)
    back = wet_jms.symmetrize_JMS_dict(red)
    check(red == red0, 'symmetrize_JMS_dict modified its input')
    gen.same(back, d, 'symmetrize_JMS_dict', rtol=1e-14)
    check(set(back) == set(d), lambda: 'symmetrize_JMS_dict: names %r' % sorted(set(back) ^ set(d))[:4])
    if c['secs']:
        ctx.label('sectors')


def unit_examples():
    """every single coefficient of both bases on its own (enumerated in blocks of operators)"""
    out = []
    for eft in EFTS:
        for op in T.reps(eft):
            names = [T.join(op, i) for i in T.reps(eft)[op]]
            out.append({'eft': eft, 'C': {'kind': 'sparse', 'vals': {n: [1.0 + k * 0.25, 0.0] for k, n in enumerate(names)}}})
            if T.shape(eft, op):
                out.append({'eft': eft, 'C': {'kind': 'sparse', 'vals': {
                    n: [0.5 + k * 0.125, 0.0 if bases.names(eft, T.BASIS[eft])[n] else -1.0 - 0.25 * k] for k, n in enumerate(names)}}})
    return out


SUBS = [
    Sub('expand', coeffs, body_expand, 90, 3000, rule='at least one non-zero coefficient', examples=unit_examples,
        minimise=gen.sparsify(lambda c: c['eft'], lambda c: T.BASIS[c['eft']])),
    Sub('pack', packs, body_pack, 150, 1500, rule='all'),
    Sub('static', statics, body_static, 400, 10000, rule='all',
        examples=[{'cls': k, 'seed': s, 'what': w, 'nan': False} for k in REP for w in ('random', 'symmetric', 'integers', 'ones') for s in (1, 2)]),
    Sub('symmetric', full, body_symmetric, 80, 1500, rule='all'),
    Sub('jms', jms, body_jms, 400, 1500, rule='at least one non-zero coefficient',
        minimise=gen.sparsify('WET', 'JMS')),
]
