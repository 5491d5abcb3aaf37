"""C16: WET running is a linear, reversible, flavour-blind evolution."""
import functools
import json
import os

import numpy as np
from hypothesis import strategies as st

from harness import Sub, check, HarnessError, Violation, VERIF
import bases
import flavsym
import gen
import neighbour
import physics
import tensors as T
from checks.c19 import A as ALPHAS, model as qcdmodel

NEEDS_REF = True
ASSUMPTIONS = ['anomalous dimensions with closed fermion loops (penguins) are judged by symmetry laws and by a pinned copy; all others also '
               'by an independent one-loop computation (lib/oneloop.py)',
               'the running coupling is the subject of C19 (its model is used here)']
NF = {'WET': 5, 'WET-4': 4, 'WET-3': 3}
RANGE = {'WET': (2.5, 200.0), 'WET-4': (1.2, 20.0), 'WET-3': (1.0, 5.0)}
SPECIAL = {'WET': (4.2, 160.0, 91.1876, 80.0), 'WET-4': (4.2, 1.3, 2.0), 'WET-3': (1.3, 2.0)}
KEYS = ('alpha_s', 'alpha_e', 'm_b', 'm_c', 'm_s', 'm_u', 'm_d', 'm_e', 'm_mu', 'm_tau')
BIG = ('dF=0',)
HEAVY = ('cu', 'db', 'sb', 'sd', 'mue', 'mutau', 'taue', 'ffnunu')


def mods():
    import wilson
    from wilson import wcxf
    from wilson.run import wet
    return wilson, wcxf, wet


def run(d, eft, a, b, p=None, sectors=None, qed=None, qcd=None, ref=False, clean=True):
    if ref:
        import refwilson                                       # noqa: F401
        from refwilson import wcxf
        from refwilson.run import wet
    else:
        _, wcxf, wet = mods()
    wc = gen.make_wc(wcxf, eft, 'JMS', a, d)
    v0, p0 = json.dumps(wc.values, sort_keys=True), json.dumps(p)
    kw = {}
    if p is not None:
        kw['parameters'] = p
    if qed is not None:
        kw['qed_order'] = qed
    if qcd is not None:
        kw['qcd_order'] = qcd
    r = wet.WETrunner(wc, **kw)
    out = r.run(b) if sectors is None else r.run(b, sectors=sectors)
    check((out.eft, out.basis, out.scale) == (eft, 'JMS', b), lambda: 'labels of the result: %s %s %s' % (out.eft, out.basis, out.scale))
    check(json.dumps(wc.values, sort_keys=True) == v0, 'the input was modified')
    check(json.dumps(p) == p0, 'the parameters were modified')
    d = out.dict
    names = bases.names(eft, 'JMS')
    for k, v in d.items():
        check(k in names, lambda: 'coefficient %s is not in the basis' % k)
        check(np.isfinite(v), lambda: '%s is %s' % (k, v))
    return {k: complex(v) for k, v in d.items()}


def secs_of(d, eft):
    s = bases.sector_of(eft, 'JMS')
    return {s[k] for k, v in d.items() if v != 0}


def same(got, exp, what, eft, rtol=1e-8, frac=1e-10, floor=0.0, dip=0.0):
    """agreement relative to each value and, for rounding, to the largest value of the sector (dip: additional tolerance of moments)"""
    s = bases.sector_of(eft, 'JMS')
    big = {}
    for d in (got, exp):
        for k, v in d.items():
            big[s[k]] = max(big.get(s[k], 0.0), abs(v))
    for k in set(got) | set(exp):
        g, e = got.get(k, 0), exp.get(k, 0)
        check(abs(g - e) <= rtol * abs(e) + (max(frac, dip) if dipole(k) else frac) * big[s[k]] + floor, lambda: '%s: %s is %s, expected %s' % (what, k, g, e))


def reals(d, eft):
    names = bases.names(eft, 'JMS')
    s = bases.sector_of(eft, 'JMS')
    big = {}
    for k, v in d.items():
        big[s[k]] = max(big.get(s[k], 0.0), abs(v))
    for k, v in d.items():
        if names[k]:
            check(abs(v.imag) <= 1e-10 * max(abs(v), 1e-3 * big[s[k]]), lambda: 'the real coefficient %s is %s' % (k, v))


@st.composite
def sector_sets(draw, eft, only=None, heavy=True):
    """one to three sectors; classes equally likely"""
    have = sorted(s for s, c in bases.sectors(eft, 'JMS').items() if c and (only is None or s in only))
    h = [s for s in have if s in HEAVY]
    out = []
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.integers(0, 9))
        if k == 0 and 'dF=0' in have:
            out.append('dF=0')
        elif k < 5 and h:
            out.append(draw(st.sampled_from(h)))
        else:
            out.append(draw(st.sampled_from([s for s in have if s not in BIG])))
    return sorted(set(out))


@st.composite
def coeffs(draw, eft, only=None):
    secs = draw(sector_sets(eft, only))
    e = draw(st.sampled_from([0, -8, -2]))
    return {'secs': secs, 'C': draw(gen.wcset(eft, 'JMS', secs=secs, exp=e, max_size=6))}


def values(c, eft):
    return {k: v for k, v in gen.expand(c['C'], eft, 'JMS', c['secs']).items() if v != 0}


@st.composite
def interval(draw, eft):
    lo, hi = RANGE[eft]
    a, b = draw(gen.logfloat(lo, hi, SPECIAL[eft])), draw(gen.logfloat(lo, hi, SPECIAL[eft]))
    return a, b


@st.composite
def runs(draw, efts=('WET', 'WET', 'WET-4', 'WET-3'), only=None, orders=True):
    eft = draw(st.sampled_from(efts))
    a, b = draw(interval(eft))
    c = draw(coeffs(eft, only))
    c.update(eft=eft, a=a, b=b, p=draw(physics.params(KEYS, ckm=False)))
    c['orders'] = draw(st.sampled_from([[None, None], [1, 1], [0, 1], [1, 1], [0, 0]])) if orders else [None, None]
    return c


def args(c):
    return dict(p=c['p'], qed=c['orders'][0], qcd=c['orders'][1])


def dipole(k):
    return len(k.partition('_')[2]) == 2


def photon(k):
    return k.split('_')[0] in ('dgamma', 'ugamma', 'egamma')


def without(d, pred):
    return {k: v for k, v in d.items() if not pred(k)}


# scalar and tensor operators with leptons and quarks: their mixing into magnetic moments contains the ratio of a lepton and a quark mass,
# which is not an RG invariant; it is taken at the input scale
SEMI = ('TeuRR', 'TedRR', 'SeuRR', 'SedRR')


# general laws --------------------------------------------------------------------------------------------------------------
@st.composite
def pairs(draw):
    c = draw(runs())
    c['D'] = draw(gen.wcset(c['eft'], 'JMS', secs=c['secs'], max_size=4))
    c['x'], c['y'] = draw(st.sampled_from([1.0, -2.0, 0.3])), draw(st.sampled_from([1.0, -1.0, 1e-3]))
    return c


def body_linear(c, ctx):
    eft = c['eft']
    X = values(c, eft)
    Y = {k: v for k, v in gen.expand(c['D'], eft, 'JMS', c['secs']).items() if v != 0}
    ctx.label(eft)
    f = lambda d: run(d, eft, c['a'], c['b'], **args(c))                           # noqa: E731
    Z = {k: c['x'] * X.get(k, 0) + c['y'] * Y.get(k, 0) for k in set(X) | set(Y)}
    Z = {k: v for k, v in Z.items() if v != 0}
    fx, fy, fz = f(X), f(Y), f(Z)
    exp = {k: c['x'] * fx.get(k, 0) + c['y'] * fy.get(k, 0) for k in set(fx) | set(fy)}
    big = max([abs(v) for v in list(fx.values()) + list(fy.values())] + [0.0])
    ctx.nontrivial(any(abs(fx.get(k, 0) - v) > 1e-6 * abs(v) for k, v in X.items()))
    same(fz, exp, 'linear combination', eft, floor=1e-10 * big)
    check(f({}) == {}, 'vanishing coefficients give non-vanishing ones')
    reals(fx, eft)
    check(secs_of(fx, eft) <= set(c['secs']), lambda: 'coefficients of sectors %s feed into %s' % (c['secs'], sorted(secs_of(fx, eft))))
    # CP: the evolution is real
    cp = lambda d: {k: -v if k == 'Gtilde' else complex(v).conjugate() for k, v in d.items()}              # noqa: E731
    cc = f(cp(X))
    same(cc, cp(fx), 'complex conjugated coefficients', eft)


def body_identity(c, ctx):
    eft = c['eft']
    X = values(c, eft)
    ctx.nontrivial(bool(X))
    for qed, qcd in ((None, None), (1, 1), (0, 1), (1, 0), (0, 0)):
        same(run(X, eft, c['a'], c['a'], c['p'], qed=qed, qcd=qcd), X, 'running to the same scale (orders %s, %s)' % (qed, qcd), eft, rtol=1e-9)


@st.composite
def triples(draw):
    c = draw(runs())
    lo, hi = RANGE[c['eft']]
    c['m'] = draw(gen.logfloat(lo, hi, SPECIAL[c['eft']]))
    c['semi'] = draw(st.booleans())
    return c


def body_compose(c, ctx):
    """QCD composes and reverts exactly; with QED the remainder is exactly the product of the two first-order terms
    (magnetic moments: ratios of running masses are constant to a few 1e-7 only)"""
    eft, p = c['eft'], c['p']
    X = values(c, eft)
    if not c['semi']:
        X = without(X, lambda k: k.startswith(SEMI))
    drop = dipole if any(k.startswith(SEMI) for k in X) else lambda k: False
    same = lambda g, e, *x, **kw: globals()['same'](without(g, drop), without(e, drop), *x, **kw)             # noqa: E731
    a, m, b = c['a'], c['m'], c['b']
    f = lambda d, i, j, q: run(d, eft, i, j, p, qed=q, qcd=1)                      # noqa: E731
    U = lambda d, i, j: f(d, i, j, 0)                                              # noqa: E731

    def E(d, i, j):
        x, y = f(d, i, j, 1), f(d, i, j, 0)
        return {k: x.get(k, 0) - y.get(k, 0) for k in set(x) | set(y)}
    ab = U(X, a, b)
    am = U(X, a, m)
    ctx.label(eft)
    ctx.nontrivial(len({a, m, b}) == 3 and any(abs(ab.get(k, 0) - v) > 1e-6 * abs(v) for k, v in X.items()))
    same(U(am, m, b), ab, 'QCD running through %g GeV' % m, eft, frac=1e-9, dip=3e-5)
    same(U(ab, b, a), X, 'QCD running to %g GeV and back' % b, eft, frac=1e-9, dip=3e-5)
    full = f(X, a, b, 1)
    two = f(f(X, a, m, 1), m, b, 1)
    second = E(E(X, a, m), m, b)
    exp = {k: full.get(k, 0) + second.get(k, 0) for k in set(full) | set(second)}
    same(two, exp, 'running through %g GeV' % m, eft, rtol=1e-7, frac=1e-9, dip=3e-5)
    back = f(full, b, a, 1)
    second = E(E(X, a, b), b, a)
    exp = {k: X.get(k, 0) + second.get(k, 0) for k in set(X) | set(second)}
    same(back, exp, 'running to %g GeV and back' % b, eft, rtol=1e-7, frac=1e-9, dip=3e-5)


@st.composite
def selections(draw):
    c = draw(runs())
    have = sorted(s for s, x in bases.sectors(c['eft'], 'JMS').items() if x)
    other = [s for s in have if s not in c['secs'] and s not in BIG]
    if len(c['secs']) == 1:
        c['secs'] = c['secs'] + [draw(st.sampled_from(other))]
    # at least one coefficient in each of two sectors
    for s in c['secs'][:2]:
        k = draw(st.sampled_from(sorted(bases.sectors(c['eft'], 'JMS')[s])))
        c.setdefault('extra', {})[k] = [draw(st.sampled_from([1.0, -0.3, 2e-8])), 0.0 if bases.names(c['eft'], 'JMS')[k] else draw(st.sampled_from([0.5, 0.0]))]
    c['sel'] = draw(st.one_of(st.lists(st.sampled_from(have), max_size=4, unique=True),
                              st.just(c['secs'][:1]), st.just(c['secs'][1:] + [draw(st.sampled_from(other))])))
    return c


def body_sectors(c, ctx):
    eft = c['eft']
    X = values(c, eft)
    X.update({k: complex(*v) for k, v in c.get('extra', {}).items() if any(v)})
    full = run(X, eft, c['a'], c['b'], **args(c))
    names = bases.names(eft, 'JMS', tuple(sorted(c['sel'])))
    exp = {k: v for k, v in full.items() if k in names}
    got = run(X, eft, c['a'], c['b'], sectors=tuple(c['sel']), **args(c))
    ctx.nontrivial(bool(exp) and len(exp) < len(full))
    check(set(got) == set(exp), lambda: 'restriction to %s: keys differ: %s' % (c['sel'], sorted(set(got) ^ set(exp))[:5]))
    for k in exp:
        check(abs(got[k] - exp[k]) <= 1e-12 * abs(exp[k]), lambda: 'restriction to %s: %s is %s, otherwise %s' % (c['sel'], k, got[k], exp[k]))
    # a sector alone
    s = c['secs'][0]
    n = bases.names(eft, 'JMS', (s,))
    alone = run({k: v for k, v in X.items() if k in n}, eft, c['a'], c['b'], **args(c))
    same(alone, {k: v for k, v in full.items() if k in n}, 'sector %s alone' % s, eft, rtol=1e-12, frac=1e-13)


def body_orders(c, ctx):
    """the order parameters switch off exactly one contribution"""
    eft, a, b, p = c['eft'], c['a'], c['b'], c['p'] or {}
    X = values(c, eft)
    four = {k: v for k, v in X.items() if len(k.partition('_')[2]) == 4}
    # no QED: the electromagnetic coupling does not matter
    x = run(X, eft, a, b, p, qed=0, qcd=1)
    ctx.nontrivial(any(abs(x.get(k, 0) - v) > 1e-6 * abs(v) for k, v in X.items()))
    same(without(run(X, eft, a, b, dict(p, alpha_e=0.02), qed=0, qcd=1), photon), without(x, photon),
         'without QED, for another electromagnetic coupling', eft, rtol=1e-10, frac=1e-12)
    same(run(X, eft, a, b, p, qed=0), x, 'default QCD order', eft, rtol=1e-13, frac=1e-13)
    d = run(X, eft, a, b, p)
    same(run(X, eft, a, b, p, qed=1, qcd=1), d, 'default orders', eft, rtol=1e-13, frac=1e-13)
    # the QED contribution of four-fermion coefficients to each other is proportional to the coupling
    al = p.get('alpha_e', physics.DEFAULT['alpha_e'])
    y0 = run(four, eft, a, b, p, qed=0, qcd=1)
    y1 = run(four, eft, a, b, dict(p, alpha_e=al), qed=1, qcd=1)
    y2 = run(four, eft, a, b, dict(p, alpha_e=2 * al), qed=1, qcd=1)
    k4 = [k for k in set(y0) | set(y1) | set(y2) if len(k.partition('_')[2]) == 4]
    same({k: y2.get(k, 0) for k in k4}, {k: y0.get(k, 0) + 2 * (y1.get(k, 0) - y0.get(k, 0)) for k in k4},
         'QED contribution for the doubled coupling', eft)
    # nothing left: four-fermion coefficients do not run
    z = run(four, eft, a, b, p, qed=0, qcd=0)
    same(z, four, 'neither QCD nor QED', eft, rtol=1e-12, frac=1e-13)
    # smaller coupling than machine precision: QCD only
    w = run(four, eft, a, b, dict(p, alpha_e=1e-22), qed=1, qcd=1)
    same({k: w.get(k, 0) for k in k4}, {k: y0.get(k, 0) for k in k4}, 'vanishing electromagnetic coupling', eft)


# symmetries -----------------------------------------------------------------------------------------------------------------
def relabel(d, perm):
    """rename the generations: perm[field][i] is the new index of generation i"""
    out = {}
    for op, x in T.expand_all('WET', d, missing=False).items():
        x = np.asarray(x, complex)
        for ax, (f, _) in enumerate(flavsym.wet_fields(op)):
            q = perm.get(f)
            if q is not None:
                n = x.shape[ax]
                x = np.take(x, np.argsort(q)[:n], axis=ax)
        out[op] = x
    return {k: complex(v) for k, v in T.reduce_all('WET', out).items() if v != 0}



def heavy_as_light(eft, heavy, m, alpha_s):
    """value of a light-quark mass parameter whose running mass equals the one of a heavy quark"""
    mu = {5: 10.0, 4: 3.0}[NF[eft]]
    f = NF[eft]
    M = qcdmodel(heavy, m, mu, f, alpha_s, 3)
    u = qcdmodel('m_s', 0.1, mu, f, alpha_s, 3) / 0.1
    return M / u


@st.composite
def relabellings(draw):
    c = draw(runs(orders=False))
    eft = c['eft']
    c['orders'] = draw(st.sampled_from([[1, 1], [0, 1]]))
    kinds = ['ds', 'emu', 'nu'] + (['etau', 'lcycle'] if eft != 'WET-3' else []) + (['sb', 'db'] if eft == 'WET' else []) + \
        (['uc'] if eft != 'WET-3' else [])
    c['kind'] = draw(st.lists(st.sampled_from(kinds), min_size=1, max_size=3, unique=True))
    c['p'] = physics.full(c['p'])
    c['nu'] = draw(st.permutations([0, 1, 2]))
    c['alt'] = {'m_b': draw(st.floats(3.7, 5.2)), 'm_c': draw(st.floats(1.15, 1.5))}
    return c


def body_relabel(c, ctx):
    eft, p = c['eft'], {k: c['p'][k] for k in KEYS}
    X = values(c, eft)
    q = dict(p)
    perm = {}
    tol = 1e-8

    def mul(f, s):
        old = perm.get(f, [0, 1, 2])
        perm[f] = [s[i] for i in old]
    for k in c['kind']:
        if k == 'ds':
            mul('d', [1, 0, 2])
            q['m_d'], q['m_s'] = q['m_s'], q['m_d']
        elif k == 'emu':
            mul('e', [1, 0, 2])
            q['m_e'], q['m_mu'] = q['m_mu'], q['m_e']
        elif k == 'etau':
            mul('e', [2, 1, 0])
            q['m_e'], q['m_tau'] = q['m_tau'], q['m_e']
        elif k == 'lcycle':
            mul('e', [1, 2, 0])
            q['m_e'], q['m_mu'], q['m_tau'] = q['m_tau'], q['m_e'], q['m_mu']
        elif k == 'nu':
            perm['nu'] = list(c['nu'])
    # quarks with different reference scales: the light quark gets a mass that the heavy one can take
    al = p['alpha_s']
    for k, heavy, light, f, s in (('sb', 'm_b', 'm_s', 'd', [0, 2, 1]), ('db', 'm_b', 'm_d', 'd', [2, 1, 0]), ('uc', 'm_c', 'm_u', 'u', [1, 0, 2])):
        if k in c['kind'] and not (k != 'uc' and 'ds' in c['kind']) and not (k == 'db' and 'sb' in c['kind']):
            m1, m2 = p[heavy], c['alt'][heavy]
            p[light] = heavy_as_light(eft, heavy, m2, al)
            q[heavy], q[light] = m2, heavy_as_light(eft, heavy, m1, al)
            for l in ('m_s', 'm_d'):
                if l != light and k != 'uc':
                    q[l] = p[l]
            mul(f, s)
            tol = 3e-5
            ctx.label(k)
    Y = relabel(X, perm)
    names = bases.names(eft, 'JMS')
    if not set(Y) <= set(names):
        ctx.nontrivial(False)
        return
    for k in Y:
        if names[k]:
            Y[k] = Y[k].real
    ctx.nontrivial(Y != X)
    ctx.label(eft)
    f = lambda d, r: run(d, eft, c['a'], c['b'], r, qed=c['orders'][0], qcd=c['orders'][1])    # noqa: E731
    same(f(Y, q), relabel(f(X, p), perm), 'flavours relabelled (%s)' % c['kind'], eft, rtol=tol, frac=1e-9 if tol < 1e-6 else 1e-5)


def charges(k):
    """quark and lepton numbers of every flavour of the operator (neutrinos: of all flavours together)"""
    op, _, idx = k.partition('_')
    q = {}
    for (f, s), i in zip(flavsym.wet_fields(op), idx):
        q[f + i] = q.get(f + i, 0) + s
    return q


@st.composite
def phasings(draw):
    c = draw(runs())
    c['phases'] = {f + str(i): draw(st.sampled_from([0.0, np.pi / 2, np.pi, 0.7, -2.1])) for f in ('u', 'd', 'e', 'nu') for i in (1, 2, 3)}
    return c


def body_phases(c, ctx):
    """quark and lepton numbers are conserved for every flavour: the phases of the fields do not matter"""
    eft = c['eft']
    X = values(c, eft)
    names = bases.names(eft, 'JMS')

    def turn(d):
        out = {}
        for k, v in d.items():
            a = sum(n * c['phases'][f] for f, n in charges(k).items())
            out[k] = v if names[k] and not a else v * np.exp(1j * a)
        return out
    Y = turn(X)
    ctx.nontrivial(any(abs(Y[k] - v) > 1e-3 * abs(v) for k, v in X.items()))
    ctx.label(eft)
    f = lambda d: run(d, eft, c['a'], c['b'], **args(c))                           # noqa: E731
    same(f(Y), turn(f(X)), 'fields rephased', eft, frac=1e-9)


NOPARITY = ('SuddLL', 'SdudRL', 'SdduRL')


def parity(C):
    """coefficients of the space-reflected theory (operators without neutrinos; neutrino pairs are spectators)"""
    out = {}
    for op, x in C.items():
        x = np.asarray(x, complex)
        if op == 'G':
            out[op] = x
        elif op == 'Gtilde':
            out[op] = -x
        elif x.ndim == 2:
            out[op] = x.conj().T
        elif op.startswith('Vnu') and 'nuedu' not in op:
            if op == 'VnunuLL':
                out[op] = x
            else:
                out[op[:-2] + {'LL': 'LR', 'LR': 'LL'}[op[-2:]]] = x
        elif op in NOPARITY or op.startswith(('Vnuedu', 'Snuedu', 'Tnuedu')):
            continue
        elif flavsym.wet_fields(op)[0][1] > 0:                      # baryon number violating
            out[op[:-2] + {'LL': 'RR', 'RR': 'LL', 'LR': 'RL', 'RL': 'LR'}[op[-2:]]] = x
        elif op[0] == 'V' and op[-2:] in ('LL', 'RR'):
            out[op[:-2] + {'LL': 'RR', 'RR': 'LL'}[op[-2:]]] = x
        elif 'udduLR' in op:
            out[op] = np.einsum('prst->tsrp', x).conj()
        elif op[0] == 'V':
            pre, a, b = (op[:2], op[2], op[3]) if op[1] in '18' else (op[:1], op[1], op[2])
            out[pre + b + a + 'LR'] = np.einsum('prst->stpr', x)
        elif 'udduRR' in op:
            out[op] = np.einsum('prst->tsrp', x).conj()
        else:
            out[op] = np.einsum('prst->rpts', x).conj()
    return out


def body_parity(c, ctx):
    """QCD and QED conserve parity"""
    eft = c['eft']
    X = {k: v for k, v in values(c, eft).items() if 'nu' not in k or (k.startswith('Vnu') and 'nuedu' not in k)}
    X = {k: v for k, v in X.items() if not k.startswith(NOPARITY)}
    P = lambda d: {k: complex(v) for k, v in T.reduce_all('WET', parity(T.expand_all('WET', d))).items() if v != 0}        # noqa: E731
    Y = P(X)
    ctx.nontrivial(any(abs(Y.get(k, 0) - v) > 0 for k, v in X.items()))
    ctx.label(eft)
    f = lambda d: run(d, eft, c['a'], c['b'], **args(c))                           # noqa: E731
    # neutrino pairs couple left-handed only, so that the mixing among them is not affected
    same(f(Y), P(f(X)), 'space-reflected coefficients', eft, frac=1e-9)


def isospin(C):
    """up and down quarks exchanged (generations 1 and 2)"""
    out = {}

    def put(op, x):
        s = T.shape('WET', op)
        y = np.zeros(s, complex)
        sl = tuple(slice(0, min(m, n)) for m, n in zip(s, x.shape))
        y[sl] = x[sl]
        out[op] = y
    sw = str.maketrans('ud', 'du')
    for op, x in C.items():
        x = np.asarray(x, complex)
        f = flavsym.wet_fields(op)
        if not f:
            out[op] = x
        elif f[0][1] > 0 or 'nuedu' in op:
            continue
        elif 'udduLR' in op:
            put(op, np.einsum('prst->rpts', x).conj())
        elif 'udduRR' in op or (op[0] in 'VS' and op[1] in '18' and op[2:4] == 'ud' and op[-2:] in ('LL', 'RR')):
            put(op, np.einsum('prst->stpr', x))
        else:
            new = op.replace('nu', 'N').translate(sw).replace('N', 'nu')
            if new not in T.CLASS['WET'] and 'gamma' not in new:
                raise HarnessError('isospin: %s' % op)
            put(new, x)
    return out


@st.composite
def isospins(draw):
    c = draw(runs(efts=('WET-4',), orders=False))
    c['p'] = {k: physics.full(c['p'])[k] for k in KEYS}
    c['mc2'] = draw(st.floats(1.15, 1.5))
    return c


def body_isospin(c, ctx):
    """strong interactions of the four-flavour theory do not distinguish up- and down-type quarks"""
    eft, p = 'WET-4', dict(c['p'])
    X = {k: v for k, v in values(c, eft).items() if 'nuedu' not in k and flavsym.wet_fields(k.split('_')[0])[:1] not in ([('u', 1)], [('d', 1)])}
    q = dict(p)
    q['m_u'], q['m_d'] = p['m_d'], p['m_u']
    p['m_s'] = heavy_as_light(eft, 'm_c', c['mc2'], p['alpha_s'])
    q['m_c'], q['m_s'] = c['mc2'], heavy_as_light(eft, 'm_c', p['m_c'], p['alpha_s'])
    I = lambda d: {k: complex(v) for k, v in T.reduce_all('WET', isospin(T.expand_all('WET', d, missing=False))).items() if v != 0}   # noqa: E731
    Y = I(X)
    ctx.nontrivial(Y != X and bool(X))
    f = lambda d, r: run(d, eft, c['a'], c['b'], r, qed=0, qcd=1)                  # noqa: E731
    # magnetic moments depend on the charges
    same(without(f(Y, q), photon), without(I(f(X, p)), photon), 'up- and down-type quarks exchanged', eft, rtol=3e-5, frac=1e-5, dip=3e-4)


# published anomalous dimensions ---------------------------------------------------------------------------------------------
@functools.lru_cache(None)
def tables():
    d = json.load(open(os.path.join(VERIF, 'fixtures', 'adm.json')))
    out = {}
    for s, t in d.items():
        n = len(t['names'])
        m = {}
        for g in 'es':
            m[g] = np.zeros((n, n))
            for i, j, v in t[g]:
                m[g][i, j] = v
        out[s] = t['names'], m['s'], m['e']
    return out


def alpha_s(mu, eft, p):
    return ALPHAS[NF[eft]](mu, p.get('alpha_s', physics.DEFAULT['alpha_s']), 3)


def evolve(v, gs, ge, eft, a, b, p, qed, qcd):
    """own solution of the one-loop equations, first order in the electromagnetic coupling"""
    import scipy.linalg as sl
    ai, ao = alpha_s(a, eft, p), alpha_s(b, eft, p)
    b0 = 11 - 2 * NF[eft] / 3
    L = np.log(ai / ao)
    N = gs.T / (2 * b0) * qcd
    n = len(N)
    B = ge.T * p.get('alpha_e', physics.DEFAULT['alpha_e']) / (2 * b0 * ai) * qed
    big = np.block([[N, B], [np.zeros((n, n)), N + np.eye(n)]])
    E = sl.expm(big * L)
    return (E[:n, :n] + E[:n, n:]) @ v


@st.composite
def published(draw):
    eft = draw(st.sampled_from(['WET', 'WET', 'WET-4', 'WET-3']))
    have = bases.sectors(eft, 'JMS')
    t = [s for s in sorted(tables()) if s in have and have[s]]
    c = draw(runs(efts=(eft,), only=set(t)))
    return c


def body_published(c, ctx):
    eft, p = c['eft'], c['p'] or {}
    X = values(c, eft)
    names = bases.names(eft, 'JMS')
    qed, qcd = [1 if x is None else x for x in c['orders']]
    exp, inp = {}, {}
    for s in c['secs']:
        if s not in tables():
            continue
        n, gs, ge = tables()[s]
        keep = [i for i, k in enumerate(n) if k in names]
        n = [n[i] for i in keep]
        v = np.array([X.get(k, 0) for k in n], complex)
        if not np.any(v):
            continue
        w = evolve(v, gs[np.ix_(keep, keep)], ge[np.ix_(keep, keep)], eft, c['a'], c['b'], p, qed, qcd)
        exp.update({k: x for k, x in zip(n, w)})
        inp.update({k: X[k] for k in n if k in X})
        ctx.label(s if s in HEAVY + BIG else 'other')
    ctx.nontrivial(any(abs(exp[k] - v) > 1e-6 * abs(v) for k, v in inp.items()))
    got = run(inp, eft, c['a'], c['b'], c['p'], qed=c['orders'][0], qcd=c['orders'][1])
    got = {k: v for k, v in got.items() if k in exp or len(k.partition('_')[2]) == 4}
    same(got, exp, '%s from %g to %g GeV' % (eft, c['a'], c['b']), eft, rtol=1e-7, frac=1e-9)


@st.composite
def dipoles(draw):
    eft = draw(st.sampled_from(['WET', 'WET', 'WET-4', 'WET-3']))
    a, b = draw(interval(eft))
    k = [n for n in bases.names(eft, 'JMS') if n.split('_')[0] in ('dgamma', 'ugamma', 'dG', 'uG', 'egamma', 'nunu')]
    ks = draw(st.lists(st.sampled_from(sorted(k)), min_size=1, max_size=4, unique=True))
    return {'eft': eft, 'a': a, 'b': b, 'p': draw(physics.params(KEYS, ckm=False)), 'vals': {n: draw(gen.coeff(False)) for n in ks}}


def body_dipoles(c, ctx):
    """magnetic moments: O7 and O8 (Q_d=-1/3: gamma 32/3, 28/3, -32/9) for every quark, lepton moments do not run in QCD"""
    eft, p = c['eft'], c['p'] or {}
    X = {k: complex(*v) for k, v in c['vals'].items()}
    X = {k: v for k, v in X.items() if v}
    got = run(X, eft, c['a'], c['b'], c['p'], qed=0, qcd=1)
    f = NF[eft]
    ai, ao = alpha_s(c['a'], eft, p), alpha_s(c['b'], eft, p)
    eta, b0 = ai / ao, 11 - 2 * f / 3
    P = physics.full(p)
    e = np.sqrt(4 * np.pi * P['alpha_e'])
    exp = {}

    def mass(op, idx, mu):
        i = max(int(x) for x in idx)
        key = {'d': ['m_d', 'm_s', 'm_b'], 'u': ['m_u', 'm_c']}[op[0]][i - 1]
        fn = key if key in ('m_b', 'm_c') else 'm_s'
        if fn == 'm_s':
            return P[key] * qcdmodel('m_s', 0.1, mu, f, P['alpha_s'], 3) / 0.1
        return qcdmodel(fn, P[key], mu, f, P['alpha_s'], 3)
    a7, a8 = 16 / 3 / b0, 14 / 3 / b0
    for k, v in X.items():
        op, idx = k.split('_')
        if op == 'egamma':
            exp[k] = exp.get(k, 0) + v
            continue
        r = mass(op, idx, c['b']) / mass(op, idx, c['a'])
        if op[1:] == 'gamma':
            exp[k] = exp.get(k, 0) + v * r * eta ** a7
        else:
            gi, go = np.sqrt(4 * np.pi * ai), np.sqrt(4 * np.pi * ao)
            exp[k] = exp.get(k, 0) + v * r * go / gi * eta ** a8
            Q = 2 / 3 if op[0] == 'u' else -1 / 3
            k7 = op[0] + 'gamma_' + idx
            # C7 = L7/(e m), C8 = L8/(g m); mixing 32/3 Q
            exp[k7] = exp.get(k7, 0) + v * e / gi * r * 32 / 3 * Q / (28 / 3 - 32 / 3) * (eta ** a8 - eta ** a7)
    ctx.nontrivial(abs(np.log(eta)) > 1e-3 and bool(X))
    keys = set(exp) | {k for k in got if len(k.partition('_')[2]) == 2}
    same({k: got.get(k, 0) for k in keys}, {k: exp.get(k, 0) for k in keys}, 'magnetic moments in %s' % eft, eft, rtol=1e-6, frac=1e-9)


INV = ('sbnunu', 'dbnunu', 'sdnunu', 'cununu', 'nunumue', 'nunumutau', 'nunutaue', 'nunununu')
LEPTON = ('tauetaue', 'muemue', 'taumutaumu', 'muemutau', 'etauemu', 'tauetaumu')


@st.composite
def invariants(draw):
    eft = draw(st.sampled_from(['WET', 'WET-4', 'WET-3']))
    have = bases.sectors(eft, 'JMS')
    which = draw(st.sampled_from(['inv', 'inv', 'lepton', 'current']))
    a, b = draw(interval(eft))
    names = bases.names(eft, 'JMS')
    if which == 'inv':
        k = sorted(n for s in INV for n in have.get(s, ()))
    elif which == 'lepton':
        k = sorted(n for n in names if n.split('_')[0] in ('VeeLL', 'VeeRR', 'VeeLR', 'SeeRR', 'VnueLL', 'VnueLR', 'VnunuLL', 'egamma'))
    else:
        k = sorted(n for n in names if n.split('_')[0] in ('VnuuLL', 'VnuuLR', 'VnudLL', 'VnudLR', 'VeuLL', 'VeuRR', 'VeuLR', 'VueLR', 'VedLL',
                                                             'VedRR', 'VedLR', 'VdeLR', 'VnueduLL', 'VnueduLR'))
    ks = draw(st.lists(st.sampled_from(k), min_size=1, max_size=5, unique=True))
    return {'eft': eft, 'which': which, 'a': a, 'b': b, 'p': draw(physics.params(KEYS, ckm=False)), 'vals': {n: draw(gen.coeff(names[n])) for n in ks}}


def body_invariants(c, ctx):
    """currents are not renormalised by QCD, neutrino currents with different flavours not at all"""
    X = {k: complex(*v) for k, v in c['vals'].items()}
    X = {k: v for k, v in X.items() if v}
    ctx.nontrivial(bool(X) and c['a'] != c['b'])
    ctx.label(c['which'])
    got = run(X, c['eft'], c['a'], c['b'], c['p'], qed=1 if c['which'] == 'inv' else 0, qcd=1)
    if c['which'] == 'lepton':             # scalars mix into magnetic moments
        got, X = without(got, photon), without(X, photon)
    same(got, X, '%s: invariant coefficients' % c['eft'], c['eft'], rtol=1e-9, frac=1e-11)


# everything -----------------------------------------------------------------------------------------------------------------
@st.composite
def anything(draw):
    c = draw(runs(efts=('WET', 'WET-4', 'WET-3')))
    c['orders'] = draw(st.sampled_from([[None, None], [1, 1], [0, 1], [0, 0], [0, None], [None, 1]]))
    if draw(st.integers(0, 9)) == 0:
        c['secs'] = sorted(bases.sectors(c['eft'], 'JMS'))
        c['C'] = draw(gen.wcset(c['eft'], 'JMS', sparse=False))
    return c


@st.composite
def dense_runs(draw):
    """every coefficient of the basis, with values of order one: every entry of the anomalous dimensions matters"""
    eft = draw(st.sampled_from(['WET', 'WET-4', 'WET-3']))
    lo, hi = RANGE[eft]
    a, r = draw(gen.logfloat(lo, hi, SPECIAL[eft])), draw(gen.logfloat(1.3, 4))
    b = a * r if a * r < hi else a / r if a / r > lo else lo if a > (lo * hi)**0.5 else hi
    return {'eft': eft, 'a': a, 'b': b, 'seed': draw(st.integers(0, 2**32 - 1)), 'p': draw(physics.params(KEYS, ckm=False)), 'orders': draw(st.sampled_from([[None, None], [1, 1], [0, 1]])),
            'heavy': draw(st.sampled_from([True, True, False]))}


def body_dense(c, ctx):
    eft = c['eft']
    rng = np.random.default_rng(c['seed'])
    X = {}
    for s, cs in sorted(bases.sectors(eft, 'JMS').items()):
        if c['heavy'] and s not in HEAVY and s != 'dF=0':
            continue
        for k in sorted(cs):
            re, im = rng.choice([-1, 1], 2) * rng.uniform(0.1, 1, 2)
            X[k] = complex(re, 0 if bases.names(eft, 'JMS')[k] else im)
    got = run(X, eft, c['a'], c['b'], **args(c))
    exp = run(X, eft, c['a'], c['b'], ref=True, **args(c))
    ctx.nontrivial(c['a'] != c['b'])
    ctx.label(eft)
    same(got, exp, '%s from %g to %g GeV, all coefficients' % (eft, c['a'], c['b']), eft, rtol=1e-8, frac=1e-11)


def body_reference(c, ctx):
    eft = c['eft']
    X = values(c, eft)
    got = run(X, eft, c['a'], c['b'], **args(c))
    exp = run(X, eft, c['a'], c['b'], ref=True, **args(c))
    ctx.nontrivial(bool(exp) and c['a'] != c['b'])
    ctx.label(eft)
    same(got, exp, '%s from %g to %g GeV' % (eft, c['a'], c['b']), eft, rtol=1e-8, frac=1e-11)
    # the same object again: nothing is kept from the first call
    _, wcxf, wet = mods()
    kw = {k: v for k, v in zip(('qed_order', 'qcd_order'), c['orders']) if v is not None}
    r = wet.WETrunner(gen.make_wc(wcxf, eft, 'JMS', c['a'], X), parameters=c['p'], **kw)
    r.run(c['a'])
    r.run(c['b'], sectors=('dF=0',))
    again = r.run(c['b']).dict
    for k in set(got) | set(again):
        check(abs(again.get(k, 0) - got.get(k, 0)) <= 1e-13 * abs(got.get(k, 0)), lambda: 'second request: %s is %s, first %s' % (k, again.get(k), got.get(k)))


def body_errors(c, ctx):
    _, wcxf, wet = mods()
    try:
        if c[0] == 'basis':
            wet.WETrunner(wcxf.WC('WET', c[1], 4.2, {}))
        elif c[0] == 'object':
            wet.WETrunner({'a': 1}.get(c[1], c[1]))
        else:
            wet.WETrunner(wcxf.WC(c[1], 'Warsaw' if c[1] == 'SMEFT' else 'JMS', 4.2, {'phi': 1} if c[1] == 'SMEFT' else {})).run(2.0)
    except Exception:          # assertion errors, attribute errors
        return
    raise Violation('accepted: %s' % (c,))


def qcd_off_broken():
    x = {'VddLL_2323': 1.0}
    return run(x, 'WET', 160.0, 4.2, qed=1, qcd=0) == {'VddLL_2323': 1.0}


def known_findings():
    return ['with qcd_order=0 the QED running is switched off, too'] if qcd_off_broken() else []


def body_qedonly(c, ctx):
    """without QCD, the QED contribution remains (unless the known finding is there, then nothing is judged)"""
    if qcd_off_broken():
        ctx.nontrivial(False)
        return
    c = dict(c, orders=[1, 0])
    body_published(c, ctx)


HISTORY = [('WET', 'JMS', 80.0, ['sb']), ('WET', 'JMS', 5.0, ['sd', 'sdsd', 'mue']), ('WET', 'JMS', 91.1876, ['cbenu', 'cbmunu', 'sbsb', 'cu']),
           ('WET-4', 'JMS', 4.2, ['sd', 'cu', 'usenu']), ('WET-3', 'JMS', 1.3, ['sd', 'mue']), ('WET', 'JMS', 4.2, ['dF=0'])]
FULL = {k: physics.DEFAULT[k] for k in KEYS}


def exactly(got, exp, what):
    gen.same(got, exp, what, rtol=1e-12)


SUBS = [
    Sub('history', lambda: neighbour.histories(HISTORY, physics.params(KEYS, ckm=False), FULL, lambda r: RANGE[r[0]], secs=lambda r: r[3]),
        neighbour.body(lambda r, d, p, s: run(d, r[0], r[2], s, p, sectors=r[3]), FULL, exactly), 40, 2000, rule='a result is not empty',
        examples=lambda: neighbour.every(HISTORY, FULL, lambda r: RANGE[r[0]], secs=lambda r: r[3])),
    Sub('linear', pairs, body_linear, 120, 3000, rule='some coefficient runs'),
    Sub('identity', lambda: runs(), body_identity, 80, 1000, rule='some coefficient is non-zero'),
    Sub('compose', triples, body_compose, 60, 3000, rule='three different scales and some coefficient runs'),
    Sub('sectors', selections, body_sectors, 70, 3000, rule='the selection is a proper part of the result'),
    Sub('orders', lambda: runs(), body_orders, 50, 2000, rule='some coefficient runs'),
    Sub('relabel', relabellings, body_relabel, 110, 5000, rule='relabelling changes the coefficients'),
    Sub('phases', phasings, body_phases, 110, 5000, rule='rephasing changes the coefficients'),
    Sub('parity', lambda: runs(), body_parity, 90, 4000, rule='reflection changes the coefficients'),
    Sub('isospin', isospins, body_isospin, 120, 3000, rule='exchange changes the coefficients'),
    Sub('published', published, body_published, 150, 8000, rule='some coefficient runs'),
    Sub('dipoles', dipoles, body_dipoles, 150, 3000, rule='the scales differ'),
    Sub('invariants', invariants, body_invariants, 150, 3000, rule='the scales differ'),
    Sub('reference', anything, body_reference, 80, 4000, rule='the result is not empty and the scales differ'),
    Sub('dense', dense_runs, body_dense, 16, 800, rule='the scales differ'),
    Sub('errors', lambda: st.sampled_from([['basis', 'flavio'], ['basis', 'Bern'], ['object', 0], ['object', 'a'], ['eft', 'SMEFT'], ['eft', 'WET-2']]),
        body_errors, 6, 6, rule='always'),
    Sub('qedonly', published, body_qedonly, 10, 100, rule='some coefficient runs'),
]
