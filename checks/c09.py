"""C09: one-way WET exports (EOS, FormFlavor) are correct for every input."""
import functools
import math
import re

import numpy as np
from hypothesis import strategies as st

from harness import Sub, check
import bases
import gen
import neighbour
import physics
import tensors as T
from checks.c08 import tr, check_real, relsame, exactly, coeffs, scales, KEYS, P0, dense, DI, LI

NEEDS_REF = True
ASSUMPTIONS = ['FormFlavor, and the semileptonic, charged-current, dipole and Delta F=2 coefficients of EOS, are compared with '
               'formulas written down independently (Fierz identities derived separately); the four-quark coefficients of EOS '
               'with a pinned copy of the code and with flavour conservation']
B = ('EOS', 'formflavor')


@st.composite
def cases(draw):
    return {'b': draw(st.sampled_from(B)), 'p': draw(physics.params(KEYS)), 'scale': draw(scales()),
            'C': draw(targeted()), 'D': draw(targeted()),
            'x': draw(gen.factors()), 'y': draw(gen.factors())}


@functools.lru_cache(None)
def relevant(b, sec):
    """JMS coefficients of a sector that the export basis can represent, in the pinned copy (generator only)"""
    import refwilson.wcxf
    nm = sorted(bases.names('WET', 'JMS', (sec,)))
    if len(nm) > 60:
        return nm
    one = [k for k in nm if any(abs(v) > 0 for v in tr({k: 1.0}, 'WET', 'JMS', b, None, 5.0, mod=refwilson.wcxf).values())]
    return one * 3 + nm


@st.composite
def targeted(draw):
    """half of the sparse sets from sectors that the export bases contain"""
    if draw(st.integers(0, 3)):
        b = draw(st.sampled_from(B))
        sec = draw(st.sampled_from(sorted(s for s, c in bases.sectors('WET', b).items() if c)))
        nm = relevant(b, sec)
        return {'kind': 'sparse', 'vals': {k: draw(gen.coeff(bases.names('WET', 'JMS')[k])) for k in
                                           draw(st.lists(st.sampled_from(nm), min_size=1, max_size=6, unique=True))}}
    return draw(coeffs('WET', 'JMS'))


def body_export(c, ctx):
    b, p, s = c['b'], c['p'], c['scale']
    d, e = gen.expand(c['C'], 'WET', 'JMS'), gen.expand(c['D'], 'WET', 'JMS')
    ctx.label(b)
    f = lambda z: tr(z, 'WET', 'JMS', b, p, s)      # noqa: E731
    fd, fe = f(d), f(e)
    check_real(fd, 'WET', b, 'JMS -> ' + b)
    names = bases.names('WET', b)
    for k, v in fd.items():
        check(not names[k] or isinstance(v, (float, int)) or complex(v).imag == 0, lambda: '%s is declared real, but is %s' % (k, v))
        check(math.isfinite(abs(v)), lambda: '%s is %s' % (k, v))
    ctx.nontrivial(any(v != 0 for v in fd.values()))
    x, y = c['x'], c['y']
    fz = f({k: x * d.get(k, 0) + y * e.get(k, 0) for k in set(d) | set(e)})
    exp = {k: x * fd.get(k, 0) + y * fe.get(k, 0) for k in set(fd) | set(fe)}
    big = max([abs(x * v) for v in fd.values()] + [abs(y * v) for v in fe.values()] + [0])
    relsame(fz, exp, 'JMS -> %s is not linear' % b, rtol=1e-9, frac=1e-10, floor=1e-13, big=1e-5 * big)
    relsame(tr(d, 'WET', 'JMS', b, physics.full(p), s), fd, 'explicit default parameters', rtol=1e-11)
    # coefficients of other sectors do not matter
    sa, sb = bases.sector_of('WET', 'JMS'), bases.sector_of('WET', b)
    for sec in sorted({sb[k] for k in fd} | {sa[k] for k in d})[:3]:
        part = f({k: v for k, v in d.items() if sa[k] == sec})
        relsame(part, {k: v for k, v in fd.items() if sb[k] == sec}, 'only the coefficients of sector %s' % sec, rtol=1e-12)


def body_reference(c, ctx):
    import refwilson.wcxf
    b, p, s = c['b'], c['p'], c['scale']
    d = gen.expand(c['C'], 'WET', 'JMS')
    ctx.label(b)
    exp = tr(d, 'WET', 'JMS', b, p, s, mod=refwilson.wcxf)
    ctx.nontrivial(any(v != 0 for v in exp.values()))
    relsame(tr(d, 'WET', 'JMS', b, p, s), exp, 'JMS -> %s (published definition)' % b, rtol=1e-9)


# --- flavour conservation: rephasing the fields ----------------------------------------------------------------------

FIELDS = ('u', 'c', 'd', 's', 'b', 'e', 'mu', 'tau', 'nue', 'numu', 'nutau')
TAB = {'u': ('u', 'c', None), 'd': ('d', 's', 'b'), 'e': ('e', 'mu', 'tau'), 'n': ('nue', 'numu', 'nutau')}


def _wetfields(op):
    """fermion fields of a baryon- and lepton-number conserving JMS operator, barred first: string of u, d, e, n"""
    m = re.match(r'^([VST])(1|8)?(nunu|nuedu|nud|nue|nuu|dd|duu?|ud|uu|ee|eu|ed|edu|ddu|uddu|vevnu)(LL|LR|RL|RR)$', op)
    if op in ('egamma', 'ugamma', 'uG', 'dgamma', 'dG'):
        return op[0] * 2
    if not m:
        return None
    c = m.group(3)
    return {'nunu': 'nnnn', 'nuedu': 'nedu', 'nud': 'nndd', 'nue': 'nnee', 'nuu': 'nnuu', 'dd': 'dddd', 'uu': 'uuuu', 'ee': 'eeee',
            'eu': 'eeuu', 'ed': 'eedd', 'ud': 'uudd', 'du': 'dduu', 'uddu': 'uddu'}.get(c)


def charge(name):
    """flavour charges of a JMS coefficient (None for number-violating ones)"""
    op, _, ind = name.partition('_')
    f = _wetfields(op)
    if f is None:
        return None if ind else {}
    q = {}
    for n, (x, i) in enumerate(zip(f, ind)):
        t = TAB[x][int(i) - 1]
        if t is None:
            return None
        q[t] = q.get(t, 0) + (-1 if n % 2 else 1)
    return q


@st.composite
def phasecases(draw):
    return {'b': draw(st.sampled_from(('EOS', 'formflavor', 'flavio', 'Bern'))), 'p': draw(physics.params(KEYS)), 'scale': draw(scales()),
            'C': draw(targeted()), 'phases': [draw(st.floats(-3, 3)) for _ in FIELDS], 'pair': draw(st.booleans())}


def pairs(d):
    """combine the Re{} and Im{} coefficients of EOS"""
    out, lone = {}, {}
    for k, v in d.items():
        m = re.match(r'(.*)(Re|Im)\{(.*)\}$', k)
        if m:
            n = m.group(1) + m.group(3)
            out[n] = out.get(n, 0) + (v if m.group(2) == 'Re' else 1j * v)
        else:
            lone[k] = v
    return out, lone


def body_phases(c, ctx):
    """flavour conservation: every coefficient transforms with a definite charge when the fields are rephased"""
    b, p, s = c['b'], c['p'], c['scale']
    d = {k: v for k, v in gen.expand(c['C'], 'WET', 'JMS').items() if charge(k) is not None}
    th = dict(zip(FIELDS, c['phases']))
    ph = {k: sum(q * th[f] for f, q in charge(k).items()) for k in d}
    names = bases.names('WET', 'JMS')
    rot = {k: v * np.exp(1j * ph[k]) for k, v in d.items()}
    rot = {k: (v.real if names[k] else v) for k, v in rot.items()}
    o1, l1 = pairs(tr(d, 'WET', 'JMS', b, p, s))
    o2, l2 = pairs(tr(rot, 'WET', 'JMS', b, p, s))
    if b != 'EOS':
        o1.update(l1)
        o2.update(l2)
    big = gen.maxabs(o1)
    ctx.nontrivial(bool(o1))
    ctx.label(b)
    for k in set(o1) | set(o2):
        a1, a2 = abs(o1.get(k, 0)), abs(o2.get(k, 0))
        check(abs(a1 - a2) <= 1e-9 * a1 + 1e-13 * big, lambda: 'rephasing the fields changes the modulus of %s from %s to %s: it mixes '
              'coefficients of different flavour content' % (k, a1, a2))


# --- independent formulas --------------------------------------------------------------------------------------------

@st.composite
def formulas(draw):
    return {'p': draw(physics.params(KEYS)), 'scale': draw(scales()), 'C': draw(targeted())}


def body_formulas(c, ctx):
    p = physics.full(c['p'])
    d = gen.expand(c['C'], 'WET', 'JMS')
    full = T.expand_all('WET', d, scaled=False)
    ff, eos = {}, {}
    dV = {'sb': 'bs', 'db': 'bd', 'ds': 'sd'}
    R = 'S1ddRR S8ddRR V1ddLR V8ddLR VddLL VddRR'.split()

    def df2(q, i, j):
        """Delta F=2 operators (qbar_i q_j)(qbar_i q_j): SUSY basis C1..C5, C1'..C3'"""
        LL, RR = full['V%sLL' % q][i, j, i, j], full['V%sRR' % q][i, j, i, j]
        S1, S8 = full['S1%sRR' % q][i, j, i, j], full['S8%sRR' % q][i, j, i, j]
        s1, s8 = np.conj(full['S1%sRR' % q][j, i, j, i]), np.conj(full['S8%sRR' % q][j, i, j, i])
        V1, V8 = full['V1%sLR' % q][i, j, i, j], full['V8%sLR' % q][i, j, i, j]
        return {'1': LL, '2': s1 - s8 / 6, '3': s8 / 2, '4': -V8, '5': -2 * V1 + V8 / 3, '1p': RR, '2p': S1 - S8 / 6, '3p': S8 / 2}
    for n, q, i, j in (('bs', 'dd', 1, 2), ('bd', 'dd', 0, 2), ('sd', 'dd', 0, 1), ('cu', 'uu', 0, 1)):
        B = df2(q, i, j)
        t = '_' + n + n
        ff.update({'CVLL' + t: B['1'], 'CVRR' + t: B['1p'], 'CSLR' + t: B['4'], 'CVLR' + t: -B['5'] / 2,
                   'CSLL' + t: B['2'] - B['3'] / 2, 'CTLL' + t: -B['3'] / 8, 'CSRR' + t: B['2p'] - B['3p'] / 2, 'CTRR' + t: -B['3p'] / 8})
    for n, i, j in (('bs', 1, 2), ('bd', 0, 2)):
        t = '_' + n + 'mm'
        ff.update({'CVLL' + t: full['VedLL'][1, 1, i, j], 'CVRR' + t: full['VedRR'][1, 1, i, j], 'CVLR' + t: full['VdeLR'][i, j, 1, 1],
                   'CVRL' + t: full['VedLR'][1, 1, i, j], 'CSRR' + t: full['SedRR'][1, 1, i, j], 'CSLR' + t: full['SedRL'][1, 1, i, j],
                   'CTRR' + t: full['TedRR'][1, 1, i, j], 'CSLL' + t: np.conj(full['SedRR'][1, 1, j, i]),
                   'CSRL' + t: np.conj(full['SedRL'][1, 1, j, i]), 'CTLL' + t: np.conj(full['TedRR'][1, 1, j, i])})
    e, gs = math.sqrt(4 * math.pi * p['alpha_e']), None
    for n, op, i, j in (('sb', 'd', 1, 2), ('db', 'd', 0, 2), ('uu', 'u', 0, 0), ('dd', 'd', 0, 0), ('mt', 'e', 1, 2), ('em', 'e', 0, 1), ('et', 'e', 0, 2)):
        ff['CAR_' + n] = full[op + 'gamma'][i, j] / e
        ff['CAL_' + n] = np.conj(full[op + 'gamma'][j, i]) / e
    ff['CVLL_sdnn'] = sum(full['VnudLL'][k, k, 0, 1] for k in range(3)) / 3
    ff['CVRL_sdnn'] = sum(full['VnudLR'][k, k, 0, 1] for k in range(3)) / 3
    got = tr(d, 'WET', 'JMS', 'formflavor', c['p'], c['scale'])
    relsame({k: got.get(k, 0) for k in ff}, ff, 'JMS -> formflavor, independent formulas', rtol=1e-9, frac=1e-13)
    # strong dipoles: both chiralities and all flavours share one normalisation
    rs = []
    for n, op, i, j in (('sb', 'd', 1, 2), ('db', 'd', 0, 2), ('uu', 'u', 0, 0), ('dd', 'd', 0, 0)):
        for k, x in (('CGR_' + n, full[op + 'G'][i, j]), ('CGL_' + n, np.conj(full[op + 'G'][j, i]))):
            if abs(x) > 0:
                rs.append((k, got.get(k, 0) / x))
            else:
                check(got.get(k, 0) == 0, lambda: '%s is %s without a corresponding JMS coefficient' % (k, got.get(k)))
    for k, r in rs:
        check(abs(r - rs[0][1]) <= 1e-9 * abs(r), lambda: 'normalisation of %s (%s) differs from that of %s (%s)' % (k, r, rs[0][0], rs[0][1]))
        check(abs(complex(r).imag) <= 1e-12 * abs(r) and 0.4 < complex(r).real < 1.6, lambda: '%s is normalised to %s instead of 1/g_s' % (k, r))
    # EOS
    V = physics.ckm(p)
    N0 = 4 * p['GF'] / math.sqrt(2)
    xi = V[2, 2] * np.conj(V[2, 1])
    B = df2('dd', 1, 2)
    for k, v in B.items():
        n = "sbsb::c" + k.replace('p', "'")
        if n in bases.names('WET', 'EOS'):
            eos[n] = v / N0 / xi ** 2
    for ln in ('e', 'mu'):
        k = LI[ln]
        N = N0 * xi * p['alpha_e'] / (4 * math.pi)
        A = {'9': (full['VdeLR'][1, 2, k, k] + full['VedLL'][k, k, 1, 2]) / 2 / N, '10': (full['VdeLR'][1, 2, k, k] - full['VedLL'][k, k, 1, 2]) / 2 / N,
             "9'": (full['VedRR'][k, k, 1, 2] + full['VedLR'][k, k, 1, 2]) / 2 / N, "10'": (full['VedRR'][k, k, 1, 2] - full['VedLR'][k, k, 1, 2]) / 2 / N}
        RR, LL = full['SedRR'][k, k, 1, 2] / N, np.conj(full['SedRR'][k, k, 2, 1]) / N
        LR, RL = np.conj(full['SedRL'][k, k, 2, 1]) / N, full['SedRL'][k, k, 1, 2] / N
        # (sbar P_R b)(l l): RR + LR ; prime: P_L quark
        A.update({'S': (RR + LR) / 2, 'P': (RR - LR) / 2, "S'": (LL + RL) / 2, "P'": (RL - LL) / 2})
        t1, t2 = full['TedRR'][k, k, 1, 2] / N, np.conj(full['TedRR'][k, k, 2, 1]) / N
        A.update({'T': (t1 + t2) / 2, 'T5': (t1 - t2) / 2})
        for n, v in A.items():
            eos['b->s%s%s::Re{c%s}' % (ln, ln, n)] = np.real(v)
            eos['b->s%s%s::Im{c%s}' % (ln, ln, n)] = np.imag(v)
    for qn, qi in (('u', 0), ('c', 1)):
        for ln in LI:
            k = LI[ln]
            N = -N0 * V[qi, 2]
            pre = '%sb%snu%s::' % (qn, ln, ln)
            eos[pre + 'cVL'] = np.conj(full['VnueduLL'][k, k, 2, qi]) / N
            eos[pre + 'cVR'] = np.conj(full['VnueduLR'][k, k, 2, qi]) / N
            eos[pre + 'cSR'] = np.conj(full['SnueduRL'][k, k, 2, qi]) / N
            eos[pre + 'cSL'] = np.conj(full['SnueduRR'][k, k, 2, qi]) / N
            eos[pre + 'cT'] = np.conj(full['TnueduRR'][k, k, 2, qi]) / N
    got = tr(d, 'WET', 'JMS', 'EOS', c['p'], c['scale'])
    z = {k: got.get(k, 0) for k in eos}
    relsame(z, eos, 'JMS -> EOS, independent formulas', rtol=1e-9, frac=1e-13)
    ctx.nontrivial(any(v != 0 for v in list(ff.values()) + list(eos.values())))


MIN = gen.sparsify('WET', 'JMS', ('C', 'D'))
FULL = {k: physics.DEFAULT[k] for k in KEYS}
SUBS = [
    Sub('history', lambda: neighbour.histories([('WET', 'JMS', b) for b in B], physics.params(KEYS), FULL, (2., 200.)),
        neighbour.body(lambda r, d, p, s: tr(d, r[0], r[1], r[2], p, s), FULL, exactly), 50, 1500, rule='a result is not empty',
        examples=lambda: neighbour.every([('WET', 'JMS', b) for b in B], FULL, (2., 200.))),
    Sub('export', cases, body_export, 100, 2000, rule='the exported set is not empty', minimise=MIN,
        examples=[{'b': b, 'p': P0, 'scale': 4.8, 'C': dense(1), 'D': dense(2, q=0.3), 'x': 0.7, 'y': -1.3} for b in B]),
    Sub('reference', cases, body_reference, 300, 2500, rule='the exported set is not empty', minimise=MIN,
        examples=[{'b': b, 'p': P0, 'scale': 4.8, 'C': dense(1), 'D': dense(2, q=0.3), 'x': 0.7, 'y': -1.3} for b in B]),
    Sub('phases', phasecases, body_phases, 150, 2500, rule='the exported set is not empty', minimise=MIN,
        examples=[{'b': b, 'p': P0, 'scale': 4.8, 'C': dense(1), 'phases': [0.3 * i * i - 1 for i in range(11)], 'pair': True} for b in B + ('flavio', 'Bern')]),
    Sub('formulas', formulas, body_formulas, 400, 2500, rule='a coefficient covered by the formulas is non-zero', minimise=MIN,
        examples=[{'p': P0, 'scale': 4.8, 'C': dense(1)}]),
]
