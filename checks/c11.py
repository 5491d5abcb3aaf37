"""C11: One-loop SMEFT-to-WET matching is an opt-in, SM-subtracted correction."""
import math

from hypothesis import strategies as st

from harness import Sub, check
import bases
import flavsym
import gen
import neighbour
import physics
from checks.c08 import relsame, check_real, tr
from checks.c10 import match, exactly, noise, KEYS, P0, PAIRS, BNV_SMEFT, BNV_WET, dense

NEEDS_REF = True
ASSUMPTIONS = ['the one-loop terms themselves are compared with a pinned copy of the published formulas; the laws (opt-in, subtraction, '
               'linearity, single logarithm of the scale, lepton-flavour symmetries, number conservation, change of basis) are independent']
UP = 'Warsaw up'


def scales():
    return st.one_of(st.sampled_from([91.1876, 80.0, 160.0]), st.floats(60, 300))


def masses(draw):
    p = draw(physics.params(KEYS))
    if draw(st.integers(0, 2)) == 0:
        p = dict(p or {}, m_t=draw(st.floats(155, 180)))
    return p


@st.composite
def cases(draw, exps=(-6, -7, -9, -11), pairs=PAIRS):
    a, b = draw(st.sampled_from(pairs))
    return {'a': a, 'b': b, 'p': masses(draw), 'scale': draw(scales()),
            'C': draw(gen.wcset('SMEFT', a, exp=draw(st.sampled_from(exps)), max_size=6))}


def one(p):
    return dict(p or {}, loop_order=1)


def tol(d):
    big = gen.maxabs(d)
    return dict(rtol=1e-8, frac=1e-9 + 1e-18 / max(big, 1e-30), floor=1e-11 + 1e-19 / max(big, 1e-30))


def body_reference(c, ctx):
    import refwilson.wcxf
    a, b, p, s = c['a'], c['b'], c['p'], c['scale']
    d = gen.expand(c['C'], 'SMEFT', a)
    got = match(d, a, b, one(p), s)
    exp = match(d, a, b, one(p), s, mod=refwilson.wcxf)
    tree = match(d, a, b, p, s)
    ctx.nontrivial(any(abs(v - tree.get(k, 0)) > 1e-9 * abs(v) for k, v in got.items()))
    ctx.label('%s -> %s' % (a, b))
    check_real(got, 'WET', b, 'one-loop matching', noise=noise(d, got, b))
    relsame(got, exp, 'one-loop matching %s -> %s (published result)' % (a, b), **tol(d))


def body_laws(c, ctx):
    a, p, s = c['a'], c['p'], c['scale']
    b = c['b']
    d = gen.expand(c['C'], 'SMEFT', a)
    ctx.label('%s -> %s' % (a, b))
    loop = match(d, a, b, one(p), s)
    tree = match(d, a, b, p, s)
    check_real(loop, 'WET', b, 'one-loop matching', noise=noise(d, loop, b))
    ctx.nontrivial(any(abs(v - tree.get(k, 0)) > 1e-9 * abs(v) for k, v in loop.items()))
    # opt-in
    relsame(match(d, a, b, dict(p or {}, loop_order=0), s), tree, 'loop_order=0', **tol(d))
    if b == 'JMS':
        relsame(match(d, a, b, one(physics.full(p, smeft=True)), s), loop, 'explicit default parameters', **tol(d))
    # SM subtraction
    zero = match({}, a, b, one(p), s)
    check(not any(abs(v) > 1e-17 for v in zero.values()), lambda: 'no coefficients in, but %s out' % {k: v for k, v in zero.items() if v})
    if b != 'JMS':
        two = tr(match(d, a, 'JMS', one(p), s), 'WET', 'JMS', b, p, s)
        relsame(loop, two, 'one-loop matching %s -> %s compared with matching onto JMS and translating' % (a, b), **tol(d))
    if a == 'Warsaw':
        from wilson import wcxf
        up = gen.make_wc(wcxf, 'SMEFT', a, s, d)
        up = (up.translate(UP, parameters=p) if p is not None else up.translate(UP)).dict
        if (UP, b) in PAIRS:
            two = match(up, UP, b, one(p), s)
        else:
            two = tr(match(up, UP, 'JMS', one(p), s), 'WET', 'JMS', b, p, s)
        relsame(loop, two, 'one-loop matching %s -> %s compared with translating to the Warsaw-up basis first' % (a, b), **tol(d))


@st.composite
def logcases(draw):
    c = draw(cases(pairs=PAIRS[:2], exps=(-7, -9)))
    c['f1'], c['f2'] = draw(st.floats(1.3, 3)), draw(st.floats(0.3, 0.8))
    return c


def body_log(c, ctx):
    """at fixed coefficients the one-loop result is a polynomial of degree one in the logarithm of the scale"""
    a, p, s = c['a'], c['p'], c['scale']
    d = gen.expand(c['C'], 'SMEFT', a)
    r0, r1, r2 = (match(d, a, 'JMS', one(p), x) for x in (s, s * c['f1'], s * c['f2']))
    l1, l2 = math.log(c['f1']), math.log(c['f2'])
    ctx.nontrivial(any(abs(v - r0.get(k, 0)) > 1e-9 * abs(v) for k, v in r1.items()))
    top = gen.maxabs(r0, r1, r2)
    for k in set(r0) | set(r1) | set(r2):
        v0, v1, v2 = r0.get(k, 0), r1.get(k, 0), r2.get(k, 0)
        e = v0 + (v1 - v0) * l2 / l1
        t = 1e-9 * (abs(v0) + abs(v1) + abs(v2)) * (1 + abs(l2 / l1)) + 1e-12 * top + 1e-19
        check(abs(v2 - e) <= t, lambda: 'the scale dependence of %s is not that of a logarithm: %s at %s GeV, expected %s' % (
            k, v2, s * c['f2'], e))


@st.composite
def lincases(draw):
    a, b = draw(st.sampled_from(PAIRS[:2]))
    e = draw(st.sampled_from([-12, -13]))
    return {'a': a, 'b': b, 'p': masses(draw), 'scale': draw(scales()),
            'C': draw(gen.wcset('SMEFT', a, exp=e, max_size=6)), 'D': draw(gen.wcset('SMEFT', a, exp=e, max_size=6)),
            'x': draw(gen.factors()), 'y': draw(gen.factors())}


def body_linear(c, ctx):
    a, b, p, s, x, y = (c[k] for k in ('a', 'b', 'p', 'scale', 'x', 'y'))
    d, e = gen.expand(c['C'], 'SMEFT', a), gen.expand(c['D'], 'SMEFT', a)
    z = {k: x * d.get(k, 0) + y * e.get(k, 0) for k in set(d) | set(e)}
    f = lambda q: (match(q, a, b, one(p), s), match(q, a, b, p, s))        # noqa: E731
    (fd, td), (fe, te), (fz, tz) = f(d), f(e), f(z)
    sub = lambda u, v: {k: u.get(k, 0) - v.get(k, 0) for k in set(u) | set(v)}     # noqa: E731
    fd, fe, fz = sub(fd, td), sub(fe, te), sub(fz, tz)          # the loop part alone
    exp = {k: x * fd.get(k, 0) + y * fe.get(k, 0) for k in set(fd) | set(fe)}
    ctx.nontrivial(any(fd.values()) and any(fe.values()))
    fam = {}
    for k in exp:
        o = k.split('_')[0]
        fam[o] = max(fam.get(o, 0), abs(x * fd.get(k, 0)) + abs(y * fe.get(k, 0)))
    top = max(fam.values(), default=0)
    for k in set(exp) | set(fz):
        g, w = fz.get(k, 0), exp.get(k, 0)
        t = 1e-5 * fam.get(k.split('_')[0], 0) + 1e-5 * top + 1e-18
        check(abs(g - w) <= t, lambda: 'one-loop matching %s -> %s of small coefficients is not linear: %s is %s, expected %s' % (a, b, k, g, w))


@st.composite
def leptons(draw):
    c = draw(cases(pairs=PAIRS[:2], exps=(-7, -9)))
    c['order'] = draw(st.sampled_from([0, 1, 1]))
    c['swap'] = draw(st.booleans())
    c['phases'] = [draw(st.sampled_from([0.0, 1.0, 2.0, -1.7, math.pi])) for _ in range(3)]
    return c


def body_leptons(c, ctx):
    """rephasing of the lepton families, and exchange of the first two together with their masses"""
    a, s = c['a'], c['scale']
    p = dict(physics.full(c['p'], smeft=True), loop_order=c['order'])
    d = gen.expand(c['C'], 'SMEFT', a)
    U = flavsym.rephasing(c['phases'])
    q = p
    if c['swap']:
        U = U @ flavsym.EMU
        q = flavsym.swap_masses(p)
    got = match(flavsym.transform_smeft(d, U), a, 'JMS', q, s)
    plain = match(d, a, 'JMS', p, s)
    exp = flavsym.transform_wet(plain, U)
    ctx.nontrivial(any(abs(v - plain.get(k, 0)) > 1e-9 * abs(v) for k, v in exp.items()))
    ctx.label('order %d' % c['order'])
    relsame(got, exp, 'matching with %s of the lepton families' % ('exchange and rephasing' if c['swap'] else 'rephasing'), **tol(d))


def body_number(c, ctx):
    a, p, s = c['a'], c['p'], c['scale']
    d = gen.expand(c['C'], 'SMEFT', a)
    bnv = {k: v for k, v in d.items() if k.split('_')[0] in BNV_SMEFT}
    cons = {k: v for k, v in d.items() if k not in bnv}
    f1, f2 = match(bnv, a, 'JMS', one(p), s), match(cons, a, 'JMS', one(p), s)
    ctx.nontrivial(any(f1.values()) or any(f2.values()))
    for k, v in f1.items():
        check(k.split('_')[0] in BNV_WET or abs(v) <= 1e-17, lambda: 'baryon-number violating input gives %s = %s' % (k, v))
    for k, v in f2.items():
        check(k.split('_')[0] not in BNV_WET or abs(v) <= 1e-17, lambda: 'baryon-number conserving input gives %s = %s' % (k, v))


@st.composite
def toplevel(draw):
    c = draw(cases(pairs=[('Warsaw', 'JMS'), ('Warsaw up', 'JMS'), ('Warsaw', 'flavio')], exps=(-8,)))
    c['order'] = draw(st.sampled_from([0, 1, None, 1]))
    c['scale'] = draw(st.sampled_from([91.1876, 160.0, 80.0]))
    return c


def body_toplevel(c, ctx):
    """the option smeft_matching_order of the class Wilson switches the same correction"""
    import wilson
    a, b, p, s = c['a'], c['b'], c['p'], c['scale']
    d = gen.expand(c['C'], 'SMEFT', a)
    w = wilson.Wilson(d, s, 'SMEFT', a)
    w.set_option('smeft_matchingscale', s)
    if p is not None:
        w.set_option('parameters', p)
    if c['order'] is not None:
        w.set_option('smeft_matching_order', c['order'])
    got = w.match_run(s, 'WET', b).dict
    q = physics.full(p)                 # the class Wilson fills in its own defaults
    exp = match(d, a, 'JMS', dict(q, loop_order=1 if c['order'] == 1 else 0), s)
    other = match(d, a, 'JMS', dict(q, loop_order=0 if c['order'] == 1 else 1), s)
    ctx.nontrivial(any(abs(v - other.get(k, 0)) > 1e-6 * abs(v) for k, v in exp.items()))
    ctx.label('option %s' % c['order'])
    if b != 'JMS':
        exp = tr(exp, 'WET', 'JMS', b, q, s)
    relsame(got, exp, 'Wilson.match_run with smeft_matching_order %s' % c['order'],
            big=1e-4 * gen.maxabs(d), **tol(d))        # rounding of the translation to the matching basis, where nothing else remains


def families(part):
    fs = sorted({k.split('_')[0] for k in bases.names('SMEFT', 'Warsaw')})
    groups = [fs[i::17] for i in range(17)][part::2]
    return [{'a': UP, 'b': 'JMS', 'p': P0, 'scale': 101.0, 'C': dict(dense(i, -8), prefix=g)} for i, g in enumerate(groups)]


MIN = gen.sparsify('SMEFT', lambda c: c['a'], ('C', 'D'))
R = 'the one-loop correction is visible'


def loop(r, d, p, s):
    p = {} if p is None else p
    p['loop_order'] = 1
    return match(d, r[1], r[2], p, s)


FULL = {k: physics.SMEFT[k] for k in KEYS + ('m_t',)}
LOOP = [('SMEFT', a, b) for a, b in PAIRS]
SUBS = [
    Sub('history', lambda: neighbour.histories(LOOP, physics.params(KEYS), FULL, (50., 300.), maxsteps=1),
        neighbour.body(loop, FULL, exactly), 8, 600, rule='a result is not empty',
        examples=lambda: neighbour.every(LOOP[:1], {k: FULL[k] for k in ('m_t', 'm_W', 'm_h', 'gamma', 'alpha_s')}, (50., 300.))),
    Sub('reference', cases, body_reference, 12, 2000, rule=R, examples=lambda: families(0), minimise=MIN),
    Sub('reference2', cases, body_reference, 12, 2000, rule=R, examples=lambda: families(1), minimise=MIN),
    Sub('laws', lambda: cases(exps=(-7, -9)), body_laws, 9, 1000, rule=R, minimise=MIN,
        examples=[{'a': a, 'b': b, 'p': P0, 'scale': 85.0, 'C': dense(7, -8)} for a, b in PAIRS[:4:3]]),
    Sub('log', logcases, body_log, 14, 1200, rule='the result depends on the scale', minimise=MIN,
        examples=[{'a': UP, 'b': 'JMS', 'p': P0, 'scale': 91.0, 'C': dense(9, -8), 'f1': 2.0, 'f2': 0.6}]),
    Sub('linear', lincases, body_linear, 14, 1200, rule='both inputs have an image', minimise=MIN),
    Sub('leptons', leptons, body_leptons, 20, 1500, rule='the transformation changes the result', minimise=MIN,
        examples=[{'a': UP, 'b': 'JMS', 'p': P0, 'scale': 91.0, 'C': dense(9, -8), 'order': o, 'swap': x, 'phases': [1.0, 0.0, 2.0]}
                  for o in (0, 1) for x in (True, False)]),
    Sub('number', lambda: cases(exps=(-8,), pairs=PAIRS[:1]), body_number, 12, 500, rule='the image is not zero', minimise=MIN,
        examples=[{'a': UP, 'b': 'JMS', 'p': P0, 'scale': 91.0, 'C': dense(5, -8)}]),
    Sub('option', toplevel, body_toplevel, 16, 600, rule=R, minimise=MIN),
]
