"""C10: Tree-level SMEFT-to-WET matching reproduces the published result."""
import json

from hypothesis import strategies as st

from harness import Sub, check
import bases
import gen
import neighbour
import physics
import treematch
from checks.c08 import relsame, check_real, tr

NEEDS_REF = True
ASSUMPTIONS = ['the terms linear in the coefficients are compared with a matching calculation written down independently '
               '(lib/treematch.py); terms of higher order with a pinned copy of the code']
PAIRS = [('Warsaw up', 'JMS'), ('Warsaw', 'JMS'), ('Warsaw', 'flavio'), ('Warsaw', 'EOS'), ('Warsaw', 'Bern'), ('Warsaw up', 'flavio')]
KEYS = ('m_W', 'm_Z', 'm_h', 'GF', 'alpha_e', 'alpha_s', 'Vus', 'Vub', 'Vcb', 'gamma', 'm_b', 'm_s', 'm_c', 'm_u', 'm_d', 'm_e',
        'm_mu', 'm_tau')
BNV_SMEFT = ('duql', 'qque', 'qqql', 'duue')
BNV_WET = tuple(o for o in ('SduuLL', 'SuddLL', 'SduuLR', 'SduuRL', 'SdudRL', 'SdduRL', 'SduuRR', 'SuudLR', 'SuudRL', 'SdddLR', 'SdddRL',
                            'SdddLL', 'SdddRR', 'SuddLR', 'SuddRR', 'SddduRL', 'SdduRR', 'SuddRL'))


def match(d, a, b, p, scale=91.1876, mod=None, wet='WET'):
    if mod is None:
        import wilson                                               # noqa: F401
        from wilson import wcxf as mod
    wc = gen.make_wc(mod, 'SMEFT', a, scale, d)
    p0, v0 = json.dumps(p), json.dumps(wc.values, sort_keys=True)
    out = wc.match(wet, b, parameters=p) if p is not None else wc.match(wet, b)
    check(json.dumps(p) == p0, 'the parameters were modified')
    check(json.dumps(wc.values, sort_keys=True) == v0, 'the input was modified')
    check((out.eft, out.basis, out.scale) == (wet, b, scale), 'labels of the result')
    d = out.dict
    names = bases.names(wet, b)
    for k in d:
        check(k in names, lambda: 'coefficient %s is not in the basis %s of %s' % (k, b, wet))
    return d


def noise(d, out, b):
    """rounding in the subtraction of the Standard Model part: about 1e-5 * 1e-16 GeV^-2"""
    return 1e-19 if b == 'JMS' else (1e-12 + 1e-19 / max(gen.maxabs(d), 1e-30)) * gen.maxabs(out)


def scales():
    return st.one_of(st.sampled_from([91.1876, 80.0, 160.0]), st.floats(60, 300), st.floats(5, 80))


@st.composite
def cases(draw, exps=(-11, -12), pairs=PAIRS):
    a, b = draw(st.sampled_from(pairs))
    return {'a': a, 'b': b, 'p': draw(physics.params(KEYS)), 'scale': draw(scales()),
            'C': draw(gen.wcset('SMEFT', a, exp=draw(st.sampled_from(exps)), max_size=6))}


def fam_close(got, exp, what, rtol, frac):
    top = gen.maxabs(got, exp)
    for k in set(got) | set(exp):
        g, e = got.get(k, 0), exp.get(k, 0)
        check(abs(g - e) <= rtol * abs(e) + frac * top, lambda: '%s: %s is %s, expected %s' % (what, k, g, e))


def body_physics(c, ctx):
    d = gen.expand(c['C'], 'SMEFT', c['a'])
    got = match(d, c['a'], 'JMS', c['p'], c['scale'])
    exp = treematch.linear_match(d, c['p'], c['a'])
    names = bases.names('WET', 'JMS')
    check(set(exp) <= set(names), 'oracle')
    check_real(got, 'WET', 'JMS', 'matching', noise=noise(d, got, 'JMS'))
    ctx.nontrivial(any(v != 0 for v in exp.values()))
    ctx.label(c['a'])
    top = gen.maxabs(got, exp)
    for k in set(got) | set(exp):
        g, e = got.get(k, 0), exp.get(k, 0)
        check(abs(g - e) <= 2e-5 * abs(e) + 3e-7 * top + 1e-19, lambda: 'matching %s -> JMS: %s is %s, expected %s' % (c['a'], k, g, e))


def body_reference(c, ctx):
    import refwilson.wcxf
    a, b, p, s = c['a'], c['b'], c['p'], c['scale']
    d = gen.expand(c['C'], 'SMEFT', a)
    got = match(d, a, b, p, s)
    exp = match(d, a, b, p, s, mod=refwilson.wcxf)
    ctx.nontrivial(any(v != 0 for v in exp.values()))
    ctx.label('%s -> %s' % (a, b))
    check_real(got, 'WET', b, 'matching', noise=noise(d, got, b))
    big = gen.maxabs(d)
    relsame(got, exp, 'matching %s -> %s (published result)' % (a, b), rtol=1e-8, frac=1e-9 + 1e-18 / max(big, 1e-30),
            floor=1e-12 + 1e-20 / max(big, 1e-30))


def body_laws(c, ctx):
    a, b, p, s = c['a'], c['b'], c['p'], c['scale']
    d = gen.expand(c['C'], 'SMEFT', a)
    ctx.label('%s -> %s' % (a, b))
    got = match(d, a, b, p, s)
    ctx.nontrivial(any(v != 0 for v in got.values()))
    check_real(got, 'WET', b, 'matching', noise=noise(d, got, b))
    big = gen.maxabs(d)
    kw = dict(rtol=1e-8, frac=1e-9 + 1e-18 / max(big, 1e-30), floor=1e-12 + 1e-20 / max(big, 1e-30))
    if b != 'JMS':
        jms = match(d, a, 'JMS', p, s)
        two = tr(jms, 'WET', 'JMS', b, p, s)
        relsame(got, two, 'matching %s -> %s compared with matching onto JMS and translating' % (a, b), **kw)
    if a == 'Warsaw':
        from wilson import wcxf
        up = gen.make_wc(wcxf, 'SMEFT', a, s, d)
        up = (up.translate('Warsaw up', parameters=p) if p is not None else up.translate('Warsaw up')).dict
        if ('Warsaw up', b) in PAIRS:
            two = match(up, 'Warsaw up', b, p, s)
        else:
            two = tr(match(up, 'Warsaw up', 'JMS', p, s), 'WET', 'JMS', b, p, s)
        relsame(got, two, 'matching %s -> %s compared with translating to the Warsaw-up basis first' % (a, b), **kw)
    zero = match({}, a, b, p, s)
    check(not any(abs(v) > 1e-17 for v in zero.values()), lambda: 'no coefficients in, but %s out' % {k: v for k, v in zero.items() if v})
    # the tree-level result has no explicit scale dependence
    if b == 'JMS':
        relsame(match(d, a, b, physics.full(p, smeft=True), s), got, 'explicit default parameters', **kw)
        relsame(match(d, a, b, p, 2 * s), got, 'matching at another scale', **kw)
        relsame(match(d, a, b, dict(p or {}, loop_order=0), s), got, 'loop_order 0', **kw)


@st.composite
def lincases(draw):
    a, b = draw(st.sampled_from(PAIRS[:2]))
    e = draw(st.sampled_from([-12, -13]))
    return {'a': a, 'b': b, 'p': draw(physics.params(KEYS)), 'scale': draw(scales()),
            'C': draw(gen.wcset('SMEFT', a, exp=e, max_size=6)), 'D': draw(gen.wcset('SMEFT', a, exp=e, max_size=6)),
            'x': draw(gen.factors()), 'y': draw(gen.factors())}


def body_linear(c, ctx):
    a, b, p, s, x, y = (c[k] for k in ('a', 'b', 'p', 'scale', 'x', 'y'))
    d, e = gen.expand(c['C'], 'SMEFT', a), gen.expand(c['D'], 'SMEFT', a)
    z = {k: x * d.get(k, 0) + y * e.get(k, 0) for k in set(d) | set(e)}
    fd, fe, fz = (match(q, a, b, p, s) for q in (d, e, z))
    exp = {k: x * fd.get(k, 0) + y * fe.get(k, 0) for k in set(fd) | set(fe)}
    ctx.nontrivial(any(fd.values()) and any(fe.values()))
    ctx.label('%s -> %s' % (a, b))
    fam = {}
    for k in exp:
        f = k.split('_')[0]
        fam[f] = max(fam.get(f, 0), abs(x * fd.get(k, 0)) + abs(y * fe.get(k, 0)))
    top = max(fam.values(), default=0)
    for k in set(exp) | set(fz):
        g, w = fz.get(k, 0), exp.get(k, 0)
        tol = 1e-5 * fam.get(k.split('_')[0], 0) + 1e-5 * abs(w) + 1e-6 * top + 1e-19
        check(abs(g - w) <= tol, lambda: 'matching %s -> %s of small coefficients is not linear: %s is %s, expected %s' % (a, b, k, g, w))


def body_number(c, ctx):
    """Baryon- and lepton-number: operators violating baryon number give exactly such operators and vice versa"""
    a, p, s = c['a'], c['p'], c['scale']
    d = gen.expand(c['C'], 'SMEFT', a)
    bnv = {k: v for k, v in d.items() if k.split('_')[0] in BNV_SMEFT}
    cons = {k: v for k, v in d.items() if k not in bnv}
    full = match(d, a, 'JMS', p, s)
    f1, f2 = match(bnv, a, 'JMS', p, s), match(cons, a, 'JMS', p, s)
    ctx.nontrivial(any(f1.values()) or any(f2.values()))
    for k, v in f1.items():
        check(k.split('_')[0] in BNV_WET or abs(v) <= 1e-17, lambda: 'baryon-number violating input gives %s = %s' % (k, v))
    for k, v in f2.items():
        check(k.split('_')[0] not in BNV_WET or abs(v) <= 1e-17, lambda: 'baryon-number conserving input gives %s = %s' % (k, v))
    exp = dict(f2)
    for k, v in f1.items():
        exp[k] = exp.get(k, 0) + v
    relsame(full, exp, 'parts with and without baryon number', rtol=1e-9, frac=1e-9, floor=1e-10)


def dense(seed, exp=-11, q=1.0, prefix=None):
    d = {'kind': 'dense', 'seed': seed, 'keep': q, 'exp': exp}
    if prefix:
        d['prefix'] = [prefix]
    return d


P0 = {'m_W': 80.0, 'm_Z': 91.0, 'm_h': 120.0, 'Vus': 0.3, 'Vub': 0.02, 'Vcb': 0.1, 'gamma': 0.9, 'GF': 1.2e-5, 'alpha_e': 0.008,
      'alpha_s': 0.11, 'm_b': 4.3, 'm_s': 0.1, 'm_c': 1.2, 'm_u': 0.003, 'm_d': 0.004, 'm_e': 6e-4, 'm_mu': 0.1, 'm_tau': 1.9}


def families():
    fs = sorted({k.split('_')[0] for k in bases.names('SMEFT', 'Warsaw')})
    return [{'a': ('Warsaw', 'Warsaw up')[i % 2], 'b': 'JMS', 'p': P0, 'scale': 91.0, 'C': dense(i, prefix=f)} for i, f in enumerate(fs)]


def every(exp=-11):
    return [{'a': a, 'b': b, 'p': P0 if i % 2 else None, 'scale': 62.0 + 12 * i, 'C': dense(i, exp)} for i, (a, b) in enumerate(PAIRS)]


MIN = gen.sparsify('SMEFT', lambda c: c['a'], ('C', 'D'))
FULL = {k: physics.SMEFT[k] for k in KEYS}


def exactly(got, exp, what):
    relsame(got, exp, what, rtol=1e-10, frac=1e-12, floor=1e-14)


SUBS = [
    Sub('history', lambda: neighbour.histories([('SMEFT', a, b) for a, b in PAIRS], physics.params(KEYS), FULL, (20., 400.), maxsteps=2),
        neighbour.body(lambda r, d, p, s: match(d, r[1], r[2], p, s), FULL, exactly), 24, 900, rule='a result is not empty',
        examples=lambda: neighbour.every([('SMEFT', a, b) for a, b in PAIRS], FULL, (20., 400.))),
    Sub('physics', cases, body_physics, 60, 1500, rule='the expected WET coefficients are not all zero', examples=families, minimise=MIN),
    Sub('reference', lambda: cases(exps=(-6, -7, -8, -10)), body_reference, 60, 2000, rule='the WET coefficients are not all zero',
        examples=lambda: every(-7), minimise=MIN),
    Sub('laws', lambda: cases(exps=(-7, -9), pairs=PAIRS + PAIRS[2:]), body_laws, 70, 1500, rule='the WET coefficients are not all zero', examples=lambda: every(-8), minimise=MIN),
    Sub('linear', lincases, body_linear, 40, 1500, rule='both inputs have an image', minimise=MIN),
    Sub('number', lambda: cases(exps=(-8,), pairs=PAIRS[:2]), body_number, 20, 600, rule='the image is not zero', minimise=MIN,
        examples=[{'a': 'Warsaw up', 'b': 'JMS', 'p': P0, 'scale': 91.0, 'C': dense(5, -8)}]),
]
