"""C19: running strong coupling and quark masses follow QCD evolution."""
import math

from hypothesis import strategies as st

from harness import Sub, check, Violation
import gen

MZ = 91.1876
NEEDS_REF = False
ASSUMPTIONS = ['the C library rundec (CRunDec) is trusted for its primitives AlphasExact, mMS2mMS and the '
               'on-shell decoupling relations; the composition of primitives (which threshold, which flavour '
               'number, which reference) is re-derived here and, for the coupling and masses in a fixed-flavour '
               'theory, the RGE is integrated independently']

FS = {'alpha_s': (3, 4, 5, 6), 'm_b': (3, 4, 5, 6), 'm_c': (3, 4, 5), 'm_s': (3, 4, 5)}
REFS = {'alpha_s': None, 'm_b': (3.5, 5.0), 'm_c': (1.0, 1.6), 'm_s': (0.05, 0.2)}


# ---------------------------------------------------------------- model (rundec primitives)
def _run(a, mu0, mu, f, loop):
    import rundec
    if a == 0 or mu0 == mu:
        return a
    return rundec.CRunDec().AlphasExact(a, mu0, mu, f, loop)


def _a5(mu, a, loop):
    return _run(a, MZ, mu, 5, loop)


def _a4(mu, a, loop):
    import rundec
    ab = _a5(4.8, a, loop)
    return _run(rundec.CRunDec().DecAsDownOS(ab, 4.8, 4.8, 4, loop), 4.8, mu, 4, loop)


def _a3(mu, a, loop):
    import rundec
    ac = _a4(1.3, a, loop)
    return _run(rundec.CRunDec().DecAsDownOS(ac, 1.3, 1.3, 3, loop), 1.3, mu, 3, loop)


def _a6(mu, a, loop):
    import rundec
    at = _a5(170, a, loop)
    return _run(rundec.CRunDec().DecAsUpOS(at, 170, 170, 5, loop), 170, mu, 6, loop)


A = {3: _a3, 4: _a4, 5: _a5, 6: _a6}


def model(fn, ref, mu, f, a, loop):
    """Value or 0 if perturbation theory fails."""
    import rundec
    if fn == 'alpha_s':
        return A[f](mu, a, loop)
    f0 = {'m_b': 5, 'm_c': 4, 'm_s': 3}[fn]
    mu0 = {'m_b': ref, 'm_c': ref, 'm_s': 2.0}[fn]
    m, al, mu_cur, nf = ref, A[f0](mu0, a, loop), mu0, f0
    if f == f0:     # AlphasExact is inaccurate for tiny intervals: both couplings are taken from alpha_s(MZ)
        al1 = A[f](mu, a, loop)
        return rundec.CRunDec().mMS2mMS(m, al, al1, f, loop) if al and al1 else 0

    def step(mu1):
        nonlocal m, al, mu_cur
        al1 = _run(al, mu_cur, mu1, nf, loop)
        if al1 == 0 or al == 0:
            al = 0
            return
        m = rundec.CRunDec().mMS2mMS(m, al, al1, nf, loop)
        al, mu_cur = al1, mu1
    th = {6: 170.0, 5: 4.8, 4: 1.3}
    two = abs(f - f0) == 2      # the coupling is taken afresh from alpha_s(MZ) at the charm threshold
    while nf > f:
        t = th[nf]
        step(t)
        if two and t == 1.3 and al:
            al = _a4(1.3, a, loop)
        if al == 0:
            return 0
        c = rundec.CRunDec()
        m1 = c.DecMqDownOS(m, al, t, t, nf - 1, loop)
        al = c.DecAsDownOS(al, t, t, nf - 1, loop)
        m, nf = m1, nf - 1
    while nf < f:
        t = th[nf + 1]
        step(t)
        if al == 0:
            return 0
        c = rundec.CRunDec()
        m1 = c.DecMqUpOS(m, al, t, t, nf, loop)
        al = c.DecAsUpOS(al, t, t, nf, loop)
        if two and t == 1.3:
            al = _a4(1.3, a, loop)
        m, nf = m1, nf + 1
    step(mu)
    return 0 if al == 0 else m


# ---------------------------------------------------------------- generators
@st.composite
def call(draw, fn=None, lo=0.15, hi=1e16):
    fn = fn or draw(st.sampled_from(sorted(FS)))
    f = draw(st.sampled_from(FS[fn]))
    ref = None
    special = [MZ, 4.8, 1.3, 170.0, 2.0, 1.0, 10.0, 91.0, 1000.0, 0.5, 0.3]
    if fn != 'alpha_s':
        ref = draw(st.floats(*REFS[fn]).map(lambda x: round(x, 4)))
        special.append(ref)
    scale = draw(st.one_of(gen.logfloat(max(lo, 0.6), 300.0), gen.logfloat(lo, hi, special),
                           st.sampled_from(special), st.integers(1, 500)))
    a = draw(st.sampled_from([None, 0.1185, 0.1181, 0.118]) | st.floats(0.105, 0.13).map(lambda x: round(x, 6)))
    loop = draw(st.sampled_from([None, 1, 2, 3, 3, 4, 5]))
    return {'fn': fn, 'f': f, 'ref': ref, 'scale': scale, 'alphas': a, 'loop': loop,
            'kw': draw(st.booleans())}


def invoke(c):
    from wilson.util import qcd
    fn = getattr(qcd, c['fn'])
    args = ([] if c['ref'] is None else [c['ref']]) + [c['scale'], c['f']]
    kw = {}
    if c['alphas'] is not None:
        kw['alphasMZ'] = c['alphas']
    if c['loop'] is not None:
        kw['loop'] = c['loop']
    if c['kw'] or len(kw) < 2:
        return fn(*args, **kw)
    return fn(*args, kw['alphasMZ'], kw['loop'])


def expected(c):
    a = 0.1185 if c['alphas'] is None else c['alphas']
    loop = 3 if c['loop'] is None else c['loop']
    return model(c['fn'], c['ref'], c['scale'], c['f'], a, loop)


def result(c):
    try:
        return invoke(c)
    except ValueError:
        return ValueError


def agree(c, ctx=None):
    exp = expected(c)
    got = result(c)
    if got is not ValueError:
        check(isinstance(got, (int, float)) and math.isfinite(got) and got > 0,
              lambda: 'not a positive finite number: %r for %r' % (got, c))
    if exp == 0:
        check(got is ValueError, lambda: 'perturbation theory fails at this scale, but %r was returned for %r' % (got, c))
        return got
    if not math.isfinite(exp):
        return got
    if got is ValueError:
        # the code refuses: allowed only if perturbation theory breaks down close by
        a = A[c['f']](c['scale'] * 1.0, 0.1185 if c['alphas'] is None else c['alphas'], c['loop'] or 3)
        check(a == 0 or a > 0.9, lambda: 'ValueError, but the expected value is %r for %r' % (exp, c))
        return got
    a = A[c['f']](float(c['scale']), 0.1185 if c['alphas'] is None else c['alphas'], c['loop'] or 3)
    tol = 2e-6 if 0 < a < 0.5 else 2e-3
    check(abs(got - exp) <= tol * abs(exp), lambda: 'got %r, QCD evolution gives %r for %r' % (got, exp, c))
    return got


def body_value(c, ctx):
    ctx.label('%s f=%d' % (c['fn'], c['f']))
    got = agree(c)
    ctx.nontrivial(got is not ValueError)
    if got is ValueError:
        ctx.label('refused')
    # reference value reproduced at its own scale
    c0 = dict(c)
    if c['fn'] == 'alpha_s':
        c0.update(scale=MZ, f=5)
        ref = 0.1185 if c['alphas'] is None else c['alphas']
    elif c['fn'] == 'm_s':
        c0.update(scale=2, f=3)
        ref = c['ref']
    else:
        c0.update(scale=c['ref'], f={'m_b': 5, 'm_c': 4}[c['fn']])
        ref = c['ref']
    got = invoke(c0)
    check(abs(got - ref) <= 1e-12 * ref, lambda: 'reference value not reproduced: %r for %r' % (got, c0))


def body_laws(c, ctx):
    """monotonic in the scale; linear in m_s(2 GeV); continuous at the special scales"""
    c = dict(c)
    r = c.pop('ratio')
    ctx.label(c['fn'])
    v1 = result(c)
    c2 = dict(c, scale=c['scale'] * r)
    v2 = result(c2)
    ctx.nontrivial(v1 is not ValueError)
    if v1 is not ValueError:
        check(v2 is not ValueError, lambda: 'value at %r but ValueError at the larger scale %r (%r)' % (c['scale'], c2['scale'], c))
        check(v2 < v1, lambda: 'not decreasing: %r at %r, %r at %r (%r)' % (v1, c['scale'], v2, c2['scale'], c))
    if c['fn'] == 'm_s' and v1 is not ValueError:
        v3 = result(dict(c, ref=c['ref'] * 2))
        check(abs(v3 - 2 * v1) < 1e-9 * v1, 'not proportional to the reference mass: %r %r %r' % (v1, v3, c))
    # continuity at the scale where "nothing is to do"
    s0 = {'alpha_s': MZ, 'm_s': 2.0}.get(c['fn'], c['ref'])
    if s0 is not None:
        a, b = result(dict(c, scale=s0)), result(dict(c, scale=s0 * (1 + 1e-7)))
        if a is not ValueError and b is not ValueError:
            check(abs(a - b) < 2e-4 * abs(a), lambda: 'jump at the reference scale: %r vs %r (%r)' % (a, b, c))


# independent RGE integration (fixed flavour number 5)
def betas(nf):
    z3 = 1.2020569031595942
    b0 = (11 - 2 / 3 * nf) / 4
    b1 = (102 - 38 / 3 * nf) / 16
    b2 = (2857 / 2 - 5033 / 18 * nf + 325 / 54 * nf**2) / 64
    b3 = (149753 / 6 + 3564 * z3 + (-1078361 / 162 - 6508 / 27 * z3) * nf
          + (50065 / 162 + 6472 / 81 * z3) * nf**2 + 1093 / 729 * nf**3) / 256
    return [b0, b1, b2, b3]


def gammas(nf):
    z3 = 1.2020569031595942
    g0 = 1
    g1 = (202 / 3 - 20 / 9 * nf) / 16
    g2 = (1249 + (-2216 / 27 - 160 / 3 * z3) * nf - 140 / 81 * nf**2) / 64
    return [g0, g1, g2]


def body_ode(c, ctx):
    from wilson.util import qcd
    from scipy.integrate import solve_ivp
    loop, f = c['loop'], c['f']
    # start from the value at one scale and integrate to another one, in the theory with f flavours
    kw = dict(alphasMZ=c['alphas'], loop=loop)
    a0 = qcd.alpha_s(c['s1'], f, **kw)
    a1 = qcd.alpha_s(c['s2'], f, **kw)
    b = betas(f)[:loop]
    g = gammas(f)[:loop]
    pi = math.pi

    def rhs(t, y):
        x = y[0] / pi
        return [-pi * sum(bi * x ** (i + 2) for i, bi in enumerate(b)),
                -y[1] * sum(gi * x ** (i + 1) for i, gi in enumerate(g))]
    t1 = 2 * math.log(c['s2'] / c['s1'])
    sol = solve_ivp(rhs, (0, t1), [a0, 1.0], rtol=1e-10, atol=1e-14)
    ctx.nontrivial(abs(t1) > 1e-3)
    check(abs(sol.y[0, -1] - a1) < 2e-6 * a1,
          lambda: 'alpha_s(%g)=%r, but evolving alpha_s(%g) gives %r (%r)' % (c['s2'], a1, c['s1'], sol.y[0, -1], c))
    for fn, ref in (('m_b', 4.2), ('m_c', 1.25), ('m_s', 0.1)):
        if f not in FS[fn]:
            continue
        F = getattr(qcd, fn)
        m0, m1 = F(ref, c['s1'], f, **kw), F(ref, c['s2'], f, **kw)
        # beyond one loop rundec evolves masses with a truncated c-function
        tol = 2e-6 if loop == 1 else 4e-3
        check(abs(m1 / m0 - sol.y[1, -1]) < tol * sol.y[1, -1],
              lambda: '%s: ratio %r, RGE gives %r (%r)' % (fn, m1 / m0, sol.y[1, -1], c))


@st.composite
def ode_case(draw):
    s = gen.logfloat(2.0, 1e4, [MZ, 4.8, 170.0])
    return {'f': draw(st.sampled_from([3, 4, 5, 6])), 's1': draw(s), 's2': draw(s),
            'alphas': draw(st.floats(0.11, 0.125)), 'loop': draw(st.sampled_from([1, 2, 3]))}


@st.composite
def bad_case(draw):
    fn = draw(st.sampled_from(sorted(FS)))
    kind = draw(st.sampled_from(['scale', 'flavour', 'both']))
    f = draw(st.sampled_from(FS[fn]))
    scale = draw(gen.logfloat(0.7, 1e4))
    if kind in ('scale', 'both'):
        scale = draw(st.sampled_from([0, 0.0, -0.0, -1, -MZ, -2.0, -1e-300]) | st.floats(-1e6, 0.0))
    if kind in ('flavour', 'both'):
        f = draw(st.integers(-3, 12).filter(lambda x: x not in FS[fn]) | st.sampled_from([2.5, 3.5, 4.5, 5.5, 6.5]))
    return {'fn': fn, 'f': f, 'scale': scale, 'ref': None if fn == 'alpha_s' else draw(st.floats(*REFS[fn])),
            'alphas': draw(st.none() | st.floats(0.11, 0.125)), 'loop': draw(st.sampled_from([None, 1, 3])), 'kw': True}


def body_bad(c, ctx):
    ctx.label('bad scale' if c['scale'] <= 0 else 'bad flavour number')
    got = result(c)
    check(got is ValueError, lambda: '%r instead of an error for %r' % (got, c))
    got = result(c)     # and again (the answer must not be remembered as a value)
    check(got is ValueError, lambda: 'second call: %r instead of an error for %r' % (got, c))


def hist_strategy():
    return st.lists(call(lo=0.8, hi=1e3), min_size=2, max_size=6).flatmap(
        lambda pool: st.fixed_dictionaries({'pool': st.just(pool),
                                            'order': st.lists(st.integers(0, len(pool) - 1), min_size=3, max_size=60),
                                            'vary': st.lists(st.sampled_from(['f', 'loop', 'alphas', 'scale', 'ref']),
                                                             min_size=1, max_size=4)}))


def body_history(c, ctx):
    """any sequence of calls: every call gives what the same call gives on its own"""
    pool = [dict(x) for x in c['pool']]
    # neighbours that differ in exactly one argument
    for i, v in enumerate(c['vary']):
        x = dict(pool[i % len(pool)])
        if v == 'f':
            x['f'] = FS[x['fn']][(FS[x['fn']].index(x['f']) + 1) % len(FS[x['fn']])]
        elif v == 'loop':
            x['loop'] = 1 + (x['loop'] or 3) % 4
        elif v == 'alphas':
            x['alphas'] = 0.112 if x['alphas'] != 0.112 else 0.12
        elif v == 'scale':
            x['scale'] = float(x['scale']) * 1.5
        elif v == 'ref' and x['ref']:
            x['ref'] = x['ref'] * 1.05
        pool.append(x)
    order = list(range(len(pool))) + [i % len(pool) for i in c['order']] + list(range(len(pool)))[::-1]
    first = {}
    ctx.nontrivial(len(order) > len(pool))
    for i in order:
        got = agree(pool[i])
        if i in first:
            check(first[i] == got, lambda: 'different answers to the same call: %r, %r for %r' % (first[i], got, pool[i]))
        first[i] = got


SUBS = [
    Sub('value', call, body_value, 2400, 40000,
        rule='a value is returned (not refused)',
        examples=[{'fn': fn, 'f': f, 'ref': r, 'scale': s, 'alphas': None, 'loop': None, 'kw': True}
                  for fn in sorted(FS) for f in FS[fn]
                  for r in [{'alpha_s': None, 'm_b': 4.18, 'm_c': 1.28, 'm_s': 0.095}[fn]]
                  for s in (MZ, 2, 2.0, 4.18, 1.28, 4.8, 1.3, 170, 1.0, 10, 160.0, 1e4, 0.5, 0.2)]),
    Sub('laws', lambda: st.tuples(call(lo=0.8, hi=1e14), st.floats(1.01, 100)).map(lambda t: dict(t[0], ratio=t[1])),
        body_laws, 1600, 20000, rule='a value is returned at the lower scale'),
    Sub('own_ode', ode_case, body_ode, 800, 5000, rule='the two scales differ'),
    Sub('refused', bad_case, body_bad, 800, 5000, rule='all (inadmissible scale or flavour number)'),
    Sub('history', hist_strategy, body_history, 400, 4000, rule='at least one call is repeated'),
]
