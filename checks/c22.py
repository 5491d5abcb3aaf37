"""C22: continuous solutions agree with point-to-point running."""
import functools
import math
import sys
import types

import numpy as np
from hypothesis import strategies as st

from harness import Sub, check, HarnessError, Violation
import bases
import gen
import tensors as T

NEEDS_REF = False
ASSUMPTIONS = ['running to a given scale is judged by C14 and C16; the integration of the SMEFT equations has the default precision of scipy',
               'no matplotlib here: plot() is run against a stand-in that records the calls']
WINDOW = {'WET': (2.5, 200.0), 'WET-4': (1.2, 20.0), 'WET-3': (1.0, 5.0)}
SMKEYS = ('g', 'gp', 'gs', 'Lambda', 'm2', 'Gu_33', 'Gu_23', 'Gd_33', 'Gd_11', 'Ge_22', 'Ge_33')


def lib():
    import wilson
    from wilson import wcxf, classes
    return wilson, wcxf, classes


# plot data of arbitrary solutions ------------------------------------------------------------------------------------------
@st.composite
def plots(draw):
    lo = draw(gen.logfloat(1e-2, 1e12, (91.1876, 1000.0, 4.2)))
    hi = lo * draw(st.one_of(st.floats(1.001, 10), gen.logfloat(1.01, 1e12)))
    return {'lo': lo, 'hi': hi, 'a': draw(st.floats(-3, 3)), 'b': draw(st.floats(-2, 2)), 'steps': draw(st.one_of(st.none(), st.integers(2, 200), st.sampled_from([2, 3, 50]))),
            'scale': draw(st.sampled_from([None, 'log', 'linear'])), 'part': draw(st.sampled_from([None, 're', 'im'])), 'real': draw(st.booleans()),
            'key': draw(st.sampled_from(['C9_bsmumu', 'g', 'other'])), 'legend': draw(st.sampled_from([None, True, False])),
            'args': draw(st.sampled_from([None, {'c': 'k', 'ls': '--'}])), 'pos': draw(st.booleans())}


def solution(c, calls=None):
    """an analytic 'solution' that accepts arrays"""
    a, b = c['a'], c['b']

    def one(mu):
        t = math.log(mu)
        z = a * t ** 2 + b if c['real'] else complex(a * t + b, b * t - a)
        return {'C9_bsmumu': z, 'g': z * 2, 'other': -z}
    vec = np.vectorize(one, otypes=[object])
    _, _, classes = lib()
    return classes.RGsolution(lambda x: vec(x)[()], c['lo'], c['hi']), one


def grid(x, c, what):
    n = c['steps'] or 50
    x = np.asarray(x)
    check(x.shape == (n,), lambda: '%s: %s points instead of %s' % (what, x.shape, n))
    lo, hi = c['lo'], c['hi']
    check(abs(x[0] - lo) <= 1e-12 * lo and abs(x[-1] - hi) <= 1e-12 * hi, lambda: '%s: from %s to %s instead of %s to %s' % (what, x[0], x[-1], lo, hi))
    i = np.arange(n) / (n - 1)
    e = lo * (hi / lo) ** i if c['scale'] in (None, 'log') else lo + (hi - lo) * i
    check(np.all(np.abs(x - e) <= 1e-10 * e), lambda: '%s: the points are not spaced as requested: %s instead of %s' % (what, x[:4], e[:4]))


def body_plotdata(c, ctx):
    sol, one = solution(c)
    ctx.nontrivial(c['a'] != 0)
    ctx.label('%s %s %s' % (c['scale'], c['part'], 'real' if c['real'] else 'complex'))
    kw = {k: c[k] for k in ('part', 'scale', 'steps') if c[k] is not None}
    r = sol.plotdata(c['key'], **kw)
    check(len(r) == 2, 'plotdata does not return two arrays')
    x, y = r
    grid(x, c, 'plotdata')
    e = np.array([one(t)[c['key']] for t in x])
    e = e.imag if c['part'] == 'im' else e.real
    y = np.asarray(y)
    check(y.shape == e.shape and not np.iscomplexobj(y) and np.all(np.abs(y.astype(float) - e) <= 1e-13 * np.abs(e)), lambda: 'plotdata: values %s instead of %s' % (y[:3], e[:3]))
    check(sol.scale_min == c['lo'] and sol.scale_max == c['hi'], 'the interval was modified')
    # plotting draws these data
    calls = []
    plt = types.ModuleType('matplotlib.pyplot')
    for f in ('plot', 'xscale', 'legend', 'yscale', 'semilogx'):
        setattr(plt, f, (lambda f: lambda *a, **k: calls.append((f, a, k)))(f))
    mpl = types.ModuleType('matplotlib')
    mpl.pyplot = plt
    old = {m: sys.modules.get(m) for m in ('matplotlib', 'matplotlib.pyplot')}
    sys.modules.update({'matplotlib': mpl, 'matplotlib.pyplot': plt})
    try:
        kw2 = dict(kw)
        if c['legend'] is not None:
            kw2['legend'] = c['legend']
        if c['args'] is not None:
            kw2['plotargs'] = dict(c['args'])
        sol.plot(c['key'], **kw2)
    finally:
        for m, v in old.items():
            if v is None:
                sys.modules.pop(m, None)
            else:
                sys.modules[m] = v
    p = [x for x in calls if x[0] in ('plot', 'semilogx')]
    check(len(p) == 1 and len(p[0][1]) >= 2, lambda: 'plot: calls %s' % [x[0] for x in calls])
    check(np.allclose(p[0][1][0], x, rtol=1e-12) and np.allclose(np.asarray(p[0][1][1], dtype=float), e, rtol=1e-12, atol=0), 'plot draws other data')
    check(p[0][2].get('label') == c['key'], lambda: 'plot: label %r' % p[0][2].get('label'))
    for k, v in (c['args'] or {}).items():
        check(p[0][2].get(k) == v, lambda: 'plot: argument %s is not passed on' % k)
    islog = any(x[0] == 'semilogx' or (x[0] == 'xscale' and x[1][:1] == ('log',)) for x in calls)
    check(islog == (c['scale'] != 'linear'), 'scale of the axis')
    check(any(x[0] == 'legend' for x in calls) == (c['legend'] is not False), 'legend')


# SMEFT ---------------------------------------------------------------------------------------------------------------------
@functools.lru_cache(None)
def smnames():
    return bases.names('SMEFT', 'Warsaw')


@st.composite
def smefts(draw):
    a = draw(gen.logfloat(100, 1e9, (1000.0, 1e4)))
    b = draw(st.one_of(gen.logfloat(100, 1e9, (91.1876, 1000.0)), gen.logfloat(100, 1e9, (91.1876, 1000.0)), gen.logfloat(50, 150, (80.0,))))
    if abs(math.log(b / a)) < 0.5:
        b = a * (4.0 if a < 1e5 else 0.2)
    if abs(math.log(b / a)) > 9 and draw(st.integers(0, 5)):
        b = a * (2000.0 if b > a else 0.0005)
    return {'C': draw(gen.wcset('SMEFT', 'Warsaw', exp=-9)), 'a': a, 'b': b, 'u': draw(st.floats(0.02, 0.98)),
            'keys': draw(st.lists(st.one_of(st.sampled_from(sorted(smnames())), st.sampled_from(SMKEYS), st.just('given')), min_size=1, max_size=2)),
            'scale': draw(st.sampled_from(['log', 'linear'])), 'part': draw(st.sampled_from(['re', 'im'])), 'steps': draw(st.integers(2, 5))}


def number(v):
    return complex(np.asarray(v).item())


def family(k):
    return k.split('_')[0]


def close(got, exp, what, tol, d=None):
    """relative to the value or, with a smaller weight, to the largest value of all (given) coefficients"""
    names = smnames()
    big = {k: 0.0 for k in ('llphiphi', 'dim6')}
    for x in (exp, d or {}):
        for k, v in x.items():
            if k in names:
                f = 'llphiphi' if family(k) == 'llphiphi' else 'dim6'
                big[f] = max(big[f], abs(v))
    for k in set(got) | set(exp):
        if k not in names:
            continue
        g, e = number(got.get(k, 0)), number(exp.get(k, 0))
        f = 'llphiphi' if family(k) == 'llphiphi' else 'dim6'
        check(abs(g - e) <= tol * abs(e) + tol * 0.1 * big[f], lambda: '%s: %s is %s, expected %s' % (what, k, g, e))


def nonred(C):
    """coefficients (Standard Model parameters as they are) of a dictionary of arrays"""
    out = {}
    for op, r in T.reps('SMEFT').items():
        out.update(T.reduce_op('SMEFT', op, np.asarray(C[op]) if np.shape(C[op]) else complex(C[op]), True))
    for k in SMKEYS:
        if '_' in k:
            n, i = k.split('_')
            out[k] = C[n][tuple(int(x) - 1 for x in i)]
        else:
            out[k] = C[k]
    return out


def body_smeft(c, ctx):
    _, wcxf, _ = lib()
    from wilson.run.smeft import SMEFT, rge
    d = {k: v for k, v in gen.expand(c['C'], 'SMEFT', 'Warsaw').items() if not k.startswith('llphiphi')}
    a, b = c['a'], c['b']
    sm = SMEFT(gen.make_wc(wcxf, 'SMEFT', 'Warsaw', a, d))
    ctx.label('up' if b > a else 'down')
    ctx.nontrivial(any(d.values()))
    sol = sm.run_continuous(b)
    lo, hi = min(a, b), max(a, b)
    check((sol.scale_min, sol.scale_max) == (lo, hi), lambda: 'interval %s, %s for running from %s to %s' % (sol.scale_min, sol.scale_max, a, b))
    # precision of the interpolation: falls rapidly with the size of the interval
    tol = 1e-4 + 0.2 * min(1, abs(math.log(b / a)) / 16) ** 5
    # the end points
    start = sol.fun(a)
    check(isinstance(start, dict), lambda: 'a single scale gives %s' % type(start))
    close(start, nonred(sm.C_in), 'solution at the input scale', 1e-9)
    close(start, d, 'solution at the input scale', 1e-9)
    mu = math.exp(math.log(a) + c['u'] * math.log(b / a))
    for x, what in ((b, 'solution at the final scale'), (mu, 'solution in between, at %s' % mu)):
        got, exp = sol.fun(x), nonred(rge.smeft_evolve(sm.C_in, a, x))
        close(got, exp, what, 1e-9 if x == b else tol, d)
        for k in ('g', 'gp', 'gs', 'Gu_33'):
            check(abs(number(got[k]) - exp[k]) <= (1e-9 if x == b else tol) * abs(exp[k]), lambda: '%s: %s is %s, expected %s' % (what, k, got[k], exp[k]))
    # running to the intermediate scale, up to a flavour rotation: norms of the operators
    if c['u'] < 0.3:
        ctx.label('run')
        fin, got = sm.run(mu).dict, sol.fun(mu)
        fin = T.expand_all('SMEFT', {k: v for k, v in fin.items()})
        got = T.expand_all('SMEFT', {k: number(v) for k, v in got.items() if k in smnames()})
        big = max(np.linalg.norm(np.atleast_1d(v).ravel()) for k, v in fin.items() if k != 'llphiphi')
        for op in fin:
            x, y = (np.linalg.norm(np.atleast_1d(z[op]).ravel()) for z in (got, fin))
            check(abs(x - y) <= (tol + 2e-3) * y + 0.1 * (tol + 2e-3) * big, lambda: 'norm of %s at %s: %s in the solution, %s after running' % (op, mu, x, y))
    # plot data of given, generated and vanishing coefficients and of Standard Model parameters
    cc = {'lo': lo, 'hi': hi, 'steps': c['steps'], 'scale': c['scale']}
    pts = None
    for k in c['keys']:
        if k == 'given':
            k = sorted(d)[0] if d else 'G'
        x, y = sol.plotdata(k, part=c['part'], scale=c['scale'], steps=c['steps'])
        grid(x, cc, 'plot data of %s' % k)
        if pts is None:
            pts = [nonred(rge.smeft_evolve(sm.C_in, a, t)) if t not in (a, b) else None for t in x[:2]]
        big = max([abs(v) for v in d.values()] + [1e-30]) if k in smnames() else 0
        for t, val, p in zip(x, y, pts):
            if p is None or abs(math.log(t / a)) < 1e-9:
                continue
            e = complex(p[k])
            check(abs(val - (e.imag if c['part'] == 'im' else e.real)) <= tol * abs(e) + 0.1 * tol * big, lambda: 'plot data: %s part of %s at %s is %s, running gives %s' % (c['part'], k, t, val, e))


@st.composite
def intervals(draw):
    a = draw(gen.logfloat(40, 1e6, (91.1876, 1000.0, 160.0)))
    b = a * draw(st.one_of(st.sampled_from([0.5, 2.0, 0.9, 1.1, 0.25, 4.0, 1.001, 0.999]), st.floats(0.2, 5)))
    if abs(math.log(b / a)) < 1e-3:
        b = a * 1.5
    return {'C': draw(gen.wcset('SMEFT', 'Warsaw', exp=-9)), 'a': a, 'b': b, 'key': draw(st.sampled_from(SMKEYS + ('given', 'given', 'G', 'phi'))),
            'scale': draw(st.sampled_from([None, 'log', 'linear'])), 'part': draw(st.sampled_from([None, 're', 'im'])), 'steps': draw(st.sampled_from([None, 2, 3, 7]))}


def body_interval(c, ctx):
    """short intervals anywhere: the interval, the points and the values at both ends"""
    _, wcxf, _ = lib()
    from wilson.run.smeft import SMEFT, rge
    d = {k: v for k, v in gen.expand(c['C'], 'SMEFT', 'Warsaw').items() if not k.startswith('llphiphi')}
    a, b = c['a'], c['b']
    sm = SMEFT(gen.make_wc(wcxf, 'SMEFT', 'Warsaw', a, d))
    ctx.label('up' if b > a else 'down')
    ctx.nontrivial(any(d.values()))
    sol = sm.run_continuous(b)
    lo, hi = min(a, b), max(a, b)
    check((sol.scale_min, sol.scale_max) == (lo, hi), lambda: 'interval %s, %s for running from %s to %s' % (sol.scale_min, sol.scale_max, a, b))
    ends = {a: nonred(sm.C_in), b: nonred(rge.smeft_evolve(sm.C_in, a, b))}
    for x in (a, b):
        close(sol.fun(x), ends[x], 'solution at %s' % x, 1e-9, d)
    k = c['key'] if c['key'] != 'given' else (sorted(d) or ['G'])[0]
    kw = {q: c[q] for q in ('part', 'scale', 'steps') if c[q] is not None}
    x, y = sol.plotdata(k, **kw)
    grid(x, {'lo': lo, 'hi': hi, 'steps': c['steps'], 'scale': c['scale']}, 'plot data of %s' % k)
    big = max([abs(v) for v in d.values()] + [1e-30]) if k in smnames() else 0
    for t, val in ((lo, y[0]), (hi, y[-1])):
        e = complex(ends[t][k])
        e = e.imag if c['part'] == 'im' else e.real
        check(abs(val - e) <= 1e-6 * abs(e) + 1e-7 * big, lambda: 'plot data of %s at %s: %s, running gives %s' % (k, t, val, e))


# WET -----------------------------------------------------------------------------------------------------------------------
@st.composite
def wets(draw):
    eft = draw(st.sampled_from(sorted(WINDOW)))
    secs = sorted(s for s, x in bases.sectors(eft, 'JMS').items() if x)
    ss = draw(st.lists(st.sampled_from(secs), min_size=1, max_size=2, unique=True))
    lo, hi = WINDOW[eft]
    a = draw(gen.logfloat(lo, hi, (2.0, 4.2) if lo <= 2.0 <= 4.2 <= hi else ()))
    b = draw(gen.logfloat(lo, hi))
    if abs(math.log(b / a)) < 0.1:
        b = hi if a < math.sqrt(lo * hi) else lo
    return {'eft': eft, 'secs': ss, 'C': draw(gen.wcset(eft, 'JMS', tuple(ss), exp=-6)), 'a': a, 'b': b, 'u': draw(st.floats(0.02, 0.98)),
            'all': draw(st.booleans()), 'steps': draw(st.sampled_from([2, 3])), 'scale': draw(st.sampled_from(['log', 'linear'])), 'part': draw(st.sampled_from(['re', 'im'])),
            'qed': draw(st.sampled_from([None, 0])), 'ask': draw(st.lists(st.sampled_from(secs), min_size=1, max_size=2, unique=True)),
            'pick': draw(st.integers(0, 10**6)), 'param': draw(st.sampled_from([None, {'alpha_s': 0.12, 'm_b': 4.5}]))}


def body_wet(c, ctx):
    _, wcxf, _ = lib()
    from wilson.run import wet
    eft, a, b = c['eft'], c['a'], c['b']
    d = gen.expand(c['C'], eft, 'JMS', tuple(c['secs']))
    kw = {} if c['qed'] is None else {'qed_order': c['qed']}
    if c['param']:
        kw['parameters'] = c['param']
    r = wet.WETrunner(gen.make_wc(wcxf, eft, 'JMS', a, d), **kw)
    secs = None if c['all'] and 'dF=0' not in c['secs'] else tuple(sorted(set(c['secs'] if c['all'] else c['ask'])))
    sk = {} if secs is None else {'sectors': secs}
    ctx.label('%s %s' % (eft, 'up' if b > a else 'down'))
    ctx.nontrivial(any(d.values()))
    sol = r.run_continuous(b, **sk)
    lo, hi = min(a, b), max(a, b)
    check((sol.scale_min, sol.scale_max) == (lo, hi), lambda: 'interval %s, %s for running from %s to %s' % (sol.scale_min, sol.scale_max, a, b))
    mu = math.exp(math.log(a) + c['u'] * math.log(b / a))
    names = bases.names(eft, 'JMS', secs)
    got = {}
    for x in (a, mu, b):
        f = sol.fun(x)
        check(isinstance(f, dict), lambda: 'a single scale gives %s' % type(f))
        got[x] = {k: complex(v) for k, v in f.items()}
        e = r.run(x, **sk).dict
        alln = bases.names(eft, 'JMS')
        extra = [k for k, v in got[x].items() if v != 0 and k in alln and k not in names]
        check(not extra, lambda: 'sectors %s: solution contains %s' % (secs, extra[:4]))
        for k in set(e) | {k for k, v in got[x].items() if k in names}:
            g, y = got[x].get(k, 0), complex(e.get(k, 0))
            check(abs(g - y) <= 1e-12 * abs(y), lambda: '%s from %s to %s: %s is %s in the solution, %s after running' % (eft, a, x, k, g, y))
    sec = bases.sector_of(eft, 'JMS')
    big = max([abs(v) for v in d.values()] + [0])
    for k, v in d.items():
        if k in names and k in got[a]:
            check(abs(got[a][k] - v) <= 1e-9 * abs(v) + 1e-10 * big, lambda: 'solution at the input scale: %s is %s instead of %s' % (k, got[a][k], v))
    # plot data
    ks = sorted(k for k in got[mu] if k in names)
    if not ks:
        return
    k = ks[c['pick'] % len(ks)]
    n = c['steps'] if 'dF=0' not in (secs or ()) else 2
    x, y = sol.plotdata(k, part=c['part'], scale=c['scale'], steps=n)
    grid(x, {'lo': lo, 'hi': hi, 'steps': n, 'scale': c['scale']}, 'plot data of %s' % k)
    for t, val in zip(x, y):
        e = complex(r.run(t, **sk).dict.get(k, 0))
        e = e.imag if c['part'] == 'im' else e.real
        check(abs(val - e) <= 1e-12 * abs(e) + 1e-14 * big, lambda: 'plot data: %s part of %s (%s) at %s is %s, running gives %s' % (c['part'], k, sec[k], t, val, e))


# the input scale itself ----------------------------------------------------------------------------------------------------
@st.composite
def equals(draw):
    return {'eft': draw(st.sampled_from(['SMEFT', 'WET', 'WET-4', 'WET-3'])), 'x': draw(st.floats(0, 1)), 'int': draw(st.booleans())}


def body_equal(c, ctx):
    _, wcxf, _ = lib()
    from wilson.run import wet
    from wilson.run.smeft import SMEFT
    lo, hi = WINDOW.get(c['eft'], (100, 1e5))
    a = lo * (hi / lo) ** c['x']
    if c['int']:
        a = float(math.ceil(a))
    wc = gen.make_wc(wcxf, c['eft'], 'Warsaw' if c['eft'] == 'SMEFT' else 'JMS', a, {})
    r = SMEFT(wc) if c['eft'] == 'SMEFT' else wet.WETrunner(wc)
    ctx.label(c['eft'])
    for x in (a, int(a)) if c['int'] else (a,):
        try:
            r.run_continuous(x)
        except ValueError:
            continue
        raise Violation('%s: a continuous solution from %s to %s is no error' % (c['eft'], a, x))


SUBS = [
    Sub('plotdata', plots, body_plotdata, 600, 5000, rule='the function is not constant'),
    Sub('smeft', smefts, body_smeft, 10, 250, rule='at least one non-zero coefficient'),
    Sub('interval', intervals, body_interval, 16, 500, rule='at least one non-zero coefficient'),
    Sub('wet', wets, body_wet, 100, 800, rule='at least one non-zero coefficient'),
    Sub('equal', equals, body_equal, 20, 150, rule='all'),
]
