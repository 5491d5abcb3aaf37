"""Shared generators and comparisons.

A coefficient set is a JSON-able description:
  {"kind": "sparse", "vals": {name: [re, im]}}          a few named coefficients
  {"kind": "dense", "seed": n, "keep": q, "exp": e}     every coefficient (or a fraction q of them),
                                                        a pure function of the drawn integer n
"""
import functools
import math
import zlib

import numpy as np
from hypothesis import strategies as st

import bases
from harness import Violation, check


def logfloat(lo, hi, special=()):
    """Positive floats, log-uniform in [lo, hi], with special values mixed in."""
    base = st.floats(math.log10(lo), math.log10(hi), allow_nan=False).map(
        lambda x: min(max(10.0 ** x, lo), hi))
    if special:
        return st.one_of(base, base, base, st.sampled_from(list(special)))
    return base


def seeds():
    return st.integers(0, 2**31 - 1)


def numbers(exp=0):
    """One real component: simple values, generic values, zeros, values of other magnitudes."""
    s = 10.0 ** exp
    return st.one_of(
        st.integers(-3, 3).map(lambda n: float(n) * s),
        st.floats(-1, 1, allow_subnormal=False).map(lambda x: x * s if abs(x) > 1e-200 else 0.0),
        st.floats(-1, 1, allow_subnormal=False).map(lambda x: x * s * 1e-3 if abs(x) > 1e-200 else 0.0),
        st.sampled_from([1.0, -1.0, 0.5, 2.0, 1e-6, 0.0, -0.0]).map(lambda x: x * s))


def factors():
    """factors of linear combinations (not so small that products underflow)"""
    return st.floats(-2, 2).map(lambda x: x if abs(x) > 1e-30 else 0.0)


@st.composite
def coeff(draw, real, exp=0):
    re = draw(numbers(exp))
    if real:
        return [re, 0.0]
    kind = draw(st.integers(0, 3))
    if kind == 0:
        return [re, 0.0]
    if kind == 1:
        return [0.0, re]
    return [re, draw(numbers(exp))]


@functools.lru_cache(None)
def _families(eft, basis, secs):
    out = {}
    for n in bases.names(eft, basis, secs):
        out.setdefault(n.split('_')[0], []).append(n)
    return out


@st.composite
def wcset(draw, eft, basis, secs=None, exp=0, max_size=6, dense=True, sparse=True, families=True):
    """Coefficient set of a basis."""
    names = bases.names(eft, basis, tuple(secs) if secs is not None else None)
    nl = list(names)
    kind = draw(st.sampled_from((['sparse'] * 2 if sparse else []) + (['dense'] if dense else [])))
    if kind == 'dense':
        d = {'kind': 'dense', 'seed': draw(seeds()), 'keep': draw(st.sampled_from([1.0, 1.0, 0.3, 0.05])), 'exp': exp}
        if families and draw(st.integers(0, 3)) == 0:
            d['prefix'] = draw(st.lists(st.sampled_from(sorted({n.split('_')[0] for n in nl})), min_size=1, max_size=3, unique=True))
            d['keep'] = 1.0
        return d
    if draw(st.booleans()):
        ks = draw(st.lists(st.sampled_from(nl), min_size=1, max_size=max_size, unique=True))
    else:       # families equally likely, whatever their number of members
        fams = _families(eft, basis, tuple(secs) if secs is not None else None)
        ks = []
        for f in draw(st.lists(st.sampled_from(sorted(fams)), min_size=1, max_size=max_size)):
            k = draw(st.sampled_from(fams[f]))
            if k not in ks:
                ks.append(k)
    return {'kind': 'sparse', 'vals': {k: draw(coeff(names[k], exp)) for k in ks}}


def expand(d, eft, basis, secs=None):
    """{name: complex or float}"""
    names = bases.names(eft, basis, tuple(secs) if secs is not None else None)
    if d['kind'] == 'sparse':
        return {k: (v[0] if names.get(k, False) or v[1] == 0 else complex(v[0], v[1])) for k, v in d['vals'].items()}
    rng = np.random.default_rng(d['seed'])
    s = 10.0 ** d.get('exp', 0)
    out = {}
    prefix = d.get('prefix')
    u = rng.uniform(-1, 1, (len(names), 3))
    for (k, real), (a, b, c) in zip(names.items(), u):
        if d.get('keep', 1.0) < 1 and (c + 1) / 2 > d['keep']:
            continue
        if prefix and k.split('_')[0] not in prefix:
            continue
        out[k] = float(a * s) if real else complex(a * s, b * s)
    return out


def sparsify(eft, basis, keys=('C',)):
    """minimise hook: make the dense coefficient sets of a case explicit"""
    def f(case):
        for k in keys:
            if isinstance(case.get(k), dict) and case[k].get('kind') == 'dense':
                e = eft(case) if callable(eft) else eft
                b = basis(case) if callable(basis) else basis
                v = expand(case[k], e, b, case.get('secs'))
                case[k] = {'kind': 'sparse', 'vals': {n: [complex(x).real, complex(x).imag] for n, x in v.items()}}
        return case
    return f


def make_wc(wcxf, eft, basis, scale, d):
    """Build a WC object from a {name: number} dictionary, with our own conversion."""
    vals = {}
    for k, v in d.items():
        v = complex(v)
        vals[k] = {'Re': v.real, 'Im': v.imag} if v.imag != 0 else v.real
    return wcxf.WC(eft, basis, scale, vals)


def maxabs(*ds):
    m = 0.0
    for d in ds:
        for v in d.values():
            a = np.max(np.abs(v)) if np.size(v) else 0.0
            m = max(m, float(a))
    return m


def same(got, exp, what, rtol=1e-9, atol=0.0, scale=None, case=None):
    """Dictionaries of numbers (or arrays) agree; missing entries count as zero.
    Tolerance: rtol relative to each value + 1e-3*rtol relative to the largest value + atol."""
    big = maxabs(exp, got) if scale is None else scale
    if not math.isfinite(big):
        raise Violation('%s: a result is not finite' % what)
    worst, wk = 0, None
    for k in set(got) | set(exp):
        g, e = got.get(k, 0), exp.get(k, 0)
        if g is e:
            continue
        diff = np.max(np.abs(np.asarray(g) - np.asarray(e)))
        tol = rtol * np.max(np.abs(e)) + 1e-3 * rtol * big + atol
        if not diff <= tol:
            r = diff / (tol or 1e-300)
            if not r <= worst:
                worst, wk = r, k
    if wk is not None:
        g, e = got.get(wk, 0), exp.get(wk, 0)
        if np.size(g) > 4 or np.size(e) > 4:
            g, e = np.asarray(g), np.asarray(e) + np.zeros_like(np.asarray(g))
            i = np.unravel_index(np.argmax(np.abs(g - e)), g.shape)
            raise Violation('%s: %s%s is %s, expected %s' % (what, wk, [int(x) for x in i], g[i], e[i]))
        raise Violation('%s: %s is %s, expected %s' % (what, wk, g, e))


def linear(f, x, y, a, b, what, rtol=1e-9):
    """f(a x + b y) = a f(x) + b f(y), for real a, b and dictionaries x, y"""
    z = {k: a * x.get(k, 0) + b * y.get(k, 0) for k in set(x) | set(y)}
    fx, fy, fz = f(x), f(y), f(z)
    exp = {k: a * fx.get(k, 0) + b * fy.get(k, 0) for k in set(fx) | set(fy)}
    s = max(maxabs(fx) * abs(a), maxabs(fy) * abs(b), maxabs(fz))
    same(fz, exp, what, rtol=rtol, scale=max(s, 1e-300) * 10)
    return fx, fy, fz
