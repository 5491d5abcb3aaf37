"""C12: Crossing a quark threshold keeps exactly the light-flavour coefficients."""
import json

from hypothesis import strategies as st

from harness import Sub, check
import bases
import gen
import physics
from checks.c08 import relsame

NEEDS_REF = False
ASSUMPTIONS = ['the coefficients of every theory and basis are those of the published basis definition files (fixtures/bases)']
STEPS = [(hi, lo, b) for hi, lo in (('WET', 'WET-4'), ('WET-4', 'WET-3')) for b in ('JMS', 'flavio', 'Bern')] + [('WET-3', 'WET-2', 'JMS')]
KEYS = ('GF', 'alpha_e', 'alpha_s', 'Vus', 'Vub', 'Vcb', 'gamma', 'm_b', 'm_s', 'm_c', 'm_u', 'm_d', 'm_e', 'm_mu', 'm_tau')


def wc_of(d, eft, b, scale):
    from wilson import wcxf
    return gen.make_wc(wcxf, eft, b, scale, d)


def match(wc, eft, b, p):
    v0, p0 = json.dumps(wc.values, sort_keys=True), json.dumps(p)
    out = wc.match(eft, b, parameters=p) if p is not None else wc.match(eft, b)
    check(json.dumps(wc.values, sort_keys=True) == v0, 'the input was modified')
    check(json.dumps(p) == p0, 'the parameters were modified')
    check((out.eft, out.basis, out.scale) == (eft, b, wc.scale), 'labels of the result')
    return out


def exact(got, exp, what):
    for k in set(got) | set(exp):
        g, e = got.get(k, 0), exp.get(k, 0)
        check(complex(g) == complex(e), lambda: '%s: %s is %r, expected %r' % (what, k, g, e))


def light(d, eft, b):
    names = bases.names(eft, b)
    return {k: v for k, v in d.items() if k in names}


def scales():
    return st.one_of(st.sampled_from([4.2, 1.3, 5.0, 2.0, 91.1876]), gen.logfloat(0.5, 1e3))


@st.composite
def steps(draw):
    hi, lo, b = draw(st.sampled_from(STEPS))
    return {'hi': hi, 'lo': lo, 'b': b, 'p': draw(physics.params(KEYS)), 'scale': draw(scales()),
            'C': draw(gen.wcset(hi, b, exp=draw(st.sampled_from([0, -8, 3])), max_size=10))}


def body_keep(c, ctx):
    hi, lo, b, p = c['hi'], c['lo'], c['b'], c['p']
    d = gen.expand(c['C'], hi, b)
    exp = light(d, lo, b)
    ctx.nontrivial(any(v != 0 for v in exp.values()) and len(exp) < len(d))
    ctx.label('%s -> %s %s' % (hi, lo, b))
    out = match(wc_of(d, hi, b, c['scale']), lo, b, p)
    exact(out.dict, exp, 'matching %s to %s in the %s basis' % (hi, lo, b))
    out.validate()


@st.composite
def chains(draw):
    b = draw(st.sampled_from(['JMS', 'JMS', 'flavio', 'Bern']))
    return {'b': b, 'p': draw(physics.params(KEYS)), 'scale': draw(scales()), 'C': draw(gen.wcset('WET', b, max_size=10))}


def body_chain(c, ctx):
    b, p = c['b'], c['p']
    d = gen.expand(c['C'], 'WET', b)
    ctx.label(b)
    wc = wc_of(d, 'WET', b, c['scale'])
    exp = d
    for eft in ('WET-4', 'WET-3') + (('WET-2',) if b == 'JMS' else ()):
        wc = match(wc, eft, b, p)
        exp = light(exp, eft, b)
        exact(wc.dict, exp, 'successive matching down to %s in the %s basis' % (eft, b))
        if eft == 'WET-3':
            ctx.nontrivial(any(v != 0 for v in exp.values()))


@st.composite
def trcases(draw):
    hi, lo = draw(st.sampled_from([('WET', 'WET-4'), ('WET-4', 'WET-3')]))
    a, b = draw(st.permutations(['JMS', 'flavio', 'Bern']))[:2]
    return {'hi': hi, 'lo': lo, 'a': a, 'b': b, 'p': draw(physics.params(KEYS)),
            'scale': draw(st.one_of(st.sampled_from([4.2, 1.3, 5.0, 2.0]), st.floats(1.5, 100))),
            'C': draw(gen.wcset(hi, a, max_size=10))}


def body_translate(c, ctx):
    hi, lo, a, b, p = c['hi'], c['lo'], c['a'], c['b'], c['p']
    d = gen.expand(c['C'], hi, a)
    ctx.label('%s -> %s, %s -> %s' % (hi, lo, a, b))
    wc = wc_of(d, hi, a, c['scale'])
    kw = {} if p is None else {'parameters': p}
    x = match(wc.translate(b, **kw), lo, b, p).dict
    y = match(wc, lo, a, p).translate(b, **kw).dict
    ctx.nontrivial(any(v != 0 for v in x.values()))
    relsame(y, x, '%s -> %s: matching then translating %s -> %s, compared with the other order' % (hi, lo, a, b), rtol=1e-8)


RUNS = [('WET', 'WET-4'), ('WET', 'WET-3'), ('WET-4', 'WET-3')]
WITHSEC = {'flavio', 'Bern', 'JMS'}


@st.composite
def runs(draw):
    hi, lo = draw(st.sampled_from(RUNS))
    a = draw(st.sampled_from(['JMS', 'flavio', 'Bern']))
    b = draw(st.sampled_from(['JMS', 'flavio', 'Bern']))
    mb = draw(st.sampled_from([None, 4.2, 4.7, 3.8]))
    mc = draw(st.sampled_from([None, 1.3, 1.5]))
    return {'hi': hi, 'lo': lo, 'a': a, 'b': b, 'mb': mb, 'mc': mc, 'p': draw(physics.params(KEYS)),
            'scale': draw(st.sampled_from([80.0, 10.0, 5.0, 4.2, 3.0])), 'to': draw(st.sampled_from([1.0, 1.3, 2.0, 4.2, 3.0])),
            'qcd': draw(st.sampled_from([None, 0, 1])), 'C': draw(gen.wcset(hi, a, exp=-6, max_size=6))}


def body_run(c, ctx):
    """running across thresholds with Wilson.match_run = running to the threshold, dropping the heavy coefficients, running on"""
    import wilson
    hi, lo, a, b, p = c['hi'], c['lo'], c['a'], c['b'], c['p']
    d = gen.expand(c['C'], hi, a)
    ctx.label('%s -> %s' % (hi, lo))

    def make(d, scale, eft, basis):
        w = wilson.Wilson(d, scale, eft, basis)
        if p is not None:
            w.set_option('parameters', p)
        for k, o in (('mb', 'mb_matchingscale'), ('mc', 'mc_matchingscale'), ('qcd', 'qcd_order')):
            if c[k] is not None:
                w.set_option(o, c[k])
        if c['qcd'] == 0:
            w.set_option('qed_order', 0)
        return w
    got = make(d, c['scale'], hi, a).match_run(c['to'], lo, b)
    check((got.eft, got.basis, got.scale) == (lo, b, c['to']), 'labels of the result')
    cur, eft, basis, scale = d, hi, a, c['scale']
    for nxt, thr in (('WET-4', c['mb'] or 4.2), ('WET-3', c['mc'] or 1.3)):
        if eft == lo or (eft == 'WET-4' and nxt == 'WET-4'):
            continue
        cur = light(make(cur, scale, eft, basis).match_run(thr, eft, 'JMS').dict, nxt, 'JMS')
        eft, basis, scale = nxt, 'JMS', thr
    exp = make(cur, scale, eft, basis).match_run(c['to'], eft, b).dict
    ctx.nontrivial(any(v != 0 for v in exp.values()))
    # at the threshold itself the library multiplies with the unit matrix, where rounding moves some of a heavy coefficient
    mag = make(d, c['scale'], hi, a).match_run(c['scale'] * 1.001, hi, b).dict if c['scale'] in (c['mb'] or 4.2, c['mc'] or 1.3) else None
    relsame(got.dict, exp, 'match_run from %s (%s GeV) to %s (%s GeV), compared with stopping at the thresholds' % (
        hi, c['scale'], lo, c['to']), rtol=1e-8, floor=1e-11 if 'Bern' in (a, b) else 1e-13, also=mag)


def dense(n):
    return {'kind': 'dense', 'seed': n, 'keep': 1.0, 'exp': 0}


SUBS = [
    Sub('keep', steps, body_keep, 300, 3000, rule='some non-zero coefficients are kept and some coefficients dropped',
        examples=[{'hi': h, 'lo': l, 'b': b, 'p': None, 'scale': 4.2, 'C': dense(3)} for h, l, b in STEPS],
        minimise=gen.sparsify(lambda c: c['hi'], lambda c: c['b'])),
    Sub('chain', chains, body_chain, 250, 1500, rule='a non-zero coefficient survives in WET-3',
        examples=[{'b': b, 'p': None, 'scale': 2.0, 'C': dense(4)} for b in ('JMS', 'flavio', 'Bern')],
        minimise=gen.sparsify('WET', lambda c: c['b'])),
    Sub('translate', trcases, body_translate, 200, 2000, rule='the image is non-zero',
        examples=[{'hi': h, 'lo': l, 'a': a, 'b': b, 'p': None, 'scale': 4.2, 'C': dense(3)}
                  for h, l in (('WET', 'WET-4'), ('WET-4', 'WET-3')) for a in sorted(WITHSEC) for b in sorted(WITHSEC) if a != b],
        minimise=gen.sparsify(lambda c: c['hi'], lambda c: c['a'])),
    Sub('run', runs, body_run, 60, 600, rule='the result is non-zero', minimise=gen.sparsify(lambda c: c['hi'], lambda c: c['a'])),
]
