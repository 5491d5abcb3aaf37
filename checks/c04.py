"""C04: translate and match apply exactly the registered conversion."""
import copy
import json

from hypothesis import strategies as st

from harness import Sub, check, Violation
import bases
import gen

NEEDS_REF = True

finite = st.floats(-1e3, 1e3, allow_nan=False)
num = st.one_of(finite, st.sampled_from([0.0, 1.0, -2.5, 1e-9, 1e-300, 1e-17, -1e-12]))
name = st.sampled_from(['a', 'b', 'c', 'd', 'e_11', 'f_1122'])
outval = st.tuples(st.sampled_from(['float', 'complex', 'int', 'np', 'npc', 'zero', 'czero', 'imag']), num, num)
inval = st.one_of(num, st.fixed_dictionaries({'Re': num, 'Im': num}), st.fixed_dictionaries({'Im': num}))


def mk(v):
    import numpy as np
    kind, re, im = v
    return {'float': re, 'complex': complex(re, im), 'int': int(re), 'np': np.float64(re), 'npc': np.complex128(complex(re, im)),
            'zero': 0, 'czero': 0j, 'imag': complex(0, im)}[kind]


def number(v):
    if isinstance(v, dict):
        return complex(float(v.get('Re', 0)), float(v.get('Im', 0)))
    return complex(float(v), 0)


@st.composite
def case(draw):
    keys = ['X', 'Y', 'Z']
    table = []
    for _ in range(draw(st.integers(1, 6))):
        table.append({'kind': draw(st.sampled_from(['T', 'M'])), 'eft': draw(st.sampled_from(['E1', 'E2'])),
                      'from': draw(st.sampled_from(keys)), 'to': draw(st.sampled_from(keys)), 'to_eft': draw(st.sampled_from(['E1', 'E2'])),
                      'out': draw(st.dictionaries(name, outval, max_size=5))})
    reqs = []
    for _ in range(draw(st.integers(1, 6))):
        if draw(st.integers(0, 3)):
            t = draw(st.sampled_from(table))
            r = {'kind': t['kind'], 'eft': t['eft'], 'basis': t['from'], 'to': t['to'], 'to_eft': t['to_eft']}
        else:
            r = {'kind': draw(st.sampled_from(['T', 'M'])), 'eft': draw(st.sampled_from(['E1', 'E2'])), 'basis': draw(st.sampled_from(keys)),
                 'to': draw(st.sampled_from(keys + ['W'])), 'to_eft': draw(st.sampled_from(['E1', 'E2', 'E3']))}
        r['params'] = draw(st.one_of(st.none(), st.dictionaries(st.sampled_from(['m_b', 'alpha_s', 'Vus']), num, max_size=3)))
        r['sectors'] = draw(st.one_of(st.none(), st.none(), st.lists(st.sampled_from(['s1', 's2']), max_size=2, unique=True)))
        r['values'] = draw(st.dictionaries(name, inval, max_size=5))
        r['scale'] = draw(gen.logfloat(1, 1e5))
        r['mutate'] = draw(st.booleans())
        reqs.append(r)
    return {'table': table, 'reqs': reqs}


def body_dispatch(c, ctx):
    from wilson import wcxf
    seen = []

    def make(i, t):
        out = {k: mk(v) for k, v in t['out'].items()}

        def fT(d, scale, parameters, **kw):
            seen.append((i, dict(d), scale, parameters, kw))
            return dict(out)

        def fM(d, scale, parameters):
            seen.append((i, dict(d), scale, parameters, {}))
            return dict(out)
        return fT if t['kind'] == 'T' else fM, out
    model = {}
    try:
        for i, t in enumerate(c['table']):
            f, out = make(i, t)
            if t['kind'] == 'T':
                key = ('T', t['eft'], t['from'], t['to'])
                wcxf.Translator(t['eft'], t['from'], t['to'], f) if i % 2 else wcxf.translator(t['eft'], t['from'], t['to'])(f)
            else:
                key = ('M', t['eft'], t['from'], t['to_eft'], t['to'])
                wcxf.Matcher(t['eft'], t['from'], t['to_eft'], t['to'], f) if i % 2 else wcxf.matcher(t['eft'], t['from'], t['to_eft'], t['to'])(f)
            model[key] = (i, out)
        hits = 0
        for r in c['reqs']:
            vals = json.loads(json.dumps(r['values']))
            wc = wcxf.WC(r['eft'], r['basis'], r['scale'], vals)
            T = r['kind'] == 'T'
            del seen[:]
            par = copy.deepcopy(r['params'])
            if T:
                key = ('T', r['eft'], r['basis'], r['to'])
                kw = {}
                if par is not None:
                    kw['parameters'] = par
                if r['sectors'] is not None:
                    kw['sectors'] = tuple(r['sectors'])
                call = lambda: wc.translate(r['to'], **kw)
                nothing = r['to'] == r['basis']
            else:
                key = ('M', r['eft'], r['basis'], r['to_eft'], r['to'])
                call = lambda: wc.match(r['to_eft'], r['to'], **({'parameters': par} if par is not None else {}))
                nothing = r['to'] == r['basis'] and r['to_eft'] == r['eft']
            if nothing:
                check(call() is wc, 'asking for the current basis does not return the object itself')
                check(not seen, 'asking for the current basis called a conversion')
                ctx.label('same basis')
                continue
            if key not in model:
                try:
                    o = call()
                except ValueError:
                    ctx.label('not registered')
                    check(not seen, 'an unregistered conversion called something')
                    continue
                raise Violation('conversion %r is not registered, but gave %r' % (key, o))
            hits += 1
            i, out = model[key]
            o = call()
            check(len(seen) == 1 and seen[0][0] == i, lambda: 'conversion %r: functions %r were called, expected %d once' % (key, [s[0] for s in seen], i))
            _, d, scale, p, kws = seen[0]
            exp = {k: number(v) for k, v in vals.items()}
            check({k: complex(v) for k, v in d.items()} == exp, lambda: 'conversion was given %r, expected %r' % (d, exp))
            check(all(isinstance(v, (int, float, complex)) for v in d.values()), 'conversion was not given numbers')
            check(scale == r['scale'], lambda: 'conversion was given the scale %r, expected %r' % (scale, r['scale']))
            check(p == r['params'], lambda: 'conversion was given the parameters %r, expected %r' % (p, r['params']))
            if T and r['sectors'] is not None:
                check(kws.get('sectors') is not None and list(kws['sectors']) == r['sectors'], lambda: 'conversion was given the sectors %r, expected %r' % (kws, r['sectors']))
            else:
                check(kws.get('sectors') is None, lambda: 'conversion was given %r although no sectors were requested' % (kws,))
            check(isinstance(o, wcxf.WC), 'result is not a WC object')
            te = r['eft'] if T else r['to_eft']
            check((o.eft, o.basis, o.scale) == (te, r['to'], r['scale']), lambda: 'result is labelled %r' % ((o.eft, o.basis, o.scale),))
            nz = {k: complex(v) for k, v in out.items() if v != 0}
            check({k: complex(v) for k, v in o.dict.items()} == nz, lambda: 'result is %r, the conversion returned %r' % (o.dict, out))
            check(set(o.values) == set(nz), lambda: 'result lists %r, non-zero are %r' % (sorted(o.values), sorted(nz)))
            check(wc.values == r['values'] and {k: complex(v) for k, v in wc.dict.items()} == exp and wc.scale == r['scale']
                  and wc.eft == r['eft'] and wc.basis == r['basis'], 'the input object was modified')
            check(par == r['params'], 'the parameters were modified')
            ctx.label('translate' if T else 'match')
        ctx.nontrivial(hits > 0)
    finally:
        for key in model:
            if key[0] == 'T':
                wcxf.Translator.instances.pop(key[1:], None)
            else:
                wcxf.Matcher.instances.pop(key[1:], None)


def registered(kind):
    """the conversions the library ships (pinned list)"""
    import refwilson
    return sorted(getattr(refwilson.wcxf, kind).instances)


SLOW = ('SMEFT',)


def real_cases(tier_thorough):
    out = []
    import refwilson
    for t in sorted(refwilson.wcxf.Translator.instances):
        for seed in range(6 if tier_thorough else 2):
            out.append({'kind': 'T', 'key': list(t), 'C': {'kind': 'dense', 'seed': 17 * seed + 3, 'keep': [1.0, 0.1][seed % 2], 'exp': -8 if t[0] == 'SMEFT' else 0}, 'scale': [91.1876, 4.5, 160.0][seed % 3]})
    for t in sorted(refwilson.wcxf.Matcher.instances):
        for seed in range(4 if tier_thorough else 1):
            out.append({'kind': 'M', 'key': list(t), 'C': {'kind': 'dense', 'seed': 17 * seed + 5, 'keep': [0.2, 1.0][seed % 2], 'exp': -8 if t[0] == 'SMEFT' else 0}, 'scale': [91.1876, 4.5, 160.0][seed % 3]})
    return out


def body_real(c, ctx):
    """every shipped conversion: applied as registered, right target, input untouched, valid result"""
    from wilson import wcxf
    key = tuple(c['key'])
    T = c['kind'] == 'T'
    eft, fb = key[0], key[1]
    te, tb = (eft, key[2]) if T else (key[2], key[3])
    C = gen.expand(c['C'], eft, fb)
    wc = gen.make_wc(wcxf, eft, fb, c['scale'], C)
    before = copy.deepcopy(wc.values)
    for par in (None, {'Vus': 0.23, 'm_b': 4.3, 'alpha_e': 1 / 130.}):
        p0 = copy.deepcopy(par)
        o = wc.translate(tb, parameters=par) if T else wc.match(te, tb, parameters=par)
        inst = (wcxf.Translator if T else wcxf.Matcher)[key]
        raw = inst.function(dict(wc.dict), wc.scale, par)
        check((o.eft, o.basis, o.scale) == (te, tb, c['scale']), lambda: 'result of %r is labelled %r' % (key, (o.eft, o.basis, o.scale)))
        gen.same({k: complex(v) for k, v in o.dict.items()}, {k: complex(v) for k, v in raw.items() if v != 0}, 'conversion %r' % (key,), rtol=1e-12)
        check(set(o.values) == {k for k, v in raw.items() if v != 0}, lambda: 'conversion %r: coefficients listed' % (key,))
        if par is not None:
            gen.same({k: complex(v) for k, v in o.dict.items()}, ref_convert(key, T, wc, par), 'conversion %r' % (key,), rtol=1e-8)
        bad = set(o.values) - set(bases.names(te, tb))
        check(not bad, lambda: 'result of %r has coefficients unknown to its basis: %r' % (key, sorted(bad)[:5]))
        o.validate()
        check(par == p0, 'the parameters were modified by %r' % (key,))
        check(wc.values == before and {k: complex(v) for k, v in wc.dict.items()} == {k: complex(v) for k, v in C.items()},
              lambda: 'conversion %r modified its input' % (key,))
    ctx.nontrivial(len(o.values) > 0)
    ctx.label('%s %s' % ('translate' if T else 'match', key[0]))


def ref_convert(key, T, wc, par):
    import refwilson
    w = refwilson.wcxf.WC(wc.eft, wc.basis, wc.scale, wc.values)
    o = w.translate(key[2], parameters=par) if T else w.match(key[2], key[3], parameters=par)
    return {k: complex(v) for k, v in o.dict.items()}


def body_chain(c, ctx):
    """translate twice (there and back through random registered conversions) keeps labels and validity"""
    from wilson import wcxf
    eft, b0 = c['eft'], c['basis']
    wc = gen.make_wc(wcxf, eft, b0, c['scale'], gen.expand(c['C'], eft, b0))
    vals = copy.deepcopy(wc.values)
    cur, b = wc, b0
    steps = 0
    for s in c['steps']:
        opts = sorted(t[2] for t in wcxf.Translator.instances if t[0] == eft and t[1] == b)
        opts += ['no such basis', b]
        to = opts[s % len(opts)]
        if to == b:
            check(cur.translate(to) is cur, 'translating to the current basis')
            continue
        if to == 'no such basis':
            try:
                cur.translate(to)
            except ValueError:
                continue
            raise Violation('translating to an unknown basis succeeded')
        new = cur.translate(to)
        steps += 1
        check((new.eft, new.basis, new.scale) == (eft, to, c['scale']), 'labels after translating')
        bad = set(new.values) - set(bases.names(eft, to))
        check(not bad, lambda: 'unknown coefficients after translating %s to %s: %r' % (b, to, sorted(bad)[:5]))
        cur, b = new, to
    check(wc.values == vals, 'input modified')
    ctx.nontrivial(steps > 0)


@st.composite
def chain_case(draw):
    eft, basis = draw(st.sampled_from([('WET', 'JMS'), ('WET', 'flavio'), ('WET-4', 'JMS'), ('WET-3', 'flavio'), ('SMEFT', 'Warsaw'), ('SMEFT', 'Warsaw up'), ('WET', 'Bern'), ('WET', 'FlavorKit')]))
    return {'eft': eft, 'basis': basis, 'scale': draw(gen.logfloat(2 if eft != 'WET' else 5, 100)), 'C': draw(gen.wcset(eft, basis, dense=False)), 'steps': draw(st.lists(st.integers(0, 20), min_size=1, max_size=3))}


class Lazy:
    def __getitem__(self, tier):
        return real_cases(tier == 'thorough')


def real_examples():
    import os
    return real_cases(os.environ.get('VERIF_TIER') == 'thorough')


SUBS = [
    Sub('dispatch', case, body_dispatch, 700, 20000, rule='at least one registered conversion is applied'),
    Sub('shipped', None, body_real, 0, 0, examples=real_examples, rule='the result is not empty (all shipped translators and matchers, enumerated)'),
    Sub('chain', chain_case, body_chain, 200, 1500, rule='at least one translation'),
]
