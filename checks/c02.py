"""C02: Wilson coefficient objects hold exactly the numbers they were given."""
import json
import math

from hypothesis import strategies as st

from harness import Sub, check, Violation
import bases
import gen

finite = st.floats(allow_nan=False, allow_infinity=False)
num = st.one_of(finite, st.integers(-1000, 1000), st.sampled_from([0.0, -0.0, 1e-6, 5e-324, 1e308, -1e-300, 0.1, 1]))
numstr = st.one_of(num.map(repr), st.sampled_from(['1e-6', '-2E3', '3', ' 4.5 ', '1_0']))
name = st.one_of(st.sampled_from(['C9_bsmumu', 'a', 'b', 'phil1_11', 'VedLL_2223', '|', 'x y']), st.text(max_size=6))
value = st.one_of(num, st.fixed_dictionaries({'Re': num, 'Im': num}), st.fixed_dictionaries({'Re': num}),
                  st.fixed_dictionaries({'Im': num}), st.just({}), numstr,
                  st.fixed_dictionaries({'Re': numstr, 'Im': numstr}))


def number(v):
    """reference meaning of a WCxf value"""
    if isinstance(v, dict):
        return complex(float(v.get('Re', 0)), float(v.get('Im', 0)))
    return complex(float(v), 0.0)


def wc_of(c):
    from wilson import wcxf
    return wcxf.WC(c['eft'], c['basis'], c['scale'], c['values'])


@st.composite
def custom(draw):
    return {'eft': 'E', 'basis': 'B', 'scale': draw(st.one_of(gen.logfloat(1e-3, 1e16), st.integers(1, 1000), st.just('91.1876'))),
            'values': draw(st.dictionaries(name, value, max_size=8)), 'absent': draw(name),
            'order': draw(st.permutations(['dict', 'df', 'item', 'values', 'text', 'df', 'dict', 'html', 'revalues']))}


def read_text(md):
    """parse the printed table"""
    out = []
    for line in md.split('\n'):
        if line.startswith('| `') and line.endswith(' |'):
            n, v = line[3:-2].rsplit('` | ', 1)
            out.append((n, complex(v.strip())))
    return out


def body_views(c, ctx):
    from wilson import wcxf
    vals = json.loads(json.dumps(c['values']))
    exp = {k: number(v) for k, v in vals.items()}
    wc = wc_of(dict(c, values=json.loads(json.dumps(vals))))
    ctx.nontrivial(any(v != 0 for v in exp.values()))
    ctx.label('complex' if any(v.imag for v in exp.values()) else 'real')
    check(wc.eft == c['eft'] and wc.basis == c['basis'] and type(wc.scale) is float and wc.scale == float(c['scale']),
          lambda: 'labels changed: %r %r %r' % (wc.eft, wc.basis, wc.scale))
    multiline = any(set(k) & set('\n\r') or '` | ' in k for k in exp)
    for view in c['order']:
        if view == 'dict':
            d = wc.dict
            check(set(d) == set(exp), lambda: 'dict has names %r' % sorted(d))
            for k in exp:
                check(complex(d[k]) == exp[k], lambda: 'dict: %r is %r, given %r' % (k, d[k], vals[k]))
        elif view == 'item':
            for k in exp:
                check(complex(wc[k]) == exp[k], lambda: 'item: %r is %r, given %r' % (k, wc[k], vals[k]))
            if c['absent'] not in exp:
                check(wc[c['absent']] == 0, lambda: 'coefficient that was not given is %r' % (wc[c['absent']],))
                check(c['absent'] not in wc.dict and c['absent'] not in wc.values, 'asking for an absent coefficient added it')
        elif view == 'df':
            df = wc.df
            check(list(df.index) == list(vals), 'data frame has other names: %r' % list(df.index))
            check(list(df.columns) == ['Re', 'Im'], 'data frame columns %r' % list(df.columns))
            for i, k in enumerate(vals):
                re, im = df['Re'].iloc[i], df['Im'].iloc[i]
                check(re == exp[k].real and im == exp[k].imag, lambda: 'data frame: %r is (%r, %r), given %r' % (k, re, im, vals[k]))
        elif view == 'values':
            check(wc.values == vals, lambda: 'values changed to %r' % (wc.values,))
        elif view == 'text' and not multiline:
            got = read_text(str(wc))
            check([g[0] for g in got] == list(vals), lambda: 'printed table lists %r' % (got,))
            for k, v in got:
                check(v == exp[k], lambda: 'printed table: %r is %r, given %r' % (k, v, vals[k]))
            check(('%s' % wc.scale) in str(wc) and c['eft'] in str(wc) and c['basis'] in str(wc), 'printed header')
        elif view == 'html':
            wc._repr_html_() if hasattr(wc, '_repr_html_') else None
        elif view == 'revalues':
            w2 = wcxf.WC(c['eft'], c['basis'], c['scale'], wcxf.WC.dict2values(wc.dict))
            for k in exp:
                check(complex(w2[k]) == exp[k], lambda: 'dict2values: %r is %r, given %r' % (k, w2[k], exp[k]))
            check(set(w2.dict) == set(exp), 'dict2values changed the names')
            for v in w2.values.values():
                check(isinstance(v, float) or (isinstance(v, dict) and all(type(x) is float for x in v.values())),
                      lambda: 'file value %r is not made of plain floats' % (v,))


@st.composite
def numeric(draw):
    kinds = ['float', 'int', 'complex', 'np.float64', 'np.complex128', 'np.int64', 'np.float32', '0d']
    return {'vals': draw(st.dictionaries(name, st.tuples(st.sampled_from(kinds), num.map(float), num.map(float)), min_size=1, max_size=6)),
            'scale': draw(gen.logfloat(1, 1e6))}


def body_numeric(c, ctx):
    """dict2values: any numeric type -> file values -> the same number"""
    import numpy as np
    from wilson import wcxf
    d, exp = {}, {}
    for k, (kind, re, im) in c['vals'].items():
        if kind == 'float':
            v = re
        elif kind == 'int':
            v = int(max(min(re, 1e9), -1e9))
        elif kind == 'complex':
            v = complex(re, im)
        elif kind == 'np.float64':
            v = np.float64(re)
        elif kind == 'np.complex128':
            v = np.complex128(complex(re, im))
        elif kind == 'np.int64':
            v = np.int64(max(min(re, 1e9), -1e9))
        elif kind == 'np.float32':
            v = np.float32(max(min(re, 1e30), -1e30))
        else:
            v = np.array(complex(re, im))
        d[k] = v
        exp[k] = complex(v)
        ctx.label(kind)
    d0 = dict(d)
    wc = wcxf.WC('E', 'B', c['scale'], wcxf.WC.dict2values(d))
    check(d == d0, 'dict2values changed its input')
    check(set(wc.dict) == set(exp), 'names changed')
    for k in exp:
        check(complex(wc.dict[k]) == exp[k], lambda: '%r: %r became %r' % (k, d[k], wc.dict[k]))
    json.dumps(wc.values)
    ctx.nontrivial(any(v != 0 for v in exp.values()))


@st.composite
def valcase(draw):
    eft, basis = draw(st.sampled_from(bases.all_bases()))
    names = list(bases.names(eft, basis))
    ks = draw(st.lists(st.sampled_from(names), max_size=6, unique=True))
    kind = draw(st.sampled_from(['good', 'good', 'name', 'basis', 'eft', 'other']))
    c = {'eft': eft, 'basis': basis, 'values': {k: draw(value) for k in ks}, 'kind': kind, 'scale': 100}
    if kind == 'name':
        n = draw(st.sampled_from(names))
        how = draw(st.sampled_from(['drop', 'add', 'swap', 'case', 'space', 'empty', 'rand']))
        m = {'drop': n[:-1], 'add': n + '1', 'swap': n[::-1], 'case': n.swapcase(), 'space': n + ' ', 'empty': '',
             'rand': draw(st.text(max_size=5))}[how]
        c['values'][m] = draw(st.sampled_from([1.0, 1.0, 0.0, 0, 1e-30, {'Re': 0, 'Im': 0.0}, {'Re': 0, 'Im': 1e-9}]))
    elif kind == 'basis':
        c['basis'] = draw(st.sampled_from([basis.lower() + 'x', basis + ' ', '', 'none', basis.swapcase()]))
    elif kind == 'eft':
        c['eft'] = draw(st.sampled_from([eft + '-9', '', 'none', eft.swapcase()]))
    elif kind == 'other':
        e2, b2 = draw(st.sampled_from(bases.all_bases()))
        x = draw(st.sampled_from([1.0, 0.0, 1e-30]))
        c['values'] = {k: x for k in draw(st.lists(st.sampled_from(list(bases.names(e2, b2))), min_size=1, max_size=3))}
    return c


def accepts(o):
    try:
        o.validate()
    except (ValueError, AssertionError, KeyError):
        return False
    return True


def body_validate(c, ctx):
    key = (c['eft'], c['basis'])
    ok = key in bases.all_bases() and all(k in bases.names(*key) for k in c['values'])
    ctx.label('%s: %s' % (c['kind'], 'valid' if ok else 'invalid'))
    ctx.nontrivial(bool(c['values']))
    wc = wc_of(c)
    for _ in range(2):
        check(accepts(wc) == ok, lambda: 'validation %s %r (%s, %s)' % ('rejects' if ok else 'accepts', sorted(c['values']), c['eft'], c['basis']))
        wc.dict
    check(wc.values == c['values'], 'validation changed the object')


@st.composite
def redef(draw):
    n = st.sampled_from(list('abcdef'))
    sec = st.dictionaries(st.sampled_from(['s1', 's2', 's3']), st.lists(n, max_size=3, unique=True), max_size=3)
    have, out = {}, [['eft']]
    for _ in range(draw(st.integers(2, 14))):
        k = draw(st.sampled_from(['basis', 'basis', 'child', 'del', 'eft', 'deleft', 'check', 'check', 'check', 'check']))
        if k == 'basis':
            o = [k, draw(st.sampled_from(['B1', 'B2'])), draw(sec)]
            have[o[1]] = sorted({x for v in o[2].values() for x in v})
        elif k == 'child':
            if not have:
                continue
            o = [k, 'B3', draw(st.sampled_from(sorted(have))), draw(sec)]
            if o[2] == 'B3':
                continue
            have['B3'] = sorted(set(have[o[2]]) | {x for v in o[3].values() for x in v})
        elif k == 'del':
            o = [k, draw(st.sampled_from(['B1', 'B2', 'B3']))]
            have.pop(o[1], None)
        elif k == 'check':
            bb = draw(st.sampled_from(sorted(have) or ['B1']))
            good = draw(st.integers(0, 2))
            o = [k, bb, draw(st.lists(st.sampled_from(have[bb]) if good and have.get(bb) else n, max_size=3, unique=True))]
        else:
            o = [k]
            if k == 'deleft' and draw(st.booleans()):
                continue
        out.append(o)
    return {'ops': out}


def body_redefine(c, ctx):
    """validation follows the definitions as they are now"""
    from wilson import wcxf
    E = 'C02 test EFT'
    eft, model = False, {}
    nchecks = 0
    kept = {}
    try:
        for op in c['ops']:
            op = list(op)
            if op[0] == 'eft':
                wcxf.EFT(E, {'s1': {}, 's2': {}, 's3': {}})
                eft = True
            elif op[0] == 'deleft' and eft:
                del wcxf.EFT[E]
                eft = False
            elif op[0] == 'basis':
                wcxf.Basis(E, op[1], {s: {k: {} for k in v} for s, v in op[2].items()})
                model[op[1]] = {s: list(v) for s, v in op[2].items()}
            elif op[0] == 'child' and op[2] in model:
                wcxf.Basis(E, op[1], {s: {k: {} for k in v} for s, v in op[3].items()}, parent=op[2])
                model[op[1]] = dict(model[op[2]], **{s: list(v) for s, v in op[3].items()})
            elif op[0] == 'del' and op[1] in model:
                del wcxf.Basis[E, op[1]]
                del model[op[1]]
            elif op[0] == 'check':
                nchecks += 1
                key = (op[1], tuple(op[2]))
                wc = kept.setdefault(key, wcxf.WC(E, op[1], 1, {k: 1.0 for k in op[2]}))
                ok = eft and op[1] in model and all(any(k in s for s in model[op[1]].values()) for k in op[2])
                check(accepts(wc) == ok, lambda: 'validation is wrong (expected %s) for %r in %r' % (ok, op, model))
                ctx.label('valid' if ok else 'invalid')
        ctx.nontrivial(nchecks > 0)
    finally:
        for b in ('B1', 'B2', 'B3'):
            wcxf.Basis.instances.pop((E, b), None)
        wcxf.EFT.instances.pop(E, None)


SUBS = [
    Sub('views', custom, body_views, 1000, 20000, rule='at least one coefficient is not zero'),
    Sub('numeric_types', numeric, body_numeric, 800, 10000, rule='at least one coefficient is not zero'),
    Sub('validate', valcase, body_validate, 1000, 10000, rule='at least one coefficient',
        examples=[{'eft': e, 'basis': b, 'kind': 'all', 'scale': 10, 'values': {k: 1.0 for k in bases.names(e, b)}} for e, b in bases.all_bases()]),
    Sub('validate_history', redef, body_redefine, 700, 8000, rule='at least one validation after a definition'),
]
