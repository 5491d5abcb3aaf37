"""C01: WCxf files round-trip losslessly through JSON and YAML."""
import io
import json
import logging

import yaml

from hypothesis import strategies as st

from harness import Sub, check, Violation
import bases
import gen

ASSUMPTIONS = ['json and PyYAML themselves are trusted as parsers of the oracle']

finite = st.floats(allow_nan=False, allow_infinity=False)
awkward = st.sampled_from([0.0, -0.0, 1e-6, 1e-06, -3e-300, 5e-324, 1.7976931348623157e308, 0.1, 1e22, 1e16,
                           123456789.12345678, -1e-5, 2.0, 1e+100, 1/3])
num = st.one_of(finite, awkward, st.integers(-10**6, 10**6), st.integers(-2**70, 2**70))
key = st.one_of(st.sampled_from(['C9_bsmumu', 'phil1_11', 'yes', 'no', 'on', 'null', '~', '1e5', '1e-3', '0x1F', '1_000', '',
                                 '2023-01-01', 'a: b', '- x', '#c', '[x', '{y', "it's", '"q"', '12:30', 'Re', 'Im', 'é', '=', '!x', '*a', '&b', '%c', '@d', '`e', ' lead', 'trail ']),
                st.text(st.characters(blacklist_categories=('Cs',)), max_size=8),
                st.text('abcdefgh_0123456789', min_size=1, max_size=8))
text = st.one_of(key, st.text(st.characters(blacklist_categories=('Cs',)), max_size=30), st.sampled_from(['multi\nline', ' \n', '\ttab', '1.0', 'true', '.inf', '.nan', 'é\u2028x', '\x85']))
value = st.one_of(num, st.fixed_dictionaries({'Re': num, 'Im': num}), st.fixed_dictionaries({'Re': num}),
                  st.fixed_dictionaries({'Im': num}), awkward)
meta_leaf = st.one_of(st.none(), st.booleans(), num, text)
meta = st.recursive(meta_leaf, lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(key, c, max_size=3)), max_leaves=8)
reserved = {'eft', 'basis', 'scale', 'values', 'sectors', 'parent', 'self', 'stream', 'fmt', 'dict', 'df', 'load', 'dump',
            'validate', 'translate', 'match', 'dict2values', 'all_wcs', 'known_bases', 'known_translators', 'instances'}
metakw = st.dictionaries(st.one_of(st.just('metadata'), st.from_regex(r'[a-z][a-z0-9_]{0,8}', fullmatch=True)).filter(
    lambda k: k not in reserved), meta, max_size=3)


@st.composite
def wcs(draw):
    if draw(st.integers(0, 3)) == 0:
        eft, basis = draw(st.sampled_from(bases.all_bases()))
        names = list(bases.names(eft, basis))
        ks = draw(st.lists(st.sampled_from(names), max_size=8, unique=True))
        values = {k: draw(value) for k in ks}
    else:
        eft, basis = draw(text), draw(text)
        values = draw(st.dictionaries(key, value, max_size=6))
    return {'cls': 'WC', 'eft': eft, 'basis': basis, 'scale': draw(st.one_of(finite, awkward, st.integers(0, 10**5))),
            'values': values, 'kw': draw(metakw)}


def secdict():
    entry = st.one_of(st.none(), st.just({}), st.fixed_dictionaries({}, optional={'real': st.booleans(), 'tex': text, 'desc': text}))
    return st.dictionaries(key, st.dictionaries(key, entry, max_size=4), max_size=4)


def effs():
    return st.fixed_dictionaries({'cls': st.just('EFT'), 'eft': text,
                                  'sectors': st.dictionaries(key, st.one_of(st.none(), st.just({}), st.dictionaries(key, meta_leaf, max_size=2)), max_size=5),
                                  'kw': metakw})


@st.composite
def bass(draw):
    d = {'cls': 'Basis', 'eft': draw(text), 'basis': draw(text), 'sectors': draw(secdict()), 'kw': draw(metakw)}
    if draw(st.integers(0, 2)) == 0:
        d['parent'] = {'basis': draw(text.filter(lambda t: t != d['basis'])), 'sectors': draw(secdict())}
    return d


def obj():
    return st.tuples(st.one_of(wcs(), wcs(), effs(), bass()),
                     st.sampled_from(['json', 'yaml', 'JSON', 'Yaml', None]),
                     st.sampled_from(['string', 'stream', 'file']),
                     st.sampled_from([None, None, {'indent': None}, {'indent': 4}, {'sort_keys': True}, {'default_flow_style': True}])
                     ).map(lambda t: dict(t[0], fmt=t[1], via=t[2], opts=t[3]))


def build(c):
    from wilson import wcxf
    if c['cls'] == 'WC':
        return wcxf.WC(c['eft'], c['basis'], c['scale'], json.loads(json.dumps(c['values'])), **json.loads(json.dumps(c['kw'])))
    if c['cls'] == 'EFT':
        return wcxf.EFT(c['eft'], json.loads(json.dumps(c['sectors'])), **json.loads(json.dumps(c['kw'])))
    kw = json.loads(json.dumps(c['kw']))
    if 'parent' in c:
        wcxf.Basis(c['eft'], c['parent']['basis'], json.loads(json.dumps(c['parent']['sectors'])))
        kw['parent'] = c['parent']['basis']
    return wcxf.Basis(c['eft'], c['basis'], json.loads(json.dumps(c['sectors'])), **kw)


def public(c):
    """What the object is expected to hold."""
    d = {'eft': c['eft']}
    d.update(c['kw'])
    if c['cls'] == 'WC':
        d.update(basis=c['basis'], scale=float(c['scale']), values=c['values'])
    elif c['cls'] == 'EFT':
        d.update(sectors=c['sectors'])
    else:
        d.update(basis=c['basis'], sectors=c['sectors'])
        if 'parent' in c:
            d['parent'] = c['parent']['basis']
            d['sectors'] = dict(c['parent']['sectors'], **c['sectors'])
    return d


def number(v):
    if isinstance(v, dict):
        return complex(float(v.get('Re', 0)), float(v.get('Im', 0)))
    return complex(float(v), 0)


def same_obj(o, c, what):
    exp = public(c)
    for k, v in exp.items():
        got = getattr(o, k)
        if k == 'values':
            check(set(got) == set(v), lambda: '%s: coefficient names %r became %r' % (what, sorted(v), sorted(map(str, got))))
            for n in v:
                check(number(got[n]) == number(v[n]), lambda: '%s: coefficient %r was %r, is %r' % (what, n, v[n], got[n]))
            for n in v:
                check(complex(o.dict[n]) == number(v[n]), lambda: '%s: coefficient %r was %r, reads %r' % (what, n, v[n], o.dict[n]))
        else:
            check(got == v and type(got) is not bool or got is v or (isinstance(v, bool) and got is v),
                  lambda: '%s: attribute %s was %r, is %r' % (what, k, v, got))
    extra = {k for k in vars(o) if not k.startswith('_')} - set(exp)
    check(not extra, lambda: '%s: additional attributes %r' % (what, extra))
    if c['cls'] == 'Basis':
        check(sorted(o.all_wcs) == sorted(n for s in exp['sectors'].values() for n in s), what + ': coefficient list changed')


def write(o, c):
    kw = dict(c['opts'] or {})
    fmt = c['fmt']
    isjson = fmt is None or fmt.lower() == 'json'
    kw = {k: v for k, v in kw.items() if k == 'sort_keys' or (k == 'indent' and isjson) or (k == 'default_flow_style' and not isjson)}
    if fmt is not None:
        kw['fmt'] = fmt
    if c['via'] == 'string':
        s = o.dump(**kw)
        check(isinstance(s, str), 'dump() without a stream did not return a string')
        return s
    if c['via'] == 'stream':
        f = io.StringIO()
        o.dump(f, **kw)
        return f.getvalue()
    with open('out.tmp', 'w', encoding='utf8') as f:
        o.dump(stream=f, **kw)
    with open('out.tmp', encoding='utf8') as f:
        return f.read()


def body_roundtrip(c, ctx):
    from wilson import wcxf
    o = build(c)
    same_obj(o, c, 'before writing')
    s = write(o, c)
    same_obj(o, c, 'after writing')
    ctx.label('%s %s %s' % (c['cls'], c['fmt'], c['via']))
    isjson = c['fmt'] is None or c['fmt'].lower() == 'json'
    # the text really is in the requested format and holds the content
    d = json.loads(s) if isjson else yaml.safe_load(s)
    if not isjson:
        try:
            json.loads(s)
            isj = True
        except ValueError:
            isj = False
        ctx.label('yaml is not json' if not isj else 'yaml is json')
    exp = public(c)
    check(set(d) == set(exp), lambda: 'file has keys %r instead of %r' % (sorted(d), sorted(exp)))
    ctx.nontrivial(bool(c.get('values') or c.get('sectors')))
    cls = getattr(wcxf, c['cls'])
    same_obj(cls.load(s), c, 'read back from a string')
    same_obj(cls.load(io.StringIO(s)), c, 'read back from a stream')
    # chain through the other format
    s2 = cls.load(s).dump(fmt='yaml' if isjson else 'json')
    same_obj(cls.load(s2), c, 'read back via the other format')
    if c['cls'] == 'WC':
        o.dict, o.df
        same_obj(cls.load(write(o, c)), c, 'written after use')
    if c['cls'] == 'Basis':
        o.all_wcs
        same_obj(cls.load(write(o, c)), c, 'written after use')


def body_badformat(c, ctx):
    o = build(c)
    for f in (None, io.StringIO()):
        try:
            r = o.dump(f, fmt=c['badfmt'])
        except ValueError:
            pass
        else:
            raise Violation('unknown format %r was accepted: %r' % (c['badfmt'], r))
        if f is not None:
            check(f.getvalue() == '', 'unknown format %r: something was written' % c['badfmt'])


docs = st.dictionaries(key, st.recursive(st.one_of(meta_leaf), lambda x: st.one_of(st.lists(x, max_size=4), st.dictionaries(key, x, max_size=4)), max_leaves=12), max_size=5)


def body_convert(c, ctx):
    """yaml -> json and json -> yaml keep the whole content"""
    from wilson.wcxf.converters.yamljson import convert_json, convert_yaml
    d = c['doc']
    ctx.nontrivial(len(d) > 0)
    ys = yaml.safe_dump(d, default_flow_style=c['flow'], allow_unicode=c['uni'])
    d0 = yaml.safe_load(ys)     # what the YAML file says
    out = io.StringIO()
    convert_json(ys if c['str'] else io.StringIO(ys), out)
    check(json.loads(out.getvalue()) == d0, lambda: 'YAML->JSON: %r became %r' % (d0, json.loads(out.getvalue())))
    js = json.dumps(d, indent=c['indent'], ensure_ascii=not c['uni'])
    d1 = json.loads(js)
    out2 = io.StringIO()
    convert_yaml(io.StringIO(js), out2)
    got = yaml.safe_load(out2.getvalue())
    check(got == d1, lambda: 'JSON->YAML: %r became %r' % (d1, got))
    out3 = io.StringIO()
    convert_json(io.StringIO(out2.getvalue()), out3)
    check(json.loads(out3.getvalue()) == d1, lambda: 'JSON->YAML->JSON: %r became %r' % (d1, json.loads(out3.getvalue())))


BAD_YAML = ['a: b: c', '{a: [1, 2', "x: 'unclosed", 'x: "open', '\tx: 1', 'a: 1\n b: 2', '- x\ny: 1', '@x', '%y', 'x: *nope', '{x: 1', '[1, 2', 'a: 1\n\t- b']


@st.composite
def bad_text(draw):
    if draw(st.booleans()):
        d = draw(docs.filter(lambda d: d))
        js = json.dumps(d, indent=draw(st.sampled_from([None, 2])))
        n = draw(st.integers(0, len(js) - 1))
        return {'kind': 'json', 'text': js[:n]}
    return {'kind': 'yaml', 'text': draw(st.sampled_from(['', 'eft: WET\n', 'values:\n'])) * 0 + draw(st.sampled_from(BAD_YAML))}


def body_bad(c, ctx):
    """unparsable files: an error is reported, nothing is written"""
    from wilson import wcxf
    from wilson.wcxf.converters.yamljson import convert_json, convert_yaml
    t = c['text']
    recs = []

    class H(logging.Handler):
        def emit(self, r):
            recs.append(r)
    h = H(level=logging.ERROR)
    root = logging.getLogger()
    root.addHandler(h)
    old = logging.root.manager.disable
    logging.disable(logging.NOTSET)
    try:
        out = io.StringIO()
        fn = convert_yaml if c['kind'] == 'json' else convert_json
        try:
            r = fn(io.StringIO(t), out)
            reported = bool(r) or bool(recs)
        except Exception:
            reported = True
        check(reported, lambda: 'no error is reported for the unparsable %s file %r' % (c['kind'], t))
        check(out.getvalue() == '', lambda: 'output %r for the unparsable file %r' % (out.getvalue(), t))
        if c['kind'] == 'yaml':
            for cls in (wcxf.WC, wcxf.Basis, wcxf.EFT):
                try:
                    o = cls.load(io.StringIO(t))
                except Exception:
                    pass
                else:
                    raise Violation('loading the unparsable file %r gave %r' % (t, o))
    finally:
        root.removeHandler(h)
        logging.disable(old)


def body_numbers(c, ctx):
    """Coefficient objects made from numbers (dict2values) survive a file exactly."""
    from wilson import wcxf
    vals = {k: complex(*v) if v[1] is not None else v[0] for k, v in c['vals'].items()}
    wc = wcxf.WC('E', 'B', c['scale'], wcxf.WC.dict2values(vals))
    ctx.nontrivial(any(v[1] for v in c['vals'].values()))
    for fmt in ('json', 'yaml'):
        s = wc.dump(fmt=fmt)
        w2 = wcxf.WC.load(s)
        check(w2.scale == float(c['scale']), 'scale changed: %r -> %r' % (c['scale'], w2.scale))
        check({k: complex(v) for k, v in w2.dict.items()} == {k: complex(v) for k, v in vals.items()},
              lambda: '%s: %r became %r' % (fmt, vals, w2.dict))
        check(list(w2.values) and set(w2.values) == set(vals), 'names changed') if vals else None


WETS = {'WET': (80.0, 4.2, ('JMS', 'flavio', 'Bern', 'EOS', 'formflavor', 'FlavorKit')), 'WET-4': (4.2, 1.3, ('JMS', 'flavio', 'Bern')),
        'WET-3': (1.3, 1.3, ('JMS', 'flavio', 'Bern'))}


@st.composite
def produced(draw):
    eft = draw(st.sampled_from(['WET', 'WET', 'WET-4', 'WET-3', 'SMEFT']))
    if eft == 'SMEFT':
        a = draw(st.sampled_from(['Warsaw', 'Warsaw up', 'Higgs-Warsaw up']))
        how = draw(st.sampled_from(['translate', 'match', 'runner', 'wilson']))
        return {'eft': eft, 'a': a, 'how': how, 'to': draw(st.sampled_from(['Warsaw', 'Warsaw up', 'Higgs-Warsaw up'])),
                'low': draw(st.sampled_from(['WET', 'WET-4'])), 'C': draw(gen.wcset(eft, a, exp=-8, max_size=4, families=False))}
    a = draw(st.sampled_from(('JMS', 'JMS', 'flavio', 'Bern')))
    how = draw(st.sampled_from(['translate', 'match', 'runner', 'runner', 'wilson', 'wilson']))
    low = draw(st.sampled_from(['WET', 'WET-4', 'WET-3'][['WET', 'WET-4', 'WET-3'].index(eft):]))
    return {'eft': eft, 'a': a, 'how': how, 'low': low, 'to': draw(st.sampled_from(WETS[low][2])), 'C': draw(gen.wcset(eft, a, exp=draw(st.sampled_from([0, -8])), max_size=5))}


def body_produced(c, ctx):
    """What the library returns (translated, matched, evolved coefficients) can be stored and loaded."""
    import wilson
    from wilson import wcxf
    eft, a, how, low = c['eft'], c['a'], c['how'], c['low']
    d = gen.expand(c['C'], eft, a)
    s = 1000.0 if eft == 'SMEFT' else WETS[eft][0]
    wc = gen.make_wc(wcxf, eft, a, s, d)
    ctx.label('%s of %s' % (how, eft))
    if how == 'translate':
        b = c['to'] if low == eft or eft == 'SMEFT' else 'JMS'
        try:
            out = wc.translate(b)
        except ValueError:
            return
    elif how == 'match':
        nxt = {'SMEFT': 'WET', 'WET': 'WET-4', 'WET-4': 'WET-3'}.get(eft)
        if nxt is None:
            return
        out = wc.translate('Warsaw' if eft == 'SMEFT' else 'JMS').match(nxt, 'JMS') if eft == 'SMEFT' or a != 'JMS' else wc.match(nxt, 'JMS')
    elif how == 'runner' and eft == 'SMEFT':
        from wilson.run.smeft import SMEFT
        out = SMEFT(wc.translate('Warsaw')).run(300.0, accuracy='leadinglog')
    elif how == 'runner':
        from wilson.run.wet import WETrunner
        out = WETrunner(wc.translate('JMS')).run(WETS[eft][1] * 1.1)
    else:
        w = wilson.Wilson.from_wc(wc)
        if eft == 'SMEFT':
            w.set_option('smeft_accuracy', 'leadinglog')
        out = w.match_run(300.0, 'SMEFT', c['to']) if eft == 'SMEFT' and c['C'].get('seed', len(c['C'].get('vals', ()))) % 2 else w.match_run(
            {'WET': 4.8, 'WET-4': 2.0, 'WET-3': 1.3}[low], low, 'JMS' if eft == 'SMEFT' else c['to'])
    ctx.nontrivial(any(out.dict.values()))
    for fmt in ('json', 'yaml'):
        t = out.dump(fmt=fmt)
        back = wcxf.WC.load(t)
        check((back.eft, back.basis, back.scale) == (out.eft, out.basis, out.scale), 'labels changed in the %s file' % fmt)
        check(back.dict == out.dict, lambda: '%s: %r became %r' % (fmt, out.dict, back.dict))
        check(back.dump(fmt=fmt) == t, lambda: '%s: the loaded object is written differently' % fmt)
        plain = (json.loads if fmt == 'json' else yaml.safe_load)(t)
        check(plain['values'] == back.values, lambda: '%s: values read by another program: %r' % (fmt, plain['values']))
        back.validate()


SUBS = [
    Sub('roundtrip', obj, body_roundtrip, 900, 30000, rule='the object has coefficients or sectors'),
    Sub('numbers', lambda: st.fixed_dictionaries({
        'scale': st.one_of(gen.logfloat(1, 1e16), st.integers(1, 10000)),
        'vals': st.dictionaries(key, st.tuples(num.map(float), st.one_of(st.none(), num.map(float))), max_size=8)}),
        body_numbers, 600, 20000, rule='at least one coefficient is complex'),
    Sub('results', produced, body_produced, 90, 6000, rule='the result is not empty'),
    Sub('unknown_format', lambda: st.tuples(st.one_of(wcs(), bass()), st.sampled_from(['', 'jsn', 'yml', 'xml', 'json ', 'yaml2', 'js', 'toml', 'csv']) | st.text(max_size=5).filter(lambda t: t.lower() not in ('json', 'yaml')))
        .map(lambda t: dict(t[0], badfmt=t[1])), body_badformat, 150, 2000, rule='all'),
    Sub('convert', lambda: st.fixed_dictionaries({'doc': docs, 'flow': st.booleans(), 'uni': st.booleans(), 'str': st.booleans(), 'indent': st.sampled_from([None, 2])}),
        body_convert, 600, 20000, rule='the document is not empty'),
    Sub('unparsable', bad_text, body_bad, 300, 5000, rule='all (truncated JSON, malformed YAML)'),
]
