"""C21: export to DsixTools, SMEFTsim and EOS preserves every coefficient."""
import collections
import functools
import io
import math
import os
import re
import shutil
import tempfile

import numpy as np
import yaml
from hypothesis import strategies as st

from harness import Sub, check, Violation
import bases
import gen
import tensors as T
from checks.c20 import blocks, sm_text, EOSNAMES

NEEDS_REF = True
ASSUMPTIONS = ['parameter names of SMEFTsim (c<operator>[Abs|Ph]<flavour>) are written as comments of the card and refer to the symmetrised coefficient; '
               'the numbering of the parameters is taken from the pinned reference',
               'DsixTools files need a Standard Model input file in addition']


def wcs(c, basis='Warsaw'):
    return gen.expand(c['C'], 'SMEFT', basis)


def power(op, L):
    return L if op == 'llphiphi' else L ** 2


def same(a, b, tol=1e-13):
    return abs(complex(a) - complex(b)) <= tol * max(abs(complex(a)), abs(complex(b)))


# DsixTools -----------------------------------------------------------------------------------------------------------------
ZERO = {'G': ('WC1', 1), 'Gtilde': ('WC1', 2), 'W': ('WC1', 3), 'Wtilde': ('WC1', 4), 'phi': ('WC2', 1), 'phiBox': ('WC3', 1), 'phiD': ('WC3', 2),
        'phiG': ('WC4', 1), 'phiB': ('WC4', 2), 'phiW': ('WC4', 3), 'phiWB': ('WC4', 4), 'phiGtilde': ('WC4', 5), 'phiBtilde': ('WC4', 6),
        'phiWtilde': ('WC4', 7), 'phiWtildeB': ('WC4', 8)}


@st.composite
def dsix(draw):
    return {'C': draw(gen.wcset('SMEFT', 'Warsaw', exp=draw(st.sampled_from([-6, 0, -30])))), 'scale': draw(gen.logfloat(80, 1e16, (1000.0, 1, 91.1876))),
            'order': draw(st.permutations([0, 1])), 'parts': draw(st.sampled_from([1, 1, 2, 3])), 'stream': draw(st.booleans())}


def file_tensors(text):
    """{operator: {index: value}} of a DsixTools file, and its scales"""
    b = blocks(text)
    b.pop('OPTIONS', None)
    scales = b.pop('SCALES', {})
    out = {op: {} for op in T.reps('SMEFT')}
    back = {v: k for k, v in ZERO.items()}
    names = {op.upper(): op for op in T.SMEFT_CLASS}
    for name, e in b.items():
        if name in ('WC1', 'WC2', 'WC3', 'WC4'):
            for k, v in e.items():
                check((name,) + k in back, lambda: 'unknown entry %s of block %s' % (k, name))
                out[back[name, k[0]]][()] = v
            continue
        f = 1
        if name.startswith('IM'):
            name, f = name[2:], 1j
        check(name.startswith('WC') and name[2:] in names, lambda: 'unknown block %s' % name)
        op = names[name[2:]]
        for k, v in e.items():
            i = tuple(x - 1 for x in k)
            check(len(i) == len(T.shape('SMEFT', op)) and all(0 <= x < 3 for x in i), lambda: 'entry %s in block %s' % (k, name))
            out[op][i] = out[op].get(i, 0) + f * v
    return out, scales


def body_dsix(c, ctx):
    from wilson import wcxf
    from wilson.wcxf.converters import dsixtools as D
    d = wcs(c)
    L = float(c['scale'])
    wc = gen.make_wc(wcxf, 'SMEFT', 'Warsaw', L, d)
    ctx.nontrivial(any(d.values()))
    ctx.label('dense' if len(d) > 20 else 'sparse')
    if c['stream']:
        f = io.StringIO()
        D.wcxf2dsixtools(wc, stream=f)
        text = f.getvalue()
    else:
        text = D.wcxf2dsixtools(wc)
    got, scales = file_tensors(text)
    check(set(scales) == {(1,)} and same(scales[1,], L), lambda: 'scales of the file: %r instead of %r' % (scales, L))
    # every entry of the file is the dimensionless coefficient, and every coefficient is there
    exp = T.expand_all('SMEFT', d, scaled=False)
    for op, e in got.items():
        S = exp[op]
        big = np.max(np.abs(S)) * power(op, L)
        for i, v in e.items():
            x = S[i] * power(op, L) if i else S * power(op, L)
            check(abs(v - x) <= 1e-12 * big, lambda: 'file: %s is %s instead of %s' % (T.join(op, i), v, x))
    for n, v in d.items():
        if v != 0:
            op, i = (n.split('_') + [''])[:2]
            i = tuple(int(x) - 1 for x in i)
            check(any(j in got[op] for j in orbit(op, i)), lambda: '%s is missing in the file' % n)
    # reading it back, in one or several files
    bl = re.split(r'(?m)^(?=BLOCK )', text, flags=re.I)
    bl = [x for x in bl if x.strip()]
    n = min(c['parts'], len(bl))
    parts = [''.join(bl[i::n]) for i in range(n)]
    files = [sm_text(), None]
    streams = []
    for i in c['order']:
        streams += [files[i]] if i == 0 else parts
    if c['stream']:
        streams = [io.StringIO(s) for s in streams]
    back = wcxf.WC.load(D.dsixtools2wcxf(tuple(streams)))
    check((back.eft, back.basis) == ('SMEFT', 'Warsaw') and same(back.scale, L), lambda: 'read back: %s/%s at %s' % (back.eft, back.basis, back.scale))
    compare(back.dict, d, 'written and read')


def orbit(op, i):
    """equivalent elements (for qqql: all permutations of the quarks)"""
    if not i:
        return [()]
    if T.SMEFT_CLASS[op] == 8:
        import itertools
        return [p + i[3:] for p in itertools.permutations(i[:3])]
    return sorted({tuple(i[a] for a in p) for p, s, k in T.group(T.SMEFT_CLASS[op], len(i))})


def compare(got, exp, what, tol=1e-12):
    big = {}
    for k, v in exp.items():
        f = k.split('_')[0]
        big[f] = max(big.get(f, 0), abs(v))
    for k in set(got) | set(exp):
        g, e = complex(got.get(k, 0)), complex(exp.get(k, 0))
        check(abs(g - e) <= tol * (big.get(k.split('_')[0], 0) if k.startswith('qqql') else max(abs(g), abs(e))), lambda: '%s: %s is %s instead of %s' % (what, k, g, e))


@st.composite
def ios(draw):
    return {'C': draw(gen.wcset('SMEFT', 'Warsaw', exp=-6)), 'C2': draw(gen.wcset('SMEFT', 'Warsaw', exp=-6, dense=False)),
            'scale': draw(gen.logfloat(80, 1e6, (1000.0,))), 'high': draw(st.one_of(st.none(), gen.logfloat(100, 1e6, (1000.0,)))),
            'high2': draw(st.one_of(st.none(), gen.logfloat(100, 1e6))), 'out': draw(st.one_of(st.none(), gen.logfloat(80, 1e6))),
            'fmt': draw(st.sampled_from(['lha', 'json', 'yaml'])), 'wfmt': draw(st.sampled_from(['yaml', 'json'])), 'red': draw(st.booleans())}


def body_io(c, ctx):
    """The object behind the conversion, with a separate new-physics scale"""
    from wilson import wcxf
    from wilson.wcxf.converters import dsixtools as D
    d = wcs(c)
    wc = gen.make_wc(wcxf, 'SMEFT', 'Warsaw', c['scale'], d)
    ctx.nontrivial(any(d.values()) and c['high'] not in (None, c['scale']))
    sio = D.SMEFTio()
    sio.set_initial_wcxf(wc, scale_high=c['high'])
    L = c['high'] or c['scale']
    check(sio.scale_high == L and sio.scale_in == c['scale'], lambda: 'scales %s, %s' % (sio.scale_high, sio.scale_in))
    exp = T.expand_all('SMEFT', d, scaled=False)
    for op, S in exp.items():
        x = np.asarray(sio.C_in[op])
        y = np.asarray(S) * power(op, L)
        check(x.shape == y.shape and np.all(np.abs(x - y) <= 1e-12 * np.max(np.abs(y))), lambda: '%s: dimensionless coefficients differ' % op)
    out = sio.get_wcxf(sio.C_in, c['scale'])
    check((out.eft, out.basis, out.scale) == ('SMEFT', 'Warsaw', c['scale']), 'labels of get_wcxf')
    compare(out.dict, d, 'in and out with scale_high=%s' % c['high'])
    compare(wcxf.WC.load(sio.dump_wcxf(sio.C_in, c['scale'], fmt=c['wfmt'])).dict, d, 'dump_wcxf')
    text = sio.dump(sio.C_in, scale_out=c['out'], fmt=c['fmt'], skip_redundant=c['red'])
    p = D.load(text, c['fmt'])['BLOCK']
    sc = {int(a): float(b) for a, b in p['SCALES']['values']}
    check(same(sc[1], L) and (same(sc[2], c['out']) if c['out'] is not None else 2 not in sc), lambda: 'scales %r' % sc)
    C = D.wc_lha2dict({'BLOCK': p})
    import itertools
    for op, r in T.reps('SMEFT').items():
        for i in (r if c['red'] else itertools.product(range(3), repeat=len(T.shape('SMEFT', op)))):
            if T.SMEFT_CLASS.get(op) == 8 and c['red']:
                continue
            x, y = (C[op][i], exp[op][i] * power(op, L)) if i else (C[op], exp[op] * power(op, L))
            check(abs(x - y) <= 1e-12 * np.max(np.abs(exp[op])) * power(op, L), lambda: '%s in the format %s: %s, is %s' % (T.join(op, i), c['fmt'], y, x))
    # a second set of coefficients: the scale stays unless a new one is given
    d2 = gen.expand(c['C2'], 'SMEFT', 'Warsaw')
    sio.set_initial_wcxf(gen.make_wc(wcxf, 'SMEFT', 'Warsaw', 2 * c['scale'], d2), scale_high=c['high2'])
    check(sio.scale_high == (c['high2'] or L), lambda: 'second file: scale_high=%s' % sio.scale_high)
    compare(sio.get_wcxf(sio.C_in, 1.0).dict, d2, 'second set')
    # the other ways in: a WCxf text or file, and coefficients and scales given directly
    wtext = wc.dump(fmt=c['wfmt'])
    new = D.SMEFTio()
    new.load_wcxf(io.StringIO(wtext) if c['red'] else wtext)
    check((new.scale_high, new.scale_in) == (c['scale'], c['scale']), lambda: 'load_wcxf: scales %s, %s' % (new.scale_high, new.scale_in))
    compare(new.get_wcxf(new.C_in, c['scale']).dict, d, 'load_wcxf')
    new = D.SMEFTio()
    new.set_initial(sio.C_in, scale_in=c['scale'], scale_high=c['high2'] or 2 * L)
    check((new.scale_high, new.scale_in) == (c['high2'] or 2 * L, c['scale']), lambda: 'set_initial: scales %s, %s' % (new.scale_high, new.scale_in))
    r = (c['high2'] or L) / (c['high2'] or 2 * L)
    compare(new.get_wcxf(new.C_in, c['scale']).dict, {n: v * r ** (1 if n.startswith('llphiphi_') else 2) for n, v in d2.items()}, 'set_initial')
    # JSON and YAML, from a text and from a file
    js = sio.dump(sio.C_in, fmt='json')
    ya = sio.dump(sio.C_in, fmt='yaml')
    P = [D.load(js, 'json'), D.load(io.StringIO(js), 'json'), D.load(ya, 'yaml'), D.load(io.StringIO(ya), 'yaml')]
    check(all(x == P[0] for x in P[1:]), 'JSON and YAML representations differ')
    try:
        new.load_initial(('# nothing here\n',))
    except ValueError:
        pass
    else:
        raise Violation('a file without blocks is accepted')
    for e, b in (('WET', 'JMS'), ('SMEFT', 'Warsaw up')):
        try:
            D.SMEFTio().set_initial_wcxf(gen.make_wc(wcxf, e, b, 100.0, {}))
        except ValueError:
            continue
        raise Violation('coefficients of %s/%s are accepted' % (e, b))


@st.composite
def sms(draw):
    return {'seed': draw(gen.seeds()), 'real': draw(st.booleans()), 'imag': draw(st.booleans()), 'theta': draw(st.booleans()),
            'x': draw(st.lists(st.floats(-1e4, 1e4), min_size=8, max_size=8))}


def body_sm(c, ctx):
    from wilson.wcxf.converters import dsixtools as D
    import pylha
    rng = np.random.default_rng(c['seed'])
    d = dict(zip(('g', 'gp', 'gs', 'Lambda', 'm2'), (complex(v) for v in c['x'])))
    for k in ('Gu', 'Gd', 'Ge'):
        d[k] = rng.normal(size=(3, 3)) + (0 if c['real'] else 1j * rng.normal(size=(3, 3)))
        d[k] = np.array(d[k], dtype=complex)
    d.update(zip(('Theta', 'Thetap', 'Thetas'), (complex(v) for v in c['x'][5:])))
    text = pylha.dump(D.sm_dict2lha(d), fmt='lha')
    e = D.sm_lha2dict(D.load(text))
    check(set(e) >= set(d), lambda: 'missing: %s' % sorted(set(d) - set(e)))
    for k, v in d.items():
        check(np.array_equal(np.asarray(e[k], dtype=complex), np.asarray(v)), lambda: '%s: %s became %s' % (k, v, e[k]))
    for n in (1, 2, 3):
        M = rng.normal(size=(3,) * n)
        check(np.array_equal(D.lha2matrix(D.matrix2lha(M), M.shape), M), 'matrix and list of entries')


# SMEFTsim ------------------------------------------------------------------------------------------------------------------
OPS = {'cG': 'G', 'cGtil': 'Gtilde', 'cW': 'W', 'cWtil': 'Wtilde', 'cH': 'phi', 'cHbox': 'phiBox', 'cHDD': 'phiD', 'cHG': 'phiG', 'cHGtil': 'phiGtilde', 'cHW': 'phiW',
       'cHWtil': 'phiWtilde', 'cHB': 'phiB', 'cHBtil': 'phiBtilde', 'cHWB': 'phiWB', 'cHWBtil': 'phiWtildeB', 'ceH': 'ephi', 'cuH': 'uphi', 'cdH': 'dphi',
       'ceW': 'eW', 'ceB': 'eB', 'cuG': 'uG', 'cuW': 'uW', 'cuB': 'uB', 'cdG': 'dG', 'cdW': 'dW', 'cdB': 'dB', 'cHl1': 'phil1', 'cHl3': 'phil3', 'cHe': 'phie',
       'cHq1': 'phiq1', 'cHq3': 'phiq3', 'cHu': 'phiu', 'cHd': 'phid', 'cHud': 'phiud', 'cledq': 'ledq', 'clequ1': 'lequ1', 'clequ3': 'lequ3',
       'cquqd1': 'quqd1', 'cquqd8': 'quqd8'}
OPS.update({'c' + k: k for k in 'll qq1 qq3 lq1 lq3 ee uu dd eu ed ud1 ud8 le lu ld qe qu1 qu8 qd1 qd8'.split()})
OPS = {k.lower(): v for k, v in OPS.items()}
LABEL = re.compile(r'^#?\s*(c[A-Za-z0-9]*?)(Abs|Ph)?(\d{4}|\d{2}|\d(?:x\d)+)?\s*$')


@functools.lru_cache(None)
def read_label(label):
    """(operator, 'Abs' 'Ph' or None, indices) of a parameter"""
    m = LABEL.match(label)
    if not m:
        return None
    # digits that belong to the name (cHl1Abs11, cqq1Abs1111)
    op = OPS.get(m[1].lower())
    if op is None:
        return None
    return op, m[2], tuple(int(x) - 1 for x in (m[3] or '').replace('x', ''))


def card_of(mod, wc, ms, lam, scheme):
    card = mod.smeftsim_card_fill(mod.initialize_smeftsim_card(ms), wc, ms, lam, scheme)
    out = {}
    for b, v in card['Block'].items():
        for e in v.get('values', []):
            k = (b,) + tuple(e[:-2])
            check(k not in out, lambda: 'entry %s is there twice' % (k,))
            out[k] = (float(e[-2]), e[-1].strip())
    return out


@functools.lru_cache(None)
def layout(ms, scheme):
    """{entry: name} of the reference"""
    from refwilson import wcxf
    from refwilson.wcxf.converters import smeftsim
    wc = wcxf.WC('SMEFT', 'Warsaw mass', 1000.0, {})
    return {k: v[1] for k, v in card_of(smeftsim, wc, ms, 1000.0, scheme).items()}


@st.composite
def cards(draw):
    return {'C': draw(gen.wcset('SMEFT', 'Warsaw mass', exp=draw(st.sampled_from([-6, -6, 0, -12])), max_size=10)), 'lam': draw(gen.logfloat(1, 1e6, (1000.0, 1.0, 1000))),
            'scheme': draw(st.sampled_from(['alpha', 'mw'])), 'set': draw(st.sampled_from(['A', 'B'])), 'scale': draw(st.sampled_from([91.1876, 1000.0]))}


def body_card(c, ctx):
    from wilson import wcxf
    from wilson.wcxf.converters import smeftsim as S
    d = wcs(c, 'Warsaw mass')
    wc = gen.make_wc(wcxf, 'SMEFT', 'Warsaw mass', c['scale'], d)
    card = card_of(S, wc, c['set'], c['lam'], c['scheme'])
    ctx.nontrivial(any(d.values()))
    ctx.label('%s %s' % (c['set'], c['scheme']))
    ref = layout(c['set'], c['scheme'])
    check(set(card) == set(ref), lambda: 'entries of the card: missing %s, additional %s' % (sorted(set(ref) - set(card))[:4], sorted(set(card) - set(ref))[:4]))
    # _known_ names of the pinned card decide which number an entry has to contain
    vals = expand_mass(d)
    parts = collections.defaultdict(dict)
    other = {}
    for k, (v, name) in card.items():
        l = read_label(ref[k])
        if l is None:
            other[ref[k]] = v
            continue
        op, part, idx = l
        check(len(idx) == len(T.shape('SMEFT', op)), lambda: 'parameter %s' % ref[k])
        if len(k) > 2:
            check(tuple(x - 1 for x in k[1:]) == idx, lambda: 'entry %s is %s' % (k, ref[k]))
        if read_label(name) is not None:
            check(read_label(name) == l, lambda: 'entry %s is called %s instead of %s' % (k, name, ref[k]))
        parts[op, idx][part] = v
    L2 = c['lam'] ** 2
    done = set()
    for (op, idx), p in parts.items():
        S_ = vals[op]
        x = complex(S_[idx] if idx else S_) * L2
        got = p.get('Abs', p.get(None))
        check(got is not None, lambda: 'no magnitude of %s' % T.join(op, idx))
        if 'Ph' in p:
            check(got >= 0, lambda: 'negative magnitude %s of %s' % (got, T.join(op, idx)))
            got = got * complex(math.cos(p['Ph']), math.sin(p['Ph']))
        check(abs(got - x) <= 3e-6 * abs(x) + 1e-300, lambda: 'SMEFTsim %s %s: %s at %s GeV is %s instead of %s' % (
            c['set'], c['scheme'], T.join(op, idx), c['lam'], got, x))
        done.add((op, idx))
    # every coefficient of the basis has an entry (baryon number violation and neutrino masses are not in the model)
    for n, v in d.items():
        op, i = (n.split('_') + [''])[:2]
        if op in ('llphiphi', 'duql', 'qque', 'qqql', 'duue'):
            continue
        check(any((op, j) in done for j in orbit(op, tuple(int(x) - 1 for x in i))), lambda: '%s is not in the card' % n)
    # the other parameters: cutoff and W mass
    scale = [v for n, v in other.items() if 'lambda' in n.lower()]
    check(all(same(v, refother(c['set'], c['scheme'])[n], 1e-6) or n in lamname(c['set'], c['scheme']) for n, v in other.items()),
          lambda: 'other parameters: %r' % other)
    for n in lamname(c['set'], c['scheme']):
        check(same(other[n], c['lam'], 1e-6), lambda: 'cutoff scale in the card: %s instead of %s' % (other[n], c['lam']))
    check(len(scale) <= 1, 'cutoff scale')
    mw = [v for n, v in other.items() if 'mw' in n.lower()]
    if c['set'] == 'A':
        check(bool(mw) == (c['scheme'] == 'mw') and all(same(v, 80.387, 1e-6) for v in mw), lambda: 'W mass in the scheme %s: %s' % (c['scheme'], mw))


def expand_mass(d):
    """full tensors; the basis 'Warsaw mass' has the same flavour structure"""
    return T.expand_all('SMEFT', d, scaled=True)


@functools.lru_cache(None)
def refother(ms, scheme, lam=1000.0):
    from refwilson import wcxf
    from refwilson.wcxf.converters import smeftsim
    wc = wcxf.WC('SMEFT', 'Warsaw mass', 1000.0, {})
    return {v[1]: v[0] for v in card_of(smeftsim, wc, ms, lam, scheme).values() if read_label(v[1]) is None}


@functools.lru_cache(None)
def lamname(ms, scheme):
    a, b = refother(ms, scheme, 1000.0), refother(ms, scheme, 2000.0)
    out = [n for n in a if a[n] != b[n]]
    assert len(out) == 1
    return out


def text_cases():
    return [{'set': a, 'scheme': b} for a in 'AB' for b in ('alpha', 'mw')]


def body_text(c, ctx):
    """the fixed part of the card: requested scheme, and nothing lost"""
    import pylha
    from wilson.wcxf.converters import smeftsim as S
    from refwilson.wcxf.converters import smeftsim as R
    head, tail = S.smeftsim_card_text(c['set'], c['scheme'])[:2]
    rh, rt = R.smeftsim_card_text(c['set'], c['scheme'])[:2]
    got, exp = blocks_of(head), blocks_of(rh)
    check(got == exp, lambda: 'head of the card: %s' % first_diff(got, exp))
    check([x.split() for x in tail.split('\n') if x.split()] == [x.split() for x in rt.split('\n') if x.split()], 'end of the card differs')
    b = pylha.load(head)['BLOCK']
    sm = {int(a[0]): a[1] for a in b['SMINPUTS']['values']}
    mass = {int(a[0]): a[1] for a in b['MASS']['values']}
    check((1 in sm) == (c['scheme'] == 'alpha'), lambda: 'SMINPUTS in the scheme %s: %s' % (c['scheme'], sm))
    check(same(sm[2], 1.166379e-5, 1e-5) and 0.11 < sm[3] < 0.125, lambda: 'SMINPUTS: %s' % sm)
    if c['scheme'] == 'mw':
        check(same(mass[24], 80.387), lambda: 'W mass %s' % mass[24])
    check(same(mass[23], 91.1876, 1e-4), lambda: 'Z mass %s' % mass.get(23))
    line1 = ' '.join(l for l in head.split('\n') if 'PARAM_CARD' in l)
    check(('SET ' + c['set']) in line1, lambda: 'title of the card: %s' % line1)


def blocks_of(text):
    out, b = {}, None
    for l in text.split('\n'):
        l = l.split('#')[0].split()
        if not l:
            continue
        if l[0].lower() in ('block', 'decay'):
            b = out.setdefault(' '.join(l).lower(), [])
        else:
            b.append(l)
    return out


def first_diff(a, b):
    for k in list(b) + list(a):
        if a.get(k) != b.get(k):
            return '%s: %s instead of %s' % (k, a.get(k), b.get(k))


# EOS -----------------------------------------------------------------------------------------------------------------------
@st.composite
def eoss(draw):
    names = sorted(bases.names('WET', 'EOS'))
    ks = draw(st.lists(st.one_of(st.sampled_from(names), st.sampled_from([n for n in names if 'enue' in n or 'munumu' in n])), min_size=1, max_size=6, unique=True))
    vals, sm = {}, {}
    for k in ks:
        for n in draw(st.lists(st.sampled_from(EOSNAMES(k)), min_size=1, max_size=3, unique=True)):
            sm[n] = [draw(st.floats(-10, 10)) for _ in range(3)]
        if draw(st.integers(0, 4)):
            vals[k] = draw(gen.coeff(bases.names('WET', 'EOS')[k], 0))
            for a, b in (('enue', 'munumu'), ('munumu', 'enue')):
                if a in k:
                    o = draw(st.sampled_from(['same', 'same', 'other', 'none', 'real', 'imaginary', 'close']))
                    if o in ('real', 'imaginary'):
                        z = draw(gen.coeff(False, 0))
                        vals[k.replace(a, b)] = [vals[k][0], z[1]] if o == 'real' else [z[0], vals[k][1]]
                    elif o == 'close':
                        vals[k.replace(a, b)] = [vals[k][0] * 1.0001, vals[k][1]]
                    if o == 'same':
                        vals[k.replace(a, b)] = vals[k]
                    elif o == 'other':
                        vals[k.replace(a, b)] = draw(gen.coeff(False, 0))
    for n in draw(st.lists(st.sampled_from(['mass::b', 'CKM::A', 'b->s::c99', 'Re{x}', 'decay-constant::B_d', 'Im{y}::z']), max_size=2, unique=True)):
        sm[n] = [draw(st.floats(-10, 10)) for _ in range(3)]
    return {'vals': vals, 'sm': sm, 'files': draw(st.integers(1, 3)), 'irrelevant': draw(st.sampled_from([False, None, 'no metadata', 'no flag']))}


def np_value(n, vals):
    """what belongs to an EOS parameter; None: lepton flavour non-universal"""
    if n in vals:
        return vals[n].real
    m = re.match(r'^(.*?)(Re|Im)\{([^}]*)\}(.*)$', n)
    if not m:
        return 0.0
    k = m[1] + m[3] + m[4]
    part = (lambda z: complex(z).real) if m[2] == 'Re' else (lambda z: complex(z).imag)
    if k in vals:
        return part(vals[k])
    if 'lnu' in k:
        e, mu = vals.get(k.replace('lnu', 'enue'), 0), vals.get(k.replace('lnu', 'munumu'), 0)
        if e != mu:
            return None
        return part(e)
    return 0.0


def body_eos(c, ctx):
    from wilson import wcxf
    from wilson.wcxf.converters import eos as E
    vals = {k: complex(*v) for k, v in c['vals'].items()}
    wc = gen.make_wc(wcxf, 'WET', 'EOS', 4.2, vals)
    sm = {k: {'central': v[0], 'min': v[1], 'max': v[2]} for k, v in c['sm'].items()}
    d = tempfile.mkdtemp(prefix='c21_')
    try:
        ks = sorted(sm)
        for i in range(c['files']):
            doc = {'@metadata@': {'wcxf-relevant': True, 'x': 1}}
            doc.update({k: sm[k] for k in ks[i::c['files']]})
            with open(os.path.join(d, 'f%d.yaml' % i), 'w') as f:
                yaml.safe_dump(doc, f)
        if c['irrelevant'] is not False:
            doc = {'b->s::c1': {'central': 1.0, 'min': 1.0, 'max': 1.0}}
            if ks:
                doc[ks[0]] = {'central': 77.0, 'min': 1.0, 'max': 1.0}
            if c['irrelevant'] is None:
                doc['@metadata@'] = {'wcxf-relevant': False}
            elif c['irrelevant'] == 'no flag':
                doc['@metadata@'] = {'author': 'x'}
            with open(os.path.join(d, 'irr.yaml'), 'w') as f:
                yaml.safe_dump(doc, f)
        with open(os.path.join(d, 'notes.txt'), 'w') as f:
            f.write('@metadata@: {wcxf-relevant: true}\nfoo: {central: 1}\n')
        table = E.get_sm_wcs(d)
    finally:
        shutil.rmtree(d)
    check(table == sm, lambda: 'Standard Model table: %r instead of %r' % (table, sm))
    exp = {n: np_value(n, vals) for n in sm}
    ctx.nontrivial(any(v for v in exp.values()))
    if any(v is None for v in exp.values()):
        ctx.label('non-universal')
        try:
            r = E.wcxf2eos(wc, table)
        except ValueError:
            r = None
        check(r is None, 'lepton flavour non-universal coefficients are accepted: %r' % ({k: v for k, v in vals.items()},))
        exp = {n: v for n, v in exp.items() if v is not None}
        table = {n: v for n, v in table.items() if n in exp}
    if any('lnu' in n for n in table):
        ctx.label('universal')
    r = E.wcxf2eos(wc, table)
    check(set(r) == set(table), lambda: 'parameters %s' % sorted(set(r) ^ set(table)))
    for n, x in exp.items():
        for q in ('central', 'min', 'max'):
            y = sm[n]['central'] + x
            check(set(r[n]) == {'central', 'min', 'max'} and abs(r[n][q] - y) <= 1e-14 * (abs(sm[n]['central']) + abs(x)),
                  lambda: 'EOS parameter %s: %s is %s instead of %s + %s' % (n, q, r[n].get(q), sm[n]['central'], x))
        check(isinstance(r[n]['central'], float), lambda: 'EOS parameter %s is no real number: %r' % (n, r[n]['central']))


mini = gen.sparsify('SMEFT', 'Warsaw')


def full(seed, exp=-6):
    return {'kind': 'dense', 'seed': seed, 'keep': 1.0, 'exp': exp}


def eos_full():
    """every coefficient of the EOS basis with every parameter name that belongs to it"""
    rng = np.random.default_rng(5)
    names = bases.names('WET', 'EOS')
    vals = {k: [float(x), 0.0 if names[k] else float(y)] for k, (x, y) in zip(sorted(names), rng.uniform(-1, 1, (len(names), 2)))}
    uni = dict(vals)
    for k in uni:
        if 'munumu' in k:
            uni[k] = uni[k.replace('munumu', 'enue')]
    sm = {n: [float(x), float(x) - 1, float(x) + 2] for k in sorted(names) for n in EOSNAMES(k) for x in rng.uniform(-10, 10, 1)}
    return [{'vals': v, 'sm': sm, 'files': f, 'irrelevant': False} for v, f in ((vals, 1), (uni, 3))]


SUBS = [
    Sub('dsixtools', dsix, body_dsix, 100, 1500, rule='at least one non-zero coefficient', minimise=mini,
        examples=[{'C': full(2), 'scale': 1234.5, 'order': [0, 1], 'parts': p, 'stream': False} for p in (1, 3)]),
    Sub('dsixio', ios, body_io, 60, 1000, rule='non-zero coefficients and a separate scale', minimise=mini),
    Sub('dsixsm', sms, body_sm, 300, 1000, rule='all'),
    Sub('smeftsim', cards, body_card, 150, 2500, rule='at least one non-zero coefficient', minimise=gen.sparsify('SMEFT', 'Warsaw mass'),
        examples=[{'C': full(i), 'lam': l, 'scheme': x, 'set': s, 'scale': 91.1876} for s in 'AB' for x in ('alpha', 'mw') for i, l in ((3, 1234.5), (4, 31.0))]),
    Sub('smeftsimtext', None, body_text, 0, 0, examples=text_cases(), rule='all'),
    Sub('eos', eoss, body_eos, 400, 8000, rule='at least one non-zero new physics contribution', examples=eos_full),
]
