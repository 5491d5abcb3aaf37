"""C17: results of running and matching never depend on earlier calls."""
import copy
import functools
import io
import json
import math

import numpy as np
from hypothesis import strategies as st

from harness import Sub, check, HarnessError, Violation
import bases
import gen
import physics

NEEDS_REF = True
ASSUMPTIONS = ['the single steps (translating, running, matching) are the subject of C08 to C16; here they are composed explicitly',
               'objects returned by the library are not modified by the user']
CHAIN = ('WET', 'WET-4', 'WET-3')
INPUT = {'SMEFT': ('Warsaw', 'Warsaw', 'Warsaw up', 'Higgs-Warsaw up'), 'WET': ('JMS', 'JMS', 'flavio', 'Bern', 'FlavorKit'),
         'WET-4': ('JMS', 'flavio', 'Bern'), 'WET-3': ('JMS', 'flavio', 'Bern')}
OUTPUT = {'SMEFT': ('Warsaw', 'Warsaw up', 'Higgs-Warsaw up', 'Warsaw mass'), 'WET': ('JMS', 'JMS', 'flavio', 'flavio', 'Bern', 'EOS', 'FlavorKit', 'formflavor'),
          'WET-4': ('JMS', 'flavio', 'Bern'), 'WET-3': ('JMS', 'flavio', 'Bern')}
SCALES = {'SMEFT': (1000.0, 250.0, 91.1876, 160.0), 'WET': (160.0, 91.1876, 80.0, 4.2, 4.8, 10.0, 5.0), 'WET-4': (4.2, 2.0, 4.8, 1.3, 3.0), 'WET-3': (1.3, 2.0, 1.5, 1.1)}
DEFAULTS = {'smeft_accuracy': 'integrate', 'qed_order': 1, 'qcd_order': 1, 'smeft_matching_order': 0, 'smeft_matchingscale': 91.1876,
            'mb_matchingscale': 4.2, 'mc_matchingscale': 1.3, 'parameters': {}}
VALUES = {'smeft_accuracy': ['integrate', 'leadinglog', 'leadinglog', 'leadinglog'], 'qed_order': [0, 1], 'qcd_order': [0, 1], 'smeft_matching_order': [0, 1],
          'smeft_matchingscale': [91.1876, 160.0, 80.0, 91.1876, 160], 'mb_matchingscale': [4.2, 4.8, 5.0, 5, 1.6], 'mc_matchingscale': [1.3, 1.5, 2, 4.4]}
PARS = ('m_b', 'm_c', 'alpha_s', 'alpha_e', 'Vus', 'Vub', 'Vcb', 'gamma', 'm_s', 'GF')


def lib():
    import wilson
    from wilson import wcxf
    from wilson.run.smeft import SMEFT
    from wilson.run.wet import WETrunner
    from wilson import parameters
    return wilson.Wilson, wcxf, SMEFT, WETrunner, dict(parameters.p)


def reflib():
    import refwilson
    from refwilson import wcxf
    from refwilson.run.smeft import SMEFT
    from refwilson.run.wet import WETrunner
    from refwilson import parameters
    return refwilson.Wilson, wcxf, SMEFT, WETrunner, dict(parameters.p)


def values(s):
    return {k: v for k, v in gen.expand(s['C'], s['eft'], s['basis'], s.get('secs')).items() if v != 0}


# the explicit chain -----------------------------------------------------------------------------------------------------------
@functools.lru_cache(64)
def _ew(spec, acc, ew, order, pars, ref):
    """SMEFT coefficients matched to WET"""
    _, wcxf, SMEFT, _, p0 = (reflib if ref else lib)()
    s = json.loads(spec)
    P = dict(p0, **json.loads(pars))
    wc = gen.make_wc(wcxf, s['eft'], s['basis'], s['scale'], values(s)).translate('Warsaw', parameters=dict(P))
    if s['scale'] != ew:
        wc = SMEFT(wc).run(ew, accuracy=acc)
    return tuple(wc.match('WET', 'JMS', parameters=dict(P, loop_order=order)).dict.items())


@functools.lru_cache(64)
def _smeft(spec, acc, scale, pars, ref):
    _, wcxf, SMEFT, _, p0 = (reflib if ref else lib)()
    s = json.loads(spec)
    P = dict(p0, **json.loads(pars))
    wc = gen.make_wc(wcxf, s['eft'], s['basis'], s['scale'], values(s)).translate('Warsaw', parameters=dict(P))
    return tuple(SMEFT(wc).run(scale, accuracy=acc).dict.items())


@functools.lru_cache(256)
def chain(spec, opts, scale, eft, basis, ref=False):
    """{name: value}, for all sectors"""
    _, wcxf, _, WETrunner, p0 = (reflib if ref else lib)()
    s, o = json.loads(spec), json.loads(opts)
    pars = json.dumps(o['parameters'], sort_keys=True)
    P = dict(p0, **o['parameters'])
    wc = gen.make_wc(wcxf, s['eft'], s['basis'], s['scale'], values(s))
    if s['eft'] == eft and scale == s['scale']:
        return wc.translate(basis, parameters=dict(P)).dict
    if s['eft'] == 'SMEFT':
        if eft == 'SMEFT':
            wc = gen.make_wc(wcxf, 'SMEFT', 'Warsaw', scale, dict(_smeft(spec, o['smeft_accuracy'], scale, pars, ref)))
            return wc.translate(basis, parameters=dict(P)).dict
        ew = float(o['smeft_matchingscale'])
        wc = gen.make_wc(wcxf, 'WET', 'JMS', ew, dict(_ew(spec, o['smeft_accuracy'], ew, o['smeft_matching_order'], pars, ref)))
    else:
        wc = wc.translate('JMS', parameters=dict(P))
    i, j = CHAIN.index(wc.eft), CHAIN.index(eft)
    for a, b in zip(CHAIN[i:j], CHAIN[i + 1:j + 1]):
        mu = float(o[{'WET': 'mb', 'WET-4': 'mc'}[a] + '_matchingscale'])
        wc = WETrunner(wc, parameters=dict(P), qed_order=o['qed_order'], qcd_order=o['qcd_order']).run(mu)
        wc = wc.match(b, 'JMS', parameters=dict(P))
    wc = WETrunner(wc, parameters=dict(P), qed_order=o['qed_order'], qcd_order=o['qcd_order']).run(scale)
    return wc.translate(basis, parameters=dict(P)).dict


def expected(s, o, r, ref=False):
    d = chain(json.dumps(s, sort_keys=True), json.dumps(o, sort_keys=True), r['scale'], r['eft'], r['basis'], ref)
    if r['secs'] is not None and r['eft'] != 'SMEFT':
        n = bases.names(r['eft'], r['basis'], tuple(sorted(r['secs'])))
        d = {k: v for k, v in d.items() if k in n}
    return d


def agree(got, exp, r, what, rtol=1e-8, big=None):
    names = bases.sector_of(r['eft'], r['basis'])
    big = dict(big or {})
    for d in (got, exp):
        for k, v in d.items():
            check(k in names, lambda: '%s: %s is not in the basis' % (what, k))
            check(np.isfinite(v), lambda: '%s: %s is %s' % (what, k, v))
            big[names[k]] = max(big.get(names[k], 0.0), abs(v))
    for k in set(got) | set(exp):
        g, e = got.get(k, 0), exp.get(k, 0)
        check(abs(g - e) <= rtol * abs(e) + 1e-10 * big[names[k]], lambda: '%s: %s is %s, expected %s' % (what, k, g, e))


# generators ---------------------------------------------------------------------------------------------------------------------
@st.composite
def specs(draw, smeft=True, first=False):
    eft = draw(st.sampled_from((['SMEFT'] if smeft else []) + ['WET', 'WET', 'WET', 'WET-4', 'WET-3'])) if not (smeft and first) else 'SMEFT'
    basis = draw(st.sampled_from(INPUT[eft]))
    s = {'eft': eft, 'basis': basis, 'scale': draw(st.sampled_from(SCALES[eft])), 'ctor': draw(st.sampled_from(['init', 'init', 'from_wc', 'load_wc']))}
    if eft == 'SMEFT':
        s['C'] = draw(gen.wcset(eft, basis, exp=-8, max_size=4, families=False))
    else:
        have = sorted(x for x, c in bases.sectors(eft, basis).items() if c)
        s['secs'] = sorted(draw(st.lists(st.sampled_from(have), min_size=1, max_size=3, unique=True)))
        if 'dF=0' in s['secs'] and draw(st.booleans()):
            s['secs'] = [x for x in s['secs'] if x != 'dF=0'] or ['sb'] * ('sb' in have) or s['secs']
        s['C'] = draw(gen.wcset(eft, basis, secs=s['secs'], exp=draw(st.sampled_from([0, -8])), max_size=4))
    # no empty objects
    if s['C']['kind'] == 'sparse' and not any(any(v) for v in s['C']['vals'].values()):
        k = sorted(s['C']['vals'])[0]
        s['C']['vals'][k] = [1e-8, 0.0]
    return s


def seclist(pool):
    return st.one_of(st.lists(st.sampled_from(pool), min_size=1, max_size=3, unique=True), st.lists(st.sampled_from(pool), min_size=1, max_size=3, unique=True),
                     st.lists(st.sampled_from(pool), min_size=min(4, len(set(pool))), max_size=9, unique=True))


@st.composite
def targets(draw, s, own):
    eft0 = s['eft']
    i = CHAIN.index(eft0) if eft0 in CHAIN else 0
    eft = draw(st.sampled_from(list(CHAIN[i:]) + ([eft0] if eft0 == 'SMEFT' else [])))
    sc = list(SCALES[eft]) + ([s['scale']] if eft == eft0 else [])
    r = {'eft': eft, 'scale': draw(st.sampled_from(sc)), 'basis': draw(st.sampled_from(OUTPUT[eft] + ((s['basis'],) if eft == eft0 else ()))), 'secs': None}
    if eft != 'SMEFT' and draw(st.booleans()):
        pool = [x for x in (s.get('secs') or []) if x in bases.sectors(eft, r['basis'])] * 3 + sorted(bases.sectors(eft, r['basis']))
        r['secs'] = draw(seclist(pool))
    return r


@st.composite
def option(draw):
    k = draw(st.sampled_from(sorted(VALUES) + ['parameters']))
    if k == 'parameters':
        ks = draw(st.lists(st.sampled_from(PARS), max_size=4, unique=True))
        return [k, {p: draw(physics.value(p)) for p in ks}]
    return [k, draw(st.sampled_from(VALUES[k]))]


BAD = ('unknown eft', 'unknown basis', 'upwards', 'translation')


@st.composite
def histories(draw, smeft=True, nops=8):
    objs = [draw(specs(smeft, not n)) for n in range(draw(st.integers(1, 2)))]
    pools = [draw(st.lists(targets(s, True), min_size=1, max_size=3)) for s in objs]
    ops = []
    # the leading logarithm is much faster than the integration; the latter is used when an option operation asks for it
    for i, s in enumerate(objs):
        if s['eft'] == 'SMEFT' and draw(st.integers(0, 7)):
            ops.append(['opt', i, 'smeft_accuracy', 'leadinglog'])
    for _ in range(draw(st.integers(2, nops))):
        i = draw(st.integers(0, len(objs) - 1))
        k = draw(st.sampled_from(['run'] * 6 + ['opt'] * 3 + ['undo', 'bad', 'default', 'clear', 'fresh', 'inplace', 'inplace']))
        if k == 'run' or k == 'fresh':
            r = dict(draw(st.sampled_from(pools[i])))
            if draw(st.integers(0, 5)) == 0:
                r['basis'] = draw(st.sampled_from(OUTPUT[r['eft']]))
            if draw(st.integers(0, 5)) == 0:
                r['secs'] = None
            ops.append([k, i, r])
        elif k == 'opt':
            ops.append(['opt', i] + draw(option()))
        elif k == 'inplace':
            p = draw(st.sampled_from(PARS))
            ops.append(['inplace', i, p, draw(physics.value(p))])
            if draw(st.booleans()) and len(ops) > 1 and ops[-2][0] == 'run' and ops[-2][1] == i:
                ops.append(copy.deepcopy(ops[-2]))
        elif k == 'default':
            ops.append(['default', i] + draw(option()))
        elif k == 'bad':
            ops.append(['bad', i, draw(st.sampled_from(BAD))])
        else:
            ops.append([k, i])
    # a request somewhere and, as the last word, after another change of the options
    i = draw(st.integers(0, len(objs) - 1))
    t = draw(st.sampled_from(pools[i]))
    first = 1 + max([n for n, op in enumerate(ops) if op[0] == 'opt' and op[2] == 'smeft_accuracy' and n < len(objs)], default=-1)
    ops.insert(draw(st.integers(first, len(ops))), ['run', i, t])
    if draw(st.integers(0, 3)):
        ops.append(['opt', i] + draw(option()))
    ops.append(['run', i, dict(t)])
    return {'objs': objs, 'ops': ops}


# execution ------------------------------------------------------------------------------------------------------------------------
def create(s):
    Wilson, wcxf = lib()[:2]
    d = values(s)
    if s['ctor'] == 'init':
        return Wilson(d, s['scale'], s['eft'], s['basis'])
    wc = gen.make_wc(wcxf, s['eft'], s['basis'], s['scale'], d)
    if s['ctor'] == 'from_wc':
        return Wilson.from_wc(wc)
    text = json.dumps({'eft': s['eft'], 'basis': s['basis'], 'scale': s['scale'], 'values': wc.values})
    return Wilson.load_wc(io.StringIO(text))


def request(w, r):
    kw = {} if r['secs'] is None else {'sectors': tuple(r['secs'])}
    return w.match_run(r['scale'], r['eft'], r['basis'], **kw)


def direct(s, r):
    """the library has translators between some pairs of bases only"""
    if s['eft'] != r['eft'] or s['scale'] != r['scale'] or s['basis'] == r['basis']:
        return True
    from wilson import wcxf
    try:
        wcxf.Translator[s['eft'], s['basis'], r['basis']]
    except (KeyError, AttributeError):
        return False
    return True


def refuse(f, what):
    try:
        f()
    except (ValueError, KeyError, AttributeError, TypeError):
        return
    raise Violation(what)


def judge(out, s, o, r, what):
    check((out.eft, out.basis, out.scale) == (r['eft'], r['basis'], r['scale']), lambda: '%s: the result is labelled %s %s %s, requested %s' % (
        what, out.eft, out.basis, out.scale, r))
    agree({k: complex(v) for k, v in out.dict.items()}, expected(s, o, r), r, what)


def dump(wc):
    return json.dumps([wc.eft, wc.basis, wc.scale, wc.values], sort_keys=True, default=repr)


def body_history(c, ctx):
    Wilson = lib()[0]
    defaults = copy.deepcopy(DEFAULTS)
    for k in DEFAULTS:
        Wilson.set_default_option(k, copy.deepcopy(DEFAULTS[k]))
    try:
        ws = [create(s) for s in c['objs']]
        os = [copy.deepcopy(defaults) for _ in ws]
        old = [None] * len(ws)
        ins = [dump(w.wc) for w in ws]
        results = []
        seen, repeated = set(), False
        changed = False
        for n, op in enumerate(c['ops']):
            i = op[1]
            s = c['objs'][i]
            what = 'step %d (%s)' % (n + 1, op)
            if op[0] == 'opt':
                old[i] = copy.deepcopy(os[i])
                ws[i].set_option(op[2], copy.deepcopy(op[3]))
                os[i][op[2]] = copy.deepcopy(op[3])
                changed = True
            elif op[0] == 'inplace':     # the usual way to change one parameter: read, edit, set
                old[i] = copy.deepcopy(os[i])
                p = ws[i].get_option('parameters')
                p[op[2]] = op[3]
                ws[i].set_option('parameters', p)
                os[i]['parameters'] = dict(os[i]['parameters'], **{op[2]: op[3]})
                changed = True
            elif op[0] == 'undo' and old[i] is not None:
                for k in os[i]:
                    if os[i][k] != old[i][k]:
                        ws[i].set_option(k, copy.deepcopy(old[i][k]))
                os[i] = copy.deepcopy(old[i])
            elif op[0] == 'default':
                Wilson.set_default_option(op[2], copy.deepcopy(op[3]))
                defaults[op[2]] = copy.deepcopy(op[3])
            elif op[0] == 'clear':
                ws[i].clear_cache()
            elif op[0] == 'bad':
                if op[2] == 'unknown eft':
                    refuse(lambda: ws[i].match_run(2.0, 'WET-7', 'JMS'), what + ' was accepted')
                elif op[2] == 'unknown basis':
                    refuse(lambda: ws[i].match_run(2.0 if s['eft'] != 'SMEFT' else 500.0, s['eft'], 'no such basis'), what + ' was accepted')
                elif op[2] == 'upwards' and s['eft'] != 'SMEFT':
                    up = ('SMEFT', 'Warsaw') if s['eft'] == 'WET' else (CHAIN[CHAIN.index(s['eft']) - 1], 'JMS')
                    refuse(lambda: ws[i].match_run(s['scale'], *up), what + ' was accepted')
                elif op[2] == 'translation':
                    refuse(lambda: ws[i].match_run(s['scale'], s['eft'], 'no such basis'), what + ' was accepted')
            elif op[0] in ('run', 'fresh'):
                r = op[2]
                w, o = ws[i], os[i]
                if op[0] == 'fresh':
                    w, o = create(s), copy.deepcopy(defaults)
                    if s['eft'] == 'SMEFT' and o['smeft_accuracy'] == 'integrate':
                        w.set_option('smeft_accuracy', 'leadinglog')
                        o['smeft_accuracy'] = 'leadinglog'
                if not direct(s, r):
                    continue
                out = request(w, r)
                judge(out, s, o, r, what)
                results.append((out, dump(out)))
                t = json.dumps([i, r['scale'], r['eft']])
                repeated |= t in seen
                seen.add(t)
            # nothing that was returned or passed before changes
            for w, x in zip(ws, ins):
                check(dump(w.wc) == x, lambda: '%s: the coefficients of an object changed' % what)
            for out, x in results:
                check(dump(out) == x, lambda: '%s: an earlier result changed' % what)
        ctx.nontrivial((repeated and (changed or c.get('plain', False)) or c.get('close', False)) and any(out.values for out, _ in results))
        ctx.label(c['objs'][0]['eft'])
    finally:
        for k in DEFAULTS:
            Wilson.set_default_option(k, copy.deepcopy(DEFAULTS[k]))


@st.composite
def neighbours(draw, smeft=True):
    """requests that differ in one attribute only (basis, sectors, scale, an option), each made several times in any order"""
    s = draw(specs(smeft, first=draw(st.integers(0, 2)) > 0))
    i = CHAIN.index(s['eft']) if s['eft'] in CHAIN else 0
    if s['eft'] == 'SMEFT' and draw(st.integers(0, 3)):
        r0 = {'eft': 'SMEFT', 'scale': draw(st.sampled_from(SCALES['SMEFT'])), 'basis': draw(st.sampled_from(OUTPUT['SMEFT'])), 'secs': None}
    else:
        r0 = draw(targets(s, True))
    pool = [r0]
    have = sorted(bases.sectors(r0['eft'], r0['basis']))
    for _ in range(draw(st.integers(1, 4))):
        r = dict(draw(st.sampled_from(pool)))
        k = draw(st.sampled_from(['basis', 'basis', 'sectors', 'scale', 'near', 'eft', 'eft'] + ['order', 'threshold', 'threshold'] * (r['eft'] != 'SMEFT')))
        if k == 'order' and r['secs'] is not None:
            r['secs'] = draw(st.permutations(r['secs']))
        elif k == 'threshold':      # intermediate steps of other requests: the coefficients at the matching scales
            t = draw(st.sampled_from([t for t in (('WET', 91.1876), ('WET', 4.2), ('WET-4', 4.2), ('WET-4', 1.3), ('WET-3', 1.3)) if t[0] in CHAIN[i:]]))
            r['eft'], r['scale'] = t
            r['basis'] = 'JMS'
            if r['secs'] is None and draw(st.booleans()):
                r['secs'] = draw(seclist(sorted(bases.sectors(r['eft'], 'JMS'))))
            if r['secs'] is not None:
                r['secs'] = [x for x in r['secs'] if x in bases.sectors(r['eft'], 'JMS')] or None
                q = dict(r, scale=draw(st.sampled_from(SCALES[r['eft']])), basis=draw(st.sampled_from(('JMS', 'flavio'))))
                if r['secs'] is None or set(r['secs']) <= set(bases.sectors(q['eft'], q['basis'])):
                    pool.append(q)
        if k == 'basis':
            r['basis'] = draw(st.sampled_from(OUTPUT[r['eft']]))
            if r['secs'] is not None and not set(r['secs']) <= set(bases.sectors(r['eft'], r['basis'])):
                r['secs'] = None
        elif k == 'sectors' and r['eft'] != 'SMEFT':
            r['secs'] = None if r['secs'] is not None and draw(st.booleans()) else draw(
                seclist([x for x in (s.get('secs') or []) if x in have] * 3 + sorted(bases.sectors(r['eft'], r['basis']))))
        elif k == 'scale':
            r['scale'] = draw(st.sampled_from(SCALES[r['eft']]))
        elif k == 'eft' and r['eft'] != 'SMEFT':
            efts = [x for x in CHAIN[i:] if r['basis'] in OUTPUT[x] and x != r['eft']]
            if efts:
                if r['scale'] > 5.1:
                    r['scale'] = draw(st.sampled_from([4.2, 2.0, 1.3]))
                    pool.append(dict(r))
                r['eft'] = draw(st.sampled_from(efts))
                if r['secs'] is not None and not set(r['secs']) <= set(bases.sectors(r['eft'], r['basis'])):
                    r['secs'] = None
        elif k == 'near':
            r['scale'] = r['scale'] * (1 + draw(st.sampled_from([1e-2, -1e-3, 1e-4, 2e-6, -1e-8, 1e-12])))
        pool.append(r)
    ops = [['opt', 0, 'smeft_accuracy', 'leadinglog']] if s['eft'] == 'SMEFT' else []
    if draw(st.integers(0, 2)) == 0:        # options that differ in one value only, the same request after each
        k = draw(st.sampled_from(['parameters', 'parameters', 'smeft_matchingscale', 'mb_matchingscale', 'mc_matchingscale']))
        ks = draw(st.lists(st.sampled_from(PARS), min_size=1, max_size=3, unique=True))
        v = {p: draw(physics.value(p)) for p in ks} if k == 'parameters' else draw(st.sampled_from(VALUES[k]))
        for _ in range(draw(st.integers(2, 4))):
            ops += [['opt', 0, k, copy.deepcopy(v)], ['run', 0, dict(r0)]]
            if draw(st.booleans()):
                ops.append(['run', 0, dict(draw(st.sampled_from(pool)))])
            f = 1 + draw(st.sampled_from([0.05, 1e-3, -1e-4, 0.0]))
            if k == 'parameters':
                v = dict(v)
                p = draw(st.sampled_from(ks))
                v[p] = v[p] * f
            else:
                v = v * f
        return {'objs': [s], 'ops': ops, 'plain': True}
    for r in draw(st.permutations(pool)) + draw(st.lists(st.sampled_from(pool), min_size=2, max_size=5)):
        if draw(st.integers(0, 9)) == 0:
            ops.append(['opt', 0] + draw(option().filter(lambda o: o[0] != 'smeft_accuracy')))
        ops.append(['run', 0, dict(r)])
    return {'objs': [s], 'ops': ops, 'plain': True}


@st.composite
def intermediate(draw):
    """requests for the results at the matching scales, which other requests pass through, with the same and with other sectors"""
    s = draw(specs(True, first=draw(st.integers(0, 2)) > 0))
    i = CHAIN.index(s['eft']) if s['eft'] in CHAIN else 0
    ops = [['opt', 0, 'smeft_accuracy', 'leadinglog']] if s['eft'] == 'SMEFT' else []
    mu = {'ew': 91.1876, 'mb': 4.2, 'mc': 1.3}
    for k, o in (('ew', 'smeft_matchingscale'), ('mb', 'mb_matchingscale'), ('mc', 'mc_matchingscale')):
        if draw(st.integers(0, 3)) == 0:
            mu[k] = draw(st.sampled_from(VALUES[o]))
            ops.append(['opt', 0, o, mu[k]])
    steps = [t for t in (('WET', mu['ew']), ('WET', mu['mb']), ('WET-4', mu['mb']), ('WET-4', mu['mc']), ('WET-3', mu['mc'])) if t[0] in CHAIN[i:]]
    secs = draw(seclist((s.get('secs') or []) * 3 + sorted(bases.sectors('WET', 'JMS'))))
    reqs = []
    for _ in range(draw(st.integers(2, 4))):
        if draw(st.integers(0, 2)):
            eft, scale = draw(st.sampled_from(steps))
            basis = 'JMS'
        else:
            eft = draw(st.sampled_from(CHAIN[i:]))
            scale, basis = draw(st.sampled_from(SCALES[eft])), draw(st.sampled_from(('JMS', 'flavio')))
        have = [x for x in secs if x in bases.sectors(eft, basis)]
        reqs.append({'eft': eft, 'scale': float(scale), 'basis': basis, 'secs': have if have and draw(st.integers(0, 3)) else None})
    for r in reqs + draw(st.lists(st.sampled_from(reqs), min_size=1, max_size=3)):
        ops.append(['run', 0, dict(r)])
    return {'objs': [s], 'ops': ops, 'plain': True}


def enumerated():
    """two or three requests that differ in exactly one of sectors, basis, scale: every route, every order"""
    out = []
    mid = {'WET': (80.0, 10.0), 'WET-4': (2.0, 3.0), 'WET-3': (1.5, 2.0)}
    inp = {'SMEFT': ({'lq1_2223': [1e-8, 2e-9], 'qq1_1323': [3e-8, 0.0], 'le_1112': [2e-8, 1e-9]}, 'Warsaw', 1000.0),
           'WET': ({'VedLL_2223': [1e-8, 2e-9], 'VddLL_2223': [2e-8, 0.0], 'VeeLL_1112': [3e-8, 1e-9], 'VedLL_2212': [2e-8, 1e-8]}, 'JMS', 160.0),
           'WET-4': ({'VedLL_2212': [1e-8, 2e-9], 'VeeLL_1112': [3e-8, 1e-9], 'VddLL_1222': [2e-8, 0.0]}, 'JMS', 4.2),
           'WET-3': ({'VedLL_2212': [1e-8, 2e-9], 'VeeLL_1112': [3e-8, 1e-9], 'VddLL_1222': [2e-8, 0.0]}, 'JMS', 1.3)}
    for a, (vals, basis, scale) in inp.items():
        for b in CHAIN[CHAIN.index(a):] if a in CHAIN else CHAIN:
            s = {'eft': a, 'basis': basis, 'scale': scale, 'ctor': 'init', 'C': {'kind': 'sparse', 'vals': vals}}
            one = 'sb' if a in ('SMEFT', 'WET') and b == 'WET' else 'sd'
            base = {'eft': b, 'scale': mid[b][0], 'basis': 'JMS', 'secs': None}
            A, B = dict(base, secs=[one]), dict(base, secs=['mue'])
            AB = dict(base, secs=[one, 'mue'])
            seqs = [[A, base], [base, A], [A, B, base], [A, AB], [AB, A, B], [base, dict(base, basis='flavio'), base],
                    [dict(A, basis='flavio'), A, base], [base, dict(base, scale=mid[b][1]), base], [dict(A, scale=mid[b][1]), base, A],
                    [base, dict(base, scale=mid[b][0] * (1 + 1e-11)), dict(base, scale=mid[b][0] * (1 - 1e-6)), base]]
            if b != 'WET':      # the steps in between
                up = CHAIN[CHAIN.index(b) - 1]
                if up in CHAIN[CHAIN.index(a) if a in CHAIN else 0:]:
                    mu = {'WET': 4.2, 'WET-4': 1.3}[up]
                    seqs += [[dict(base, eft=up, scale=mu, secs=[one]), base], [A, dict(base, eft=up, scale=mu)], [dict(A, eft=b, scale=mu), dict(base, eft=up, scale=mu)],
                             [dict(base, eft=up, scale=2.0), dict(base, eft=b, scale=2.0), dict(base, eft=up, scale=2.0)]]
            for q in seqs:
                ops = ([['opt', 0, 'smeft_accuracy', 'leadinglog']] if a == 'SMEFT' else []) + [['run', 0, dict(r)] for r in q]
                out.append({'objs': [s], 'ops': ops, 'plain': True})
    # input, matching and requested scales that nearly coincide: every step has to be made
    for a, opt, mu in (('SMEFT', 'smeft', 100.0), ('WET', 'mb', 4.5), ('WET-4', 'mc', 1.4), ('WET-3', None, 1.2)):
        s = {'eft': a, 'basis': inp[a][1], 'scale': mu, 'ctor': 'init', 'C': {'kind': 'sparse', 'vals': inp[a][0]}}
        lead = [['opt', 0, 'smeft_accuracy', 'leadinglog']] if a == 'SMEFT' else []
        for e in (5e-3, -1e-3, 1e-4, -1e-4):
            near = mu * (1 + e)
            q = {'eft': a, 'scale': near, 'basis': s['basis'], 'secs': None}
            out.append({'objs': [s], 'ops': lead + [['run', 0, q]], 'close': True})
            if opt:
                b = CHAIN[CHAIN.index(a) + 1] if a in CHAIN else 'WET'
                lead2 = lead + [['opt', 0, opt + '_matchingscale', near]]
                for x in (mu, near, near * (1 + e), mid[b][0]):
                    out.append({'objs': [s], 'ops': lead2 + [['run', 0, {'eft': b, 'scale': x, 'basis': 'JMS', 'secs': None}]], 'close': True})
    return out


@st.composite
def single(draw):
    s = draw(specs())
    o = copy.deepcopy(DEFAULTS)
    if s['eft'] == 'SMEFT' and draw(st.integers(0, 3)):
        o['smeft_accuracy'] = 'leadinglog'
    for _ in range(draw(st.integers(0, 3))):
        k, v = draw(option())
        if k != 'smeft_accuracy':
            o[k] = v
    if draw(st.integers(0, 7)) == 0:        # the thresholds may be in any order
        o['mb_matchingscale'], o['mc_matchingscale'] = draw(st.sampled_from([(1.6, 2.0), (2.0, 4.4), (1.5, 1.5)]))
    return {'s': s, 'o': o, 'r': draw(targets(s, True))}


def body_reference(c, ctx):
    """one request with some options, against the pinned copy (explicit chain there)"""
    s, o, r = c['s'], c['o'], c['r']
    if not direct(s, r):
        ctx.nontrivial(False)
        return
    w = create(s)
    for k, v in o.items():
        w.set_option(k, copy.deepcopy(v))
    out = request(w, r)
    judge(out, s, o, r, 'explicit chain')
    exp = expected(s, o, r, ref=True)
    ctx.nontrivial(bool(exp) and (s['eft'], s['scale']) != (r['eft'], r['scale']))
    ctx.label('%s to %s' % (s['eft'], r['eft']))
    agree({k: complex(v) for k, v in out.dict.items()}, exp, r, 'pinned copy', rtol=1e-5)
    # a second, equal object
    again = create(s)
    for k, v in reversed(list(o.items())):
        again.set_option(k, copy.deepcopy(v))
    x, y = out.dict, request(again, r).dict
    for k in set(x) | set(y):
        check(abs(x.get(k, 0) - y.get(k, 0)) <= 1e-12 * abs(x.get(k, 0)), lambda: 'an equal object returns %s for %s instead of %s' % (y.get(k), k, x.get(k)))


SUBS = [
    Sub('enumerated', None, body_history, 0, 0, rule='a target is requested repeatedly, or the scales nearly coincide; results are not empty', examples=enumerated),
    Sub('history', lambda: histories(smeft=False), body_history, 150, 6000, rule='a target is requested repeatedly, an option was changed, results are not empty'),
    Sub('smeft', lambda: histories(smeft=True, nops=6), body_history, 25, 1000, rule='a target is requested repeatedly, an option was changed, results are not empty'),
    Sub('neighbours', neighbours, body_history, 36, 2500, rule='a target is requested repeatedly, requests differ in one attribute, results are not empty'),
    Sub('neighboursw', lambda: neighbours(smeft=False), body_history, 100, 4000, rule='a target is requested repeatedly, requests differ in one attribute, results are not empty'),
    Sub('intermediate', intermediate, body_history, 36, 2500, rule='a target is requested repeatedly, results are not empty'),
    Sub('single', single, body_reference, 60, 3000, rule='something is run or matched and the result is not empty'),
]
