"""C18: options are validated, isolated per object and take effect."""
import copy
import json
import math
import warnings

from hypothesis import strategies as st

from harness import Sub, check, HarnessError, Violation
import bases
import gen
import physics
from checks import c17
from checks.c17 import DEFAULTS

NEEDS_REF = False
ASSUMPTIONS = ['whether editing a dictionary returned by get_option changes that object itself is left open; no other object may change']
SCALE = ('smeft_matchingscale', 'mb_matchingscale', 'mc_matchingscale')
PARAMS = ('m_W', 'm_Z', 'm_h', 'GF', 'alpha_e', 'alpha_s', 'Vus', 'Vub', 'Vcb', 'gamma', 'm_b', 'm_s', 'm_c', 'm_u', 'm_d', 'm_e', 'm_mu', 'm_tau')


def lib():
    import wilson
    from wilson import parameters
    return wilson.Wilson, parameters


# values: JSON, so that a list is marked as such
@st.composite
def valid(draw, key=None):
    key = key or draw(st.sampled_from(sorted(DEFAULTS) + ['parameters'] * 3))
    if key == 'smeft_accuracy':
        return [key, draw(st.sampled_from(['integrate', 'leadinglog']))]
    if key.endswith('_order'):
        return [key, draw(st.sampled_from([0, 1]))]
    if key in SCALE:
        return [key, draw(st.one_of(st.floats(1.0, 1000.0), st.integers(1, 500), st.sampled_from([4.2, 1.3, 91.1876, '80.5', '5'])))]
    ks = draw(st.lists(st.sampled_from(PARAMS + ('delta', 'gamma', 'delta', 'my_parameter')), max_size=5, unique=True))
    return [key, {k: draw(st.one_of(st.floats(0.001, 2.0), st.integers(0, 3), st.sampled_from(['0.3', '1e-3']))) for k in ks}]


@st.composite
def invalid(draw):
    kind = draw(st.integers(0, 3))
    if kind == 0:
        return [draw(st.sampled_from(['', 'qed', 'QED_order', 'parameter', 'smeft_matching_scale', 'mb_matchingscale ', 'delta', 'gamma'])), draw(st.sampled_from([0, 1, 4.2, {}]))]
    key = draw(st.sampled_from(sorted(DEFAULTS)))
    if key == 'smeft_accuracy':
        v = draw(st.sampled_from(['', 'Integrate', 'leading log', 'leadinglog ', None, 1, 0, ['integrate']]))
    elif key.endswith('_order'):
        v = draw(st.sampled_from([2, -1, 'LO', '1', '0', None, 0.5, [1], {}]))
    elif key in SCALE:
        v = draw(st.sampled_from(['', 'm_b', '4,2', None, [4.2], {}, {'m_b': 4.2}]))
    else:
        v = draw(st.sampled_from([None, 3, 1.5, 'gamma', 'delta', ['gamma'], ['delta'], [], {'m_b': 'x'}, {'m_b': None}, {'m_b': [4.2]}, {'m_b': {}},
                                  {'m_c': 1.2, 'm_b': ''}, {'delta': 'x'}, {'delta': None, 'm_b': 4.0}]))
    return [key, v]


def norm(key, v):
    """the value that reading the option returns"""
    if key in SCALE:
        return float(v)
    if key == 'parameters':
        d = {k: float(x) for k, x in v.items() if k != 'delta'}
        if 'delta' in v:
            d['gamma'] = float(v['delta'])
        return d
    return v


@st.composite
def wcs(draw):
    eft, basis = draw(st.sampled_from([('WET', 'JMS'), ('WET', 'flavio'), ('SMEFT', 'Warsaw'), ('WET-3', 'JMS')]))
    names = sorted(bases.names(eft, basis))
    ks = draw(st.lists(st.sampled_from(names), max_size=3, unique=True))
    return {'eft': eft, 'basis': basis, 'scale': draw(st.sampled_from([1000.0, 91.1876, 4.2])), 'vals': {k: draw(st.sampled_from([1e-8, -2e-9, 0.5])) for k in ks}}


@st.composite
def histories(draw):
    ops = []
    n = draw(st.integers(3, 14))
    for _ in range(n):
        k = draw(st.sampled_from(['new', 'set', 'set', 'set', 'set', 'bad', 'default', 'default', 'baddefault', 'copy', 'rewrite', 'edit', 'edit']))
        i = draw(st.integers(0, 3))
        if k == 'new':
            ops.append([k, draw(wcs())])
        elif k in ('set', 'default'):
            ops.append([k, i] + draw(valid()) + [draw(st.booleans())])
        elif k in ('bad', 'baddefault'):
            ops.append([k, i] + draw(invalid()))
        else:
            ops.append([k, i])
    return {'first': draw(wcs()), 'ops': ops}


def make(w):
    return lib()[0](dict(w['vals']), w['scale'], w['eft'], w['basis'])


def reset():
    W = lib()[0]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for k, v in DEFAULTS.items():
            W.set_default_option(k, copy.deepcopy(v))


def equal(a, b):
    return a == b and (not isinstance(b, float) or isinstance(a, float))


def inspect(objs, p0, step):
    W, parameters = lib()
    check(parameters.p == p0, lambda: '%s: the default parameters changed' % step)
    for n, o in enumerate(objs):
        w, model = o['w'], o['opt']
        for k, v in model.items():
            got = w.get_option(k)
            check(equal(got, v), lambda: '%s: option %s of object %d is %r, expected %r' % (step, k, n, got, v))
            if k == 'parameters':
                for x in got.values():
                    check(isinstance(x, float), lambda: '%s: parameter of object %d is %r' % (step, n, x))
        p = dict(p0, **model['parameters'])
        check(dict(w.parameters) == p, lambda: '%s: parameters of object %d: %s' % (step, n, {k: (w.parameters.get(k), p.get(k)) for k in set(p) | set(w.parameters)
                                                                                           if w.parameters.get(k) != p.get(k)}))
        mp = dict(w.matching_parameters)
        check(mp == dict(p, loop_order=model['smeft_matching_order']), lambda: '%s: matching parameters of object %d' % (step, n))
    # hash: different for different coefficients or option values (objects are identified with each other only if they are identical)
    for a in range(len(objs)):
        for b in range(a):
            A, B = objs[a], objs[b]
            same = A['wc'] == B['wc'] and A['opt'] == B['opt']
            h = hash(A['w']) == hash(B['w'])
            check(same or not h, lambda: '%s: objects %d and %d have equal hashes, but different coefficients or options' % (step, b, a))


def body_history(c, ctx):
    W, parameters = lib()
    p0 = dict(parameters.p)
    reset()
    defaults = copy.deepcopy(DEFAULTS)
    objs = []
    past = {}

    def new(wc):
        if len(objs) < 4:
            objs.append({'w': make(wc), 'wc': wc, 'opt': copy.deepcopy(defaults)})
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            new(c['first'])
            inspect(objs, p0, 'new object')
            sets = 0
            for n, op in enumerate(c['ops']):
                step = 'step %d %s' % (n + 1, op)
                o = objs[op[1] % len(objs)] if op[0] != 'new' else None
                if op[0] == 'new':
                    new(op[1])
                elif op[0] == 'copy':       # an equal object: the same options, set in a different order
                    if len(objs) < 4:
                        w = make(o['wc'])
                        for k in sorted(o['opt'], reverse=True):
                            w.set_option(k, copy.deepcopy(o['opt'][k]))
                        objs.append({'w': w, 'wc': o['wc'], 'opt': copy.deepcopy(o['opt'])})
                elif op[0] == 'rewrite':    # every option set to the value it has
                    for k in sorted(o['opt']):
                        o['w'].set_option(k, copy.deepcopy(o['opt'][k]))
                elif op[0] == 'edit':       # what an object returns is edited: no other object and no default may change
                    o['w'].parameters['m_b'] = -1.0
                    o['w'].matching_parameters['m_c'] = -1.0
                    d = o['w'].get_option('parameters')
                    d['m_tau'] = 55.0 + n
                    d.pop('Vcb', None)
                    o['opt']['parameters'] = dict(o['w'].get_option('parameters'))
                elif op[0] in ('set', 'default'):
                    k, v = op[2], copy.deepcopy(op[3])
                    keep = copy.deepcopy(v)
                    if op[0] == 'set':
                        o['w'].set_option(k, v)
                        o['opt'][k] = norm(k, keep)
                        sets += 1
                    else:
                        (o['w'] if op[4] else W).set_default_option(k, v)
                        defaults[k] = norm(k, keep)
                    check(v == keep and repr(v) == repr(keep), lambda: '%s: the dictionary of the user was modified: %r' % (step, v))
                    if op[4] and isinstance(v, dict):        # the user goes on to use the dictionary
                        v['m_b'] = 77.0
                        v.pop('Vus', None)
                else:
                    f = o['w'].set_option if op[0] == 'bad' else W.set_default_option
                    v = copy.deepcopy(op[3])
                    try:
                        f(op[2], v)
                    except Exception:
                        check(v == op[3], lambda: '%s: the argument was modified: %r' % (step, v))
                    else:
                        raise Violation('%s was accepted' % step)
                inspect(objs, p0, step)
                for m, x in enumerate(objs):
                    key = json.dumps(x['opt'], sort_keys=True)
                    h = hash(x['w'])
                    seen = past.setdefault(m, {})
                    check(seen.setdefault(key, h) == h, lambda: '%s: the hash of object %d changed, but not its options' % (step, m))
                    check(len(set(seen.values())) == len(seen), lambda: '%s: object %d has the same hash as with other options' % (step, m))
            ctx.nontrivial(sets and len(objs) > 1)
            for k in ('foo', 'qed', ''):
                try:
                    objs[0]['w'].get_option(k)
                except Exception:
                    continue
                raise Violation('get_option(%r) was accepted' % k)
    finally:
        reset()


def body_own(c, ctx):
    """another configurable class: nothing is shared with Wilson"""
    from wilson.classes import ConfigurableClass
    import voluptuous as vol
    W = lib()[0]
    reset()

    class Mine(ConfigurableClass):
        _default_options = {'a': 1, 'qed_order': 7}
        _option_schema = vol.Schema({'a': int, 'qed_order': vol.In([7, 8])})

        def clear_cache(self):
            self.cleared = True
    w = make(c['first'])
    x = Mine()
    Mine.set_default_option('a', c['a'])
    y = Mine()
    y.set_option('qed_order', 8)
    ctx.nontrivial(c['a'] != 1)
    check(getattr(y, 'cleared', False), 'the cache was not cleared')
    check((x.get_option('a'), y.get_option('a'), x.get_option('qed_order'), y.get_option('qed_order')) == (1, c['a'], 7, 8),
          lambda: 'options of another class: %s' % ([(o.get_option('a'), o.get_option('qed_order')) for o in (x, y)],))
    check(Mine().get_option('qed_order') == 7, 'an option of one object is the default of another')
    for o in (w, make(c['first'])):
        for k, v in DEFAULTS.items():
            check(o.get_option(k) == v, lambda: 'option %s of Wilson became %r' % (k, o.get_option(k)))
    refused = 0
    for f in (lambda: y.set_option('smeft_accuracy', 'integrate'), lambda: Mine.set_default_option('qed_order', 1), lambda: w.set_option('a', 1), lambda: w.set_option('qed_order', 7)):
        try:
            f()
        except Exception:
            refused += 1
    check(refused == 4, 'an option of another class was accepted')


# effects -----------------------------------------------------------------------------------------------------------------------
# (option, value), input, request: the result depends on the option
WETC = {'VddLL_2323': 1e-8, 'V1ddLR_2323': 1e-8, 'SedRR_2223': 1e-8, 'TedRR_2223': 1e-8, 'S1udRR_1113': 1e-8, 'VedLL_2223': 1e-8, 'S1ddRR_1212': 1e-8,
        'dgamma_23': 1e-8, 'VuddLL' if 0 else 'S1udRR_1112': 1e-8, 'VddRR_1212': 1e-8, 'TeuRR_1111': 1e-8, 'TedRR_3322': 1e-8, 'VnueduLL_1121': 1e-8}
SMC = {'lq1_2223': 1e-8, 'qd1_2323': 1e-8, 'uG_33': 1e-8, 'phil1_11': 1e-8, 'G': 1e-8, 'phiq3_33': 1e-8, 'ledq_2223': 1e-8}
EFFECTS = [
    ('qed_order', 0, 'WET', ('WET', 'JMS', 4.2)), ('qcd_order', 0, 'WET', ('WET', 'JMS', 4.2)),
    ('qed_order', 0, 'WET', ('WET-3', 'flavio', 1.3)), ('qcd_order', 0, 'WET', ('WET-4', 'flavio', 2.0)),
    ('qcd_order', 0, 'SMEFT', ('WET', 'JMS', 4.2)), ('qed_order', 0, 'SMEFT', ('WET', 'flavio', 4.2)),
    ('mb_matchingscale', 5.5, 'WET', ('WET-4', 'JMS', 2.0)), ('mb_matchingscale', 5.5, 'WET', ('WET-3', 'JMS', 2.0)),
    ('mc_matchingscale', 1.7, 'WET', ('WET-3', 'JMS', 2.0)), ('mc_matchingscale', 1.7, 'WET-4', ('WET-3', 'flavio', 2.0)),
    ('parameters', {'alpha_s': 0.125}, 'WET', ('WET', 'JMS', 4.2)), ('parameters', {'alpha_s': 0.125}, 'WET', ('WET-3', 'JMS', 1.3)),
    ('parameters', {'alpha_e': 0.02}, 'WET', ('WET', 'JMS', 4.2)), ('parameters', {'alpha_e': 0.02}, 'WET-4', ('WET-3', 'JMS', 1.3)),
    ('parameters', {'Vub': 0.01}, 'WET', ('WET', 'flavio', 160.0)), ('parameters', {'delta': 0.5}, 'WET', ('WET', 'flavio', 4.2)),
    ('parameters', {'gamma': 0.5}, 'WET', ('WET', 'flavio', 160.0)), ('parameters', {'m_b': 4.5}, 'WET', ('WET', 'flavio', 4.2)),
    ('parameters', {'GF': 1.2e-5}, 'WET', ('WET', 'flavio', 4.2)), ('parameters', {'m_tau': 1.6}, 'WET', ('WET', 'JMS', 4.8)),
    ('parameters', {'GF': 1.2e-5}, 'WET-4', ('WET-3', 'flavio', 1.3)), ('parameters', {'Vub': 0.01}, 'SMEFT', ('WET', 'flavio', 4.2)),
    ('smeft_accuracy', 'integrate', 'SMEFT', ('SMEFT', 'Warsaw', 91.1876)), ('smeft_accuracy', 'integrate', 'SMEFT', ('WET', 'JMS', 91.1876)),
    ('smeft_matchingscale', 160.0, 'SMEFT', ('WET', 'JMS', 91.1876)), ('smeft_matchingscale', 160.0, 'SMEFT', ('WET', 'flavio', 160.0)),
    ('smeft_matching_order', 1, 'SMEFT', ('WET', 'JMS', 91.1876)), ('smeft_matching_order', 1, 'SMEFT', ('WET', 'flavio', 4.2)),
    # coefficients given at the matching scale, and in other bases
    ('smeft_matching_order', 1, 'SMEFT ew', ('WET', 'JMS', 91.1876)), ('smeft_matching_order', 1, 'SMEFT ew', ('WET', 'flavio', 4.2)),
    ('smeft_matching_order', 1, 'SMEFT up', ('WET', 'flavio', 91.1876)), ('parameters', {'Vub': 0.01}, 'SMEFT ew', ('WET', 'flavio', 91.1876)),
    ('parameters', {'Vub': 0.01}, 'SMEFT up', ('SMEFT', 'Warsaw', 91.1876)), ('parameters', {'Vub': 0.01}, 'SMEFT ew', ('SMEFT', 'Warsaw up', 91.1876)),
    ('parameters', {'gamma': 0.5}, 'SMEFT ew', ('SMEFT', 'Warsaw up', 1000.0)), ('parameters', {'gamma': 0.5}, 'SMEFT up', ('SMEFT', 'Warsaw', 1000.0)),
    ('qcd_order', 0, 'SMEFT ew', ('WET', 'JMS', 4.2)), ('smeft_matchingscale', 160.0, 'SMEFT ew', ('WET', 'JMS', 91.1876)),
    ('mb_matchingscale', 5.5, 'SMEFT ew', ('WET-3', 'JMS', 2.0)), ('mc_matchingscale', 1.7, 'SMEFT ew', ('WET-3', 'JMS', 2.0)),
]
START = {'WET': ('JMS', 160.0, WETC), 'WET-4': ('JMS', 4.2, WETC), 'SMEFT': ('Warsaw', 1000.0, SMC),
         'SMEFT ew': ('Warsaw', 91.1876, SMC), 'SMEFT up': ('Warsaw up', 91.1876, SMC)}


def body_effect(c, ctx):
    """an option has an effect, the same one as setting the default before"""
    W = lib()[0]
    key, v, eft, target = EFFECTS[c['n']]
    basis, scale, C = START[eft]
    eft = eft.split()[0]
    names = bases.names(eft, basis)
    d = {k: x * c['x'] for k, x in C.items() if k in names}
    t = (target[2], target[0], target[1])
    reset()
    ctx.label(key)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            base = {} if eft != 'SMEFT' or key == 'smeft_accuracy' else {'smeft_accuracy': 'leadinglog'}
            if key == 'smeft_accuracy':
                base = {'smeft_accuracy': 'leadinglog'}
            a = W(dict(d), scale, eft, basis)
            for k, x in base.items():
                a.set_option(k, x)
            before = dict(a.match_run(*t).dict)
            a.set_option(key, copy.deepcopy(v))
            after = dict(a.match_run(*t).dict)
            big = max(abs(x) for x in before.values())
            diff = max(abs(before.get(k, 0) - after.get(k, 0)) for k in set(before) | set(after))
            check(diff > 1e-6 * big, lambda: 'option %s = %s has no effect on the request %s' % (key, v, t))
            for k, x in base.items():
                W.set_default_option(k, x)
            W.set_default_option(key, copy.deepcopy(v))
            b = dict(W(dict(d), scale, eft, basis).match_run(*t).dict)
            for k in set(b) | set(after):
                check(abs(b.get(k, 0) - after.get(k, 0)) <= 1e-10 * abs(after.get(k, 0)) + 1e-13 * big,
                      lambda: 'option %s set as default: %s is %s, set for the object: %s' % (key, k, b.get(k, 0), after.get(k, 0)))
            # changed back
            a.set_option(key, copy.deepcopy(base.get(key, DEFAULTS[key])))
            again = dict(a.match_run(*t).dict)
            for k in set(before) | set(again):
                check(abs(before.get(k, 0) - again.get(k, 0)) <= 1e-10 * abs(before.get(k, 0)) + 1e-13 * big,
                      lambda: 'option %s changed and changed back: %s is %s, before %s' % (key, k, again.get(k, 0), before.get(k, 0)))
    finally:
        reset()


@st.composite
def sequences(draw):
    """one object, the values of one option one after the other"""
    n = draw(st.sampled_from([i for i, e in enumerate(EFFECTS) if e[0] != 'smeft_accuracy' and (e[2][:5] != 'SMEFT' or not draw(st.integers(0, 3)))]))
    key, v = EFFECTS[n][:2]
    vs = [v]
    for _ in range(draw(st.integers(1, 3))):
        if key.endswith('_order'):
            vs.append(1 - vs[-1])
        elif key in SCALE:
            vs.append(vs[-1] * (1 + draw(st.sampled_from([0.1, -0.03, 1e-3, 1e-5]))))
        else:
            d = dict(vs[-1])
            how = draw(st.sampled_from(['value', 'value', 'value', 'add', 'swap', 'empty'])) if d else 'add'
            k = draw(st.sampled_from(sorted(d))) if d else ''
            if how == 'value':
                d[k] *= 1 + draw(st.sampled_from([0.1, -0.03, 1e-3, 1e-5] if k != 'alpha_s' or d[k] < 0.118 else [-0.1, -0.03, 1e-3, 1e-5]))
            elif how == 'add':
                p = draw(st.sampled_from(('m_b', 'alpha_s', 'Vcb', 'gamma') if 'delta' not in d else ('m_b', 'alpha_s', 'Vcb')))
                d[p] = draw(physics.value(p))
            elif how == 'swap':
                d = {'m_b': 4.1, 'Vus': 0.22} if draw(st.booleans()) else {'alpha_e': draw(physics.value('alpha_e'))}
            else:
                d = {}
            vs.append(d)
    if draw(st.booleans()):
        vs.append(copy.deepcopy(vs[0]))
    return {'n': n, 'vs': vs}


def body_sequence(c, ctx):
    """after any sequence of values the results are those of a fresh object with the last value"""
    W = lib()[0]
    key, _, eft, target = EFFECTS[c['n']]
    basis, scale, C = START[eft]
    eft = eft.split()[0]
    names = bases.names(eft, basis)
    t = (target[2], target[0], target[1])
    reset()
    ctx.label(key)
    ctx.nontrivial(any(a != b for a, b in zip(c['vs'], c['vs'][1:])))

    def fresh():
        w = W({k: x for k, x in C.items() if k in names}, scale, eft, basis)
        if eft == 'SMEFT':
            w.set_option('smeft_accuracy', 'leadinglog')
        return w
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        a = fresh()
        for n, v in enumerate(c['vs']):
            a.set_option(key, copy.deepcopy(v))
            x = a.match_run(*t).dict
            b = fresh()
            b.set_option(key, copy.deepcopy(v))
            y = b.match_run(*t).dict
            big = max(abs(z) for z in y.values())
            for k in set(x) | set(y):
                check(abs(x.get(k, 0) - y.get(k, 0)) <= 1e-11 * abs(y.get(k, 0)) + 1e-14 * big, lambda: 'option %s set to %s after %s: %s is %s instead of %s' % (
                    key, v, c['vs'][:n], k, x.get(k, 0), y.get(k, 0)))


# everywhere ---------------------------------------------------------------------------------------------------------------------
def branches():
    """every way through the library: start, target"""
    out = []
    for b in ('JMS', 'flavio', 'Bern'):
        for e, mus in (('WET', (160.0, 4.2)), ('WET-4', (4.2, 2.0, 1.3)), ('WET-3', (2.0, 1.3, 1.0))):
            for mu in mus:
                out.append((('WET', b, 160.0 if b != 'Bern' else 80.0), (e, ('flavio', 'JMS', 'Bern')[len(out) % 3], mu)))
        for mu in (2.0, 1.0):
            out.append((('WET-4', b, 4.2), ('WET-3', ('flavio', 'JMS', 'Bern')[len(out) % 3], mu)))
        out.append((('WET-4', b, 4.2), ('WET-4', ('flavio', 'JMS', 'Bern')[len(out) % 3], 2.0)))
        out.append((('WET-3', b, 2.0), ('WET-3', ('flavio', 'JMS', 'Bern')[len(out) % 3], 1.3)))
    return out


def branches_sm():
    out = []
    for b in ('Warsaw', 'Warsaw up', 'Higgs-Warsaw up'):
        for mu in (91.1876, 1000.0):
            out.append((('SMEFT', b, mu), ('WET', ('flavio', 'JMS', 'EOS', 'Bern')[len(out) % 4], 91.1876)))
            out.append((('SMEFT', b, mu), ('WET-3', ('flavio', 'JMS', 'Bern')[len(out) % 3], 1.3)))
            out.append((('SMEFT', b, mu), ('WET-4', ('flavio', 'JMS', 'Bern')[len(out) % 3], 2.0)))
        out.append((('SMEFT', b, 1000.0), ('SMEFT', ('Warsaw up', 'Higgs-Warsaw up', 'Warsaw')[len(out) % 3], 200.0)))
        out.append((('SMEFT', b, 1000.0), ('SMEFT', ('Warsaw mass', 'Warsaw up')[len(out) % 2], 200.0)))
    return out


@st.composite
def applied(draw, which, first):
    a, t = draw(st.sampled_from(which))
    s = {'eft': a[0], 'basis': a[1], 'scale': a[2], 'ctor': 'init'}
    if a[0] == 'SMEFT':
        s['C'] = draw(gen.wcset(a[0], a[1], exp=-8, max_size=6, families=False))
    else:
        secs = sorted(x for x, c in bases.sectors(a[0], a[1]).items() if c and x in bases.sectors(t[0], t[1]) and bases.sectors(t[0], t[1])[x])
        pick = draw(st.lists(st.sampled_from(secs), min_size=1, max_size=4, unique=True))
        s['secs'] = pick
        s['C'] = draw(gen.wcset(a[0], a[1], secs=pick, exp=0, max_size=8))
    o = copy.deepcopy(c17.DEFAULTS)
    if a[0] == 'SMEFT' and draw(st.integers(0, 5)):
        o['smeft_accuracy'] = 'leadinglog'
    ks = [k for k in first if draw(st.integers(0, 2)) == 0]
    for k in ks or [draw(st.sampled_from(first))]:
        if k == 'parameters':
            o[k] = {p: physics.DEFAULT[p] * (1 + draw(st.sampled_from([0.08, -0.06, 0.03])))
                    for p in draw(st.lists(st.sampled_from(c17.PARS), min_size=3, max_size=len(c17.PARS), unique=True))}
        elif k.endswith('_order'):
            o[k] = 1 - o[k]
        elif k in SCALE:
            o[k] = o[k] * (1 + draw(st.sampled_from([0.1, -0.05])))
    return {'s': s, 'o': o, 'r': {'eft': t[0], 'basis': t[1], 'scale': t[2], 'secs': None}}


def body_applied(c, ctx):
    """an option has the effect it has on the single steps, whichever way the request takes"""
    s, o, r = c['s'], c['o'], c['r']
    if not c17.direct(s, r):
        ctx.nontrivial(False)
        return
    reset()
    w = c17.create(s)
    for k, v in o.items():
        w.set_option(k, copy.deepcopy(v))
    out = c17.request(w, r)
    c17.judge(out, s, o, r, 'explicit chain with these options')
    base = c17.expected(s, dict(copy.deepcopy(c17.DEFAULTS), smeft_accuracy=o['smeft_accuracy']), r)
    exp = c17.expected(s, o, r)
    ctx.nontrivial(any(abs(exp.get(k, 0) - base.get(k, 0)) > 1e-6 * abs(base.get(k, 0)) for k in set(exp) | set(base)))
    ctx.label('%s to %s' % (s['eft'], r['eft']))


SUBS = [
    Sub('history', histories, body_history, 500, 20000, rule='an option was set and there are several objects'),
    Sub('own', lambda: st.fixed_dictionaries({'first': wcs(), 'a': st.integers(-5, 5)}), body_own, 20, 200, rule='the default is changed'),
    Sub('sequence', sequences, body_sequence, 30, 1500, rule='the value changes'),
    Sub('applied', lambda: applied(branches(), ('parameters', 'qed_order', 'qcd_order', 'mb_matchingscale', 'mc_matchingscale')), body_applied, 120, 4000,
        rule='the result differs from the one with the default options'),
    Sub('appliedsm', lambda: applied(branches_sm(), ('parameters', 'parameters', 'qed_order', 'qcd_order', 'smeft_matchingscale', 'smeft_matching_order')), body_applied, 28, 1500,
        rule='the result differs from the one with the default options'),
    Sub('effect', None, body_effect, 0, 0, rule='always', examples=lambda: [{'n': n, 'x': x} for n in range(len(EFFECTS)) if EFFECTS[n][2][:5] != 'SMEFT' for x in (1.0, -3.0)]),
    Sub('effectsm', None, body_effect, 0, 0, rule='always', examples=lambda: [{'n': n, 'x': 1.0} for n in range(len(EFFECTS)) if EFFECTS[n][2][:5] == 'SMEFT']),
]
