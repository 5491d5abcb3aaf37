"""C03: EFT and basis registries, inheritance and validation are consistent."""
import copy
import glob
import json
import os
import re

from hypothesis import strategies as st

from harness import Sub, check, Violation
import bases
import gen

EFTS = ['E1', 'E2', 'E']
BASES = ['A', 'B', 'C', 'D']
SECS = ['s1', 's2', 's3', 's4']
WCS = ['w1', 'w2', 'w3', 'w4', 'w5', 'w6', 'w7', 'w8']

secdef = st.dictionaries(st.sampled_from(SECS), st.dictionaries(st.sampled_from(WCS), st.sampled_from([None, {}, {'real': True}, {'tex': 'x'}]), max_size=3), max_size=3)
esec = st.dictionaries(st.sampled_from(SECS), st.sampled_from([None, {}, {'desc': 'x'}]), max_size=4)


@st.composite
def hist(draw):
    """histories that mostly refer to names that are defined at that point"""
    have = {'EFT': [], 'Basis': [], 'Translator': [], 'Matcher': []}
    out = []

    def pick(kind, fresh):
        if have[kind] and draw(st.integers(0, 9)) < 8:
            return draw(st.sampled_from(have[kind]))
        return draw(fresh)
    e, b = st.sampled_from(EFTS), st.sampled_from(BASES)
    eb = st.tuples(e, b)
    for _ in range(draw(st.integers(2, 30))):
        k = draw(st.sampled_from(['EFT', 'Basis', 'Basis', 'Basis', 'Child', 'Child', 'Child', 'Translator', 'Translator', 'Matcher', 'Matcher', 'Del', 'Del',
                                  'Validate', 'Validate'] + (['Clear'] if len(out) > 5 else [])))
        if k == 'EFT':
            o = ['EFT', draw(e), draw(esec)]
            key = o[1]
        elif k == 'Basis':
            x = pick('EFT', e)
            o = ['Basis', x, draw(b), draw(secdef)]
            key = (o[1], o[2])
        elif k == 'Child':
            x, par = pick('Basis', eb)
            o = ['Child', x, draw(b), par, draw(secdef)]
            k, key = 'Basis', (x, o[2])
        elif k == 'Translator':
            x, f = pick('Basis', eb)
            o = ['Translator', x, f, draw(b)]
            key = (x, f, o[3])
        elif k == 'Matcher':
            o = ['Matcher', *draw(eb), *draw(eb)]
            key = tuple(o[1:])
        elif k == 'Del':
            n = draw(st.sampled_from(sorted(have)))
            fresh = {'EFT': e, 'Basis': eb, 'Translator': st.tuples(e, b, b), 'Matcher': st.tuples(e, b, e, b)}[n]
            key = pick(n, fresh)
            o = ['Del', n, key if n == 'EFT' else list(key)]
            if key in have[n]:
                have[n].remove(key)
            out.append(o)
            continue
        elif k == 'Clear':
            n = draw(st.sampled_from(sorted(have)))
            have[n].clear()
            out.append(['Clear', n])
            continue
        else:
            x, y = pick('Basis', eb)
            out.append(['ValidateBasis', x, y])
            continue
        if key not in have[k]:
            have[k].append(key)
        out.append(o)
    return {'ops': out}


def find(cls, key):
    try:
        return cls[key]
    except (KeyError, AttributeError):
        return None


def body_history(c, ctx):
    from wilson import wcxf
    M = {n: {} for n in ('EFT', 'Basis', 'Translator', 'Matcher')}      # model: key -> (object, data)
    C = {n: getattr(wcxf, n) for n in M}
    flip = 0
    saved = {n: dict(C[n].instances) if hasattr(C[n], 'instances') else {} for n in C}
    for n in C:
        C[n].clear_all()
    poisoned = set()        # names of definitions that were rejected: unspecified afterwards
    nlook = 0
    try:
        for op in c['ops']:
            k = op[0]
            flip += 1
            if k == 'EFT':
                o = wcxf.EFT(op[1], copy.deepcopy(op[2]))
                M['EFT'][op[1]] = (o, op[2])
            elif k == 'Basis':
                o = wcxf.Basis(op[1], op[2], copy.deepcopy(op[3]))
                M['Basis'][op[1], op[2]] = (o, op[3])
                poisoned.discard((op[1], op[2]))
            elif k == 'Child':
                _, e, b, par, sec = op
                if (e, par) in poisoned or b == par:
                    continue
                before = {q: copy.deepcopy(o.sectors) for q, (o, d) in M['Basis'].items() if q not in poisoned}
                try:
                    o = wcxf.Basis(e, b, copy.deepcopy(sec), parent=par)
                except ValueError:
                    check((e, par) not in M['Basis'], 'defining a child of the existing basis %r failed' % ((e, par),))
                    M['Basis'].pop((e, b), None)
                    poisoned.add((e, b))
                    ctx.label('missing parent')
                    continue
                check((e, par) in M['Basis'], lambda: 'the parent basis %r does not exist, but the child was defined' % ((e, par),))
                exp = copy.deepcopy(M['Basis'][e, par][1])
                exp.update(copy.deepcopy(sec))
                check(o.sectors == exp, lambda: 'child has sectors %r, expected %r' % (o.sectors, exp))
                check(o.parent == par and o.basis == b and o.eft == e, 'child labels')
                for q, s in before.items():
                    if q != (e, b):
                        check(M['Basis'][q][0].sectors == s, lambda: 'defining a child changed basis %r to %r' % (q, M['Basis'][q][0].sectors))
                M['Basis'][e, b] = (o, exp)
                poisoned.discard((e, b))
                ctx.label('child')
            elif k == 'Translator':
                fn = (lambda tag: lambda d, s, p, sectors=None: tag)(object())
                key = (op[1], op[2], op[3])
                if flip % 2:
                    o = wcxf.Translator(*key, fn)
                else:
                    check(wcxf.translator(*key)(fn) is fn, 'the decorator does not return the function')
                    o = wcxf.Translator[key]
                check(o.function is fn, 'the translator does not hold the function it was defined with')
                M['Translator'][key] = (o, fn)
            elif k == 'Matcher':
                fn = (lambda tag: lambda d, s, p: tag)(object())
                key = (op[1], op[2], op[3], op[4])
                if flip % 2:
                    o = wcxf.Matcher(*key, fn)
                else:
                    check(wcxf.matcher(*key)(fn) is fn, 'the decorator does not return the function')
                    o = wcxf.Matcher[key]
                check(o.function is fn, 'the matcher does not hold the function it was defined with')
                M['Matcher'][key] = (o, fn)
            elif k == 'Del':
                n = op[1]
                key = op[2] if n == 'EFT' else tuple(op[2])
                if key in poisoned:
                    continue
                how = flip % 2
                try:
                    if how:
                        del C[n][key]
                    else:
                        C[n].del_instance(key)
                except (KeyError, AttributeError):
                    check(key not in M[n], lambda: 'deleting the existing %s %r failed' % (n, key))
                    continue
                check(key in M[n], lambda: 'deleting the undefined %s %r succeeded' % (n, key))
                del M[n][key]
                ctx.label('deleted')
            elif k == 'Clear':
                C[op[1]].clear_all()
                M[op[1]].clear()
                if op[1] == 'Basis':
                    poisoned.clear()
            elif k == 'ValidateBasis':
                e, b = op[1], op[2]
                if (e, b) in M['Basis']:
                    o, sec = M['Basis'][e, b]
                    allw = [w for s in sec.values() for w in s]
                    ok = e in M['EFT'] and set(sec) <= set(M['EFT'][e][1]) and len(allw) == len(set(allw))
                    try:
                        o.validate()
                        got = True
                    except ValueError:
                        got = False
                    ctx.label('basis valid' if ok else 'basis invalid')
                    check(got == ok, lambda: 'basis validation %s sectors %r (EFT sectors %r)' % (
                        'accepts' if got else 'rejects', sec, M['EFT'].get(e, (None, None))[1]))
            elif k == 'List':
                pass
            # lookups and listings after every step
            nlook += 1
            for e in EFTS:
                got = find(wcxf.EFT, e)
                check(got is (M['EFT'][e][0] if e in M['EFT'] else None), lambda: 'looking up EFT %r gives %r' % (e, got))
                if e in M['EFT']:
                    o, sec = M['EFT'][e]
                    check(o.sectors == sec and o.eft == e, 'EFT content changed')
                    kb = [b for b in o.known_bases if (e, b) not in poisoned]
                    exp = sorted(b for (x, b) in M['Basis'] if x == e)
                    check(sorted(kb) == exp, lambda: 'known bases of %s: %r, expected %r' % (e, kb, exp))
                    kt = o.known_translators
                    exp = sorted(t for t in M['Translator'] if t[0] == e)
                    check(sorted(kt) == exp, lambda: 'known translators of %s: %r, expected %r' % (e, kt, exp))
                for b in BASES:
                    if (e, b) in poisoned:
                        continue
                    got = find(wcxf.Basis, (e, b))
                    check(got is (M['Basis'][e, b][0] if (e, b) in M['Basis'] else None), lambda: 'looking up basis %r gives %r' % ((e, b), got))
                    if (e, b) in M['Basis']:
                        o, sec = M['Basis'][e, b]
                        check(o.sectors == sec, lambda: 'sectors of basis %r are %r, expected %r' % ((e, b), o.sectors, sec))
                        exp = sorted(w for s in sec.values() for w in s)
                        check(sorted(o.all_wcs) == exp, lambda: 'coefficients of %r: %r, expected %r' % ((e, b), o.all_wcs, exp))
                        kt = o.known_translators
                        f = sorted(t for t in M['Translator'] if t[:2] == (e, b))
                        t_ = sorted(t for t in M['Translator'] if t[0] == e and t[2] == b)
                        check(sorted(kt['from']) == f and sorted(kt['to']) == t_, lambda: 'translators of %r: %r, expected from %r to %r' % ((e, b), kt, f, t_))
            for n in ('Translator', 'Matcher'):
                inst = getattr(C[n], 'instances', {})
                check(set(inst) == set(M[n]), lambda: 'registered %ss: %r, expected %r' % (n, sorted(inst), sorted(M[n])))
                for key, (o, fn) in M[n].items():
                    got = find(C[n], key)
                    check(got is o and got.function is fn, lambda: '%s %r is not the one defined last' % (n, key))
        ctx.nontrivial(len(c['ops']) >= 3)
    finally:
        for n in C:
            C[n].clear_all()
            for key, o in saved[n].items():
                C[n].instances[key] = o


def body_shipped(c, ctx):
    """the shipped EFTs and bases are loaded as their files say, parents included"""
    from wilson import wcxf
    e, b = c['eft'], c['basis']
    o = wcxf.Basis[e, b]
    exp = bases.sectors(e, b)
    got = {s: {k: bool((v or {}).get('real', False)) for k, v in w.items()} for s, w in o.sectors.items()}
    check(got == exp, lambda: 'sectors of %s %s differ from its files' % (e, b))
    check(sorted(o.all_wcs) == sorted(bases.names(e, b)), 'coefficient list of %s %s' % (e, b))
    o.validate()
    # the printed tables
    text, sec, rows = str(o), None, {}
    check(e in text.split('\n')[0] and b in text.split('\n')[0], 'printed title')
    for line in text.split('\n'):
        m = re.match(r'^###\s+`(.*)`\s*$', line)
        if m:
            sec = m[1]
            rows[sec] = []
        m = re.match(r'^\|\s*`(.*?)`\s*\|\s*\$(.*)\$\s*\|\s*([A-Z])\s*\|\s*$', line)
        if m:
            rows[sec].append(m.groups())
    exp_rows = {s: [(k, (v or {}).get('tex', '~'), 'R' if (v or {}).get('real', False) else 'C') for k, v in w.items()] for s, w in o.sectors.items()}
    check(rows == exp_rows, lambda: 'printed tables of %s %s: %s' % (e, b, [s for s in set(rows) | set(exp_rows) if rows.get(s) != exp_rows.get(s)]))
    check(set(wcxf.EFT[e].sectors) == set(bases.eft_sectors(e)), 'sectors of the EFT')
    check(sorted(wcxf.EFT[e].known_bases) == sorted(x for y, x in bases.all_bases() if y == e), 'known bases of %s' % e)
    check(set(wcxf.EFT[e].known_translators) == {t for t in wcxf.Translator.instances if t[0] == e}, 'known translators of %s' % e)
    import refwilson
    for n in ('Translator', 'Matcher'):
        check(set(getattr(wcxf, n).instances) >= set(getattr(refwilson.wcxf, n).instances),
              lambda: 'missing %ss: %r' % (n, set(getattr(refwilson.wcxf, n).instances) - set(getattr(wcxf, n).instances)))


NEEDS_REF = True


@st.composite
def valid_case(draw):
    """bases that are valid, or invalid in exactly one way"""
    secs = draw(st.lists(st.sampled_from(SECS), min_size=1, max_size=4, unique=True))
    pool = draw(st.permutations(WCS))
    cut = draw(st.lists(st.integers(0, 8), min_size=len(secs), max_size=len(secs)))
    out, i = {}, 0
    for s, n in zip(secs, cut):
        m = min(n, 3)
        out[s] = list(pool[i:i + m])
        i += m
    kind = draw(st.sampled_from(['ok', 'dup', 'sector', 'eft', 'child_ok', 'child_dup']))
    return {'secs': out, 'kind': kind, 'eftsecs': draw(st.lists(st.sampled_from(SECS), max_size=4, unique=True)),
            'meta': draw(st.lists(st.sampled_from([None, {}, {'real': True}, {'tex': 'x'}]), min_size=1, max_size=3)),
            'which': [draw(st.integers(0, 7)), draw(st.integers(0, 7))]}


def body_validity(c, ctx):
    from wilson import wcxf
    E = 'C03 EFT'
    kind = c['kind']
    meta = lambda: copy.deepcopy(c['meta'][(flips.append(0) or len(flips)) % len(c['meta'])])       # noqa: E731
    flips = []
    sec = {s: {k: meta() for k in v} for s, v in c['secs'].items()}
    eftsecs = set(c['eftsecs']) | set(sec)
    allw = [k for v in sec.values() for k in v]
    ok = True
    child = None
    if kind == 'dup' and allw and len(sec) > 1:
        w = allw[c['which'][0] % len(allw)]
        others = [s for s in sec if w not in sec[s]]
        sec[others[c['which'][1] % len(others)]][w] = meta()
        ok = False
    elif kind == 'sector':
        s = sorted(sec)[c['which'][0] % len(sec)]
        eftsecs.discard(s)
        ok = False
    elif kind == 'child_ok':
        s = sorted(sec)[c['which'][0] % len(sec)]
        child = {s: {'new': meta()}}
    elif kind == 'child_dup' and allw and len(sec) > 1:
        w = allw[c['which'][0] % len(allw)]
        others = [s for s in sec if w not in sec[s]]
        child = {others[c['which'][1] % len(others)]: {w: meta()}}
        ok = False
    try:
        if kind == 'eft':
            ok = False
        else:
            wcxf.EFT(E, {s: {} for s in eftsecs})
        o = wcxf.Basis(E, 'par', sec)
        if child:
            par_ok = True
            o = wcxf.Basis(E, 'chi', child, parent='par')
        ctx.label('%s: %s' % (kind, 'valid' if ok else 'invalid'))
        try:
            o.validate()
            got = True
        except ValueError:
            got = False
        check(got == ok, lambda: 'validation %s: basis %r, child %r, EFT sectors %r' % ('accepts' if got else 'rejects', sec, child, sorted(eftsecs)))
        if child:
            try:
                wcxf.Basis[E, 'par'].validate()
            except ValueError:
                raise Violation('the parent basis became invalid: %r' % wcxf.Basis[E, 'par'].sectors)
    finally:
        wcxf.EFT.instances.pop(E, None)
        for b in ('par', 'chi'):
            wcxf.Basis.instances.pop((E, b), None)


SUBS = [
    Sub('history', hist, body_history, 800, 10000, rule='at least three operations; every lookup and listing is compared after every operation'),
    Sub('shipped', None, body_shipped, 0, 0, examples=[{'eft': e, 'basis': b} for e, b in bases.all_bases()], rule='every shipped basis (enumerated)'),
    Sub('validity', valid_case, body_validity, 1000, 10000, rule='all (bases valid, or invalid in one way)'),
]
