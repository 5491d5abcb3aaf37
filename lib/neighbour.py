"""Call histories of functions that must not remember anything.

A case is a first call and a few further calls that differ from an earlier one in a single respect (one parameter moved a
little, two parameters exchanged, a parameter left out, another scale, another coefficient), made with new objects or by editing
the dictionaries of the previous call in place.  Oracle: the same call made alone in a child process forked before the first call."""
import json
import os
import pickle

from hypothesis import strategies as st

from harness import HarnessError, Violation, check
import bases
import gen


def forked(fn):
    """result of fn() in a forked child: the state of this process does not change"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try:
                out = ('ok', fn())
            except Violation as e:
                out = ('violation', str(e))
            except Exception as e:      # the parent makes the same call
                out = ('error', '%s: %s' % (type(e).__name__, e))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise HarnessError('the child process gave no answer')
    return pickle.loads(data)


@st.composite
def changes(draw, p, full, scale, names, lo, hi, maxsteps=3):
    """steps; every step is [what, ...] applied to the arguments of the previous call"""
    out = []
    keys = sorted(full)
    ckm = [k for k in ('Vus', 'Vub', 'Vcb', 'gamma') if k in full]
    if ckm and draw(st.integers(0, 2)) == 0:
        keys = ckm
    for _ in range(draw(st.integers(1, maxsteps))):
        k = draw(st.sampled_from(['p', 'p', 'p', 'swap', 'drop', 'scale', 'scale', 'coef', 'back']))
        inplace = draw(st.booleans())
        if k == 'p':
            out.append(['p', draw(st.sampled_from(keys)), 1 + draw(st.sampled_from([0.02, -0.01, 1e-3, 1e-4, -1e-5, 3e-7])), inplace])
        elif k == 'swap':
            pair = draw(st.sampled_from([('m_d', 'm_u'), ('m_e', 'm_u'), ('m_mu', 'm_s')]))
            if all(x in full for x in pair):
                out.append(['swap', list(pair), inplace])
        elif k == 'drop':
            out.append(['drop', draw(st.sampled_from(keys)), inplace])
        elif k == 'scale':
            out.append(['scale', draw(st.one_of(st.sampled_from([1.0001, 0.999, 1.01, 1.00001]).map(lambda f: min(max(f * scale, lo), hi)),
                                                st.floats(lo, hi)))])
        elif k == 'coef':
            n = draw(st.sampled_from(sorted(names)))
            out.append(['coef', n, draw(gen.coeff(names[n], -9)), inplace])
        else:
            out.append(['back', draw(st.integers(0, 3))])
    return out or [['p', keys[0], 1.01, False]]


@st.composite
def histories(draw, routes, params, full, span, exp=-8, secs=None, maxsteps=3):
    """routes: list of (eft, basis, further...); the first two items say where the coefficients live.
    span: (lowest, highest scale), or a function of the route; secs: function of the route giving the sectors of the coefficients"""
    r = list(draw(st.sampled_from(routes)))
    p = draw(params)
    lo, hi = span(r) if callable(span) else span
    s = draw(st.floats(lo, hi))
    sel = secs(r) if secs else None
    names = bases.names(r[0], r[1], tuple(sel) if sel else None)
    return {'route': r, 'p': p, 'scale': s, 'C': draw(gen.wcset(r[0], r[1], secs=sel, exp=exp, max_size=6, sparse=draw(st.integers(0, 3)) == 0)), 'secs': sel,
            'steps': draw(changes(p, full, s, names, lo, hi, maxsteps))}


def arguments(c, full):
    """the sequence of arguments as plain values, and which objects are edited in place"""
    d = gen.expand(c['C'], c['route'][0], c['route'][1], c.get('secs'))
    now = (dict(d), None if c['p'] is None else dict(c['p']), c['scale'])
    seq = [now + (False,)]
    for s in c['steps']:
        d, p, x = dict(now[0]), None if now[1] is None else dict(now[1]), now[2]
        inplace = False
        if s[0] == 'p':
            p = p or {}
            p[s[1]] = p.get(s[1], full[s[1]]) * s[2]
            inplace = s[3]
        elif s[0] == 'swap':
            p = p or {}
            a, b = s[1]
            p[a], p[b] = p.get(b, full[b]), p.get(a, full[a])
            inplace = s[2]
        elif s[0] == 'drop':
            if p:
                p.pop(s[1], None)
            inplace = s[2]
        elif s[0] == 'scale':
            x = s[1]
        elif s[0] == 'coef':
            d[s[1]] = complex(*s[2]) if s[2][1] else s[2][0]
            inplace = s[3]
        else:
            d, p, x = seq[s[1] % len(seq)][:3]
        now = (d, p, x)
        seq.append(now + (inplace,))
    return seq


def body(call, full, close):
    """call(route, d, p, scale) -> dictionary of numbers"""
    def run(c, ctx):
        seq = arguments(c, full)
        r = c['route']
        ctx.label(' '.join(str(x) for x in r))
        alone = [forked(lambda a=a: call(r, dict(a[0]), None if a[1] is None else dict(a[1]), a[2])) for a in seq]
        d, p = {}, {}
        some = False
        for i, (a, exp) in enumerate(zip(seq, alone)):
            if a[3]:        # the objects of the previous call, edited
                d.clear()
                d.update(a[0])
                if p is None:
                    p = {}
                p.clear()
                p.update(a[1] or {})
            else:
                d = p = None                # freed first: new objects may get the same identity
                d, p = dict(a[0]), None if a[1] is None else dict(a[1])
            got = call(r, d, p, a[2])
            if exp[0] == 'violation':
                raise Violation(exp[1])
            check(exp[0] == 'ok', lambda: 'call %d alone fails with %s, after other calls it does not' % (i, exp[1]))
            some = some or any(v != 0 for v in got.values())
            close(got, exp[1], 'call %d of %s after %s, compared with the same call alone' % (i + 1, r, json.dumps(c['steps'][:i])))
        ctx.nontrivial(some)
    return run


def every(routes, full, span, exp=-8, secs=None, factor=1.00001):
    """every route, every parameter moved a little after the other, and the scale"""
    out = []
    for i, r in enumerate(dict.fromkeys(tuple(json.dumps(x) for x in routes))):
        r = json.loads(r)
        lo, hi = span(r) if callable(span) else span
        s = (lo * hi) ** 0.5
        steps = []
        for j, k in enumerate(sorted(full)):
            steps.append(['p', k, factor, (i + j) % 2 == 1])
        steps += [['scale', s * 1.00001], ['scale', s * 1.001]]
        out.append({'route': r, 'p': dict(full), 'scale': s, 'C': {'kind': 'dense', 'seed': 31 + i, 'keep': 1.0, 'exp': exp},
                    'secs': secs(r) if secs else None, 'steps': steps})
    return out
