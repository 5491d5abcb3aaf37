"""C20: the command-line tools do exactly what the library does."""
import gc
import io
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import traceback

import yaml
from hypothesis import strategies as st

from harness import Sub, check, HarnessError, Violation
import bases
import gen
from checks.c01 import docs as any_docs, BAD_YAML

NEEDS_REF = False
ASSUMPTIONS = ['json, PyYAML and the operating system (pipes, files, fork) are trusted',
               'the console scripts of setup.py end with the return value of the function they name']
COMMANDS = {'wcxf': 'wcxf_cli', 'wcxf2eos': 'eos', 'wcxf2dsixtools': 'wcxf2dsixtools', 'dsixtools2wcxf': 'dsixtools2wcxf', 'wcxf2smeftsim': 'smeftsim'}


# running a command ---------------------------------------------------------------------------------------------------------
def execute(argv, stdin=b'', files=None, real=False):
    """Run a command in a fresh directory with the given files.
    Returns exit code, standard output, standard error, files afterwards."""
    files = files or {}
    d = tempfile.mkdtemp(prefix='c20_')
    try:
        cwd = os.path.join(d, 'cwd')
        os.mkdir(cwd)
        for n, t in files.items():
            p = os.path.join(cwd, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if t is None:
                os.makedirs(p, exist_ok=True)
            else:
                with open(p, 'wb') as f:
                    f.write(t)
        before = snapshot(cwd)
        for n, t in (('in', stdin), ('out', b''), ('err', b'')):
            with open(os.path.join(d, n), 'wb') as f:
                f.write(t)
        fds = [os.open(os.path.join(d, 'in'), os.O_RDONLY), os.open(os.path.join(d, 'out'), os.O_WRONLY), os.open(os.path.join(d, 'err'), os.O_WRONLY)]
        try:
            code = (process if real else child)(argv, cwd, fds)
        finally:
            for f in fds:
                os.close(f)
        out, err = (open(os.path.join(d, n), 'rb').read().decode('utf8', 'replace') for n in ('out', 'err'))
        return code, out, err, before, snapshot(cwd)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def snapshot(top):
    out = {}
    for base, dirs, names in os.walk(top):
        for n in names:
            p = os.path.join(base, n)
            out[os.path.relpath(p, top)] = open(p, 'rb').read()
    return out


def process(argv, cwd, fds):
    """the same in a new interpreter"""
    import wilson
    top = os.path.dirname(os.path.dirname(os.path.abspath(wilson.__file__)))
    code = 'import sys; from wilson.wcxf.cli import %s as f; sys.argv[0] = %r; sys.exit(f())' % (COMMANDS[argv[0]], argv[0])
    env = dict(os.environ, PYTHONPATH=top, PYTHONDONTWRITEBYTECODE='1')
    r = subprocess.run([sys.executable, '-c', code] + argv[1:], cwd=cwd, stdin=fds[0], stdout=fds[1], stderr=fds[2], env=env, timeout=300)
    return r.returncode


def child(argv, cwd, fds):
    from wilson.wcxf import cli
    fun = getattr(cli, COMMANDS[argv[0]])
    pid = os.fork()
    if pid:
        _, status = os.waitpid(pid, 0)
        if not os.WIFEXITED(status):
            raise HarnessError('command ended by signal %s' % status)
        return os.WEXITSTATUS(status)
    code = 77
    gc.freeze()          # the collection below considers what the command made
    try:
        for i, f in enumerate(fds):
            os.dup2(f, i)
        sys.stdin = sys.__stdin__ = open(0, 'r', encoding='utf8', closefd=False)
        sys.stdout = sys.__stdout__ = open(1, 'w', encoding='utf8', closefd=False)
        sys.stderr = sys.__stderr__ = open(2, 'w', encoding='utf8', closefd=False)
        os.chdir(cwd)
        sys.argv = list(argv)
        code = outcome(fun)
        gc.collect()
        for f in (sys.stdout, sys.stderr):
            try:
                f.flush()
            except Exception:
                pass
    finally:
        os._exit(code)


def outcome(fun):
    """what `sys.exit(fun())` at the end of a console script gives"""
    try:
        try:
            sys.exit(fun())
        except SystemExit as e:
            r = e.code
            if r is None:
                return 0
            if isinstance(r, int):
                return r & 0xff
            sys.stderr.write('%s\n' % r)
            return 1
    except BaseException:
        try:
            sys.stderr.write(traceback.format_exc())
        except Exception:
            pass
        return 1


# channels ------------------------------------------------------------------------------------------------------------------
BYSTANDERS = {'other.json': b'{"a": 1}', 'wcxf.yaml': b'keep: me\n', 'sub/deep.yml': b'x: 1\n', 'out': b'', 'wcxf2smeftsim_param_card.dat': b'old card\n'}


@st.composite
def channel(draw):
    """where the input comes from and where the output goes"""
    return {'input': draw(st.sampled_from(['file', 'file', '-', 'stdin'])),
            'name': draw(st.sampled_from(['in.json', 'in.yaml', 'my input.yml', 'in', 'sub/in.wcxf', '-in.json'])),
            'output': draw(st.sampled_from([None, None, 'out.json', 'out.yml', 'sub/out', 'wcxf.yaml', 'a b', '-'])),
            'eq': draw(st.booleans()), 'first': draw(st.booleans())}


def invoke(ch, cmd, positional, options, text, real=False, bystanders=None, extra=None):
    """Returns exit code, the text written to the requested output, messages, whether there was an output.
    All other files and streams are checked to be untouched."""
    files = dict(BYSTANDERS if bystanders is None else bystanders)
    files.update(extra or {})
    opts = []
    for k, v in options:
        opts += ['%s=%s' % (k, v)] if ch['eq'] else [k, v]
    out = ch.get('output')
    if out is not None:
        opts += ['--output=' + out] if ch['eq'] else ['--output', out]
    pos = list(positional)
    stdin = b''
    if ch['input'] == 'file':
        name = ch['name']
        if name.startswith('-'):
            name = './' + name
        files[os.path.normpath(name)] = text.encode()
        pos.append(name)
        stdin = b'eft: WET\nbasis: flavio\nscale: 1\nvalues: {}\n'      # must not be read
    else:
        stdin = text.encode()
        if ch['input'] == '-':
            pos.append('-')
    head = cmd.split()
    argv = head + (opts + pos if ch['first'] else pos + opts)
    code, so, se, before, after = execute(argv, stdin, files, real)
    check(code != 77, 'the command could not be run: ' + se[-300:])
    target = None if out in (None, '-') else os.path.normpath(out)
    changed = {n for n in set(before) | set(after) if before.get(n) != after.get(n)} - {target}
    check(not changed, lambda: '%s: changed the files %s (requested output: %s)' % (' '.join(argv), sorted(changed), target))
    if target is None:
        return code, so, se, argv
    written = after.get(target)
    check(so == '', lambda: '%s: wrote %r to standard output although the output file %s was requested' % (' '.join(argv), so[:200], out))
    if written is not None and before.get(target) == written and code != 0:
        return code, '', se, argv
    return code, (written or b'').decode('utf8', 'replace'), se, argv


def data(text, fmt, what):
    """parse the output, which has to be in the given format"""
    if fmt == 'json':
        try:
            return json.loads(text)
        except ValueError as e:
            raise Violation('%s: output is not JSON (%s): %r' % (what, e, text[:200]))
    try:
        d = yaml.safe_load(text)
    except yaml.YAMLError as e:
        raise Violation('%s: output is not YAML (%s): %r' % (what, e, text[:200]))
    if isinstance(d, dict) and d:
        try:
            json.loads(text)
        except ValueError:
            pass
        else:
            raise Violation('%s: output is JSON instead of YAML: %r' % (what, text[:200]))
    return d


def num(v):
    return complex(float(v.get('Re', 0)), float(v.get('Im', 0))) if isinstance(v, dict) else complex(float(v))


def same_wc(d, wc, what):
    """parsed file against the object of the library"""
    check(isinstance(d, dict) and set(d) >= {'eft', 'basis', 'scale', 'values'}, lambda: '%s: no WCxf file: %r' % (what, d))
    check((d['eft'], d['basis'], float(d['scale'])) == (wc.eft, wc.basis, wc.scale), lambda: '%s: is %s/%s at %s, the library gives %s/%s at %s' % (
        what, d['eft'], d['basis'], d['scale'], wc.eft, wc.basis, wc.scale))
    got = {k: num(v) for k, v in d['values'].items()}
    exp = {k: complex(v) for k, v in wc.dict.items()}
    check(set(got) == set(exp), lambda: '%s: coefficients differ from the library: %s' % (what, sorted(set(got) ^ set(exp))[:6]))
    for k in exp:
        check(abs(got[k] - exp[k]) <= 1e-13 * abs(exp[k]), lambda: '%s: %s=%s, the library gives %s' % (what, k, got[k], exp[k]))


# input files ---------------------------------------------------------------------------------------------------------------
def write(wc, style):
    d = {'eft': wc['eft'], 'basis': wc['basis'], 'scale': wc['scale'], 'values': {k: {'Re': v[0], 'Im': v[1]} if v[1] else v[0] for k, v in wc['values'].items()}}
    d.update(wc.get('kw', {}))
    if style == 'yaml':
        return yaml.safe_dump(d, default_flow_style=False)
    if style == 'flow':
        return '# a comment\n' + yaml.safe_dump(d, default_flow_style=True)
    return json.dumps(d, indent=2 if style == 'json' else None)


STYLES = ['yaml', 'flow', 'json', 'compact']


@st.composite
def wcfile(draw, eft, basis, scale=None, max_size=5, exp=-6):
    names = bases.names(eft, basis)
    fams = gen._families(eft, basis, None)
    ks = []
    for f in draw(st.lists(st.sampled_from(sorted(fams)), min_size=0, max_size=max_size)):
        k = draw(st.sampled_from(fams[f]))
        if k not in ks:
            ks.append(k)
    lo, hi = scale or ((91, 1e4) if eft == 'SMEFT' else (1, 1000))
    return {'eft': eft, 'basis': basis, 'scale': draw(gen.logfloat(lo, hi, (91.1876, 160) if lo <= 91.1876 <= 160 <= hi else ())),
            'values': {k: draw(gen.coeff(names[k], exp)) for k in ks},
            'kw': draw(st.sampled_from([{}, {}, {'metadata': {'generator': 'me', 'n': 1}}]))}


def load(text):
    """What the library reads (a YAML file with numbers like 1e-06, which PyYAML writes without dot never occurs here)."""
    from wilson import wcxf
    return wcxf.WC.load(io.StringIO(text))


# convert -------------------------------------------------------------------------------------------------------------------
@st.composite
def conversions(draw):
    fmt = draw(st.sampled_from(['json', 'yaml', 'JSON', 'Yaml', 'YAML', 'Json']))
    if draw(st.booleans()):
        eft, b = draw(st.sampled_from(bases.all_bases()))
        w = draw(wcfile(eft, b))
        doc = json.loads(write(w, 'json'))
    else:
        doc = draw(any_docs)
    return {'fmt': fmt, 'doc': doc, 'style': draw(st.sampled_from(['yaml', 'flow'] if fmt.lower() == 'json' else ['json', 'compact'])), 'ch': draw(channel())}


def body_convert(c, ctx):
    fmt = c['fmt'].lower()
    if c['style'] in ('yaml', 'flow'):
        text = yaml.safe_dump(c['doc'], default_flow_style=c['style'] == 'flow')
        exp = yaml.safe_load(text)
    else:
        text = json.dumps(c['doc'], indent=2 if c['style'] == 'json' else None)
        exp = json.loads(text)
    code, out, err, argv = invoke(c['ch'], 'wcxf convert', [c['fmt']], [], text)
    ctx.nontrivial(len(c['doc']) > 0)
    ctx.label('%s->%s' % (c['style'], fmt))
    check(code == 0, lambda: '%s: exit code %s for valid input\n%s' % (argv, code, err[-300:]))
    got = data(out, fmt, ' '.join(argv))
    check(got == exp, lambda: '%s: %r became %r' % (argv, exp, got))


# translate -----------------------------------------------------------------------------------------------------------------
TRANSLATE = [('WET', 'flavio', 'JMS'), ('WET', 'JMS', 'flavio'), ('WET', 'JMS', 'Bern'), ('WET', 'Bern', 'flavio'), ('WET', 'JMS', 'EOS'), ('WET', 'flavio', 'Bern'),
             ('WET-4', 'flavio', 'Bern'), ('WET-3', 'flavio', 'Bern'), ('WET', 'JMS', 'FormFlavor'), ('WET-3', 'JMS', 'flavio'), ('WET', 'flavio', 'flavio'),
             ('SMEFT', 'Warsaw', 'Warsaw mass'), ('SMEFT', 'Warsaw', 'Warsaw up'), ('SMEFT', 'Warsaw up', 'Warsaw'), ('SMEFT', 'Warsaw', 'Warsaw'),
             ('SMEFT', 'Higgs-Warsaw up', 'Warsaw up'), ('SMEFT', 'Warsaw up', 'Higgs-Warsaw up')]
MATCH = [('SMEFT', 'Warsaw', 'WET', 'JMS'), ('SMEFT', 'Warsaw', 'WET', 'flavio'), ('SMEFT', 'Warsaw up', 'WET', 'JMS'), ('SMEFT', 'Warsaw up', 'WET', 'flavio'),
         ('WET', 'flavio', 'WET-4', 'flavio'), ('WET-4', 'flavio', 'WET-3', 'flavio'), ('WET', 'JMS', 'WET-4', 'JMS'), ('WET', 'Bern', 'WET-4', 'Bern'),
         ('SMEFT', 'Warsaw', 'SMEFT', 'Warsaw'), ('WET', 'flavio', 'WET', 'flavio')]


@st.composite
def translations(draw):
    e, a, b = draw(st.sampled_from(TRANSLATE))
    return {'kind': 'translate', 'wc': draw(wcfile(e, a)), 'to': [b], 'style': draw(st.sampled_from(STYLES)), 'ch': draw(channel()),
            'fmt': draw(st.sampled_from([None, 'json', 'yaml', 'JSON', 'Yaml']))}


@st.composite
def matchings(draw):
    e, a, f, b = draw(st.sampled_from(MATCH))
    scale = (91, 400) if e == 'SMEFT' else (1, 100)
    return {'kind': 'match', 'wc': draw(wcfile(e, a, scale)), 'to': [f, b], 'style': draw(st.sampled_from(STYLES)), 'ch': draw(channel()),
            'fmt': draw(st.sampled_from([None, 'json', 'yaml', 'JSON', 'Yaml']))}


def body_operate(c, ctx, real=False):
    text = write(c['wc'], c['style'])
    wc = load(text)
    lib = None
    try:
        lib = wc.translate(*c['to']) if c['kind'] == 'translate' else wc.match(*c['to'])
    except Exception:
        ctx.label('not possible')
    opts = [] if c['fmt'] is None else [('--format', c['fmt'])]
    code, out, err, argv = invoke(c['ch'], 'wcxf ' + c['kind'], c['to'], opts, text, real)
    what = ' '.join(argv)
    ctx.nontrivial(lib is not None and any(lib.dict.values()))
    ctx.label('%s %s' % (c['kind'], c['to'][-1]))
    if lib is None:
        check(code != 0, lambda: '%s: exit code 0, but the library raises an error' % what)
        check(not out.strip(), lambda: '%s: output %r, but the library raises an error' % (what, out[:100]))
        return
    check(code == 0, lambda: '%s: exit code %s\n%s' % (what, code, err[-300:]))
    same_wc(data(out, (c['fmt'] or 'json').lower(), what), lib, what)


# validate ------------------------------------------------------------------------------------------------------------------
@st.composite
def validations(draw):
    typ = draw(st.sampled_from(['wc', 'wc', 'basis', 'eft']))
    bad = draw(st.sampled_from([None, None, 'unknown', 'missing', 'label', 'type', 'broken', 'empty', 'scalar']))
    eft, b = draw(st.sampled_from([x for x in bases.all_bases() if x[0] != 'SMEFT' or x[1] in ('Warsaw', 'Warsaw up')]))
    c = {'kind': 'validate', 'type': typ, 'bad': bad, 'style': draw(st.sampled_from(['json', 'compact', 'yaml', 'flow'])), 'ch': dict(draw(channel()), output=None)}
    if typ == 'wc':
        c['wc'] = draw(wcfile(eft, b))
        doc = json.loads(write(c.pop('wc'), 'json'))
    elif typ == 'basis':
        secs = bases.sectors(eft, b)
        keep = draw(st.lists(st.sampled_from(sorted(secs)), max_size=3, unique=True))
        doc = {'eft': eft, 'basis': draw(st.sampled_from([b, 'my basis'])), 'sectors': {s: {k: ({'real': True} if r else None) for k, r in list(secs[s].items())[:20]} for s in keep}}
    else:
        doc = {'eft': draw(st.sampled_from([eft, 'MyEFT'])), 'sectors': {s: {} for s in draw(st.lists(st.sampled_from(bases.eft_sectors(eft)), max_size=3, unique=True))}}
    if bad == 'unknown' and typ != 'eft':
        if typ == 'wc':
            doc['values'][draw(st.sampled_from(['C99_x', '', 'phil1_99', 'c9_bsmumu']) if eft != 'SMEFT' else unknown(b))] = 1e-3
        else:
            doc['sectors'][draw(st.sampled_from(['SB', 'nosector', '']))] = {'x': None}
    elif bad == 'missing':
        doc.pop(draw(st.sampled_from(['eft', 'values', 'scale', 'basis'] if typ == 'wc' else ['eft', 'sectors', 'basis'] if typ == 'basis' else ['eft', 'sectors'])))
    elif bad == 'label' and typ != 'eft':
        if typ == 'wc' and draw(st.booleans()):
            doc['basis'] = draw(st.sampled_from(['Flavio', 'JMS ', 'x', '']))
        else:
            doc['eft'] = draw(st.sampled_from(['WET-7', 'smeft', 'SM']))
    elif bad == 'type':
        c['type'] = draw(st.sampled_from(['WC', 'wcs', 'bases', '', 'Eft', 'basis ', 'eft.json']))
    elif bad not in ('broken', 'empty', 'scalar', None):
        c['bad'] = None
    c['doc'] = doc
    if bad == 'broken':
        c['text'] = draw(st.sampled_from(BAD_YAML))
    elif bad == 'empty':
        c['text'] = draw(st.sampled_from(['', '\n', '# only a comment\n', 'null', '---\n']))
    elif bad == 'scalar':
        c['text'] = draw(st.sampled_from(['hello', '3', '[1, 2]', 'true', '"eft"', '- eft: WET\n']))
    return c


def body_validate(c, ctx, real=False):
    d = c['doc']
    text = c.get('text')
    if text is None:
        text = yaml.safe_dump(d, default_flow_style=c['style'] == 'flow') if c['style'] in ('yaml', 'flow') else json.dumps(d, indent=2 if c['style'] == 'json' else None)
    code, out, err, argv = invoke(c['ch'], 'wcxf validate', [c['type']], [], text, real)
    what = ' '.join(argv)
    ctx.nontrivial(c['bad'] is not None or bool(d.get('values') or d.get('sectors')))
    ctx.label('%s: %s' % (c['type'] if c['bad'] != 'type' else 'wrong type', c['bad'] or 'valid'))
    if c['bad'] is None:
        check(code == 0, lambda: '%s: valid input %r: exit code %s\n%s' % (what, text[:300], code, err[-300:]))
        check(out == 'Validation successful.\n', lambda: '%s: output %r for valid input' % (what, out[:200]))
    else:
        check(code != 0, lambda: '%s: exit code 0 for invalid input (%s) %r' % (what, c['bad'], text[:300]))
        check('success' not in out.lower(), lambda: '%s: output %r for invalid input %r' % (what, out, text[:300]))
        check(err.strip() != '', lambda: '%s: no message for invalid input %r' % (what, text[:300]))


# input that cannot be converted --------------------------------------------------------------------------------------------
@st.composite
def failures(draw):
    kind = draw(st.sampled_from(['basis', 'eft', 'parse', 'empty', 'nofile', 'format', 'incomplete', 'convformat', 'convparse', 'usage']))
    c = {'kind': kind, 'ch': draw(channel()), 'wc': draw(wcfile('WET', 'flavio')), 'style': draw(st.sampled_from(STYLES)), 'cmd': draw(st.sampled_from(['translate', 'match']))}
    if kind == 'basis':
        c['to'] = draw(st.sampled_from(['flavio ', 'Warsaw', 'FLAVIO', '', 'nobasis', 'Jms']))
    elif kind == 'eft':
        c['to'] = draw(st.sampled_from(['SMEFT', 'wet-4', 'WET-5', '', 'WET-3']))
    elif kind in ('parse', 'convparse'):
        c['text'] = draw(st.sampled_from(BAD_YAML))
    elif kind == 'empty':
        c['text'] = draw(st.sampled_from(['', '\n', '# nothing\n', 'null\n']))
    elif kind in ('format', 'convformat'):
        c['fmt'] = draw(st.sampled_from(['xml', '', 'yml', 'json5', 'jsn', 'text', 'json ']))
    elif kind == 'incomplete':
        c['drop'] = draw(st.sampled_from(['eft', 'basis', 'scale', 'values']))
    elif kind == 'usage':
        c['args'] = draw(st.sampled_from([['translate'], ['match', 'WET'], ['validate'], ['convert'], ['transmogrify', 'x'], ['--nosuch'], ['translate', 'JMS', 'a', 'b', 'c']]))
    return c


def body_failure(c, ctx, real=False):
    text = c.get('text') or write(c['wc'], c['style'])
    if c['kind'] == 'empty':
        text = c['text']
    if c['kind'] == 'incomplete':
        d = json.loads(write(c['wc'], 'json'))
        del d[c['drop']]
        text = json.dumps(d)
    pos, opts, cmd = (['JMS'] if c['cmd'] == 'translate' else ['WET-4', 'flavio']), [], c['cmd']
    if c['kind'] == 'basis':
        pos = [c['to']] if c['cmd'] == 'translate' else ['WET-4', c['to']]
    elif c['kind'] == 'eft':
        cmd, pos = 'match', [c['to'], 'flavio']
    elif c['kind'] == 'format':
        opts = [('--format', c['fmt'])]
    elif c['kind'] == 'convformat':
        cmd, pos = 'convert', [c['fmt']]
    elif c['kind'] == 'convparse':
        cmd, pos = 'convert', ['json']
    ctx.label(c['kind'])
    if c['kind'] in ('usage', 'nofile'):
        a = c['args'] if c['kind'] == 'usage' else [cmd] + pos + ['does/not/exist']
        code, so, se, before, after = execute(['wcxf'] + a, text.encode(), dict(BYSTANDERS), real)
        check(before == after, lambda: 'wcxf %s changed files' % a)
        check(code != 0 and se.strip(), lambda: 'wcxf %s: exit code %s, message %r' % (a, code, se))
        check('success' not in so.lower(), lambda: 'wcxf %s: %r' % (a, so))
        return
    code, out, err, argv = invoke(c['ch'], 'wcxf ' + cmd, pos, opts, text, real)
    what = ' '.join(argv)
    check(code != 0, lambda: '%s: exit code 0 for input that cannot be converted (%s): %r' % (what, c['kind'], text[:200]))
    check(err.strip(), lambda: '%s: no error message' % what)
    check(not out.strip(), lambda: '%s: output %r in spite of the error' % (what, out[:200]))


# EOS -----------------------------------------------------------------------------------------------------------------------
@st.composite
def eosfiles(draw):
    names = sorted(bases.names('WET', 'EOS'))
    files = {}
    ks = draw(st.lists(st.sampled_from(names), max_size=8, unique=True))
    sm = st.floats(-10, 10)
    i = 0
    for f in range(draw(st.integers(1, 3))):
        d = {}
        for k in ks[i:i + 3] if f < 2 else ks[i:]:
            d[draw(st.sampled_from(EOSNAMES(k)))] = {'central': draw(sm), 'min': draw(sm), 'max': draw(sm)}
        i += 3
        files['p%d.yaml' % f] = [draw(st.sampled_from([True, True, True, False, None])), d]
    w = draw(wcfile('WET', 'EOS', max_size=0))
    for k in ks[:6] + draw(st.lists(st.sampled_from(names), max_size=3)):
        w['values'][k] = draw(gen.coeff(bases.names('WET', 'EOS')[k], 0))
        for a, b in (('enue', 'munumu'), ('munumu', 'enue')):
            if a in k and draw(st.booleans()):
                w['values'][k.replace(a, b)] = w['values'][k]
    bad = draw(st.sampled_from([None, None, None, None, 'basis', 'unknown', 'both', 'nodir']))
    return {'wc': w, 'files': files, 'style': draw(st.sampled_from(STYLES)), 'bad': bad, 'ch': draw(channel()), 'home': draw(st.booleans()), 'old': draw(st.booleans()),
            'default': False}


def EOSNAMES(k):
    """names under which EOS could know the coefficient"""
    if 'Re{' in k or 'Im{' in k or '::' not in k:
        return [k]
    h, t = k.split('::', 1)
    out = [k]
    for g in sorted({h, h.replace('enue', 'lnu'), h.replace('munumu', 'lnu')}):
        out += ['%s::Re{%s}' % (g, t), '%s::Im{%s}' % (g, t)]
    return out


def body_eos(c, ctx):
    from wilson.wcxf.converters import eos as lib
    w = json.loads(json.dumps(c['wc']))
    if c['bad'] == 'basis':
        w['basis'] = 'nobasis'
    if c['bad'] == 'unknown':
        w['values']['C99'] = [1.0, 0.0]
    text = write(w, c['style'])
    sm = {}
    extra = {'prefix/share/eos/parameters/readme.txt': b'x'}
    for n, (rel, d) in c['files'].items():
        doc = dict(d)
        if rel is not None:
            doc['@metadata@'] = {'wcxf-relevant': rel, 'author': 'me'}
        extra['prefix/share/eos/parameters/' + n] = yaml.safe_dump(doc, default_flow_style=False).encode()
        if rel:
            sm.update(d)
    ch = dict(c['ch'])
    opts = [('--eosprefix', 'prefix')]
    home = c['home'] or c['bad'] in ('both', 'nodir')
    target = None
    if home:
        opts.append(('--eoshome', 'home'))
        if c['bad'] != 'nodir':
            extra['home/parameters/other.yaml'] = b'a: 1\n'
            target = 'home/parameters/wcxf.yaml'
            if not c['bad'] and c.get('old'):       # an earlier result, to be replaced
                extra[target] = b'b->s::c7:\n  central: 1.0\nold: 1\n'
        if c['bad'] == 'both':
            ch['output'] = 'out.yml'
        else:
            ch['output'] = None
    code, out, err, written, what = invoke_eos(ch, opts, text, extra, target)
    ctx.nontrivial(any(any(num_(w, k)) for k in w['values']) and len(sm) > 0)
    ctx.label(c['bad'] or ('home' if home else 'file' if ch['output'] else 'stdout'))
    if c['bad']:
        check(code != 0, lambda: '%s: exit code 0 (%s)' % (what, c['bad']))
        check(err.strip(), lambda: '%s: no error message (%s)' % (what, c['bad']))
        check(not out.strip() and not (written or '').strip(), lambda: '%s: output in spite of the error (%s)' % (what, c['bad']))
        return
    try:
        exp = lib.wcxf2eos(load(text), sm)
    except ValueError:
        ctx.label('not possible')
        check(code != 0 and err.strip(), lambda: '%s: exit code %s, but the library raises an error' % (what, code))
        return
    check(code == 0, lambda: '%s: exit code %s\n%s' % (what, code, err[-300:]))
    got = data(written if target else out, 'yaml', what)
    exp = {k: dict(v) for k, v in exp.items()}
    check(got == exp, lambda: '%s: %r, the library gives %r' % (what, got, exp))


def num_(w, k):
    return w['values'][k]


def invoke_eos(ch, opts, text, extra, target):
    """--eoshome adds one more permitted output file"""
    files = dict(BYSTANDERS)
    files.update(extra)
    args = []
    for k, v in opts:
        args += ['%s=%s' % (k, v)] if ch['eq'] else [k, v]
    if ch['output'] is not None:
        args += ['--output=' + ch['output']] if ch['eq'] else ['--output', ch['output']]
    pos, stdin = [], text.encode()
    if ch['input'] == 'file':
        name = './' + ch['name'] if ch['name'].startswith('-') else ch['name']
        files[os.path.normpath(name)] = text.encode()
        pos, stdin = [name], b'not to be read'
    elif ch['input'] == '-':
        pos = ['-']
    argv = ['wcxf2eos'] + (args + pos if ch['first'] else pos + args)
    code, so, se, before, after = execute(argv, stdin, files)
    allowed = {target}
    if ch['output'] not in (None, '-'):
        allowed.add(os.path.normpath(ch['output']))
    changed = {n for n in set(before) | set(after) if before.get(n) != after.get(n)} - allowed
    check(not changed, lambda: '%s changed the files %s' % (' '.join(argv), sorted(changed)))
    out = so
    if ch['output'] not in (None, '-'):
        check(so == '', lambda: '%s: wrote %r to standard output' % (' '.join(argv), so[:200]))
        n = os.path.normpath(ch['output'])
        out = '' if after.get(n) == before.get(n) else after.get(n, b'').decode()
    return code, out, se, after[target].decode() if target in after else None, ' '.join(argv)


@st.composite
def unknown(draw, basis='Warsaw'):
    """a name that is not in the basis: redundant or impossible indices, misspelt operators"""
    ops = sorted({k.split('_')[0] for k in bases.names('SMEFT', basis)})
    n = draw(st.sampled_from(ops)) + draw(st.sampled_from(['', '_', '_21', '_11', '_32', '_2111', '_2211', '_3321', '_3133', '_44', '_41', '_1115', '_0', '_00', 'x_11', '_21x', '_1', '_111']))
    return n if n not in bases.names('SMEFT', basis) else n + '9'


# DsixTools -----------------------------------------------------------------------------------------------------------------
@st.composite
def dsix(draw):
    bad = draw(st.sampled_from([None, None, None, 'basis', 'unknown', 'eft']))
    w = draw(wcfile('WET', 'flavio') if bad == 'eft' else wcfile('SMEFT', 'Warsaw up') if bad == 'basis' else wcfile('SMEFT', 'Warsaw'))
    if bad == 'unknown':
        w['values'][draw(unknown())] = [1e-6, 0.0]
    return {'wc': w, 'bad': bad, 'style': draw(st.sampled_from(STYLES)), 'ch': draw(channel()), 'order': draw(st.permutations([0, 1])), 'parts': draw(st.sampled_from([1, 1, 2, 3, 7])),
            'back': draw(st.sampled_from([None, 'back.yml', '-', 'wcxf.yaml']))}


def sm_text():
    """SM input file"""
    v = 'Block GAUGE\n1 0.63\n2 0.35\n3 1.2\nBlock SCALAR\n1 0.26\n2 7812.5\n'
    for b, m in (('GU', 1.0), ('GD', 0.02), ('GE', 0.01)):
        v += 'Block %s\n' % b + ''.join('%d %d %s\n' % (i, j, m * i / 3 if i == j else 0) for i in (1, 2, 3) for j in (1, 2, 3))
    return v


def body_dsix(c, ctx):
    from wilson.wcxf.converters import dsixtools as lib
    text = write(c['wc'], c['style'])
    code, out, err, argv = invoke(c['ch'], 'wcxf2dsixtools', [], [], text)
    what = ' '.join(argv)
    ctx.label(c['bad'] or 'valid')
    ctx.nontrivial(any(any(v) for v in c['wc']['values'].values()))
    if c['bad']:
        check(code != 0 and err.strip(), lambda: '%s: exit code %s, message %r for %s' % (what, code, err[-100:], c['bad']))
        check(not out.strip(), lambda: '%s: output in spite of the error' % what)
        return
    check(code == 0, lambda: '%s: exit code %s\n%s' % (what, code, err[-300:]))
    exp = io.StringIO()
    lib.wcxf2dsixtools(load(text), stream=exp)
    check(blocks(out) == blocks(exp.getvalue()), lambda: '%s: output differs from the library:\n%s' % (what, out[:300]))
    # and back
    bl = [x for x in re.split(r'(?m)^(?=BLOCK )', out, flags=re.I) if x.strip()]
    n = max(1, min(c['parts'], len(bl)))          # DsixTools itself writes several files
    parts = [('wc%d.dat' % i, ''.join(bl[i::n])) for i in range(n)] if n > 1 else [('wc.dat', out)]
    files = [('sm.dat', sm_text())] + parts if c['order'][0] == 0 else parts + [('sm.dat', sm_text())]
    fs = dict(BYSTANDERS, **{n: t.encode() for n, t in files})
    args = [n for n, _ in files]
    if c['back']:
        args = args + ['--output', c['back']]
    code, so, se, before, after = execute(['dsixtools2wcxf'] + args, b'', fs)
    what = 'dsixtools2wcxf ' + ' '.join(args)
    check(code == 0, lambda: '%s: exit code %s\n%s' % (what, code, se[-300:]))
    target = c['back'] if c['back'] not in (None, '-') else None
    changed = {n for n in set(before) | set(after) if before.get(n) != after.get(n)} - {target}
    check(not changed, lambda: '%s changed the files %s' % (what, sorted(changed)))
    if target:
        check(so == '', lambda: '%s: wrote %r to standard output' % (what, so[:100]))
        so = after.get(target, b'').decode()
    lib_out = io.StringIO()
    lib.dsixtools2wcxf(tuple(io.StringIO(t) for _, t in files), stream=lib_out)
    same_wc(data(so, 'yaml', what), load(lib_out.getvalue()), what)


def blocks(text):
    """{block: {indices: value}} of an SLHA-like file (own parser)"""
    out, b = {}, None
    for line in text.split('\n'):
        line = line.split('#')[0].split()
        if not line:
            continue
        if line[0].lower() == 'block':
            b = out.setdefault(line[1].upper(), {})
            continue
        if b is None:
            raise Violation('value outside of a block: %r' % line)
        try:
            k, v = tuple(int(x) for x in line[:-1]), float(line[-1])
        except ValueError:
            k, v = tuple(line[:-1]), line[-1]
        check(k not in b, lambda: 'entry %s is there twice' % (k,))
        b[k] = v
    return out


# SMEFTsim ------------------------------------------------------------------------------------------------------------------
@st.composite
def cards(draw):
    mass = draw(st.sampled_from([True, True, True, False]))
    bad = draw(st.sampled_from([None] * 5 + ['unknown', 'empty', 'nofile', 'scheme', 'set'])) if mass else None
    return {'wc': draw(wcfile('SMEFT', 'Warsaw mass' if mass else 'Warsaw', max_size=6)), 'style': draw(st.sampled_from(STYLES)), 'bad': bad,
            'out': draw(st.sampled_from([None, 'card.dat', 'sub/card', 'wcxf.yaml'])), 'scheme': draw(st.sampled_from([None, 'alpha', 'mw'])),
            'cut': draw(st.sampled_from([None, '1000', '1', '2500.5', '1e4'])), 'set': draw(st.sampled_from([None, 'A', 'B'])),
            'unknown': draw(unknown('Warsaw mass')), 'answer': draw(st.sampled_from(['i', 'I', '', 'q', 'yes', 'ii', ' i'])), 'first': draw(st.booleans()), 'name': draw(st.sampled_from(['in.json', 'a b.yml', 'sub/x']))}


def body_card(c, ctx):
    import pylha
    from wilson.wcxf.converters import smeftsim as lib
    w = json.loads(json.dumps(c['wc']))
    if c['bad'] == 'unknown':
        w['values'][c['unknown']] = [1e-6, 0.0]
    text = '' if c['bad'] == 'empty' else write(w, c['style'])
    args = []
    scheme, ms = ('beta' if c['bad'] == 'scheme' else c['scheme']), ('C' if c['bad'] == 'set' else c['set'])
    for k, v in (('--output', c['out']), ('--input-scheme', scheme), ('--cutoff-scale', c['cut']), ('--model-set', ms)):
        if v is not None:
            args += [k, v]
    files = dict(BYSTANDERS)
    name = c['name']
    files[name] = text.encode()
    if c['bad'] == 'nofile':
        name = 'missing.json'
    argv = ['wcxf2smeftsim'] + (args + [name] if c['first'] else [name] + args)
    what = ' '.join(argv)
    mass = w['basis'] == 'Warsaw mass'
    code, so, se, before, after = execute(argv, (c['answer'] + '\n').encode() if not mass else b'', files)
    target = os.path.normpath(c['out'] or 'wcxf2smeftsim_param_card.dat')
    changed = {n for n in set(before) | set(after) if before.get(n) != after.get(n)}
    check(changed <= {target}, lambda: '%s changed the files %s' % (what, sorted(changed - {target})))
    ctx.nontrivial(any(any(v) for v in w['values'].values()))
    ctx.label(c['bad'] or ('mass basis' if mass else 'other basis, answer %r' % c['answer']))
    if c['bad']:
        check(code != 0 and se.strip(), lambda: '%s: exit code %s, message %r (%s)' % (what, code, se[-200:], c['bad']))
        check(not changed, lambda: '%s: wrote the card in spite of the error (%s)' % (what, c['bad']))
        return
    if not mass:
        check('Warsaw mass' in so + se, lambda: '%s: no warning about the basis Warsaw' % what)
        if c['answer'] not in ('i', 'I'):
            check(not changed, lambda: '%s: card written although the user answered %r' % (what, c['answer']))
            return
    check(code == 0, lambda: '%s: exit code %s\n%s' % (what, code, se[-300:]))
    ms, scheme, cut = c['set'] or 'A', c['scheme'] or 'alpha', float(c['cut'] or 1000)
    card = lib.smeftsim_card_fill(lib.initialize_smeftsim_card(ms), load(text), ms, cut, scheme)
    head, tail = lib.smeftsim_card_text(ms, scheme)[:2]
    exp = head + pylha.dump(card, fmt='lha') + tail
    got = after.get(target, b'').decode('utf8')
    if got != exp:
        check(blocks_lenient(got) == blocks_lenient(exp), lambda: '%s: the card differs from the library:\n%s' % (what, first_difference(got, exp)))


def blocks_lenient(text):
    return [line.split() for line in text.split('\n') if line.split()]


def first_difference(a, b):
    for x, y in zip(a.split('\n'), b.split('\n')):
        if x.split() != y.split():
            return 'got      %s\nexpected %s' % (x, y)
    return 'lengths %d, %d' % (len(a), len(b))


# real processes ------------------------------------------------------------------------------------------------------------
def processes():
    ch = {'input': 'stdin', 'name': 'in.json', 'output': None, 'eq': False, 'first': False}
    wf = {'eft': 'WET', 'basis': 'flavio', 'scale': 160.0, 'values': {'C9_bsmumu': [1.0, 0.5], 'CVLL_bsbs': [1e-6, 0.0]}}
    ws = {'eft': 'SMEFT', 'basis': 'Warsaw', 'scale': 160.0, 'values': {'lq1_2223': [1e-8, 1e-9]}}
    out = [{'what': 'operate', 'c': {'kind': 'translate', 'wc': wf, 'to': ['JMS'], 'style': 'yaml', 'ch': dict(ch, input='file', output='out.yml'), 'fmt': 'yaml'}},
           {'what': 'validate', 'c': {'kind': 'validate', 'type': 'wc', 'bad': 'unknown', 'style': 'json', 'ch': ch,
                                      'doc': {'eft': 'WET', 'basis': 'flavio', 'scale': 160, 'values': {'nope': 1}}}},
           {'what': 'validate', 'c': {'kind': 'validate', 'type': 'wc', 'bad': None, 'style': 'json', 'ch': dict(ch, input='-'),
                                      'doc': {'eft': 'WET', 'basis': 'flavio', 'scale': 160, 'values': {'C9_bsmumu': 1}}}}]
    more = [{'what': 'operate', 'c': {'kind': 'match', 'wc': ws, 'to': ['WET', 'flavio'], 'style': 'json', 'ch': ch, 'fmt': None}},
            {'what': 'failure', 'c': {'kind': 'basis', 'to': 'nope', 'ch': ch, 'wc': wf, 'style': 'json', 'cmd': 'translate'}},
            {'what': 'failure', 'c': {'kind': 'empty', 'text': '', 'ch': ch, 'wc': wf, 'style': 'json', 'cmd': 'translate'}},
            {'what': 'failure', 'c': {'kind': 'usage', 'args': ['match', 'WET'], 'ch': ch, 'wc': wf, 'style': 'json', 'cmd': 'translate'}}]
    return {'quick': out, 'thorough': out + more}


def body_process(c, ctx):
    {'operate': body_operate, 'validate': body_validate, 'failure': body_failure}[c['what']](c['c'], ctx, real=True)
    ctx.nontrivial(True)
    # the forked runs of the other sub-checks give the same
    {'operate': body_operate, 'validate': body_validate, 'failure': body_failure}[c['what']](c['c'], type(ctx)(), real=False)


def body_nothing(c, ctx):
    code, so, se, before, after = execute(c['args'], b'', dict(BYSTANDERS))
    check(before == after, lambda: '%s changed files' % c['args'])
    check('usage' in (so + se).lower(), lambda: '%s: no usage message' % c['args'])
    check('success' not in (so + se).lower(), lambda: '%s: %r' % (c['args'], so))
    check(code == 0 or '-h' not in c['args'], lambda: '%s: exit code %s' % (c['args'], code))


HELP = [{'args': a} for a in ([['wcxf']] + [[n, '-h'] for n in sorted(COMMANDS)] + [['wcxf', s, '-h'] for s in ('convert', 'translate', 'match', 'validate')])]

SUBS = [
    Sub('convert', conversions, body_convert, 150, 1500, rule='the document is not empty'),
    Sub('translate', translations, body_operate, 150, 1500, rule='the translated coefficients do not vanish'),
    Sub('match', matchings, body_operate, 110, 1000, rule='the matched coefficients do not vanish'),
    Sub('validate', validations, body_validate, 220, 2500, rule='coefficients or sectors are present, or the input is invalid'),
    Sub('failure', failures, body_failure, 150, 2000, rule='all'),
    Sub('eos', eosfiles, body_eos, 150, 1500, rule='non-zero coefficients and a non-empty SM table'),
    Sub('dsixtools', dsix, body_dsix, 70, 800, rule='at least one non-zero coefficient'),
    Sub('smeftsim', cards, body_card, 110, 1000, rule='at least one non-zero coefficient'),
    Sub('process', None, body_process, 0, 0, examples=processes, rule='all (new interpreters)'),
    Sub('help', None, body_nothing, 0, 0, examples=HELP, rule='all'),
]
