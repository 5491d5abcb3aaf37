#!/usr/bin/env python3
"""Rebuild the basis definition files (the empty git submodule wilson/wcxf/bases).

Development tool only: it was run once on the pinned commit and its output is
committed in /verif/fixtures/bases.  No check runs it.

Sources (all inside /repo or the published conventions the repo's tests quote):
 * WET/JMS   : wilson/data/run_wet_definitions_coeffs.json (sector -> coefficients),
               'real' flags from the index symmetries of each operator class,
               totals cross-checked against table 22 of arXiv:1709.04486.
 * SMEFT     : operator names/classes from util/test_smeftutil.py, index sets from
               wcxf/data/test.Warsaw_mass.yml, count 2499 cross-checked.
 * the other WET bases: names that the translators emit, sector by sector.
"""
import json, os, sys, re, itertools
import yaml
REPO = '/repo/wilson'
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'fixtures', 'bases')

def dump(path, obj):
    with open(os.path.join(OUT, path), 'w') as f:
        json.dump(obj, f, indent=1)
        f.write('\n')

def wcd(real):
    return {'real': True} if real else {}

# ---------------------------------------------------------------- JMS
K4 = ['VuuRR', 'VddRR', 'VuuLL', 'VddLL']
K5 = ["VnueLL", "VnuuLL", "VnudLL", "VeuLL", "VedLL", "V1udLL", "V8udLL", "VeuRR", "VedRR",
      "V1udRR", "V8udRR", "VnueLR", "VeeLR", "VnuuLR", "VnudLR", "VeuLR", "VedLR", "VueLR",
      "VdeLR", "V1uuLR", "V8uuLR", "V1udLR", "V8udLR", "V1duLR", "V8duLR", "V1ddLR", "V8ddLR"]
K6 = ['VeeLL', 'VeeRR', 'VnunuLL']
def herm_real(name, idx):
    i, j, k, l = idx
    conj = (j, i, l, k)
    if name in K5: orbit = {(i, j, k, l)}
    elif name in K4: orbit = {(i, j, k, l), (k, l, i, j)}
    elif name in K6: orbit = {(i, j, k, l), (k, l, i, j), (k, j, i, l), (i, l, k, j)}
    else: return False
    return conj in orbit
def jms_real(wc):
    if '_' not in wc: return True
    n, ind = wc.split('_')
    return len(ind) == 4 and herm_real(n, ind)

def content(name):
    """JMS operator name -> fermion letters of the 4 (2) slots"""
    m = re.match(r'(?:V1|V8|S1|S8|V|S|T)?(nunu|nueddu|nuedu|nue|nuu|nud|ee|eu|ed|ue|de|uddu|dd|uu|ud|du|)(?:LL|RR|LR|RL)?$', name)
    special = {'egamma': 'ee', 'uG': 'uu', 'dG': 'dd', 'ugamma': 'uu', 'dgamma': 'dd',
               'SuudLR': 'uude', 'SuudRL': 'uude', 'SdduRL': 'dduN', 'SuddLL': 'uddN',
               'SduuLL': 'duue', 'SduuLR': 'duue', 'SduuRL': 'duue', 'SduuRR': 'duue', 'SdudRL': 'dudN'}
    if name in special: return special[name]
    base = re.sub(r'(LL|RR|LR|RL)$', '', name)
    base = re.sub(r'^(V1|V8|S1|S8|V|S|T)', '', base)
    toks = re.findall(r'nu|e|u|d', base)
    toks = ['N' if t == 'nu' else t for t in toks]
    if len(toks) == 2: return toks[0] * 2 + toks[1] * 2
    assert len(toks) == 4, name
    return ''.join(toks)
FL = {'u': 'uc', 'd': 'dsb', 'e': ['e', 'mu', 'tau'], 'N': ['n1', 'n2', 'n3']}
def flavors(wc):
    if '_' not in wc: return set()
    n, ind = wc.split('_')
    c = content(n)
    return {FL[a][int(i) - 1] for a, i in zip(c, ind)}

def restrict(sectors, keep):
    out = {}
    for s, wcs in sectors.items():
        k = {w: v for w, v in wcs.items() if keep(w)}
        if k: out[s] = k
    return out

coeffs = json.load(open(REPO + '/data/run_wet_definitions_coeffs.json'))
jms = {s: {c: wcd(jms_real(c)) for c in cs} for s, cs in coeffs.items()}
ntot = sum(1 if v else 2 for s in jms.values() for v in s.values())
want = 1+87+186+76+21+66+76+90+252+266+171+45+342+254+1+66+156+51+15+51+51+72+207+216+171+45+342+254+9+9+26+26+288*2
assert ntot == want, (ntot, want)

# ---------------------------------------------------------------- SMEFT
d = yaml.safe_load(open(REPO + '/wcxf/data/test.Warsaw_mass.yml'))['values']
order0 = ["G", "Gtilde", "W", "Wtilde", "phi", "phiBox", "phiD", "phiG", "phiB", "phiW", "phiWB",
          "phiGtilde", "phiBtilde", "phiWtilde", "phiWtildeB"]
order2 = ["uphi", "dphi", "ephi", "eW", "eB", "uG", "uW", "uB", "dG", "dW", "dB", "phil1", "phil3",
          "phie", "phiq1", "phiq3", "phiu", "phid", "phiud", "llphiphi"]
order4 = ["ll", "qq1", "qq3", "lq1", "lq3", "ee", "uu", "dd", "eu", "ed", "ud1", "ud8", "le", "lu",
          "ld", "qe", "qu1", "qd1", "qu8", "qd8", "ledq", "quqd1", "quqd8", "lequ1", "lequ3",
          "duql", "qque", "qqql", "duue"]
order = order0 + order2 + order4
bnv = {'duql', 'qque', 'qqql', 'duue'}
byname = {}
for k, v in d.items():
    byname.setdefault(k.split('_')[0], []).append((k, not isinstance(v, dict)))
assert set(byname) == set(order)
s0, s1, s2, m2 = {}, {}, {}, {}
for n in order:
    for k, real in sorted(byname[n]):
        if n in bnv: s1[k] = wcd(real)
        elif n == 'llphiphi': m2[k] = wcd(True)
        else: s0[k] = wcd(real)
for i in range(1, 4):
    for j in range(i, 4):
        s2[f'llphiphi_{i}{j}'] = {}
# duql & co are all complex
s1 = {k: {} for k in s1}
n = sum(1 if v else 2 for v in s0.values())
assert n == 2499, n
# order inside a basis: 0f, 2f (with llphiphi last), 4f, bnv
warsaw = {'dB=dL=0': s0, 'dL=2': s2, 'dB=dL=1': s1}
dump('smeft.eft.json', {'eft': 'SMEFT', 'sectors': {k: {} for k in warsaw},
     'metadata': {'description': 'Standard Model Effective Field Theory'}})
def basis(eft, name, sectors, parent=None, fn=None):
    o = {'eft': eft, 'basis': name}
    if parent: o['parent'] = parent
    o['sectors'] = sectors
    dump((('child/' if parent else '') + f'{eft}.{name}.basis.json'.lower().replace(' ', '_')), o)
basis('SMEFT', 'Warsaw', warsaw)
basis('SMEFT', 'Warsaw up', {}, parent='Warsaw')
basis('SMEFT', 'Warsaw mass', {'dL=2': m2}, parent='Warsaw')
higgs = {}
dropped = {"phi", "phiBox", "phiD", "phiG", "phiB", "phiW", "phiWB", "phiGtilde", "phiBtilde",
           "phiWtilde", "phiWtildeB", "phil1", "phil3", "phie", "phiq1", "phiq3", "phiu", "phid", "phiud"}
for k in ['deltacz', 'deltalambda3', 'czBox', 'czz', 'czgamma', 'cgammagamma', 'cgg',
          'cggtilde', 'czztilde', 'czgammatilde', 'cgammagammatilde']:
    higgs[k] = wcd(True)
for n in ['deltagWlL', 'deltagZeL', 'deltagZeR', 'deltagZuL', 'deltagZdL', 'deltagZuR', 'deltagZdR']:
    for i in range(1, 4):
        for j in range(i, 4):
            higgs[f'{n}_{i}{j}'] = wcd(i == j)
for i in range(1, 4):
    for j in range(1, 4):
        higgs[f'deltagWqR_{i}{j}'] = {}
for k, v in s0.items():
    if k.split('_')[0] not in dropped: higgs[k] = v
assert sum(1 if v else 2 for v in higgs.values()) == 2499
basis('SMEFT', 'Higgs-Warsaw up', {'dB=dL=0': higgs}, parent='Warsaw')

# ---------------------------------------------------------------- WET families
drop = {'WET': set(), 'WET-4': {'b'}, 'WET-3': {'b', 'c', 'tau'}, 'WET-2': {'b', 'c', 's', 'tau'}}
def keep_jms(eft):
    bad = drop[eft]
    return lambda w: not (flavors(w) & bad)
JMS = {e: restrict(jms, keep_jms(e)) for e in drop}
for e in drop:
    dump(f'{e.lower()}.eft.json', {'eft': e, 'sectors': {s: {} for s in JMS[e]}})
    basis(e, 'JMS', JMS[e])

if len(sys.argv) > 1 and sys.argv[1] == 'stage2':
    # needs an importable wilson with the stage-1 files in place
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
    import overlay
    overlay.activate()
    import warnings; warnings.simplefilter('ignore')
    import numpy as np
    from wilson import wcxf
    from wilson.translate import wet
    rng = np.random.default_rng(0)
    par = {'GF': 1.1663787e-5}
    def probe(func, eft, seen_only=None):
        sectors = {}
        real = {}
        allkeys = None
        for s, wcs in JMS[eft].items():
            nz = {}
            for _ in range(3):
                C = {w: (rng.normal() if v else rng.normal() + 1j * rng.normal()) for w, v in wcs.items()}
                out = func(C)
                if allkeys is None: allkeys = list(out)
                for k, v in out.items():
                    v = complex(np.asarray(v).ravel()[0])
                    if v != 0:
                        nz[k] = nz.get(k, True) and v.imag == 0
            for k, r in nz.items():
                sectors.setdefault(s, {})
                if k in real and k not in sectors[s]:
                    print('  key in two sectors', eft, func, k, s)
                    continue
                sectors[s][k] = wcd(r)
                real[k] = r
        missing = [k for k in allkeys if k not in real]
        print(func, eft, len(real), 'never nonzero:', missing[:20], len(missing))
        return sectors
    fl = lambda C: wet.JMS_to_flavio(C, 5.)
    be = lambda C: wet.JMS_to_Bern(C, 5.)
    eos = lambda C: wet.JMS_to_EOS(C, 5.)
    ff = lambda C: wet.JMS_to_FormFlavor(C, 5.)
    # stub bases so the translators can look up names: not needed for JMS_to_X
    for e in ['WET', 'WET-4', 'WET-3']:
        basis(e, 'flavio', probe(fl, e))
        basis(e, 'Bern', probe(be, e))
    basis('WET', 'EOS', probe(eos, 'WET'))
    basis('WET', 'formflavor', probe(ff, 'WET'))
    fk = json.load(open(REPO + '/data/flavorkit_jms.json'))
    fkc = json.load(open(REPO + '/data/flavorkit_jms_conj.json'))
    m = {**fk, **fkc, 'AVLL_2231': 'VeeLL_1223', 'AVRR_2231': 'VeeRR_1223'}
    for i in '123':
        for j in '123':
            if i != j: m['K2R_' + i + j] = 'egamma_' + j + i
    sec = {}
    where = {w: (s, v) for s, wcs in jms.items() for w, v in wcs.items()}
    for k, w in m.items():
        if w not in where:
            print('flavorkit target not in JMS', k, w); continue
        s, v = where[w]
        sec.setdefault(s, {})[k] = v
    basis('WET', 'FlavorKit', sec)
