"""Writes /verif/properties.jsonl (the statements live here, in one reviewable place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({'observe_at': observe} if observe else {}))))

prop('C01', 'WCxf files round-trip losslessly through JSON and YAML',
     'Writing any EFT, basis or Wilson-coefficient object to JSON or YAML (to a string or to a stream) and reading it back gives an object with the same EFT, basis, scale, sectors, metadata and exactly the same real and imaginary parts of every coefficient. Converting a file from YAML to JSON or back preserves its whole content, and an unparsable file or an unknown output format is reported as an error instead of producing a file.',
     ['inputs'], 'All EFT/basis/WC objects, coefficient names, finite double values, metadata, formats, stream kinds.',
     'The tests load a handful of fixed files and dump one WC; they never compare arbitrary content or numbers after a full write/read cycle in both formats.',
     ['wilson/wcxf/classes.py', 'wilson/wcxf/converters/yamljson.py'],
     [('JSON-then-YAML loading', 'WCxf.load / _load_yaml_json'), ('dump of the public attributes', 'WCxf.dump'), ('YAML representers for ordered maps and null', 'module level of wcxf/classes.py'), ('format conversion', 'converters/yamljson.py')])

prop('C02', 'Wilson coefficient objects hold exactly the numbers they were given',
     'For any set of coefficients, every way of reading a Wilson-coefficient object (dictionary, item access, data frame, file values, printed table) reports exactly the real and imaginary parts it was created from, with zero for coefficients that were not given. Validation accepts an object exactly when its EFT and its basis are defined and every coefficient name belongs to that basis, and rejects it with an error otherwise.',
     ['inputs'], 'All coefficient dictionaries (real, complex, purely imaginary, zero, integer, huge, tiny values; Re/Im given partly or as text), scales, and EFT/basis/name combinations, valid or not.',
     'Tests look at two coefficients of one file and never at validation failures.',
     ['wilson/wcxf/classes.py'],
     [('number <-> Re/Im conversion', 'WC._to_number, WC._to_complex_dict, WC.dict2values'), ('cached views', 'WC.dict, WC.df, WC.__getitem__'), ('validation', 'WC.validate')])

prop('C03', 'EFT and basis registries, inheritance and validation are consistent',
     'After any sequence of defining, redefining, deleting and clearing EFTs, bases, translators and matchers, looking up a name gives the object defined last under it and fails once it is deleted, and every listing (bases of an EFT, translators of an EFT, translators to and from a basis, all coefficients of a basis) equals what was defined. A child basis has its parent\'s sectors with its own sectors taking precedence, defining a child never changes the parent, and a missing parent is an error. Basis validation accepts exactly the bases of a defined EFT that use only its sectors and contain no coefficient in two sectors.',
     ['histories', 'inputs'], 'All sequences of registry operations over small name sets, all sector layouts, parents and children.',
     'Tests define three fixed bases once, in one order.',
     ['wilson/wcxf/classes.py'],
     [('instance registry', 'NamedInstanceClass'), ('inheritance', 'Basis.__init__'), ('validation', 'Basis.validate'), ('listings', 'EFT.known_bases, EFT.known_translators, Basis.known_translators, Basis.all_wcs')])

prop('C04', 'Translate and match apply exactly the registered conversion',
     'Translating (or matching) an object applies exactly the conversion registered for its EFT and basis and the requested target, handing it the coefficients as numbers, the scale, the user\'s parameters and (if given) the requested sectors; the result is labelled with the target EFT and basis, keeps the scale, and contains precisely the non-zero coefficients the conversion returned. Asking for the current basis returns the object itself, asking for a conversion that is not registered is an error, and the input object is never modified.',
     ['inputs', 'histories'], 'All registered and user-defined conversions, coefficient sets, parameters and sector selections.',
     'Tests register one identity translator and one identity matcher.',
     ['wilson/wcxf/classes.py', 'wilson/translate/__init__.py', 'wilson/match/__init__.py'],
     [('dispatch', 'WC.translate, WC.match'), ('application', 'Translator.translate, Matcher.match'), ('registration', 'translator / matcher decorators')])

prop('C05', 'Index symmetries: file form and full tensors of coefficients agree',
     'Expanding any set of SMEFT or WET coefficients (non-redundant file form) into full flavour tensors yields tensors that obey the index symmetries of their operator class and contain the given values, in either normalisation (with or without symmetry factors); reducing the tensors gives back exactly the original coefficients. Symmetrising is idempotent, changes nothing in tensors that are already symmetric, and packing coefficients into a flat vector and back, padding and unpadding are lossless.',
     ['inputs'], 'All coefficient sets of the SMEFT and WET bases and all complex tensors of every symmetry class (Hermitian, symmetric, current-current, Fierz-related, baryon-number violating, antisymmetric).',
     'Tests check a few symmetric entries per class on one random point and no round trip for every class, partial input or the WET tensors.',
     ['wilson/util/common.py', 'wilson/util/wet_jms.py', 'wilson/translate/smeft.py'],
     [('per-class symmetrisation', 'EFTutil.symmetrize*, wet_jms.symmetrize_JMS_dict'), ('normalisation with symmetry factors', 'EFTutil.scale_dict, unscale_dict, scale_8, unscale_8, wet_jms.scale_dict_wet'), ('expansion and reduction', 'EFTutil.wcxf2arrays_symmetrized, arrays2wcxf_nonred, wcxf2arrays, arrays2wcxf'), ('vector packing', 'EFTutil.C_array2dict, C_dict2array, pad_C, unpad_C')])

prop('C06', 'Flavour rotations act on every SMEFT operator as the U(3)^5 group',
     'Rotating the five fermion fields by unitary matrices multiplies each flavour index of every SMEFT coefficient by the matrix of its own field (conjugated for conjugated fields): rotations compose as the matrices do, the identity changes nothing, the inverse undoes it, index symmetries, Hermiticity and norms are preserved, and purely bosonic coefficients do not change. Coefficients that are absent stay absent, and the result for one operator does not depend on which others are present.',
     ['inputs'], 'All tuples of unitary matrices and all subsets and values of the 64 operators.',
     'No test rotates with generic matrices; translations only ever rotate one field by one fixed CKM matrix.',
     ['wilson/util/smeft_warsaw.py', 'wilson/run/smeft/classes.py'],
     [('rotation', 'smeft_warsaw.flavor_rotation'), ('rotation with SM parameters', 'SMEFT._flavor_rotation')])

prop('C07', 'SMEFT basis changes are invertible and use the requested CKM matrix',
     'Translating SMEFT coefficients between the Warsaw, Warsaw-up and Higgs-Warsaw bases and back returns the original coefficients for any coefficients and any CKM parameters, direct and two-step routes agree, and the maps are linear over the reals, independent of the scale, and valid in their target basis. The change from Warsaw to Warsaw-up is the rotation of the left-handed quark doublet by the CKM matrix built from the given parameters; the Warsaw-mass basis changes only the up-type dipole and Yukawa operators (by the same matrix) and the neutrino mass operator, which becomes diagonal with its singular values.',
     ['inputs'], 'All SMEFT coefficient sets, CKM angles/phase and input masses and couplings.',
     'Tests compare single points at default parameters.',
     ['wilson/translate/smeft.py', 'wilson/translate/smeft_higgs.py', 'wilson/translate/__init__.py'],
     [('CKM rotation', 'warsaw_to_warsaw_up, warsaw_up_to_warsaw'), ('mass basis', 'warsaw_to_warsawmass'), ('Higgs basis', 'higgslike_to_warsaw_up, warsaw_up_to_higgslike')])

prop('C08', 'WET translations between JMS, flavio, Bern and FlavorKit are consistent',
     'For WET, WET-4 and WET-3, translating a coefficient set to another basis and back (JMS-flavio, JMS-Bern, flavio-Bern) reproduces every coefficient that has a counterpart, direct and two-step routes agree, and the maps are linear over the reals with results valid in the target basis. Restricting a translation to some sectors leaves the coefficients of those sectors exactly as in the full translation, coefficients of one sector never leak into another, the coefficients are those of the published basis definitions, and the parameters given (masses, couplings, CKM, Fermi constant) are the ones used.',
     ['inputs', 'configurations'], 'All coefficient sets, scales, parameters, sector selections, EFT flavours and basis pairs.',
     'Tests use a few coefficients or one random point at default parameters and mostly compare only some coefficients.',
     ['wilson/translate/wet.py', 'wilson/translate/__init__.py', 'wilson/util/wet_jms.py', 'wilson/data'],
     [('translators', 'JMS_to_flavio, flavio_to_JMS, JMS_to_Bern, Bern_to_JMS, flavio_to_Bern, Bern_to_flavio, FlavorKit_to_JMS, JMS_to_FlavorKit'), ('running input parameters', 'get_parameters'), ('sector filter', 'JMS_to_array, JMS_to_flavio, ...')])

prop('C09', 'One-way WET exports (EOS, FormFlavor) are correct for every input',
     'Exporting any WET coefficient set from JMS to EOS or FormFlavor succeeds, is linear over the reals, is valid in the target basis and agrees with the published definitions: in particular coefficients whose basis declares them real (the Re{}/Im{} parts) come out real, and quark/lepton and chirality counterparts are normalised and conjugated alike. Each coefficient depends only on coefficients with its own flavour content.',
     ['inputs', 'configurations'], 'All JMS coefficient sets, scales and parameters.',
     'No stable test executes these exports; the EOS one could not run at all.',
     ['wilson/translate/wet.py', 'wilson/translate/__init__.py'],
     [('EOS', 'JMS_to_EOS'), ('FormFlavor', 'JMS_to_FormFlavor')])

prop('C10', 'Tree-level SMEFT-to-WET matching reproduces the published result',
     'Matching any SMEFT coefficient set onto the WET at tree level gives the published tree-level matching conditions for every WET operator, with the user\'s input parameters: no coefficients in means none out, small coefficients enter linearly, Hermitian and other index symmetries hold, baryon and lepton number are conserved, and matching from the Warsaw or the Warsaw-up basis onto any other available WET basis (flavio, Bern, EOS) is the same as matching onto JMS and translating. The result contains only coefficients of the target basis.',
     ['inputs', 'configurations'], 'All SMEFT coefficient sets, parameters, and basis pairs.',
     'Tests check selected coefficients at one point.',
     ['wilson/match/smeft.py', 'wilson/match/smeft_tree.py', 'wilson/match/__init__.py', 'wilson/util/wet_jms.py'],
     [('tree matching', 'smeft_tree.match_all_array'), ('rotation and normalisation', 'smeft.match_all, translate.wet.rotate_down, wet_jms.unscale_dict_wet')])

prop('C11', 'One-loop SMEFT-to-WET matching is an opt-in, SM-subtracted correction',
     'Unless one-loop matching is requested the matching is tree-level, and requesting it adds the published one-loop terms: their dependence on the matching scale is that of the logarithms, they vanish when all SMEFT coefficients vanish, for small coefficients they are linear, and they obey the same Hermiticity and number-conservation laws as the tree-level result. The user\'s W mass, fermion masses, couplings and CKM parameters are the ones used (the Higgs and top masses inside the loop functions are fixed numbers).',
     ['inputs', 'configurations'], 'All SMEFT coefficient sets, scales and parameters.',
     'Tests compare a few operators with reference numbers at one scale.',
     ['wilson/match/smeft_loop.py', 'wilson/match/smeft.py'],
     [('loop matching', 'smeft_loop.match_all_array'), ('switch', 'smeft.match_all loop_order, Wilson.matching_parameters')])

prop('C12', 'Crossing a quark threshold keeps exactly the light-flavour coefficients',
     'Matching WET to WET-4, WET-4 to WET-3 or WET-3 to WET-2 in any available basis keeps exactly those coefficients that exist in the lower theory, with unchanged values and scale, and drops all others. Doing so commutes with translating between bases, and running across thresholds in one call is the same as running to each threshold, matching there and running on.',
     ['inputs'], 'All coefficient sets, scales and bases.',
     'Tests match one file per threshold and check a few coefficients.',
     ['wilson/match/__init__.py'],
     [('threshold matchers', 'wet_wet4_*, wet4_wet3_*, wet3_wet2_jms')])

prop('C13', 'The SMEFT beta functions are flavour covariant and the published ones',
     'For any couplings and coefficients the SMEFT beta functions equal the published one-loop renormalisation group equations: rotating the fermion fields of the input rotates the beta functions, index symmetries and Hermiticity are preserved, beta functions of dimension-6 coefficients are linear in the dimension-6 coefficients, and coefficients violating baryon or lepton number mix only among coefficients violating them in the same way. With new-physics contributions switched off, the couplings run as in the Standard Model and the coefficients do not run; the vector and dictionary forms agree and inputs are never modified.',
     ['inputs'], 'All gauge, Yukawa, Higgs couplings and Wilson coefficients.',
     'Tests compare one numeric point.',
     ['wilson/run/smeft/beta.py'],
     [('beta functions', 'beta.beta, beta.beta_array')])

prop('C14', 'SMEFT evolution solves the renormalisation group equation',
     'Evolving SMEFT coefficients between two scales solves the one-loop equations to the requested precision: evolving to the same scale changes nothing, going through an intermediate scale or back and forth gives the same result, the leading-log result is the first-order term in the logarithm with exact linear dependence on it, and the integrated result approaches it for small intervals. Results are expressed in the basis where down-quark and charged-lepton mass matrices are diagonal with the standard CKM phase convention, are valid Warsaw coefficients at the requested scale, and the caller\'s object is not modified.',
     ['inputs', 'configurations'], 'All coefficient sets, pairs of scales, accuracies and solver options.',
     'Tests run one or two points and compare with a stored output.',
     ['wilson/run/smeft/rge.py', 'wilson/run/smeft/classes.py'],
     [('integration', 'rge.smeft_evolve'), ('leading log', 'rge.smeft_evolve_leadinglog'), ('API', 'SMEFT.run, SMEFT._rotate_defaultbasis')])

prop('C15', 'SM parameter extraction inverts the SMEFT relations',
     'For any set of Wilson coefficients for which a solution exists, the Lagrangian parameters determined from the measured masses, couplings and mixings reproduce exactly those inputs when the observables are computed back from them (up to effects quadratic in the coefficients where the relations are linearised); Higgs potential parameters and physical vev and mass are exact inverses of each other. Where no physical solution exists an error is raised, and after automatic initialisation at any scale the Standard Model inputs are reproduced at the electroweak scale.',
     ['inputs'], 'All coefficient values (zero, small, large, either sign), both flavour bases, all scales.',
     'Tests use one point.',
     ['wilson/run/smeft/smpar.py', 'wilson/run/smeft/classes.py'],
     [('Higgs sector', 'm2Lambda_to_vMh2, vMh2_to_m2Lambda'), ('gauge sector', 'get_gpbar'), ('all', 'smeftpar, smpar'), ('initialisation', 'SMEFT._get_sm_scale_in, SMEFT.get_smpar')])

prop('C16', 'WET running is a linear, reversible, flavour-blind evolution',
     'Running WET, WET-4 or WET-3 coefficients is linear, does nothing between equal scales, composes over intermediate scales and is undone by running back (exactly in QCD, up to higher orders in QED), using the published anomalous dimensions. Sectors evolve independently (restricting to sectors selects them from the full result), sectors related by relabelling flavours evolve alike, coefficients that are invariant under the strong and electromagnetic interactions do not run, real coefficients stay real, and theories with fewer flavours evolve only the coefficients they contain. Switching off the QCD or QED order removes just that contribution, and the parameters given are used.',
     ['inputs', 'configurations'], 'All coefficient sets, scales, sector selections, orders, parameters and flavour numbers.',
     'Tests run random points and check that something comes out.',
     ['wilson/run/wet/rge.py', 'wilson/run/wet/adm.py', 'wilson/run/wet/classes.py', 'wilson/run/wet/definitions.py'],
     [('evolution matrices', 'rge.getUs, rge.getUe'), ('sector evolution', 'rge.run_sector, rge.scale_C'), ('anomalous dimensions', 'adm.adm_s_*, adm.adm_e_*'), ('API', 'WETrunner.run')])

prop('C17', 'Running and matching results never depend on earlier calls',
     'What a Wilson object returns for a target scale, EFT, basis and sector selection depends only on its coefficients and current options: it is the same on a fresh object, after any sequence of other requests, after options were changed and changed back, and whatever other objects did. It equals the explicit chain of translating, running, matching at the configured thresholds and running again, restricted to the requested sectors; every result is labelled with the requested scale, EFT and basis, and unsupported requests are errors.',
     ['histories', 'configurations'], 'All sequences of requests and option changes on one or several Wilson objects.',
     'Tests call match_run once or twice per object with default options.',
     ['wilson/classes.py'],
     [('cache', 'Wilson._get_from_cache, _set_cache, clear_cache'), ('chain', 'Wilson.match_run')])

prop('C18', 'Options are validated, isolated per object and take effect',
     'Setting an option changes exactly that option of exactly that object, setting a default affects exactly the objects created later, invalid names or values are rejected with an error and change nothing, and reading an option returns the value last set. Parameters set by the user override exactly the defaults they name (with the deprecated name for the CKM phase still accepted), the user\'s dictionary is not modified, cached results are discarded, and the hash of an object reflects its coefficients and option values.',
     ['histories', 'inputs'], 'All sequences of option operations on several objects and the class.',
     'Tests set two options.',
     ['wilson/classes.py', 'wilson/parameters.py'],
     [('options', 'ConfigurableClass.set_option, set_default_option, get_option'), ('parameters', 'Wilson.parameters, Wilson.matching_parameters'), ('hash', 'Wilson.__hash__')])

prop('C19', 'Running strong coupling and quark masses follow QCD evolution',
     'For every admissible scale, flavour number (3 to 6 for the coupling and the b quark mass, 3 to 5 for the lighter quark masses), reference value and loop order, the strong coupling and the b, c and s masses are the QCD renormalisation-group evolution of the given reference value, with decoupling at the fixed heavy-quark thresholds: the reference value is reproduced at its own scale, values decrease with the scale, and evolution is consistent between scales. Non-positive scales, unsupported flavour numbers and scales too low for perturbation theory are errors, and results do not depend on earlier calls.',
     ['inputs', 'histories'], 'All scales, flavour numbers, reference values, loop orders and call sequences.',
     'Tests compare a dozen fixed points, nearly all with the default reference value and loop order.',
     ['wilson/util/qcd.py'],
     [('coupling', 'qcd.alpha_s'), ('masses', 'qcd.m_b, qcd.m_c, qcd.m_s'), ('argument checks', 'qcd._sane'), ('memoisation', 'lru_cache')])

prop('C20', 'The command-line tools do exactly what the library does',
     'For any input file, the wcxf command (convert, translate, match, validate) and the wcxf2eos, wcxf2dsixtools, dsixtools2wcxf and wcxf2smeftsim commands write exactly what the corresponding library operation produces, in the requested format, to the requested output file or standard output, reading from the named file or standard input. Input that is not valid or not convertible ends in an error and no success message; existing files other than the requested output are untouched.',
     ['inputs', 'configurations'], 'All valid and invalid WCxf inputs, subcommands, formats, and input/output channels.',
     'The CLI tests run three fixed files and mostly check exit codes; none runs in the stable set.',
     ['wilson/wcxf/cli.py', 'wilson/wcxf/converters/yamljson.py'],
     [('argument handling', 'cli.wcxf_cli and entry points'), ('commands', 'cli.convert, translate, match, validate, eos, smeftsim, wcxf2dsixtools, dsixtools2wcxf')])

prop('C21', 'Export to DsixTools, SMEFTsim and EOS preserves every coefficient',
     'Writing SMEFT coefficients as a DsixTools file and reading it back returns the same coefficients, scale and basis. A SMEFTsim card contains for every coefficient of its model set the dimensionless value at the given cutoff scale, real and imaginary parts in the right entry, and the requested input scheme. EOS parameter values are the tabulated Standard Model value plus the real or imaginary part of the coefficient of that name, lepton-universal entries require universal coefficients and otherwise raise an error.',
     ['inputs'], 'All coefficient sets, cutoff scales, schemes, model sets and SM tables.',
     'Tests convert one example file each.',
     ['wilson/wcxf/converters/dsixtools.py', 'wilson/wcxf/converters/smeftsim.py', 'wilson/wcxf/converters/eos.py'],
     [('DsixTools', 'dsixtools.wcxf2dsixtools, dsixtools2wcxf'), ('SMEFTsim', 'smeftsim.smeftsim_card_fill'), ('EOS', 'eos.wcxf2eos, get_eos_np, get_sm_wcs')])

prop('C22', 'Continuous solutions agree with point-to-point running',
     'A continuous solution of the SMEFT or WET evolution takes the input values at the input scale, the run values at the final scale, and agrees in between with running to that scale, for scales above or below the input. Plot data cover exactly the interval with the requested number and spacing (logarithmic or linear) of points and give the real or imaginary part of the requested quantity; asking for a solution to the input scale itself is an error.',
     ['inputs'], 'All coefficient sets, scales, directions, steps, spacings and parts.',
     'Tests draw one plot.',
     ['wilson/classes.py', 'wilson/run/smeft/rge.py', 'wilson/run/smeft/classes.py', 'wilson/run/wet/classes.py'],
     [('continuous solutions', 'SMEFT.run_continuous, WETrunner.run_continuous, rge.smeft_evolve_continuous'), ('plot data', 'RGsolution.plotdata')])

prop('C23', 'Calculations can be interrupted, stored, restarted, split and restated',
     'The result of match_run does not depend on how the calculation is organised: stopping at a threshold (electroweak, b or c matching scale, before or after the heavy particles are removed), storing the intermediate coefficients as JSON or YAML or passing them on directly, and starting again from there gives the result of the single calculation; so does giving the input in another basis of the same EFT after translating it. The result for a sum of coefficient sets is the sum of the results (in the SMEFT for small coefficients). Sectors requested together, one after the other, in another order or with everything else give the same coefficients, each of which belongs to exactly one requested sector. The numeric type in which scales and coefficients are given makes no difference.',
     ['inputs'], 'All coefficient sets, EFTs, bases, scales, thresholds, options and sector selections.',
     'Tests run one calculation in one go.',
     ['wilson/classes.py', 'wilson/wcxf/classes.py', 'wilson/run/wet/classes.py', 'wilson/run/wet/rge.py', 'wilson/run/smeft/classes.py', 'wilson/match/__init__.py', 'wilson/translate/__init__.py'],
     [('one calculation', 'Wilson.match_run'), ('stored coefficients', 'WC.dump, WC.load, WC.dict2values, Wilson.from_wc, Wilson.load_wc'), ('evolution', 'WETrunner.run, SMEFT.run'), ('matching', 'WC.match, match.match_JMS_*')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    print(len(P), 'properties')
