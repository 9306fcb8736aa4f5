"""Writes /verif/properties.jsonl (run by hand when the properties change)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     state=[dict(name=n, meaning=m) for n, m in (state or [])],
                     observe_at=observe or [], hook_needed=None)))
PK, HMI, HOD, IA, BNL, ADD, FW = ('src/onepower/'+f for f in ('pk.py','hmi.py','hod.py','ia.py','bnl.py','add.py','utils/framework.py'))
POI='src/onepower/utils/poisson.py'; IF='cosmosis_modules/onepower_interface.py'

prop('C01','Updating a model gives the same results as building it afresh',
 'After any sequence of parameter updates, clones and reads of results, every result read from an object equals the result of a newly built object that was given the final parameter values directly. This holds for the power-spectrum model, the halo-model ingredients, the upsampled/mixed spectra, the satellite-alignment object and the non-linear bias object, whichever parameters changed and in whichever order results were read in between.',
 ['histories','configurations'],'All sequences of construct / read / update / clone operations over all parameters of the public classes, including switches of non-linear mode, ingredients, HOD model, grids, cosmology, and parameters going to or from None.',
 'Tests build an object, read once and stop; the few update tests change one parameter. Staleness depends on which results were read before which update.',
 [PK,HMI,IA,BNL,ADD,FW],[('tracked parameters and cached quantities','all classes'),('re-indexing of stale dependencies on update',FW)],
 [('cache','computed quantities kept until a parameter they depend on changes')],['power_spectrum_*','hod','mass, dndlnm, halo_bias, u_dm ...','SatelliteAlignment.upsampled_wkm','NonLinearBias.bnl','UpsampledSpectra.results'])
prop('C02','Objects are isolated: inputs, clones, other objects, earlier results',
 'Computing results never changes the arrays or dictionaries the caller passed in, and reading one result never changes another: the values do not depend on the order of reads and repeated reads agree. Working with or updating one object never changes the results of another object built from the same inputs or cloned from it or set up with another cosmology, nor results already handed out.',
 ['histories','inputs'],'All interleavings of construct / read / update / clone over several objects that share input arrays and dictionaries or differ in cosmology.',
 'Tests use one object at a time and never re-read inputs or earlier results afterwards.',
 [PK,HMI,HOD,IA,ADD],[('copies of caller dictionaries in the parameter setters',PK+', '+HMI),('in-place arithmetic only on freshly built arrays',PK)],
 [('shared inputs','arrays and dictionaries reachable from several objects')],['caller-owned inputs before/after','power_spectrum_*'])
prop('C03','Every spectrum has the promised shape, is finite, and total = 1h + 2h',
 'For every supported configuration each spectrum has shape (observable bins, redshifts, wavenumbers), contains no NaN or infinity, and its total equals the one-halo plus the two-halo term (matter in the HMCode mode: the smoothed sum of both; response mode: total equals the supplied non-linear spectrum and its split is zero). Matter and galaxy one-halo terms are non-negative.',
 ['configurations','inputs'],'All supported combinations of cosmology, grids, mass function, bias, ingredients, HOD model with any number of bins, alignment options and non-linear modes.',
 'Tests check shapes and sums on a couple of default configurations.',
 [PK],[('power_spectrum_mm/gg/gm/mi/ii/gi',PK)],None,['power_spectrum_*.pk_1h/pk_2h/pk_tot/galaxy_linear_bias'])
prop('C04','On large scales spectra reduce to bias times the linear spectrum',
 'All mass is accounted for: on the largest scales the matter two-halo term equals the linear power spectrum, the galaxy two-halo term equals linear bias squared times it and the galaxy-matter two-halo term equals linear bias times it, with the galaxy bias the occupation-weighted mean halo bias. One-halo terms vanish there, and the fraction of mass and bias missing below the lowest halo mass is compensated exactly.',
 ['inputs','configurations'],'All cosmologies, redshifts, mass ranges (including ones that miss most of the mass), mass functions, bias models and HODs, at small wavenumber.',
 'Tests do not compare to the large-scale limit at all.',
 [PK,HOD],[('missing-mass correction',PK),('HOD linear bias',HOD)],None,['power_spectrum_mm/gg/gm at small k','galaxy_linear_bias'])
prop('C05','The matter power spectrum equals the halo-model definition',
 'For every configuration (standard, HMCode-2020 with and without baryonic feedback, feedback from an observed stellar fraction) the one-halo, two-halo and total matter spectra equal the values from directly evaluating the halo-model integrals and published damping and smoothing formulas at each redshift and wavenumber separately.',
 ['inputs','configurations'],'All cosmologies, redshift and wavenumber grids, mass ranges, ingredient models and modes of the matter spectrum.',
 'Tests compare nothing but shapes or a few values for one configuration.',
 [PK,HMI],[('matter spectrum, matter profiles, truncations, transition smoothing',PK),('per-redshift halo ingredients',HMI)],None,['power_spectrum_mm'])
prop('C06','Galaxy-galaxy and galaxy-matter spectra equal the halo-model definition',
 'For every HOD model, number of observable bins, Poisson model, truncation setting and matter-feedback option, the one- and two-halo terms, totals and linear biases of the galaxy auto- and galaxy-matter spectra equal direct evaluation of the halo-model integrals over central and satellite occupations, bin by bin and redshift by redshift.',
 ['inputs','configurations'],'All HOD models and settings, Poisson models, cosmologies, grids, truncation wavenumbers including none, feedback and point-mass options.',
 'Tests check shapes for the default HOD and one bin.',
 [PK,HOD,POI],[('central and satellite profiles, 1h/2h terms',PK),('satellite variance factor',POI)],None,['power_spectrum_gg','power_spectrum_gm'])
prop('C07','Intrinsic-alignment spectra equal the halo-model definition',
 'For every alignment option the matter-intrinsic, intrinsic-intrinsic and galaxy-intrinsic spectra equal direct evaluation of the alignment halo model: the central term scales with the two-halo amplitude, density and growth, the satellite term with the one-halo amplitude and its radial profile, both with the scaling in the mean mass of the haloes hosting the centrals where requested, in each of the non-linear modes.',
 ['inputs','configurations'],'All alignment parameters (amplitudes, slopes, pivots, luminosity or mass or no dependence), HODs, truncations, cosmologies, grids and non-linear modes.',
 'Tests check shapes and a few formulas for one parameter set.',
 [PK,IA],[('alignment profiles and 2h amplitudes',PK),('alignment amplitudes, radial profile',IA)],None,['power_spectrum_mi','power_spectrum_ii','power_spectrum_gi'])
prop('C08','Halo occupations and derived galaxy statistics follow their HOD model',
 'For each of the five HOD models, mean central and satellite occupations equal the model formula at every halo mass, bin and redshift (including assembly-bias terms), and number densities, satellite and central fractions, mean halo masses, stellar fractions and linear biases are the corresponding integrals over the halo mass function. Occupations are non-negative, central and satellite fractions add to one wherever the bin is defined, and bins never influence each other.',
 ['inputs','configurations'],'All parameters of the five models, any number of bins, per-bin parameters, observable limits from settings or from a file, any redshift range.',
 'Tests use one parameter set per model and compare shapes or single numbers.',
 [HOD],[('occupation functions',HOD),('mass integrals, interpolation to output redshifts',HOD)],None,['hod_cen, hod_sat, hod, number_density*, f_c, f_s, avg_halo_mass*, stellar_fraction*, galaxy_linear_bias*'])
prop('C09','Response mode rescales every spectrum by P_nl over halo-model P_mm',
 'With the response option on, every galaxy and alignment spectrum and its one- and two-halo parts equals the same spectrum without the option times the supplied non-linear matter spectrum over the halo-model matter spectrum, bin by bin; the matter spectrum itself equals the supplied one and linear biases are unchanged. This holds whichever spectra were requested first.',
 ['histories','configurations'],'All non-linear modes, ingredients, supplied or internally computed non-linear spectra, and all orders of requesting spectra.',
 'Tests check one spectrum in one order.',
 [PK],[('response branch of each spectrum',PK)],None,['power_spectrum_*'])
prop('C10','Non-linear halo bias enters as the full double mass integral',
 'With a supplied non-linear bias table every two-halo term gains exactly the linear spectrum times the double mass integral of the table weighted by both profiles, biases and mass functions, including the compensation for haloes below the lowest mass. The correction is linear in the table, vanishes for a zero table, accepts tables with or without redshift dependence, and uses the redshift slice belonging to each output redshift.',
 ['inputs','configurations'],'All tables (random, structured, separable, asymmetric, redshift-dependent), grids, HODs and all six spectra.',
 'Tests use one constant table and check shapes.',
 [PK],[('double integral and low-mass compensation',PK)],None,['power_spectrum_* in the bnl mode'])
prop('C11','Emulated non-linear bias is tied to the requested cosmology and grid',
 'The emulated non-linear bias equals the value prescribed by the emulator for the requested cosmology, with parameters clipped to the emulator range and the amplitude set to match the requested sigma_8 or A_s, tabulated on (redshift, wavenumber, mass, mass); it is symmetric in the two masses, finite, tends to zero at large scales and beyond the resolution limit, and each entry depends only on its own redshift, wavenumber and masses.',
 ['inputs','configurations'],'All cosmologies inside and outside the emulator range, mass, wavenumber and redshift grids, with and without redshift dependence.',
 'Tests mock or sample one cosmology.',
 [BNL,PK],[('cosmology clipping, amplitude matching, interpolation tables',BNL)],None,['NonLinearBias.bnl','NonLinearBias.test_cosmo'])
prop('C12','Upsampled and mixed spectra interpolate and mix populations exactly',
 'Upsampled spectra reproduce the model exactly at its own redshift and wavenumber nodes and are linear in redshift and in log-wavenumber between and beyond them (or filled with the chosen value outside the redshift range). With two populations the matter spectrum is that of the first model, spectra with one galaxy-type field are weighted by the fractions and the others by their squares, for any fraction function of redshift.',
 ['inputs','histories'],'All output grids inside and beyond the model grids, fraction functions, extrapolation options, populations, spectra, components and orders of requests.',
 'Tests use identical grids and one constant fraction.',
 [ADD],[('interpolation and mixing',ADD)],None,['UpsampledSpectra.results, power_spectrum_*'])
prop('C13','Results at one redshift, wavenumber or bin do not depend on the others',
 'The value of any spectrum or ingredient at a given redshift, wavenumber and observable bin does not depend on which other redshifts, wavenumbers or bins were requested together with it, nor on their order, beyond the documented normalisation of halo profiles at the first wavenumber and interpolation of the mass function onto the galaxy-sample redshifts.',
 ['inputs','configurations'],'All subsets, extensions and permutations of the redshift grid, wavenumber grid and observable bins.',
 'Tests use a single grid.',
 [PK,HMI,HOD,IA],[('per-redshift ingredients, axis bookkeeping',HMI+', '+PK)],None,['power_spectrum_* and ingredients on sub-grids'])
prop('C14','Baryonic feedback redistributes but never creates matter',
 'With feedback, wherever the stellar fraction stays below the cosmic baryon fraction, the gas fraction rises monotonically with halo mass from zero to the cosmic baryon fraction minus stars, the sum of dark matter, gas and stars never exceeds the halo mass, and in the limit of very massive haloes or no ejection the profile carries exactly the halo mass. Halo concentrations, gas and stellar fractions follow the published temperature and redshift dependence (the gas pivot of the fitted model defaults to 10^13.87 Msun/h), and switching feedback off returns the dark-matter-only result.',
 ['inputs'],'All halo masses, redshifts, feedback temperatures, baryon fractions and ejection masses.',
 'Tests evaluate single points.',
 [PK,HMI],[('gas and stellar fractions, feedback profile',PK),('concentration amplitude',HMI)],None,['fg, fs, fg_fit, matter profiles','power_spectrum_mm'])
prop('C15','Halo ingredients match a direct halo-model computation at each redshift',
 'Mass function, bias, concentrations, radii, profiles, densities and linear power reported for each redshift equal those of a halo model evaluated at that redshift alone with the requested cosmology, mass definition, concentration and profile settings for centrals and satellites separately. Growth, collapse threshold and virial overdensity of the HMCode ingredients solve the growth equation and follow the published fits.',
 ['inputs','configurations'],'All cosmologies, redshift grids, mass definitions, mass functions, bias, concentration and profile models, per-redshift normalisations and bloating parameters.',
 'Tests check shapes and monotonicity for one configuration.',
 [HMI],[('per-redshift generation of halo models',HMI),('growth, dc, Dv',HMI)],None,['mass, dndlnm, halo_bias, conc_*, rvir_*, r_s_*, u_dm, u_sat, power, growth_factor, dc_Mead, Dv_Mead ...'])
prop('C16','Invalid requests are refused with an error and leave the object usable',
 'Unsupported modes, ingredient choices, alignment options, mismatched power-spectrum shapes, missing pivots or tables are refused with an error rather than producing numbers, at construction, update or first use. After a refused request the object still gives the results of its last valid configuration once the invalid value is withdrawn.',
 ['inputs','histories'],'All invalid values of validated options, alone or combined with valid changes, at any point of a history.',
 'Tests check that some errors are raised at construction; none continues using the object.',
 [PK,HMI,IA,BNL,POI],[('validation in parameter setters and before use','all classes')],None,['exceptions from construct/update/read, results afterwards'])
prop('C17','The CosmoSIS module writes exactly what the library computes',
 'For every set of options and every sequence of parameter points, the module writes to the data block the spectra, occupations and ingredients the library gives for that point, under the documented section names and bin suffixes and on the input grids; a point evaluated after others gives the same output as evaluated first, and the non-linear bias is refreshed exactly at the configured period.',
 ['histories','configurations'],'All option sets and sequences of sampled parameter points executed by one set-up module.',
 'The module is not tested at all.',
 [IF],[('option parsing, parameter mapping, output',IF)],None,['data block after execute'])
prop('C18','Satellite alignment profiles equal the transform of the aligned NFW profile',
 'The satellite alignment kernel equals the spherical transform of the (core-limited, capped, optionally truncated) alignment profile of an NFW halo summed over multipoles, for every mass, redshift, slope and amplitude; both transform methods agree to the precision of their sampling. Luminosity-dependent amplitudes equal the mean over the luminosities of the galaxies at each redshift, and the kernel scales linearly with the amplitude while the cap is not reached.',
 ['inputs','configurations'],'All masses, redshifts, concentrations, radii, slopes, amplitudes, multipole limits and luminosity samples.',
 'Tests check shapes and special-case constants.',
 [IA],[('angular and radial integrals, amplitude averages',IA)],None,['SatelliteAlignment.wkm, upsampled_wkm, alignment_gi, gamma_1h_amp'])
prop('C19','Real-space modules transform, rescale and convert data without distortion',
 'The projected correlation and excess-surface-density outputs equal the Hankel-transform integrals of the supplied spectra for every bin and redshift, the cosmology correction rescales each bin once by its own distances, and angular unit conversion is exact, leaving other data block entries untouched.',
 ['inputs','histories'],'All spectra, grids, bins, redshift weights, cosmologies and units.',
 'These modules have no tests.',
 ['cosmosis_modules/pk_to_real/pk_to_real.py','cosmosis_modules/pk_to_real/correct_cosmo_real.py','cosmosis_modules/pk_to_real/pyfftlog.py','cosmosis_modules/convert_theta/convert_theta.py'],
 [('transforms and rescaling','cosmosis_modules/pk_to_real')],None,['data block after execute'])
prop('C20','The observable function counts the galaxies of the HOD',
 'The predicted observable (stellar mass or luminosity) function equals the integral of the conditional function over the halo mass function for centrals, satellites and their sum, on the requested observable and redshift grid, and integrating it over an observable bin gives the HOD number density of that bin. It is reported only when requested and only for the model that defines it.',
 ['inputs','configurations'],'All parameters of the conditional observable function, bins, redshift ranges, grids and cosmologies.',
 'Tests check shapes for one configuration.',
 [PK,HOD],[('conditional observable function',HOD),('observable function output',PK)],None,['obs_func, obs_func_cen, obs_func_sat, obs_func_obs, obs_func_z'])
prop('C21','Linear and non-linear input spectra are used as given on the right grid',
 'Supplied linear and non-linear spectra enter unchanged at their own redshift and wavenumber, internally computed ones equal the halo-model library spectrum interpolated to the requested wavenumbers, and de-wiggling only removes oscillations: it leaves the largest scales unchanged, follows the published damping, and keeps a smooth spectrum smooth.',
 ['inputs','configurations'],'All cosmologies, grids, supplied spectra and de-wiggling on or off.',
 'Tests check one supplied spectrum and shapes.',
 [PK],[('linear and non-linear power, dewiggling',PK)],None,['power_spectrum_lin','power_spectrum_mm in response mode'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+'\n')
try:
    import jsonschema
    s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in P: jsonschema.validate(p,s)
except ImportError: pass
print(len(P))
