"""C17: the CosmoSIS module writes what the library computes, point by point, independent of history."""
import numpy as np
from .. import gen, ref, harness as H
from ..block import DataBlock, options, load, COSMO
PROPERTY = 'C17'
RULE = ('random option sets of the module, each driven through a sequence of 2-7 parameter points on one configuration (all or only some sections moved, failing points - a missing entry, a refused write - in between) with a recording data block; '
        'every entry written is compared with a freshly built library object for that point, interpolated independently; the non-linear-bias object is '
        'replaced by a recorder that returns a table tied to the parameters it was given; non-trivial when a point beyond the first was compared')
ASSUMPTIONS = ['cosmosis is not installed: a stand-in data block with the documented put/get/replace semantics is used',
               'the library itself is decided by the other properties: a fresh Spectra object is the oracle here',
               'the red/blue fraction of split_ia is a placeholder of one in the module (population 2 has no weight)']
REQUIRED = ['matter', 'hod', 'observable', 'mm', 'gg', 'gm', 'ii', 'gi', 'mi', 'absent', 'later point', 'bnl refresh', 'ia.constant', 'obsfile', 'response',
            'fortuna', 'split', 'inputs kept', 'defaults', 'partial move', 'failed point', 'many bins', 'alignment alone']
CASE_LIMIT = 500
HODP = {'Zheng': ['log10_Mmin', 'sigma', 'log10_M0', 'log10_M1', 'alpha'], 'Zhai': ['log10_Mmin', 'sigma', 'log10_Msat', 'log10_Mcut', 'alpha'],
        'Cacciato': ['log10_obs_norm_c', 'log10_m_ch', 'g1', 'g2', 'sigma_log10_O_c', 'norm_s', 'pivot', 'alpha_s', 'beta_s', 'b0', 'b1', 'b2']}


def interp(x, y, xn, axis):
    y = np.moveaxis(np.asarray(y, float), axis, 0)
    return np.moveaxis(ref.lin_interp(x, y, np.asarray(xn)), 0, axis)


def cases(tier, rng):
    return H.seeds(rng, 200 if tier == 'quick' else 2500)


def sample(rng, name, nb, z, fileok, o, rows):
    """Options of one galaxy sample; returns the settings the library should get."""
    z0, z1 = z
    if fileok and rng.random() < .3:
        s = {'observables_rows': [[gen.r(q), gen.r(10 ** rng.uniform(9, 9.6)), gen.r(10 ** rng.uniform(10.2, 11))] for q in np.linspace(z0, z1, int(rng.integers(2, 5)))],
             'nobs': int(rng.integers(15, 40))}
        m = gen.mat_settings(s)
        o[f'observables_file_{name}'] = m['observables_file']
        o[f'nobs_{name}'] = m['nobs']
        return m
    lo = [gen.U(rng, 8.5, 10.2) for _ in range(nb)]
    hi = [gen.r(x + rng.uniform(.4, 1.2)) for x in lo]
    zmin = [gen.r(max(0, z0 - rng.uniform(0, .1))) for _ in range(nb)]
    zmax = [gen.r(z1 + rng.uniform(0, .1)) for _ in range(nb)]
    one = nb == 1 and rng.random() < .5
    for key, v in (('log10_obs_min', lo), ('log10_obs_max', hi), ('zmin', zmin), ('zmax', zmax)):
        o[f'{key}_{name}'] = v[0] if one else np.array(v)
    nz, nobs = int(rng.integers(2, 6)), int(rng.integers(15, 40))
    o[f'nz_{name}'], o[f'nobs_{name}'] = nz, nobs
    return dict(observables_file=None, obs_min=np.array(lo), obs_max=np.array(hi), zmin=np.array(zmin), zmax=np.array(zmax), nz=nz, nobs=nobs)


def transfer(rng, om, h):
    """A smooth transfer function on its own grid, and a matching linear spectrum shape."""
    k = np.logspace(-4, 3, 300)
    g = om * h
    q = k / g
    L = np.log(2 * np.e + 1.8 * q)
    C = 14.2 + 731 / (1 + 62.5 * q)
    return k, L / (L + C * q * q)


class FakeBnl:
    calls = []

    def __init__(self, **kw):
        FakeBnl.calls.append({k: np.array(v) if isinstance(v, np.ndarray) else v for k, v in kw.items()})
        self.kw = kw

    @property
    def bnl(self):
        return fake_table(self.kw)


def fake_table(kw):
    m, k = np.asarray(kw['mass']), np.asarray(kw['k_vec'])
    x = (np.log10(m) - 12) / 2
    a = kw['n_s'] - .8 + 3 * (kw['A_s'] * 1e9 - 2) + kw['omega_c']
    return (a * .1 * (1 + .3 * np.add.outer(x, x)))[None, None] * (k / (1 + k))[None, :, None, None]


def point(rng, C, o, z_in, k_in):
    """One parameter point: returns the block contents and what the library should be given."""
    om_c, om_b = gen.U(rng, .2, .3), gen.U(rng, .04, .06)
    h = gen.U(rng, .62, .78)
    mnu = gen.pick(rng, 0.0, .06)
    d = {(COSMO, 'omega_c'): om_c, (COSMO, 'omega_b'): om_b, (COSMO, 'omega_m'): om_c + om_b, (COSMO, 'h0'): h, (COSMO, 'n_s'): gen.U(rng, .9, 1.02),
         (COSMO, 'sigma_8'): gen.U(rng, .7, .9), (COSMO, 'mnu'): mnu, (COSMO, 'w'): gen.U(rng, -1.1, -.9), (COSMO, 'wa'): gen.U(rng, -.2, .2),
         (COSMO, 'A_s'): gen.U(rng, 1.8e-9, 2.3e-9), ('halo_model_parameters', 'logT_AGN'): gen.U(rng, 7.4, 8.2)}
    if rng.random() < .5:
        d[COSMO, 'TCMB'] = gen.U(rng, 2.7, 2.75)
    if rng.random() < .5:
        d['halo_model_parameters', 'm_b'] = gen.U(rng, 13., 14.3)
    kt, T = transfer(rng, om_c + om_b, h)
    d['matter_power_transfer_func', 'k_h'], d['matter_power_transfer_func', 't_k'] = kt, T
    zg = np.linspace(0, 4, 41)
    w = gen.U(rng, .9, 1.1)
    D = 1 / (1 + zg) ** w
    d['growth_parameters', 'z'], d['growth_parameters', 'd_z'] = zg, D
    plin = 3e6 * gen.U(rng, .8, 1.2) * np.interp(np.log(k_in), np.log(kt), T) ** 2 * k_in ** d[COSMO, 'n_s']
    plin = plin[None] / (1 + z_in[:, None]) ** (2 * w)
    d['matter_power_lin', 'k_h'], d['matter_power_lin', 'z'], d['matter_power_lin', 'p_k'] = k_in, z_in, plin
    if C['response'] or C['mode'] == 'fortuna':
        k_nl = np.logspace(np.log10(k_in[0]) - .1, np.log10(k_in[-1]) - .3, 60)
        z_nl = np.linspace(z_in[0], z_in[-1], 9)
        base = np.exp(np.array([np.interp(np.log(k_nl), np.log(k_in), np.log(p)) for p in plin]))
        pn = interp(z_in, base, z_nl, 0) * (1 + gen.U(rng, .2, 1.) * k_nl)
        d['matter_power_nl', 'k_h'], d['matter_power_nl', 'z'], d['matter_power_nl', 'p_k'] = k_nl, z_nl, pn
    for n, a, b in (('norm_cen', .7, 1.2), ('norm_sat', .5, 1.1), ('eta_cen', -.1, .2), ('eta_sat', -.1, .2)):
        if rng.random() < .5:
            d[C['profile_values'], n] = gen.U(rng, a, b)
    if C['galaxy'] or C['alignment']:
        d['pk_parameters', 'poisson'] = gen.U(rng, .7, 1.3)
        if C['poisson'] == 'power_law':
            d['pk_parameters', 'pivot'], d['pk_parameters', 'slope'] = gen.U(rng, 12, 14), gen.U(rng, -.2, .2)
        full = dict(log10_obs_norm_c=(9.7, 10.1), log10_m_ch=(11., 11.6), g1=(2.6, 3.6), g2=(.15, .4), sigma_log10_O_c=(.12, .25), norm_s=(.45, .7),
                    pivot=(11.7, 12.3), alpha_s=(-1.3, -.9), beta_s=(1.7, 2.3), b0=(-1.4, -.9), b1=(1.2, 1.7), b2=(-.3, -.1))
        zz = dict(log10_Mmin=(11.5, 12.5), sigma=(.2, .6), log10_M0=(11., 12.), log10_M1=(12.7, 13.6), alpha=(.8, 1.2), log10_Msat=(13., 14.), log10_Mcut=(11.5, 12.5))
        for p in HODP[C['hod']]:
            if C['hod'] == 'Cacciato':
                d[C['hod_values'], p] = gen.U(rng, *full[p])
            else:
                for b in range(C['nb']):
                    d[C['hod_values'], p + (f'_{b + 1}' if C['nb'] > 1 else '')] = gen.U(rng, *zz[p])
        for a in ('A_cen', 'A_sat'):
            if rng.random() < .3:
                d[C['hod_values'], a] = gen.U(rng, -.3, .3)
    if C['alignment']:
        for suf in C['ia_suffixes']:
            sec = 'intrinsic_alignment_parameters' + suf
            d[sec, 'beta'], d[sec, 'beta_sat'] = gen.U(rng, .2, .6), gen.U(rng, .2, .6)
            d[sec, 'M_pivot'] = gen.U(rng, 13., 14.)
            d[sec, 'gamma_1h_radial_slope'] = gen.pick(rng, -2.0, -1.8)
            d[sec, 'gamma_1h_amplitude'], d[sec, 'gamma_2h_amplitude'] = gen.U(rng, -.001, .004), gen.U(rng, -2, 7)
        if rng.random() < .5:
            d['pk_parameters', 'linear_fraction_fortuna'] = gen.U(rng, 0, 1)
    return d


def get(d, s, n, default=None):
    return d.get((s, n), default)


def expected(C, d, table):
    """Keyword arguments of the library for a point, put together from the documented meaning of options and block entries."""
    zv = C['z_vec']
    k0 = d['matter_power_lin', 'k_h']
    kv = np.logspace(np.log10(k0[0]), np.log10(k0[-1]), C['nk'])
    def grid(sec):
        z, k, p = (d[sec, q] for q in ('z', 'k_h', 'p_k'))
        p = interp(z, p, zv, 0)
        return np.exp(interp(np.log(k), np.log(p), np.log(kv), 1))
    kw = dict(matter_power_lin=grid('matter_power_lin'), hmcode_ingredients=C['hmcode'], nonlinear_mode=C['mode'], dewiggle=C['dewiggle'], k_vec=kv, z_vec=zv,
              lnk_min=np.log(1e-8), lnk_max=np.log(1e8), dlnk=.05, Mmin=C['mmin'], Mmax=C['mmax'], dlog10m=(C['mmax'] - C['mmin']) / C['nmass'],
              mdef_model=C['mdef'], hmf_model=C['hmf'], bias_model=C['bias'], halo_concentration_model_dm=C['cm_cen'], halo_concentration_model_sat=C['cm_sat'],
              halo_profile_model_dm=C['prof_cen'], halo_profile_model_sat=C['prof_sat'],
              transfer_model='FromArray', transfer_params={'k': d['matter_power_transfer_func', 'k_h'], 'T': d['matter_power_transfer_func', 't_k']},
              growth_model='FromArray', growth_params={'z': d['growth_parameters', 'z'], 'd': d['growth_parameters', 'd_z']},
              overdensity=C['overdensity'], delta_c=C['delta_c'], one_halo_ktrunc=C['k1'], two_halo_ktrunc=C['k2'],
              log10T_AGN=d['halo_model_parameters', 'logT_AGN'], mb=10 ** get(d, 'halo_model_parameters', 'm_b', 13.87),
              tcmb=get(d, COSMO, 'TCMB', 2.7255))
    for n, dv in (('norm_cen', 1.), ('norm_sat', 1.), ('eta_cen', 0.), ('eta_sat', 0.)):
        kw[n] = get(d, C['profile_values'], n, dv)
    for a, b in (('omega_c', 'omega_c'), ('omega_b', 'omega_b'), ('h0', 'h0'), ('n_s', 'n_s'), ('sigma_8', 'sigma_8'), ('m_nu', 'mnu'), ('w0', 'w'), ('wa', 'wa')):
        kw[a] = d[COSMO, b]
    if table is not None:
        kw['beta_nl'] = table
    if C['response'] or C['mode'] == 'fortuna':
        kw['matter_power_nl'] = grid('matter_power_nl')
        kw['response'] = C['response']
    if C['galaxy'] or C['alignment']:
        kw['poisson_model'] = C['poisson']
        kw['poisson_params'] = {p: d['pk_parameters', p] for p in (['poisson', 'pivot', 'slope'] if C['poisson'] == 'power_law' else ['poisson'])}
        hp = {'A_cen': get(d, C['hod_values'], 'A_cen'), 'A_sat': get(d, C['hod_values'], 'A_sat')}
        for p in HODP[C['hod']]:
            hp[p] = d[C['hod_values'], p] if C['hod'] == 'Cacciato' else np.array([d[C['hod_values'], p + (f'_{b + 1}' if C['nb'] > 1 else '')] for b in range(C['nb'])])
        kw.update(hod_model=C['hod'], hod_params=hp, pointmass=C['pointmass'])
        if C['galaxy']:
            kw['hod_settings'] = dict(C['hod_settings'])
            mm = dict(C['hod_settings'])
            if mm.get('observables_file') is None:
                mm.update(obs_min=np.array([min(mm['obs_min'])]), obs_max=np.array([max(mm['obs_max'])]), zmin=np.array([min(mm['zmin'])]),
                          zmax=np.array([max(mm['zmax'])]), nz=15)
            mm['nobs'] = 100
            kw['hod_settings_mm'] = mm
        if C['obs']:
            kw['obs_settings'] = dict(C['obs'])
            kw['compute_observable'] = True
    if C['alignment']:
        sec = 'intrinsic_alignment_parameters' + C['ia_suffixes'][0]
        a = dict(central_ia_depends_on=C['cen_dep'], satellite_ia_depends_on=C['sat_dep'], nmass=5, n_hankel=350, nk=10, ell_max=6,
                 gamma_1h_slope=d[sec, 'gamma_1h_radial_slope'], gamma_1h_amplitude=d[sec, 'gamma_1h_amplitude'], gamma_2h_amplitude=d[sec, 'gamma_2h_amplitude'])
        hm = C['cen_dep'] == 'halo_mass'
        a.update(beta_cen=d[sec, 'beta'] if hm else None, mpivot_cen=d[sec, 'M_pivot'] if hm else None)
        hm = C['sat_dep'] == 'halo_mass'
        a.update(beta_sat=d[sec, 'beta_sat'] if hm else None, mpivot_sat=d[sec, 'M_pivot'] if hm else None)
        kw.update(align_params=a, one_halo_ktrunc_ia=C['k1ia'], two_halo_ktrunc_ia=C['k2ia'], t_eff=get(d, 'pk_parameters', 'linear_fraction_fortuna', 0.0))
    return kw


def configure(rng, mon):
    o, C = {}, {}
    C['mode'] = gen.pick(rng, None, None, 'fortuna', 'hmcode', 'bnl')
    C['response'] = bool(rng.random() < .3)
    C['hmcode'] = gen.pick(rng, 'mead2020', 'mead2020_feedback') if C['mode'] == 'hmcode' else gen.pick(rng, None, None, 'mead2020', 'fit')
    for n in ('p_mm', 'p_gg', 'p_gm', 'p_gI', 'p_mI', 'p_II'):
        C[n] = bool(rng.random() < .55)
        if C[n] or rng.random() < .5:
            o[n] = C[n]
    if C['mode'] == 'fortuna' and not C['response']:
        C['p_mm'] = o['p_mm'] = False          # would overwrite the non-linear input
    C['galaxy'] = C['p_gg'] or C['p_gm']
    C['alignment'] = C['p_gI'] or C['p_mI'] or C['p_II']
    if not (C['galaxy'] or C['alignment']):
        C['p_mm'] = o['p_mm'] = True
        if C['mode'] == 'fortuna':
            C['mode'] = None
    if C['hmcode'] == 'fit' and not C['galaxy']:
        C['hmcode'] = None
    if C['mode'] is not None or rng.random() < .5:
        o['nonlinear_mode'] = C['mode'] or 'None'
    if C['hmcode'] is not None or rng.random() < .5:
        o['hmcode_ingredients'] = C['hmcode'] or 'None'
    if C['response'] or rng.random() < .5:
        o['response'] = C['response']
    for key, n, dv, lo, hi in (('k1', 'one_halo_ktrunc', .1, .02, .5), ('k2', 'two_halo_ktrunc', 2., 1., 4.), ('k1ia', 'one_halo_ktrunc_ia', 4., 2., 6.), ('k2ia', 'two_halo_ktrunc_ia', 6., 3., 9.)):
        q = rng.random()
        C[key] = dv
        if q < .3:
            C[key], o[n] = None, 'None'
        elif q < .6:
            C[key] = o[n] = gen.U(rng, lo, hi)
    C['dewiggle'] = bool(rng.random() < .2)
    if C['dewiggle'] or rng.random() < .5:
        o['dewiggle'] = C['dewiggle']
    C['pointmass'] = bool(rng.random() < .3)
    if C['pointmass'] or rng.random() < .5:
        o['point_mass'] = C['pointmass']
    C['mmin'], C['mmax'], C['nmass'] = gen.pick(rng, 9., 10.), gen.pick(rng, 15.5, 16.), int(rng.integers(30, 50)) if C['mode'] != 'bnl' else 24
    o['log_mass_min'], o['log_mass_max'], o['nmass'] = C['mmin'], C['mmax'], C['nmass']
    nz = gen.count(rng, 2, 4, (8, 14))
    za, zb = gen.U(rng, 0, .3), gen.U(rng, .5, 1.8)
    o['zmin_hmf'], o['zmax_hmf'], o['nz_hmf'] = za, zb, nz
    C['z_vec'] = np.linspace(za, zb, nz)
    C['nk'] = o['nk'] = int(rng.integers(12, 30)) if C['mode'] != 'bnl' else 10
    C['mdef'] = gen.pick(rng, 'SOMean', 'SOCritical')
    C['overdensity'] = gen.pick(rng, 200., 300.)
    C['hmf'], C['bias'] = gen.pick(rng, 'Tinker10', 'ST'), gen.pick(rng, 'Tinker10', 'ST99')
    C['cm_cen'], C['cm_sat'] = gen.pick(rng, 'Duffy08', 'Bullock01'), gen.pick(rng, 'Duffy08', 'Bullock01')
    C['delta_c'] = gen.pick(rng, 1.686, 1.67)
    o.update(mdef_model=C['mdef'], overdensity=C['overdensity'], hmf_model=C['hmf'], bias_model=C['bias'], cm_model_cen=C['cm_cen'], cm_model_sat=C['cm_sat'], delta_c=C['delta_c'])
    C['prof_cen'], C['prof_sat'] = gen.pick(rng, 'NFW', 'NFW', 'Hernquist'), gen.pick(rng, 'NFW', 'NFW', 'CoredNFW')
    o.update(profile_cen=C['prof_cen'], profile_sat=C['prof_sat'])
    # options left out take their documented defaults
    if rng.random() < .4:
        for key, n, dv in (('mdef', 'mdef_model', 'SOMean'), ('overdensity', 'overdensity', 200.), ('hmf', 'hmf_model', 'Tinker10'), ('bias', 'bias_model', 'Tinker10'),
                           ('cm_cen', 'cm_model_cen', 'Duffy08'), ('cm_sat', 'cm_model_sat', 'Duffy08'), ('delta_c', 'delta_c', 1.686), ('mmin', 'log_mass_min', 9.),
                           ('mmax', 'log_mass_max', 16.), ('prof_cen', 'profile_cen', 'NFW'), ('prof_sat', 'profile_sat', 'NFW')):
            if rng.random() < .5:
                C[key] = dv
                del o[n]
        if rng.random() < .5:
            za = 0.
            del o['zmin_hmf']
        if C['mode'] != 'bnl' and rng.random() < .3:
            q = gen.pick(rng, 'nz', 'nk', 'nmass', 'zmax')
            if q == 'nz':
                nz = 15
                del o['nz_hmf']
            elif q == 'zmax':
                zb = 3.
                del o['zmax_hmf']
            else:
                C[q] = {'nk': 100, 'nmass': 200}[q]
                del o[q]
        C['z_vec'] = np.linspace(za, zb, nz)
        mon.event('defaults')
    C['profile_values'] = 'profile_parameters'
    if rng.random() < .4:
        C['profile_values'] = o['profile_value_name'] = 'my_profile'
    C['hod_values'] = 'hod_parameters'
    if rng.random() < .4:
        C['hod_values'] = o['values_name'] = 'my_hod'
    C['poisson'] = gen.pick(rng, 'constant', 'power_law')
    C['unit'] = '1/h^2'
    if rng.random() < .5:
        C['unit'] = o['observable_h_unit'] = gen.pick(rng, '1/h', '1/h^2')
    C['hod'] = gen.pick(rng, 'Cacciato', 'Cacciato', 'Zheng', 'Zhai') if (C['galaxy'] or C['alignment']) and C['hmcode'] != 'fit' else 'Cacciato'
    C['nb'] = int(rng.integers(1, 4)) if rng.random() < .9 else int(rng.integers(10, 13))
    if C['nb'] > 9 and C['galaxy']:
        mon.event('many bins')
    C['obs'] = None
    C['obsfile'] = False
    rows = {}
    zr = (za, zb)
    if C['galaxy'] or C['alignment']:
        o['poisson_type'] = C['poisson']
        o['hod_model'] = C['hod']
    if C['galaxy']:
        s = sample(rng, 'hod', C['nb'], zr, True, o, rows)
        if s.get('observables_file'):
            C['nb'], C['obsfile'] = 1, True
        s['observable_h_unit'] = C['unit']
        C['hod_settings'] = s
        C['hod_section'] = 'hod'
        if rng.random() < .5:
            C['hod_section'] = o['hod_section_name'] = 'hod_xyz'
        if C['hod'] == 'Cacciato' and rng.random() < .6:
            ob = sample(rng, 'smf', gen.pick(rng, 1, 2), zr, False, o, rows)
            if len(ob['obs_min']) == 1 and rng.random() < .5:
                ob['nz'] = o['nz_smf'] = 1
                ob['zmax'] = ob['zmin'].copy()
                o['zmax_smf'] = o['zmin_smf']
            ob['observable_h_unit'] = C['unit']
            C['obs'] = ob
            o['save_observable'] = True
            C['obs_section'] = 'stellar_mass_function'
            if rng.random() < .5:
                C['obs_section'] = o['observable_section_name'] = 'lumfun'
    C['split'] = False
    if C['alignment']:
        C['split'] = o['split_ia'] = bool(rng.random() < .25)
        C['cen_dep'], C['sat_dep'] = gen.pick(rng, 'halo_mass', 'constant'), gen.pick(rng, 'halo_mass', 'constant')
        for key, n in (('cen_dep', 'central_IA_depends_on'), ('sat_dep', 'satellite_IA_depends_on')):
            if C[key] != 'halo_mass' or rng.random() < .5:
                o[n] = C[key]
        nb = C['nb'] if C['hod'] != 'Cacciato' else int(rng.integers(1, 4))
        names = ['ia_1', 'ia_2'] if C['split'] else ['ia']
        C['ia_settings'], C['ia_suffixes'] = [], []
        for n in names:
            s = sample(rng, n, nb, zr, (C['hod'] == 'Cacciato' or not C['galaxy']) and not C['split'], o, rows)
            if not C['galaxy']:
                mon.event('alignment alone')
                if s.get('observables_file'):
                    C['nb'] = 1
            s['observable_h_unit'] = C['unit']
            C['ia_settings'].append(s)
            o[f'hod_section_name_{n}'] = 'hod_' + n
            if rng.random() < .6 or C['split']:
                o[f'output_suffix_{n}'] = 'pop' + n
                C['ia_suffixes'].append('_pop' + n)
            else:
                C['ia_suffixes'].append('')
        C['ia_section'] = 'hod_' + names[0]
    if C['mode'] == 'bnl':
        C['update'] = o['update_bnl'] = int(rng.integers(1, 5))
    return o, C


def upsample(p, C, z_out, k_out):
    q = interp(C['z_vec'], p, z_out, 1)
    return interp(np.log10(C['kv']), q, np.log10(k_out), 2)


def run_case(case, mon):
    rng = np.random.default_rng(case['seed'])
    o, C = configure(rng, mon)
    mon.note = {k: C[k] for k in ('mode', 'response', 'hmcode', 'hod', 'nb', 'galaxy', 'alignment', 'split')}
    import onepower.bnl
    keep = onepower.bnl.NonLinearBias
    onepower.bnl.NonLinearBias = onepower.NonLinearBias = FakeBnl
    try:
        m = load('onepower_interface.py')
        if getattr(m, 'NonLinearBias', None) is not None:
            m.NonLinearBias = FakeBnl
        drive(rng, o, C, m, mon)
    finally:
        onepower.bnl.NonLinearBias = onepower.NonLinearBias = keep


def drive(rng, o, C, m, mon):
    config = m.setup(options(**o))
    z_in = np.linspace(0, max(2, float(C['z_vec'][-1])), int(rng.integers(6, 10)))
    k_in = np.logspace(gen.U(rng, -3.5, -2.5), gen.U(rng, .5, 1.5), int(rng.integers(30, 60)))
    n = int(rng.integers(2, 5 if C['mode'] != 'bnl' else 8))
    pts = [point(rng, C, o, z_in, k_in) for _ in range(n)]
    for i in range(1, n):
        if rng.random() < .5:                  # a sampler that moves only some of the sections
            secs = sorted({k[0] for k in pts[i]} - {'matter_power_lin', 'matter_power_nl', 'matter_power_transfer_func', 'growth_parameters'})
            moved = {secs[j] for j in rng.choice(len(secs), int(rng.integers(1, max(2, len(secs)))), replace=False)}
            if rng.random() < .3:
                moved |= {k[0] for k in pts[i]} - set(secs)
            pts[i] = {**{k: v for k, v in pts[i - 1].items() if k[0] not in moved}, **{k: v for k, v in pts[i].items() if k[0] in moved}}
            mon.event('partial move')
    if n > 2 and rng.random() < .5:
        pts[-1] = pts[0]                       # come back to the first point
    FakeBnl.calls = []
    table = None
    for i, d in enumerate(pts):
        if i and C['mode'] != 'bnl' and rng.random() < .35:
            refuse(rng, C, point(rng, C, o, z_in, k_in), m, config, mon)
        blk = DataBlock({k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in d.items()})
        before = len(FakeBnl.calls)
        rc = m.execute(blk, config)
        mon.check('status', rc == 0, 'execute did not report success', rc=rc)
        if C['mode'] == 'bnl':
            due = i % C['update'] == 0
            mon.check('bnl refresh', (len(FakeBnl.calls) - before) == (1 if due else 0), 'non-linear bias refreshed at the wrong point', i=i, period=C['update'])
            if due:
                e = expected_bnl(C, d)
                table = fake_table(e)
                if len(FakeBnl.calls) > before:
                    got = FakeBnl.calls[-1]
                    for k in e:
                        if k == 'z_dep':
                            mon.check('bnl refresh', got.get(k, False) is False, 'argument z_dep')
                        else:
                            mon.close('bnl refresh', got.get(k, np.nan), e[k], 1e-12, which=k)
        verify(C, d, blk, table, mon)
        if i:
            mon.event('later point')
        for key, v in d.items():
            kk = blk.k(*key)
            mon.check('inputs kept', kk in blk.d and np.array_equal(blk.d[kk], v), 'an input of the block was changed', which=str(kk))


def refuse(rng, C, d, m, config, mon):
    """A point that fails: a needed entry is missing, or writing to the block fails part way. Later points must not notice."""
    d = dict(d)
    need = [(COSMO, 'omega_c'), (COSMO, 'sigma_8'), ('halo_model_parameters', 'logT_AGN'), ('growth_parameters', 'd_z')]
    if C['galaxy'] or C['alignment']:
        need += [('pk_parameters', 'poisson'), (C['hod_values'], HODP[C['hod']][0] + ('_1' if C['hod'] != 'Cacciato' and C['nb'] > 1 else ''))] * 2
    if C['alignment']:
        need += [('intrinsic_alignment_parameters' + C['ia_suffixes'][0], 'gamma_2h_amplitude')]
    blk = DataBlock()
    if rng.random() < .5:
        key = need[rng.integers(len(need))]
        d.pop(key)
        what = f'missing {key}'
    else:
        blk.fail_at = int(rng.integers(1, 4))
        what = 'write fails'
    for (s, n), v in d.items():
        blk.d[blk.k(s, n)] = v.copy() if isinstance(v, np.ndarray) else v
    try:
        m.execute(blk, config)
    except Exception:
        mon.check('failed point', True, what)
    else:
        told = what == 'write fails' or key[0] in ('pk_parameters', C.get('hod_values'))     # documented to be refused
        mon.check('failed point', not told or (what == 'write fails' and len(blk.log) < blk.fail_at), 'a point that cannot be evaluated was reported as evaluated', what=what)


def expected_bnl(C, d):
    k0 = d['matter_power_lin', 'k_h']
    dm = (C['mmax'] - C['mmin']) / C['nmass']
    return dict(mass=10 ** np.arange(C['mmin'], C['mmax'], dm), z_vec=C['z_vec'], k_vec=np.logspace(np.log10(k0[0]), np.log10(k0[-1]), C['nk']),
                h0=d[COSMO, 'h0'], A_s=d[COSMO, 'A_s'], omega_b=d[COSMO, 'omega_b'], omega_c=d[COSMO, 'omega_c'], omega_lambda=1 - d[COSMO, 'omega_m'],
                n_s=d[COSMO, 'n_s'], w0=d[COSMO, 'w'], z_dep=False)


def verify(C, d, blk, table, mon):
    kw = expected(C, d, table)
    C['kv'] = kw['k_vec']
    p = H.spectra(**kw)
    z_out, k_out = d['matter_power_lin', 'z'], d['matter_power_lin', 'k_h']
    if C['response']:
        mon.event('response')
    if C['mode'] == 'fortuna':
        mon.event('fortuna')
    if C['split']:
        mon.event('split')
    if C['obsfile']:
        mon.event('obsfile')

    def entry(ev, sec, name, want, rtol=1e-8):
        if not blk.has_value(sec, name):
            mon.check(ev, False, 'missing entry', section=sec, entry=name)
            return
        mon.close(ev, blk.d[blk.k(sec, name)], want, rtol, section=sec, entry=name)

    for sec, ny, yv, name, v in (
            ('concentration_m', 'm_h', p.mass, 'c', p.conc_cen), ('concentration_sat', 'm_h', p.mass, 'c', p.conc_sat),
            ('nfw_scale_radius_m', 'm_h', p.mass, 'rs', p.r_s_cen), ('nfw_scale_radius_sat', 'm_h', p.mass, 'rs', p.r_s_sat),
            ('hmf', 'm_h', p.mass, 'dndlnmh', p.dndlnm), ('hmf', 'm_h', p.mass, 'nu', p.nu), ('halobias', 'm_h', p.mass, 'b_hb', p.halo_bias)):
        entry('matter', sec, 'z', C['z_vec'])
        entry('matter', sec, ny, yv)
        entry('matter', sec, name, v)
    for sec, name, v in (('fourier_nfw_profile', 'z', C['z_vec']), ('fourier_nfw_profile', 'm_h', p.mass), ('fourier_nfw_profile', 'k_h', C['kv']),
                         ('fourier_nfw_profile', 'ukm', p.u_dm), ('fourier_nfw_profile', 'uksat', p.u_sat), ('density', 'mean_density0', p.mean_density0),
                         ('density', 'rho_crit', p.mean_density0 / d[COSMO, 'omega_m']), ('density', 'mean_density_z', p.mean_density_z),
                         ('density', 'rho_halo', p.rho_halo), ('density', 'z', C['z_vec']), ('hmf', 'neff', p.neff), ('hmf', 'sigma8_z', p.sigma8_z),
                         (COSMO, 'fnu', p.fnu), ('virial_radius', 'm_h', p.mass), ('virial_radius', 'rvir_m', p.rvir_cen[0]), ('virial_radius', 'rvir_sat', p.rvir_sat[0])):
        entry('matter', sec, name, v)

    def occupations(sec, q):
        nb = q.hod.hod_cen.shape[0]
        mon.check('hod', blk.has_value(sec, 'nbins') and blk.d[blk.k(sec, 'nbins')] == nb, 'number of bins', section=sec)
        for b in range(nb):
            s = f'_{b + 1}' if nb > 1 else ''
            for name, v in (('z', C['z_vec']), ('mass', q.mass), ('n_cen', q.hod.hod_cen[b]), ('n_sat', q.hod.hod_sat[b]), ('n_tot', q.hod.hod[b]),
                            ('f_star', q.hod.stellar_fraction[b]), ('number_density_cen', q.hod.number_density_cen[b]),
                            ('number_density_sat', q.hod.number_density_sat[b]), ('number_density_tot', q.hod.number_density[b]),
                            ('central_fraction', q.hod.f_c[b]), ('satellite_fraction', q.hod.f_s[b]), ('average_halo_mass', q.mass_avg[b])):
                entry('hod', sec, name + s, v)
        return nb

    def spectrum(ev, base, x, suffixed, nb):
        for b in range(nb):
            s = f'_{b + 1}' if nb > 1 else ''
            entry(ev, base + s, 'z', z_out)
            entry(ev, base + s, 'k_h', k_out)
            for part, name in (('pk_1h', 'p_k_1h'), ('pk_2h', 'p_k_2h'), ('pk_tot', 'p_k')):
                entry(ev, base + s, name, upsample(getattr(x, part), C, z_out, k_out)[b])

    def absent(base):
        have = [s for s, _ in blk.d if s == base or s.startswith(base + '_')]
        mon.check('absent', not have, 'a spectrum that was not requested was written', sections=sorted(set(have)))

    if C['p_mm'] and not C['response']:
        spectrum('mm', 'matter_power_nl', p.power_spectrum_mm, False, 1)
    elif not (C['response'] or C['mode'] == 'fortuna'):
        absent('matter_power_nl')
    nb = 0
    if C['galaxy']:
        nb = occupations(C['hod_section'], p)
    for flag, base, name, bsec, bname in (('p_gg', 'galaxy_power', 'gg', 'galaxy_linear_bias', 'bg_linear'), ('p_gm', 'matter_galaxy_power', 'gm', 'galaxy_matter_linear_bias', 'bgm_linear')):
        if C[flag]:
            x = getattr(p, 'power_spectrum_' + name)
            spectrum(name, base, x, True, nb)
            for b in range(nb):
                s = f'_{b + 1}' if nb > 1 else ''
                entry(name, bsec + s, bname, x.galaxy_linear_bias[b])
                entry(name, bsec + s, 'z', C['z_vec'])
                entry(name, bsec + s, 'k_h', C['kv'])
        else:
            absent(base)
    if C['obs']:
        sec = C['obs_section']
        nb_o = len(C['obs']['obs_min'])
        flat = nb_o == 1 and C['obs']['nz'] == 1
        for b in range(nb_o):
            for name, v in (('obs_func', p.obs_func), ('obs_func_c', p.obs_func_cen), ('obs_func_s', p.obs_func_sat)):
                entry('observable', sec, f'{name}_{b + 1}', np.squeeze(v) if flat else v[b])
            entry('observable', sec, f'obs_val_{b + 1}', np.logspace(C['obs']['obs_min'][b], C['obs']['obs_max'][b], C['obs']['nobs']))
            if not flat:
                entry('observable', sec, f'z_bin_{b + 1}', np.linspace(C['obs']['zmin'][b], C['obs']['zmax'][b], C['obs']['nz']))
    if C['alignment']:
        q = H.spectra(**{**kw, 'hod_settings': dict(C['ia_settings'][0])})
        nb = occupations(C['ia_section'], q)
        for t in ('cen_dep', 'sat_dep'):
            mon.event('ia.' + C[t])
        for flag, base, name in (('p_II', 'intrinsic_power', 'ii'), ('p_gI', 'galaxy_intrinsic_power', 'gi'), ('p_mI', 'matter_intrinsic_power', 'mi')):
            if C[flag]:
                spectrum(name, base, getattr(q, 'power_spectrum_' + name), True, nb)
            else:
                absent(base)
