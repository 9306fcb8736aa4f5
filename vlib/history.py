"""Complete configurations that can be mutated step by step: used for the history checks (C01, C02, C16)."""
import numpy as np
from . import gen, harness as H
from .gen import U, pick, r

TRACKED_ING = ('mass', 'dndlnm', 'halo_bias', 'mean_density0', 'rho_halo', 'nu', 'neff', 'sigma8_z', 'power', 'conc_cen', 'conc_sat', 'r_s_cen', 'rvir_sat',
               'u_dm', 'u_sat', 'growth_factor', 'fnu', 'omega_m', 'mean_density_z', 'halo_overdensity_mean')
OBSQ = ('obs_func', 'obs_func_cen', 'obs_func_sat', 'obs_func_z', 'obs_func_obs')


def settings(rng, z, nb, mm=False):
    """All keys always present, so that merging and replacing dictionaries agree."""
    z0, z1 = min(z), max(z)
    lo = [U(rng, 8.5, 10.2) for _ in range(nb)]
    return {'observables_file': None, 'obs_min': lo, 'obs_max': [r(x + rng.uniform(.4, 1.4)) for x in lo],
            'zmin': [r(max(0, z0 - rng.uniform(0, .1))) for _ in range(nb)], 'zmax': [r(z1 + rng.uniform(0, .2)) for _ in range(nb)],
            'nz': int(rng.integers(2, 6)), 'nobs': int(rng.integers(12, 40)), 'observable_h_unit': pick(rng, '1/h', '1/h^2')}


def hodp(rng, model, nb):
    if model == 'Cacciato':
        full = dict(log10_obs_norm_c=(9.6, 10.3), log10_m_ch=(10.9, 11.8), g1=(2.5, 4.), g2=(.1, .5), sigma_log10_O_c=(.1, .3),
                    norm_s=(.4, .8), pivot=(11.5, 12.5), alpha_s=(-1.4, -.8), beta_s=(1.5, 2.5), b0=(-1.5, -.8), b1=(1., 1.7), b2=(-.3, 0.))
        p = {k: U(rng, *v) for k, v in full.items()}
    else:
        p = gen.hod_params(rng, model, nb)
        p = {k: (v if isinstance(v, list) else [v] * nb) for k, v in p.items() if k not in ('A_cen', 'A_sat')}
    p['A_cen'] = pick(rng, None, U(rng, -.4, .4))
    p['A_sat'] = pick(rng, None, U(rng, -.4, .4))
    return p


def align(rng, lum=None):
    a = dict(gamma_2h_amplitude=U(rng, .5, 8) * pick(rng, 1, 1, 1, -1), gamma_1h_amplitude=r(10 ** rng.uniform(-4, -1.5)), gamma_1h_slope=pick(rng, -2., 0., U(rng, -2.5, -.5)),
             beta_cen=U(rng, -.4, 1), beta_sat=U(rng, -.4, 1), beta_two=None, ell_max=pick(rng, 2, 4, 6), truncate=bool(rng.random() < .3),
             lpivot_cen=None, lpivot_sat=None, z_loglum_file_centrals=None, z_loglum_file_satellites=None)
    for t, T in (('cen', 'central'), ('sat', 'satellite')):
        q = rng.random()
        if q < .25:
            a[f'{T}_ia_depends_on'], a[f'mpivot_{t}'] = 'constant', None
        elif q < .4:
            a[f'{T}_ia_depends_on'], a[f'mpivot_{t}'], a[f'lpivot_{t}'] = 'luminosity', None, U(rng, 9.7, 10.3)
            a[f'z_loglum_file_{T}s'] = {'lum_seed': int(rng.integers(1 << 30)), 'n': 60, 'mean': U(rng, 9.7, 10.4), 'sig': .3}
            if t == 'cen':
                a['beta_two'] = pick(rng, None, U(rng, .1, 1.))
        else:
            a[f'{T}_ia_depends_on'], a[f'mpivot_{t}'] = 'halo_mass', U(rng, 12.5, 14)
    return a


def initial(rng, nb=None):
    c = dict(h0=U(rng, .6, .8), omega_c=U(rng, .15, .4), omega_b=U(rng, .03, .07), n_s=U(rng, .85, 1.05), sigma_8=U(rng, .6, 1.0), w0=-1.0, wa=0.0,
             m_nu=pick(rng, 0.0, .06), tcmb=2.7255, Neff=3.046)
    c['z_vec'] = gen.redshifts(rng, 2, 4, 2.0)
    c['k_vec'] = [float(x) for x in np.logspace(-3, rng.uniform(0, 1.5), int(rng.integers(12, 20)))]
    c.update(Mmin=pick(rng, 10., 11.), Mmax=pick(rng, 15., 15.5), dlog10m=.25)
    c.update(transfer_model='EH', growth_model='GrowthFactor', transfer_params={}, growth_params={}, halo_profile_model_dm='NFW', halo_profile_model_sat='NFW', mdef_model='SOMean', overdensity=200., hmf_model='Tinker10', bias_model='Tinker10',
             halo_concentration_model_dm='Duffy08', halo_concentration_model_sat='Duffy08', delta_c=1.686, hmcode_ingredients=None, log10T_AGN=U(rng, 7.4, 8.2),
             norm_cen=1.0, norm_sat=1.0, eta_cen=0.0, eta_sat=0.0)
    c.update(nonlinear_mode=None, dewiggle=False, response=False, pointmass=False, compute_observable=False, matter_power_lin=None, matter_power_nl=None,
             mb=r(10 ** rng.uniform(12.5, 14.5)), beta_nl=None, one_halo_ktrunc=.1, two_halo_ktrunc=2., t_eff=0.0, one_halo_ktrunc_ia=4., two_halo_ktrunc_ia=6.,
             poisson_model='constant', poisson_params={'poisson': U(rng, .6, 1.4)})
    nb = nb or int(rng.integers(1, 4))
    c['hod_model'] = pick(rng, 'Cacciato', *gen.HOD_MODELS)
    c['hod_params'] = hodp(rng, c['hod_model'], nb)
    c['hod_settings'] = settings(rng, c['z_vec'], nb)
    c['hod_settings_mm'] = settings(rng, c['z_vec'], 1)
    c['obs_settings'] = settings(rng, c['z_vec'], pick(rng, 1, 2))
    c['align_params'] = align(rng)
    return c


GROUPS = ('cosmo', 'cosmo', 'cosmo', 'dark', 'z', 'k', 'mass', 'mdef', 'hmf', 'conc', 'transfer', 'growth', 'prof', 'norm', 'hmcode', 'hmcode', 'mode', 'mode', 'response', 'dewiggle', 'plin', 'pnl',
          'hod', 'hodp', 'hodp', 'hods', 'hodmm', 'poisson', 'align', 'align', 'trunc', 'truncia', 'teff', 'point', 'mb', 'obs', 'agn', 'beta', 'delta', 'tiny', 'tiny')


TINY = ('h0', 'omega_c', 'omega_b', 'n_s', 'sigma_8', 'w0', 'tcmb', 'Neff', 'm_nu', 'overdensity', 'log10T_AGN', 'norm_cen', 'norm_sat', 'eta_cen', 'eta_sat', 'mb', 'one_halo_ktrunc',
        'two_halo_ktrunc', 't_eff', 'one_halo_ktrunc_ia', 'two_halo_ktrunc_ia', 'delta_c', 'poisson_params', 'hod_params', 'align_params', 'z_vec', 'k_vec', 'matter_power_lin',
        'matter_power_nl', 'beta_nl')


def tiny(rng, c):
    """One value changed by a small relative amount: still another value."""
    e = 1 + 10 ** rng.uniform(-6, -2) * (1 if rng.random() < .5 else -1)

    def scale(v):
        if isinstance(v, list):
            i = int(rng.integers(len(v)))
            return [x * e if j == i else x for j, x in enumerate(v)]
        return v * e

    for n in rng.permutation(TINY):
        n, v = str(n), c[str(n)]
        if v is None or (isinstance(v, float) and v == 0):
            continue
        if n in ('matter_power_lin', 'matter_power_nl', 'beta_nl'):
            return {n: {**v, 'scale': v.get('scale', 1.0) * e}}
        if n.endswith('_params'):
            keys = [k for k, x in v.items() if isinstance(x, (float, list)) and np.all(x)]
            if not keys:
                continue
            k = pick(rng, *keys)
            return {n: {**v, k: scale(v[k])}}
        if n == 'z_vec':
            i = int(rng.integers(len(v)))
            return {n: [x * e if j == i else x for j, x in enumerate(v)]} if v[i] > 0 and np.all(np.diff([x * e if j == i else x for j, x in enumerate(v)]) > 0) else {'sigma_8': c['sigma_8'] * e}
        return {n: scale(v)}


def mutate(rng, c, group):
    """Changed entries of the configuration c for one group of parameters; c itself is not touched."""
    u = {}
    z = c['z_vec']
    nb = len(c['hod_settings']['obs_min'])
    if group == 'cosmo':
        for n, a, b in (('h0', .6, .8), ('omega_c', .15, .4), ('omega_b', .03, .07), ('n_s', .85, 1.05), ('sigma_8', .6, 1.0)):
            if rng.random() < .4:
                u[n] = U(rng, a, b)
        if not u:
            u['sigma_8'] = U(rng, .6, 1.)
    elif group == 'dark':
        q = rng.random()
        if q < .4:
            u.update(w0=U(rng, -1.2, -.8), wa=pick(rng, 0.0, U(rng, -.3, .2)))
        elif q < .7:
            u['m_nu'] = pick(rng, 0.0, U(rng, .02, .3))
        elif q < .85:
            u['tcmb'] = U(rng, 2.65, 2.8)
        else:
            u['Neff'] = U(rng, 3.0, 3.5)
    elif group == 'z':
        u['z_vec'] = gen.redshifts(rng, 2, 4, 2.0) if rng.random() < .6 else [r(x + .05) for x in z]
        if len(u['z_vec']) != len(z):
            for n in ('norm_cen', 'norm_sat', 'eta_cen', 'eta_sat'):
                if isinstance(c[n], list):
                    u[n] = U(rng, .1, .3) if n.startswith('eta') else U(rng, .7, 1.2)
    elif group == 'k':
        u['k_vec'] = [float(x) for x in np.logspace(-3, rng.uniform(0, 1.5), int(rng.integers(12, 20)) if rng.random() < .6 else len(c['k_vec']))]
    elif group == 'mass':
        if rng.random() < .5:                              # another range with the same number of masses
            n = len(np.arange(c['Mmin'], c['Mmax'], c['dlog10m']))
            d = -c['dlog10m'] if c['Mmin'] >= 10.5 else c['dlog10m']
            if len(np.arange(c['Mmin'] + d, c['Mmax'] + d, c['dlog10m'])) == n:
                u.update(Mmin=c['Mmin'] + d, Mmax=c['Mmax'] + d)
        if not u:
            u.update(pick(rng, dict(Mmin=pick(rng, 10., 10.5, 11.)), dict(Mmax=pick(rng, 15., 15.5, 16.)), dict(dlog10m=pick(rng, .2, .25))))
    elif group == 'mdef':
        u['mdef_model'] = pick(rng, 'SOMean', 'SOCritical', 'SOVirial')
        if rng.random() < .5:
            u['overdensity'] = U(rng, 180, 400)
    elif group == 'hmf':
        u.update(pick(rng, dict(hmf_model=pick(rng, 'Tinker10', 'Tinker08', 'ST', 'PS')), dict(bias_model=pick(rng, 'Tinker10', 'ST99', 'SMT01', 'Mo96')), dict(overdensity=U(rng, 180, 400))))
    elif group == 'conc':
        u[pick(rng, 'halo_concentration_model_dm', 'halo_concentration_model_sat')] = pick(rng, 'Duffy08', 'Bullock01', 'Maccio07')
    elif group == 'transfer':
        u.update(transfer_model=pick(rng, 'EH', 'EH_NoBAO', 'BBKS'), transfer_params={})
        if rng.random() < .4:
            u.update(gen.transfer_array(rng))
    elif group == 'growth':
        u.update(growth_model=pick(rng, 'GrowthFactor', 'Carroll1992'), growth_params={})
        if rng.random() < .5:
            u.update(gen.growth_array(rng))
    elif group == 'prof':
        u['halo_profile_model_' + pick(rng, 'dm', 'sat')] = pick(rng, 'NFW', 'Hernquist', 'CoredNFW')
    elif group == 'norm':
        n = pick(rng, 'norm_cen', 'norm_sat', 'eta_cen', 'eta_sat')
        a, b = (-.2, .3) if n.startswith('eta') else (.6, 1.3)
        u[n] = [U(rng, a, b) for _ in z] if rng.random() < .4 else U(rng, a, b)
    elif group == 'hmcode':
        u['hmcode_ingredients'] = pick(rng, None, 'mead2020', 'mead2020_feedback', 'fit')
    elif group == 'mode':
        u['nonlinear_mode'] = pick(rng, None, 'fortuna', 'hmcode', 'bnl')
    elif group == 'response':
        u['response'] = not c['response']
    elif group == 'dewiggle':
        u['dewiggle'] = not c['dewiggle']
    elif group == 'plin':
        u['matter_power_lin'] = pick(rng, None, gen.pnl_spec(rng))
    elif group == 'pnl':
        u['matter_power_nl'] = pick(rng, None, gen.pnl_spec(rng))
    elif group == 'hod':
        u['hod_model'] = pick(rng, *gen.HOD_MODELS)
        u['hod_params'] = hodp(rng, u['hod_model'], nb)
    elif group == 'hodp':
        u['hod_params'] = hodp(rng, c['hod_model'], nb)
        if rng.random() < .5:                              # a single parameter
            k = pick(rng, *u['hod_params'])
            u['hod_params'] = {**c['hod_params'], k: u['hod_params'][k]}
    elif group == 'hods':
        n = int(rng.integers(1, 4)) if c['hod_model'] == 'Cacciato' else nb
        u['hod_settings'] = settings(rng, z, n)
    elif group == 'hodmm':
        u['hod_settings_mm'] = settings(rng, z, 1)
    elif group == 'poisson':
        if rng.random() < .5:
            u.update(poisson_model='power_law', poisson_params={'poisson': U(rng, .6, 1.4), 'pivot': U(rng, 12, 14), 'slope': U(rng, -.3, .3)})
        else:
            u.update(poisson_model='constant', poisson_params={'poisson': U(rng, .6, 1.4)})
    elif group == 'align':
        u['align_params'] = align(rng)
        if rng.random() < .5:
            k = pick(rng, 'gamma_2h_amplitude', 'gamma_1h_amplitude', 'gamma_1h_slope', 'ell_max', 'truncate')
            u['align_params'] = {**c['align_params'], k: u['align_params'][k]}
    elif group == 'trunc':
        u[pick(rng, 'one_halo_ktrunc', 'two_halo_ktrunc')] = pick(rng, None, U(rng, .02, 1.))
    elif group == 'truncia':
        u[pick(rng, 'one_halo_ktrunc_ia', 'two_halo_ktrunc_ia')] = pick(rng, None, U(rng, 1., 8.))
    elif group == 'teff':
        u['t_eff'] = U(rng, 0, 1)
    elif group == 'point':
        u['pointmass'] = not c['pointmass']
    elif group == 'mb':
        u['mb'] = r(10 ** rng.uniform(12.5, 14.5))
    elif group == 'obs':
        u.update(pick(rng, dict(compute_observable=not c['compute_observable']), dict(obs_settings=settings(rng, z, pick(rng, 1, 2)))))
    elif group == 'agn':
        u['log10T_AGN'] = U(rng, 7.4, 8.2)
    elif group == 'beta':
        u['beta_nl'] = {'beta_seed': int(rng.integers(1 << 30)), 'zdep': bool(rng.random() < .5), 'amp': .3}
    elif group == 'tiny':
        u.update(tiny(rng, c))
    elif group == 'delta':
        u['delta_c'] = U(rng, 1.6, 1.75)
    # keep the final configuration valid and cheap
    n = {**c, **u}
    if n['nonlinear_mode'] == 'hmcode' and not str(n['hmcode_ingredients']).startswith('mead'):
        if 'nonlinear_mode' in u:
            u['hmcode_ingredients'] = pick(rng, 'mead2020', 'mead2020_feedback')
        else:
            u['nonlinear_mode'] = None
    if n['nonlinear_mode'] == 'bnl' and n['beta_nl'] is None:
        u['beta_nl'] = {'beta_seed': int(rng.integers(1 << 30)), 'zdep': bool(rng.random() < .5), 'amp': .3}
    return u


def valid(n):
    return not (n['nonlinear_mode'] == 'hmcode' and not str(n['hmcode_ingredients']).startswith('mead')) and not (n['nonlinear_mode'] == 'bnl' and n['beta_nl'] is None)


def arguments(c, u=None):
    """Materialised arguments of the update u on top of the configuration c (or of c alone)."""
    n = {**c, **(u or {})}
    full = gen.materialise(n)
    if u is None:
        return full
    out = {k: full[k] for k in u}
    grids = {'z_vec', 'k_vec', 'Mmin', 'Mmax', 'dlog10m'} & set(u)
    if grids & {'z_vec', 'k_vec'}:
        for k in ('matter_power_lin', 'matter_power_nl'):
            if n[k] is not None:
                out[k] = full[k]
    if grids and n['beta_nl'] is not None:
        out['beta_nl'] = full['beta_nl']
    if 'z_vec' in grids:
        out['align_params'] = full['align_params']         # luminosity files follow the redshifts
    return out


def apply(rng, obj, c, u):
    """obj.update(u), split over several calls at times; returns the new configuration."""
    args = dict(arguments(c, u))
    keys = list(args)
    rng.shuffle(keys)
    clear = {}
    for k in ('hod_params', 'poisson_params', 'hod_settings', 'align_params', 'transfer_params', 'growth_params'):
        if k in args and set(args[k]) != set(c[k]):
            clear[k] = {}
    if clear:                       # dictionaries are merged by update; other keys are dropped by clearing first
        obj.update(**clear)
    for k in ('hod_params', 'align_params', 'poisson_params', 'hod_settings'):      # dictionaries are merged: the changed keys alone will do
        if k in u and k not in clear and rng.random() < .4:
            part = {q: v for q, v in args[k].items() if u[k].get(q) != c[k].get(q) or q.startswith('z_loglum')}
            args[k] = part or args[k]                      # an empty dictionary would clear it
    valid = 'nonlinear_mode' not in args and 'hmcode_ingredients' not in args
    if len(keys) > 1 and valid and rng.random() < .3:
        h = len(keys) // 2
        obj.update(**{k: args[k] for k in keys[:h]})
        obj.update(**{k: args[k] for k in keys[h:]})
    else:
        obj.update(**{k: args[k] for k in keys})
    return {**c, **u}


def observe(p, names):
    """Read the named outputs; copies, or the type of the exception."""
    out = {}
    for n in names:
        try:
            if n in H.NAMES or n == 'lin':
                x = getattr(p, 'power_spectrum_' + n)
                for part in H.PARTS:
                    v = getattr(x, part)
                    out[n, part] = None if v is None else np.array(v, float)
            elif n.startswith('hod.'):
                out[n] = np.array(getattr(p.hod, n[4:]), float)
            else:
                v = getattr(p, n)
                out[n] = None if v is None else np.array(v, float)
        except Exception as e:
            out[n] = 'raises ' + type(e).__name__
    return out


ALL = tuple(H.NAMES) + ('lin',) + TRACKED_ING + OBSQ + tuple('hod.' + q for q in H.HODQ)


def some(rng, lo=1, hi=6):
    """A random choice of outputs, biased to the spectra."""
    n = int(rng.integers(lo, hi + 1))
    out = []
    for _ in range(n):
        out.append(pick(rng, *H.NAMES) if rng.random() < .6 else pick(rng, *ALL))
    return out
