"""Random configurations. A configuration is a JSON-able dict; materialise() turns it into keyword arguments."""
import os, uuid
import numpy as np

ARRAY_KEYS = {'z_vec', 'k_vec', 'matter_power_lin', 'matter_power_nl'}
HOD_ARRAYS = {'obs_min', 'obs_max', 'zmin', 'zmax'}


def r(x, n=6):
    return float(f'{float(x):.{n}g}')


def U(rng, a, b, n=5):
    return r(rng.uniform(a, b), n)


def pick(rng, *opts):
    return opts[int(rng.integers(len(opts)))]


def cosmology(rng):
    c = dict(h0=U(rng, .6, .8), omega_c=U(rng, .15, .4), omega_b=U(rng, .03, .07), n_s=U(rng, .85, 1.05), sigma_8=U(rng, .6, 1.0))
    if rng.random() < .5:
        c.update(w0=U(rng, -1.25, -.75), wa=U(rng, -.4, .3))
    if rng.random() < .6:
        c['m_nu'] = pick(rng, 0.0, U(rng, .0, .3))
    if rng.random() < .3:
        c['tcmb'] = U(rng, 2.6, 2.85)
    if rng.random() < .3:
        c['Neff'] = U(rng, 3.0, 3.6)
    return c


def redshifts(rng, lo=2, hi=4, zmax=3.0, even=False):
    n = int(rng.integers(lo, hi + 1))
    if even:
        a = U(rng, 0, .6)
        return [r(x) for x in np.linspace(a, a + U(rng, .3, 1.5), n)]
    z = np.sort(rng.uniform(0, pick(rng, 1.0, 2.0, zmax) if zmax < 3 or rng.random() > .08 else 6.0, n))
    if rng.random() < .25:
        z[0] = 0.0
    z = z + np.arange(n) * .02
    return [r(x) for x in z]


def wavenumbers(rng, lo=8, hi=24, log=False):
    n = int(rng.integers(lo, hi + 1))
    k = np.logspace(rng.uniform(-4, -2), rng.uniform(0, 2), n)
    if not log and rng.random() < .3:
        k = np.sort(k * np.exp(rng.uniform(-.2, .2, n)))
        k = np.unique(k)
    if log:
        return [float(x) for x in k]
    return [r(x, 8) for x in k]


def masses(rng):
    d = pick(rng, .1, .15, .2, .25)
    return dict(Mmin=pick(rng, 9., 10., 10.5, 11.), Mmax=pick(rng, 15., 15.5, 16.), dlog10m=d)


def growth_array(rng):
    z = np.linspace(0, 8, 81)
    return dict(growth_model='FromArray', growth_params={'z': z, 'd': 1 / (1 + z) ** U(rng, .85, 1.1)})


def transfer_array(rng):
    k = np.logspace(-5, 4, 200)
    x = k / U(rng, .15, .25)
    L = np.log(2 * np.e + 1.8 * x)
    return dict(transfer_model='FromArray', transfer_params={'k': k, 'T': L / (L + (14.2 + 731 / (1 + 62.5 * x)) * x * x)})


def ingredients(rng, mead=None):
    out = dict(transfer_model=pick(rng, 'EH', 'EH', 'EH_NoBAO', 'BBKS', 'BondEfs'), growth_model='GrowthFactor')
    q = rng.random()
    if q < .1:
        out['growth_model'] = 'Carroll1992'
    elif q < .2:
        out.update(growth_array(rng))
    if rng.random() < .1:
        out.update(transfer_array(rng))
    for t in ('dm', 'sat'):
        if rng.random() < .3:
            out['halo_profile_model_' + t] = pick(rng, 'Hernquist', 'CoredNFW', 'NFW')
    if mead is None:
        mead = pick(rng, None, None, None, 'mead2020', 'mead2020_feedback')
    if mead:
        out['hmcode_ingredients'] = mead
        out['log10T_AGN'] = U(rng, 7.3, 8.4)
    if not mead or rng.random() < .5:
        md = pick(rng, 'SOMean', 'SOMean', 'SOCritical', 'SOVirial')
        out['mdef_model'] = md
        if md != 'SOVirial':
            out['overdensity'] = pick(rng, 200., U(rng, 180, 400))
        out['hmf_model'] = pick(rng, 'Tinker10', 'Tinker10', 'Tinker08', 'ST', 'SMT', 'PS', 'Warren', 'Jenkins', 'Bhattacharya', 'Crocce')
        out['bias_model'] = pick(rng, 'Tinker10', 'Tinker10', 'ST99', 'SMT01', 'Mo96', 'Jing98', 'Tinker05', 'UnityBias', 'Pillepich10')
        out['halo_concentration_model_dm'] = pick(rng, 'Duffy08', 'Bullock01', 'Maccio07', 'Bullock01Power')
        out['halo_concentration_model_sat'] = pick(rng, 'Duffy08', 'Bullock01', 'Maccio07', 'Bullock01Power')
        if rng.random() < .5:
            out['delta_c'] = U(rng, 1.6, 1.75)
    return out


def per_z(rng, nz, a, b):
    if rng.random() < .3:
        return [U(rng, a, b) for _ in range(nz)]
    return U(rng, a, b)


LARGE = .06


def count(rng, lo, hi, many, p=LARGE):
    """lo..hi, now and then a number out of the range many."""
    return int(rng.integers(*many)) if rng.random() < p else int(rng.integers(lo, hi + 1))


def base(rng, mead=None, nz=(2, 4), nk=(8, 24), logk=False, evenz=False):
    kw = {}
    kw.update(cosmology(rng))
    big = pick(rng, 'z', 'k', 'm') if rng.random() < LARGE else None      # grids of the size used in practice, one at a time
    kw['z_vec'] = redshifts(rng, *((9, 20) if big == 'z' and nz[1] > 1 else nz), even=evenz)
    if rng.random() < .08 and not evenz:
        kw['z_vec'] = kw['z_vec'][:1]                  # a single output redshift
    kw['k_vec'] = wavenumbers(rng, *((64, 200) if big == 'k' else nk), log=logk)
    kw.update(masses(rng))
    if big == 'm':
        kw['dlog10m'] = pick(rng, .02, .03, .04)
    kw.update(ingredients(rng, mead))
    for q in ('halo_concentration_model_dm', 'halo_concentration_model_sat'):
        if kw.get(q) == 'Bullock01Power' and max(kw['z_vec']) > 2:      # halomod has no collapse mass in the range any more
            kw[q] = 'Duffy08'
    if rng.random() < .15:                             # another internal wavenumber table
        kw.update(lnk_min=U(rng, -12, -8), lnk_max=U(rng, 5.5, 11), dlnk=U(rng, .05, .25))
    n = len(kw['z_vec'])
    if rng.random() < .6:
        kw['norm_cen'] = per_z(rng, n, .6, 1.4)
    if rng.random() < .6:
        kw['norm_sat'] = per_z(rng, n, .4, 1.4)
    if rng.random() < .4:
        kw['eta_cen'] = per_z(rng, n, -.2, .3)
    if rng.random() < .4:
        kw['eta_sat'] = per_z(rng, n, -.2, .3)
    for name, lo, hi in (('one_halo_ktrunc', .02, 1.), ('two_halo_ktrunc', .5, 5.)):
        q = rng.random()
        if q < .3:
            kw[name] = None
        elif q < .6:
            kw[name] = U(rng, lo, hi)
    return kw


HOD_MODELS = ('Cacciato', 'Simple', 'Zehavi', 'Zheng', 'Zhai')


def hod_params(rng, model, nbins):
    per = (lambda a, b: [U(rng, a, b) for _ in range(nbins)])
    if model == 'Cacciato':
        p = {}
        full = dict(log10_obs_norm_c=(9.6, 10.3), log10_m_ch=(10.9, 11.8), g1=(2.5, 4.), g2=(.1, .5), sigma_log10_O_c=(.1, .3),
                    norm_s=(.4, .8), pivot=(11.5, 12.5), alpha_s=(-1.4, -.8), beta_s=(1.5, 2.5), b0=(-1.5, -.8), b1=(1., 1.7), b2=(-.3, 0.))
        for k, (a, b) in full.items():
            if rng.random() < .6:
                p[k] = U(rng, a, b)
    elif model in ('Simple', 'Zehavi'):
        p = dict(log10_Mmin=per(11.2, 12.8), log10_Msat=per(12.5, 13.8), alpha=per(.7, 1.3))
    elif model == 'Zheng':
        p = dict(log10_Mmin=per(11.2, 12.8), log10_M0=per(11., 12.8), log10_M1=per(12.5, 13.8), sigma=per(.1, .6), alpha=per(.7, 1.3) if rng.random() < .92 else per(0, 0))
        if rng.random() < .2:
            p['sigma'][int(rng.integers(nbins))] = 0.0
        if rng.random() < .12:
            p['log10_M0'][int(rng.integers(nbins))] = 17.0     # a bin of centrals alone
    else:
        p = dict(log10_Mmin=per(12., 13.8), log10_Msat=per(13., 14.6), log10_Mcut=per(11.5, 12.8), sigma=per(.2, 1.), alpha=per(.4, 1.1))
        if rng.random() < .2:
            p['sigma'][int(rng.integers(nbins))] = 0.0
    if model != 'Cacciato' and nbins == 1 and rng.random() < .5:
        p = {k: v[0] for k, v in p.items()}
    if rng.random() < .3:
        p['A_cen'] = U(rng, -.4, .4)
    if rng.random() < .3:
        p['A_sat'] = U(rng, -.4, .4)
    return p


def hod_settings(rng, z_vec, nbins=None, cover=None, file_ok=True, nobs=None, nz=None):
    """cover: True = the bins span all output redshifts, False = may not."""
    big = pick(rng, 'bins', 'z', 'obs') if rng.random() < LARGE else None
    nbins = nbins or int(rng.integers(1, 4) if big != 'bins' else rng.integers(5, 12))
    cover = bool(rng.random() < .8) if cover is None else cover
    cover = cover or len(z_vec) == 1
    z0, z1 = min(z_vec), max(z_vec)
    nobs = nobs or int(rng.integers(15, 60) if big != 'obs' else rng.integers(200, 500))
    if big == 'z' and len(z_vec) > 1:
        nz = nz or int(rng.integers(10, 40))
    unit = pick(rng, '1/h', '1/h^2')
    if file_ok and rng.random() < .2:
        m = int(rng.integers(2, 6))
        a, b = (max(0., z0 - .05), z1 + .05) if cover else (z0 + .2 * (z1 - z0), z1 - .1 * (z1 - z0))
        lo = rng.uniform(8.5, 10., m)
        return {'observables_rows': [[r(z), r(10**x), r(10 ** (x + rng.uniform(.5, 1.5)))] for z, x in zip(np.linspace(a, b, m), lo)],
                'nobs': nobs, 'observable_h_unit': unit}
    lo = [U(rng, 8.5, 10.5) for _ in range(nbins)]
    hi = [r(x + rng.uniform(.4, 1.5)) for x in lo]
    if cover:
        zmin = [r(max(0., z0 - rng.uniform(0, .1))) for _ in range(nbins)]
        zmax = [r(z1 + rng.uniform(0 if z1 > z0 else .02, .3)) for _ in range(nbins)]
    else:
        zmin = [r(z0 + rng.uniform(0, .45) * (z1 - z0)) for _ in range(nbins)]
        zmax = [r(z1 - rng.uniform(0, .45) * (z1 - z0)) for _ in range(nbins)]
    if len(z_vec) == 1 and nz is None and rng.random() < .4:          # and a sample at that redshift alone
        zmin, zmax, nz = [z0] * nbins, [z0] * nbins, 1
    return {'observables_file': None, 'obs_min': lo, 'obs_max': hi, 'zmin': zmin, 'zmax': zmax, 'nz': nz or int(rng.integers(2, 7)),
            'nobs': nobs, 'observable_h_unit': unit}


def galaxy(rng, kw, model=None, nbins=None, cover=None, file_ok=True):
    model = model or pick(rng, 'Cacciato', 'Cacciato', *HOD_MODELS)
    s = hod_settings(rng, kw['z_vec'], nbins, cover, file_ok)
    nb = 1 if 'observables_rows' in s else len(s['obs_min'])
    kw['hod_model'] = model
    kw['hod_settings'] = s
    kw['hod_params'] = hod_params(rng, model, nb)
    q = rng.random()
    if q < .3:
        kw['poisson_params'] = {'poisson': U(rng, .5, 1.5)}
    elif q < .6:
        kw['poisson_model'] = 'power_law'
        kw['poisson_params'] = {'poisson': U(rng, .5, 1.5), 'pivot': U(rng, 12, 14), 'slope': U(rng, -.3, .3)}
    return kw


def mm_settings(rng, kw):
    s = hod_settings(rng, kw['z_vec'], 1, True, False)
    s['obs_min'], s['obs_max'] = [U(rng, 8., 9.5)], [U(rng, 11., 12.)]
    return s


def feedback(rng, kw):
    """Optionally 'fit' feedback or a point mass with an observed stellar fraction."""
    q = rng.random()
    if q < .2 and not kw.get('hmcode_ingredients'):
        kw['hmcode_ingredients'] = 'fit'
        kw['hod_settings_mm'] = mm_settings(rng, kw)
    if rng.random() < .25:
        kw['pointmass'] = True
    if kw.get('hmcode_ingredients') == 'fit' or kw.get('pointmass'):
        kw['mb'] = r(10 ** rng.uniform(12.5, 14.5))
    return kw


def lum_file(rng, z_vec, n=400):
    """rows (z, loglum): every redshift interval populated."""
    return {'lum_seed': int(rng.integers(1 << 30)), 'n': n, 'mean': U(rng, 9.5, 10.8), 'sig': U(rng, .1, .4)}


def alignment(rng, kw, lum=False):
    a = {}
    if rng.random() < .8:
        a['gamma_2h_amplitude'] = U(rng, .5, 8.)
        if rng.random() < .2:
            a['gamma_2h_amplitude'] *= -1                  # anti-alignment
    if rng.random() < .8:
        a['gamma_1h_amplitude'] = r(10 ** rng.uniform(-4, -1.5))
        if rng.random() < .1:
            a['gamma_1h_amplitude'] *= -1
    if rng.random() < .06:
        a[pick(rng, 'gamma_1h_amplitude', 'gamma_2h_amplitude')] = 0.0
    if rng.random() < .8:
        a['gamma_1h_slope'] = pick(rng, -2., 0., 0, -2, U(rng, -2.5, -.5))
    for t, T in (('cen', 'central'), ('sat', 'satellite')):
        q = rng.random()
        if lum and q < .5 and len(kw['z_vec']) > 1:
            a[f'{T}_ia_depends_on'] = 'luminosity'
            a[f'lpivot_{t}'] = U(rng, 9.8, 10.6)
            a[f'beta_{t}'] = U(rng, -.3, 1.2)
            a[f'mpivot_{t}'] = None
            a['z_loglum_file_' + T + 's'] = lum_file(rng, kw['z_vec'])
            if t == 'cen' and rng.random() < .5:
                a['beta_two'] = U(rng, -.3, 1.2)
        elif q < .7:
            a[f'{T}_ia_depends_on'] = 'constant'
            a[f'mpivot_{t}'] = None
        else:
            if rng.random() < .5:
                a[f'{T}_ia_depends_on'] = 'halo_mass'
            if rng.random() < .7:
                a[f'mpivot_{t}'] = U(rng, 12.5, 14.)
                a[f'beta_{t}'] = U(rng, -.6, 1.)
    if rng.random() < .4:
        a['ell_max'] = pick(rng, 2, 4, 6, 8, 10)
    if rng.random() < .3:
        a['truncate'] = True
    kw['align_params'] = a
    for name, lo, hi in (('one_halo_ktrunc_ia', .5, 8.), ('two_halo_ktrunc_ia', 1., 10.)):
        q = rng.random()
        if q < .2:
            kw[name] = None
        elif q < .6:
            kw[name] = U(rng, lo, hi)
    return kw


def pnl_spec(rng):
    return {'boost_seed': int(rng.integers(1 << 30))}


def materialise(cfg, scratch=None):
    """JSON configuration -> keyword arguments with arrays and files."""
    kw = {}
    z = np.array(cfg['z_vec'], float) if 'z_vec' in cfg else None
    k = np.array(cfg['k_vec'], float) if 'k_vec' in cfg else None
    for key, v in cfg.items():
        if key in ('matter_power_lin', 'matter_power_nl') and isinstance(v, dict):
            v = synth_power(v, z, k)
        elif key == 'beta_nl' and isinstance(v, dict):
            v = synth_beta(v, cfg)
        elif key in ARRAY_KEYS and v is not None:
            v = np.array(v, float)
        elif key in ('hod_settings', 'hod_settings_mm', 'obs_settings') and v:
            v = mat_settings(v, scratch)
        elif key == 'hod_params':
            v = {q: (np.array(w) if isinstance(w, list) else w) for q, w in v.items()}
        elif key in ('norm_cen', 'norm_sat', 'eta_cen', 'eta_sat') and isinstance(v, list):
            v = np.array(v)
        elif key == 'align_params' and v:
            v = dict(v)
            for t in ('z_loglum_file_centrals', 'z_loglum_file_satellites'):
                if isinstance(v.get(t), dict):
                    v[t] = write_lum(v[t], z, scratch)
        kw[key] = v
    return kw


def scratch_dir(scratch=None):
    d = scratch or os.environ.get('VERIF_SCRATCH') or '/tmp'
    return d


def mat_settings(v, scratch=None):
    v = dict(v)
    if 'observables_rows' in v:
        rows = v.pop('observables_rows')
        path = os.path.join(scratch_dir(scratch), f'obs_{uuid.uuid4().hex}.dat')
        with open(path, 'w') as f:
            for row in rows:
                f.write(' '.join(repr(x) for x in row) + '\n')
        v['observables_file'] = path
    for q in HOD_ARRAYS:
        if q in v:
            v[q] = np.array(v[q], float)
    return v


def write_lum(spec, z, scratch=None):
    from astropy.table import Table
    g = np.random.default_rng(spec['lum_seed'])
    dz = 0.5 * np.diff(z) if len(z) > 1 else np.array([.05])
    below, above = np.append(dz[0], dz), np.append(dz, dz[-1])
    zs, ls = [], []
    for zz, a, b in zip(z, below, above):
        zs.append(g.uniform(zz - a * .9, zz + b * .9, spec['n']))
        ls.append(g.normal(spec['mean'] + .3 * zz, spec['sig'], spec['n']))
    path = os.path.join(scratch_dir(scratch), f'lum_{uuid.uuid4().hex}.fits')
    Table({'z': np.concatenate(zs), 'loglum': np.concatenate(ls)}).write(path)
    return path


def synth_power(spec, z, k):
    """A smooth positive spectrum with redshift- and scale-dependent structure."""
    g = np.random.default_rng(spec['boost_seed'])
    a, b, c, d = g.uniform(.5, 2., 4)
    x = k[None, :] / .02
    p = 2e4 * a * x / (1 + x**2) ** (1.1 + .2 * b) * (1 + .2 * c * np.sin(np.log(k)[None, :] + z[:, None]))
    return spec.get('scale', 1.0) * p * (1 + spec.get('lift', .1) * d * k[None, :] ** .5) / (1 + z[:, None]) ** 2


def synth_beta(spec, cfg):
    g = np.random.default_rng(spec['beta_seed'])
    m = np.arange(cfg['Mmin'], cfg['Mmax'], cfg['dlog10m'])
    k = np.array(cfg['k_vec'])
    nz = len(cfg['z_vec']) if spec.get('zdep') else 1
    x = (m - 12) / 2
    out = np.empty((nz, len(k), len(m), len(m)))
    for i in range(nz):
        a, b, c = g.uniform(-.5, .5, 3)
        sh = a + b * np.add.outer(x, x) + c * np.multiply.outer(x, x)
        if not spec.get('symmetric', True):
            sh = sh + g.normal(0, .1, sh.shape)
        out[i] = sh[None] * (k / (1 + k))[:, None, None] * spec.get('amp', 1.0) * spec.get('scale', 1.0)
    return out
