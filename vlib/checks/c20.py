"""C20: the observable (stellar-mass / luminosity) function counts the galaxies of the HOD."""
import numpy as np
import onepower
from scipy.integrate import simpson
from .. import gen, ref, harness as H
PROPERTY = 'C20'
RULE = ('random conditional-function parameters, observable bins (settings or file), redshift ranges, grids and cosmologies; the reported functions are compared with a '
        'mass-by-mass evaluation and, integrated over the bin, with the number density of the HOD; histories switch the output and the model on and off; non-trivial when '
        'values were compared at every bin, redshift and observable')
ASSUMPTIONS = ['scipy.simpson trusted', 'halo mass function of the object under test is decided by C15']
REQUIRED = ['obs_func', 'obs_func_cen', 'obs_func_sat', 'grid', 'redshifts', 'sum', 'count.total', 'count.cen', 'count.sat', 'off', 'other model', 'switched', 'from file',
            'several bins', 'own settings', 'read order', 'no assembly bias', 'analytic', 'alone']
READS = ('obs_func', 'obs_func_cen', 'obs_func_sat', 'obs_func_obs', 'obs_func_z')


def cases(tier, rng):
    n = 900 if tier == 'quick' else 5000
    return H.seeds(rng, n)


def run_case(case, mon):
    rng = np.random.default_rng(case['seed'])
    kw = gen.base(rng, nz=(2, 5), nk=(4, 8))
    gen.galaxy(rng, kw, model='Cacciato')
    same = rng.random() < .4
    kw['obs_settings'] = kw['hod_settings'] if same else gen.hod_settings(rng, kw['z_vec'])
    kw['compute_observable'] = True
    S = kw['obs_settings']
    nb = 1 if 'observables_rows' in S else len(S['obs_min'])
    mon.note = dict(H.digest(kw), obs_bins=nb, nobs=S['nobs'], same_settings=bool(same))
    args = gen.materialise(kw)
    if same:
        args['obs_settings'] = dict(args['hod_settings'])
    p = H.spectra(**args)
    if not same:
        mon.event('own settings')
    if nb > 1:
        mon.event('several bins')
    if 'observables_rows' in S:
        mon.event('from file')
    if rng.random() < .4:
        for n in gen.pick(rng, ('gg',), ('gm', 'gg'), ('mm',)):
            getattr(p, 'power_spectrum_' + n)
    judge(mon, rng, p, args, args['hod_params'])
    # histories: switch the output, the model, the parameters and the sample
    for _ in range(int(rng.integers(1, 4))):
        q = int(rng.integers(5))
        if q == 0:
            p.update(compute_observable=False)
            for n in READS:
                mon.check('off', getattr(p, n) is None, 'reported although not requested', which=n)
            p.update(compute_observable=True)
            mon.event('switched')
        elif q == 1:
            m = gen.pick(rng, *[x for x in gen.HOD_MODELS if x != 'Cacciato'])
            nh = len(args['hod_settings'].get('obs_min', [0]))
            other = {k: (np.array(v) if isinstance(v, list) else v) for k, v in gen.hod_params(rng, m, nh).items()}
            fresh = H.spectra(**{**args, 'hod_model': m, 'hod_params': other})
            for n in READS:
                mon.check('other model', getattr(fresh, n) is None, 'reported for a model that does not define it', which=n, model=m)
            continue
        elif q == 2:
            new = gen.hod_params(rng, 'Cacciato', 1)
            args['hod_params'] = {**args['hod_params'], **new}
            p.update(hod_params=dict(new))
            mon.event('switched')
        elif q == 3:
            args['obs_settings'] = gen.mat_settings(gen.hod_settings(rng, kw['z_vec']))
            p.update(obs_settings={})
            p.update(obs_settings=dict(args['obs_settings']))
            mon.event('switched')
        else:
            args['sigma_8'] = gen.U(rng, .7, .95)
            p.update(sigma_8=args['sigma_8'])
            mon.event('switched')
        judge(mon, rng, p, args, args['hod_params'])
    if rng.random() < .2:
        q = H.spectra(**{k: v for k, v in args.items() if k != 'compute_observable'})
        for n in READS:
            mon.check('off', getattr(q, n) is None, 'reported by default', which=n)


def judge(mon, rng, p, args, params):
    order = list(READS)
    rng.shuffle(order)
    got = {n: np.array(getattr(p, n), float) for n in order}
    mon.event('read order')
    m, dn, bias = np.asarray(p.mass), np.asarray(p.dndlnm), np.asarray(p.halo_bias)
    h = args['h0']
    z = np.asarray(args['z_vec'], float)
    W = ref.RefHOD('Cacciato', params, args['obs_settings'], m, dn, bias, z, h)
    c, s, g, zz = W.observable_function()
    mon.close('grid', got['obs_func_obs'], np.broadcast_to(g, got['obs_func_obs'].shape) if got['obs_func_obs'].ndim == 3 else g, 1e-9)
    mon.close('redshifts', np.squeeze(got['obs_func_z']).reshape(zz.shape), zz, 1e-12)
    tiny = 1e-9
    for n, w in (('obs_func_cen', c), ('obs_func_sat', s), ('obs_func', c + s)):
        mon.close(n, got[n], w, 1e-8, scale=tiny * np.max(np.abs(w)))
    mon.close('sum', got['obs_func_cen'] + got['obs_func_sat'], got['obs_func'], 1e-9)
    # galaxies counted by the function = galaxies counted by the occupation
    plain = {k: v for k, v in params.items() if k not in ('A_cen', 'A_sat')}
    if len(plain) != len(params):
        mon.event('no assembly bias')
    H0 = onepower.Cacciato(cosmo=p.cosmo_model, mass=m, dndlnm=dn, halo_bias=bias, z_vec=z, hod_settings=dict(args['obs_settings']), **plain)
    O = g
    for n, q in (('obs_func_cen', 'number_density_cen'), ('obs_func_sat', 'number_density_sat'), ('obs_func', 'number_density')):
        cnt = simpson(got[n] / (np.log(10) * O), x=O, axis=-1)
        if cnt.shape[1] < 2:
            continue
        want = np.array([ref.lin_interp(zz[b], cnt[b], z) for b in range(len(zz))])
        mon.close({'obs_func_cen': 'count.cen', 'obs_func_sat': 'count.sat', 'obs_func': 'count.total'}[n], np.asarray(getattr(H0, q)), want, 1e-7,
                  scale=1e3 * np.max(np.abs(want)) * 1e-3)
    # and equals the closed form for centrals: sum over masses of the log-normal fraction in the bin
    from scipy.special import erf
    full = W.p
    x = m / 10. ** full['log10_m_ch']
    Oc = full['log10_obs_norm_c'] + full['g1'] * np.log10(x) - (full['g1'] - full['g2']) * np.log10(1 + x)
    if W.nobs >= 40:
        for b in range(W.nb):
            for j in range(len(W.z[b])):
                E = lambda v: .5 * (1 + erf((v - Oc) / (np.sqrt(2) * full['sigma_log10_O_c'])))
                frac = E(W.hi[b][j]) - E(W.lo[b][j])
                want = simpson(frac * W.dn[b][j] / m, x=m)
                cnt = simpson(got['obs_func_cen'][b, j] / (np.log(10) * O[b, j]), x=O[b, j])
                mon.close('analytic', cnt, want, 5e-3, atol=1e-3 * np.max(simpson(W.dn[b][j] / m, x=m)) * np.max(np.abs(frac)) * 1e-2)
    # a bin computed alone
    if W.nb > 1:
        b = int(rng.integers(W.nb))
        st = {q: (v[b:b + 1] if q in gen.HOD_ARRAYS else v) for q, v in args['obs_settings'].items()}
        one = onepower.Cacciato(cosmo=p.cosmo_model, mass=m, dndlnm=dn, halo_bias=bias, z_vec=z, hod_settings=st, **params)
        lo = np.asarray(one.obs_func).reshape(got['obs_func'][b].shape) * np.log(10) * O[b]
        mon.close('alone', lo, got['obs_func'][b], 1e-9)
