"""C15: halo-model ingredients against a halo model evaluated at each redshift alone, plus closed-form relations."""
import numpy as np
from scipy.special import sici
from .. import gen, ref, harness as H
PROPERTY = 'C15'
RULE = ('random cosmologies, redshift grids, mass definitions, mass-function/bias/concentration/profile models, per-redshift normalisation and bloating; '
        'every public ingredient compared with one halo model per redshift and with closed-form relations; non-trivial when all ingredients were compared')
ASSUMPTIONS = ['hmf / halomod trusted for mass functions, bias and concentrations of one redshift', 'growth equation tolerance 4e-3 (the code integrates with default tolerances)']
REQUIRED = ['mass', 'dndlnm', 'halo_bias', 'conc_cen', 'conc_sat', 'rvir_cen', 'rvir_sat', 'r_s_cen', 'r_s_sat', 'u_dm', 'u_sat', 'power', 'sigma8_z', 'growth_factor', 'nu', 'neff',
            'rho_halo', 'mean_density0', 'mead.growth', 'mead.dc', 'mead.Dv', 'mead.lcdm', 'closed.radius', 'closed.nfw', 'closed.density', 'closed.sigma8', 'closed.flat', 'fnu', 'colossus', 'in_spectra', 'omega_m', 'other profile']


def cases(tier, rng):
    n = 420 if tier == 'quick' else 8000
    return H.seeds(rng, n) + H.seeds(rng, 0 if tier == 'quick' else 20, camb=True)


def nfw_u(k, rs, c):
    x = k * rs
    si1, ci1 = sici((1 + c) * x)
    si0, ci0 = sici(x)
    f = np.sin(x) * (si1 - si0) - np.sin(c * x) / ((1 + c) * x) + np.cos(x) * (ci1 - ci0)
    return f / (np.log(1 + c) - c / (1 + c))


def run_case(case, mon):
    from onepower import HaloModelIngredients
    rng = np.random.default_rng(case['seed'])
    kw = gen.base(rng, nz=(1, 6))
    for q in ('one_halo_ktrunc', 'two_halo_ktrunc'):
        kw.pop(q, None)
    if rng.random() < .15 and not kw.get('hmcode_ingredients'):
        kw['halo_concentration_model_dm'] = gen.pick(rng, 'duffy08', 'diemer19', 'prada12')
        kw['mdef_model'] = 'SOMean'
        kw['overdensity'] = 200.
        mon.event('colossus')
    if rng.random() < .2:
        kw['hmcode_ingredients'] = 'fit'
    if rng.random() < .3:
        kw['dlnk'] = gen.U(rng, .05, .2)
        kw['lnk_min'], kw['lnk_max'] = gen.U(rng, -10, -8), gen.U(rng, 8, 10)
    if case.get('camb'):
        kw.update(transfer_model='CAMB', growth_model='CambGrowth', w0=-1.0, wa=0.0, transfer_params=None, growth_params=None)
    mon.note = H.digest(kw)
    args = gen.materialise(kw)
    if rng.random() < .3:
        mon.event('in_spectra')
        p = H.spectra(**args)
    else:
        p = HaloModelIngredients(**args)
    R = ref.Ref(**args)
    z, k = args['z_vec'], args['k_vec']
    order = list(H.INGREDIENTS)
    rng.shuffle(order)
    for q in order:
        mon.close(q, np.asarray(getattr(p, q)), getattr(R, q), 1e-7)
    mead = kw.get('hmcode_ingredients') in ('mead2020', 'mead2020_feedback')
    # closed-form relations between what is reported
    mon.close('omega_m', p.omega_m, kw['omega_c'] + kw['omega_b'], 1e-10)
    mon.close('fnu', np.asarray(p.fnu), np.full(len(z), R.cosmo.Onu0 / R.cosmo.Om0), 1e-9)
    m = np.asarray(p.mass)
    rho = np.asarray(p.rho_halo)
    for t in ('cen', 'sat'):
        rv, rs, c = (np.asarray(getattr(p, f'{q}_{t}')) for q in ('rvir', 'r_s', 'conc'))
        if mead or kw.get('mdef_model', 'SOMean') == 'SOMean':
            mon.close('closed.radius', rv ** 3 * 4 * np.pi / 3 * rho[:, None], np.repeat(m[None], len(z), 0), 1e-6)
        eta = .1281 * np.asarray(p.sigma8_z) ** -.3644 if mead else np.broadcast_to(np.asarray(args.get('eta_' + t, 0.0), float), z.shape)
        mon.close('closed.radius', rs * c, rv * np.asarray(p.nu) ** eta[:, None], 1e-6)       # bloated haloes
        # NFW transform with bloating r_s -> r_s nu^eta
        u = np.asarray(getattr(p, {'cen': 'u_dm', 'sat': 'u_sat'}[t]))
        mon.check('closed.flat', bool(np.all(np.abs(u[:, 0, :] - 1) < 1e-9)), 'profile not normalised at the first wavenumber')
        mon.check('closed.flat', bool(np.all(np.abs(u) <= 1 + 1e-6)), 'profile above one', worst=float(np.max(np.abs(u))))
        i, j = int(rng.integers(len(z))), int(rng.integers(len(m)))
        if kw.get('halo_profile_model_' + {'cen': 'dm', 'sat': 'sat'}[t], 'NFW') != 'NFW':
            mon.event('other profile')
            continue
        w = np.array([nfw_u(q, rs[i, j], c[i, j]) for q in k])
        mon.close('closed.nfw', u[i, :, j], w / w[0], 2e-4, atol=1e-6)
    md0 = 2.77536627e11 * (kw['omega_c'] + kw['omega_b'])
    mon.close('closed.density', np.asarray(p.mean_density0), np.full(len(z), md0), 2e-3)
    mon.close('closed.density', rho, np.asarray(p.halo_overdensity_mean) * np.asarray(p.mean_density0), 1e-9)
    if not case.get('camb'):
        g = np.asarray(p.growth_factor)
        mon.close('closed.sigma8', np.asarray(p.sigma8_z), kw['sigma_8'] * g, 2e-2)
        mon.close('closed.sigma8', np.asarray(p.sigma8_z) / g, np.full(len(z), p.sigma8_z[0] / g[0]), 1e-6)
        P = np.asarray(p.power)
        mon.close('closed.sigma8', P / g[:, None] ** 2, np.repeat((P[0] / g[0] ** 2)[None], len(z), 0), 1e-6)
    # growth, collapse threshold and overdensity of the HMCode fits, with an accurate integration of the growth equation
    dc, Dv, gg, GG = ref.mead_collapse(R.cosmo, z, tight=True)
    mon.close('mead.growth', np.asarray(p.get_mead_growth), gg, 4e-3)
    mon.close('mead.growth', np.asarray(p.get_mead_accumulated_growth), GG, 4e-3)
    mon.close('mead.dc', np.asarray(p.dc_Mead), dc, 1e-3)
    mon.close('mead.Dv', np.asarray(p.Dv_Mead), Dv, 2e-2)
    dc2, Dv2, g2, G2 = ref.mead_collapse(R.cosmo, z)
    mon.close('mead.growth', np.asarray(p.get_mead_growth), g2, 1e-7)
    mon.close('mead.growth', np.asarray(p.get_mead_accumulated_growth), G2, 1e-6)
    mon.close('mead.dc', np.asarray(p.dc_Mead), dc2, 1e-7)
    mon.close('mead.Dv', np.asarray(p.Dv_Mead), Dv2, 1e-6)
    if kw.get('w0', -1.0) == -1.0 and kw.get('wa', 0.0) == 0.0:
        # in a cosmological-constant universe the growth has a closed integral form
        from scipy.integrate import quad
        Om = R.cosmo.Om0 + R.cosmo.Onu0
        E = lambda a: np.sqrt(Om * a**-3 + 1 - Om)
        D = lambda a: 2.5 * Om * E(a) * quad(lambda x: 1 / (x * E(x)) ** 3, 0, a)[0]
        want = np.array([D(1 / (1 + q)) for q in z])
        mon.close('mead.lcdm', np.asarray(p.get_mead_growth), want, 6e-3)
