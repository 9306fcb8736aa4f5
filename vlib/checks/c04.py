"""C04: large-scale limits. The profile is normalised at the first wavenumber, where the limits are exact."""
import numpy as np
from .. import gen, harness as H
PROPERTY = 'C04'
RULE = ('random cosmology/mass-range/mass-function/bias/HOD configurations with the first wavenumber at 1e-5..1e-2; sample redshifts equal to the '
        'output redshifts so that both biases refer to the same mass function; non-trivial when all limits were evaluated')
ASSUMPTIONS = ['halo profiles are normalised to one at the first requested wavenumber, so limits hold exactly there']
REQUIRED = ['mm.limit', 'gg.limit', 'gm.limit', 'onehalo.limit', 'bias.value', 'mm.bnl', 'hmcode.limit', 'lowk.flat', 'overfull']


def cases(tier, rng):
    return H.seeds(rng, 1000 if tier == 'quick' else 8000)


def run_case(case, mon):
    rng = np.random.default_rng(case['seed'])
    mode = gen.pick(rng, None, None, None, 'bnl', 'hmcode')
    kw = gen.base(rng, mead=gen.pick(rng, 'mead2020', 'mead2020_feedback') if mode == 'hmcode' else None, evenz=True)
    kw['k_vec'] = [float(x) for x in np.logspace(rng.uniform(-5, -3.5), rng.uniform(0, 1), int(rng.integers(18, 30)))]
    kw['Mmin'] = gen.pick(rng, 8., 9., 10., 11., 12.)
    if kw.get('one_halo_ktrunc', 1) is None:
        kw['one_halo_ktrunc'] = .1
    gen.galaxy(rng, kw, cover=True, file_ok=False)
    s = kw['hod_settings']
    z = kw['z_vec']
    n = len(s['obs_min'])
    s.update(zmin=[z[0]] * n, zmax=[z[-1]] * n, nz=len(z))
    kw['z_vec'] = [float(x) for x in np.linspace(z[0], z[-1], len(z))]
    gen.feedback(rng, kw)
    kw['nonlinear_mode'] = mode
    if mode == 'bnl':
        kw['dlog10m'] = .25
        kw['beta_nl'] = {'beta_seed': 1, 'amp': 0.0}
    if mode != 'hmcode' and rng.random() < .2:
        kw['bias_model'] = 'Seljak04'                  # bias times mass function may exceed the mean density: negative compensation
    if rng.random() < .3:
        kw['matter_power_lin'] = gen.pnl_spec(rng)
    mon.note = H.digest(kw)
    p = H.spectra(**gen.materialise(kw))
    k = np.array(kw['k_vec'])
    P = np.asarray(p.power_spectrum_lin.pk_tot)
    x = (k / 0.05699) ** 2.853
    T2 = np.ones_like(k) if (kw.get('two_halo_ktrunc', 2.) is None or mode == 'bnl') else 1 - .05 * x / (1 + x)
    mm, gg, gm = p.power_spectrum_mm, p.power_spectrum_gg, p.power_spectrum_gm
    bg = np.asarray(p.hod.galaxy_linear_bias)
    over = np.trapezoid(np.asarray(p.halo_bias) * np.asarray(p.dndlnm), x=np.asarray(p.mass), axis=-1) / np.asarray(p.mean_density0)
    if mode != 'hmcode' and np.any(over > 1.001):
        mon.event('overfull')
    if mode == 'hmcode':
        mon.event('hmcode.limit')
        s8 = np.asarray(p.sigma8_z)[None, :]
        x2 = (k[0] / (0.05699 * s8**-1.089)) ** 2.853
        mon.close('mm.limit', mm.pk_2h[..., 0], P[..., 0] * (1 - .2696 * s8**.9403 * x2 / (1 + x2)), 1e-7)
        kt = 0.05618 * s8**-1.013
    else:
        if mode == 'bnl':
            mon.event('mm.bnl')
        mon.close('mm.limit', mm.pk_2h[..., 0], (P * T2)[..., 0], 1e-7)
        kt = kw.get('one_halo_ktrunc', .1)
    mon.close('gg.limit', gg.pk_2h[..., 0], bg**2 * (P * T2)[..., 0], 1e-6)
    mon.close('gm.limit', gm.pk_2h[..., 0], bg * (P * T2)[..., 0], 1e-6)
    mon.close('bias.value', np.asarray(gg.galaxy_linear_bias)[..., 0], bg, 1e-6)
    mon.close('bias.value', np.asarray(gm.galaxy_linear_bias)[..., 0] ** 2, bg, 1e-6)
    mon.close('bias.value', np.asarray(p.hod.galaxy_linear_bias_cen) + np.asarray(p.hod.galaxy_linear_bias_sat), bg, 1e-8)
    # occupation-weighted mean halo bias, evaluated here from the public ingredients
    from scipy.integrate import simpson
    m = np.asarray(p.mass)
    w = np.asarray(p.hod.hod) * (np.asarray(p.dndlnm) / m)[None]
    mean_b = simpson(w * np.asarray(p.halo_bias)[None], x=m, axis=-1) / simpson(w, x=m, axis=-1)
    mon.close('bias.value', bg, mean_b, 1e-6)
    # below k = 1e-3 profiles are flat: two-halo / linear is constant
    low = k < 1e-3
    if low.sum() > 1 and mode != 'hmcode':
        mon.event('lowk.flat')
        ratio = np.asarray(mm.pk_2h)[..., low] / (P * T2)[..., low]
        mon.check('lowk.flat', bool(np.all(np.abs(ratio - 1) < 2e-3)), 'matter two-halo / linear deviates from one at k < 1e-3', worst=float(np.abs(ratio - 1).max()))
    # one-halo terms vanish as k^4 (profiles are flat at small k)
    lo = k < 5e-3
    if lo.sum() > 2:
        for n, sp, kk in (('mm', mm, kt), ('gg', gg, kw.get('one_halo_ktrunc', .1)), ('gm', gm, kw.get('one_halo_ktrunc', .1))):
            one = np.asarray(sp.pk_1h)[..., lo]
            kl = k[lo]
            kf = (kl / (np.asarray(kk)[..., None] if np.ndim(kk) else kk)) ** 4
            amp = one * (1 + kf) / kf
            a0 = amp[..., :1]
            spread = np.where(a0 == 0, 1.0 * (amp != 0), np.abs(amp / np.where(a0 == 0, 1, a0) - 1))     # centrals alone have no one-halo term
            mon.check('onehalo.limit', bool(np.all(spread < .05)), f'{n} one-halo does not fall as k^4', worst=float(spread.max()))
