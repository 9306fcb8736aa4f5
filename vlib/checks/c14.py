"""C14: feedback redistributes but never creates matter."""
import numpy as np
from .. import gen, ref, harness as H
PROPERTY = 'C14'
RULE = ('random cosmologies, feedback temperatures, ejection masses, observed stellar fractions, redshifts and mass ranges; online monitors on the mass '
        'fraction carried by every halo profile; non-trivial when bounds, monotonicity and limits were evaluated')
ASSUMPTIONS = ['the published stellar-fraction fit exceeds the cosmic baryon fraction beyond z of about 2; bounds are judged where it does not']
REQUIRED = ['bounds', 'monotonic', 'massive', 'stars', 'gas.bounds', 'gas.monotonic', 'gas.limit', 'hotter', 'concentration', 'off', 'off.update', 'fit.bounds', 'fit.none', 'fit.all',
            'profile', 'fit.profile', 'stars.flat', 'default pivot']


def cases(tier, rng):
    n = 260 if tier == 'quick' else 4000
    return H.seeds(rng, n, what='agn') + H.seeds(rng, n, what='fit')


def run_case(case, mon):
    rng = np.random.default_rng(case['seed'])
    (agn if case['what'] == 'agn' else fit)(rng, mon)


def agn(rng, mon):
    kw = gen.base(rng, mead='mead2020_feedback', nk=(6, 10))
    kw['k_vec'] = [1e-4] + [x for x in kw['k_vec'] if x > 2e-3]
    kw['Mmax'] = 17.0 if rng.random() < .5 else 16.0
    kw['Mmin'] = gen.pick(rng, 8., 9., 10.)
    kw['dlog10m'] = .2
    T = kw['log10T_AGN']
    th = T - 7.8
    mon.note = H.digest(kw) | {'T': T}
    p = H.spectra(**gen.materialise(kw))
    z, m = np.array(kw['z_vec']), np.asarray(p.mass)
    Om = kw['omega_c'] + kw['omega_b']
    fb, fc = kw['omega_b'] / Om, kw['omega_c'] / Om
    base = m / np.asarray(p.mean_density0)[:, None]
    W = np.asarray(p.matter_profile_with_feedback)[0]
    t = W[:, 0, :] / base                                   # mass fraction of the halo that stays in it
    fs = .01 * (2.01 - .3 * th) * 10 ** (z * (.409 + .0224 * th))
    mb = 10 ** (13.87 + 1.81 * th + z * (.195 * th - .108))
    ok = fs < fb
    x = (m / mb[:, None]) ** 2
    want = fc + fs[:, None] + (fb - fs)[:, None] * x / (1 + x)
    mon.close('profile', t, want, 1e-7)
    u = np.asarray(p.u_dm)
    mon.close('profile', W / base[:, None, :], (want - fs[:, None])[:, None, :] * u + fs[:, None, None], 1e-7)
    if ok.any():
        mon.check('bounds', bool(np.all(t[ok] <= 1 + 1e-9) and np.all(t[ok] >= fc - 1e-9)), 'halo carries more matter than its mass', worst=float(t[ok].max()), least=float(t[ok].min()))
        mon.check('monotonic', bool(np.all(np.diff(t[ok], axis=-1) >= -1e-10)), 'retained fraction falls with mass')
        big = m > 100 * mb.max()
        if big.any():
            mon.check('massive', bool(np.all(np.abs(t[ok][:, big] - 1) < 2e-4)), 'massive haloes do not carry their full mass', worst=float(np.abs(t[ok][:, big] - 1).max()))
    # gas and stars as functions of mass alone, far outside the grid
    mm = 10 ** np.sort(rng.uniform(5, 20, 40))
    for i, zz in enumerate(z):
        s = np.asarray(p.fs(zz))
        mon.close('stars', s, fs[i], 1e-9)
        g = np.asarray(p.fg(mm, zz, fs[i]))
        if ok[i]:
            mon.check('gas.bounds', bool(np.all(g >= 0) and np.all(g <= fb - fs[i] + 1e-12)), 'gas fraction outside [0, baryons - stars]', z=zz)
            mon.check('gas.monotonic', bool(np.all(np.diff(g) >= -1e-15)), 'gas fraction falls with mass', z=zz)
        mon.close('gas.limit', np.asarray(p.fg(np.array([1e-2, 1e40]), zz, fs[i])), [0.0, fb - fs[i]], 1e-9, atol=1e-15)
        mon.close('gas.limit', np.asarray(p.fg(np.array([mb[i]]), zz, fs[i])), [(fb - fs[i]) / 2], 1e-9)
    # more heating never raises the retained mass
    dT = float(rng.uniform(.05, .4))
    hot = H.spectra(**gen.materialise({**kw, 'log10T_AGN': T + dT}))
    th2 = np.asarray(hot.matter_profile_with_feedback)[0][:, 0, :] / base
    sel = ok & (z < 2.3)
    if sel.any():
        mon.check('hotter', bool(np.all(th2[sel] <= t[sel] + 1e-10)), 'hotter feedback retains more mass')
    # concentrations
    off_kw = {**kw, 'hmcode_ingredients': 'mead2020'}
    off = H.spectra(**gen.materialise(off_kw))
    K = (3.44 - .496 * th) / 4 * 10 ** (z * (-.0671 - .0371 * th))
    for q in ('conc_cen', 'conc_sat'):
        mon.close('concentration', np.asarray(getattr(p, q)) / np.asarray(getattr(off, q)), np.repeat(K[:, None], len(m), 1), 1e-6, which=q)
    # feedback off: the profile is dark matter only and the temperature has no effect
    cold = H.spectra(**gen.materialise({**off_kw, 'log10T_AGN': T + dT}))
    a, b = H.reads(off, ('mm',)), H.reads(cold, ('mm',))
    H.same(mon, 'off', a, b, 1e-10)
    R = ref.Ref(**gen.materialise(off_kw))
    one = R.one_halo(R.W_matter(), R.W_matter()) * R.T1()
    mon.close('off', a['mm', 'pk_1h'], one, 1e-6)
    p.power_spectrum_mm
    p.update(hmcode_ingredients='mead2020')
    H.same(mon, 'off.update', H.reads(p, ('mm',)), a, 1e-9)
    # stars are points: at very high k what is left of the profile is the stellar part
    kk = np.array([1e-4, 1e5])
    f = H.spectra(**gen.materialise({**kw, 'k_vec': list(kk)}))
    Wf = np.asarray(f.matter_profile_with_feedback)[0][:, 1, :] / base
    uu = np.asarray(f.u_dm)[:, 1, :]
    mon.check('stars.flat', bool(np.all(np.abs(Wf - fs[:, None]) <= 1.0001 * np.abs(uu) * np.abs(want - fs[:, None]) + 1e-9)), 'small-scale profile is not the stellar fraction')


def fit(rng, mon):
    kw = gen.base(rng, mead=False, nk=(5, 8), nz=(2, 3))
    kw['k_vec'] = [1e-4] + [x for x in kw['k_vec'] if x > 2e-3]
    gen.galaxy(rng, kw)
    kw['hmcode_ingredients'] = 'fit'
    kw['hod_settings_mm'] = gen.mm_settings(rng, kw)
    mb = float(10 ** rng.uniform(12, 15))
    kw['mb'] = mb
    if rng.random() < .25:                                  # left at its default: the pivot of the fit at log10T_AGN = 7.8 today
        mb = 10 ** 13.87
        del kw['mb']
        mon.event('default pivot')
    mon.note = H.digest(kw) | {'mb': mb}
    p = H.spectra(**gen.materialise(kw))
    m = np.asarray(p.mass)
    Om = kw['omega_c'] + kw['omega_b']
    fb, fc = kw['omega_b'] / Om, kw['omega_c'] / Om
    base = m / np.asarray(p.mean_density0)[:, None]
    # any stellar fraction table below the baryon fraction
    nz = len(kw['z_vec'])
    fstar = rng.uniform(0, 1, (int(rng.integers(1, 4)), nz, len(m))) * fb
    W = np.asarray(p.matter_profile_with_feedback_stellar_fraction_from_obs(fstar))
    t = W[:, :, 0, :] / base
    x = (m / mb) ** 2
    want = fc + fstar + (fb - fstar) * x / (1 + x)
    mon.close('fit.profile', t, want, 1e-7)
    mon.close('fit.profile', W / base[None, :, None, :], (want - fstar)[:, :, None, :] * np.asarray(p.u_dm)[None] + fstar[:, :, None, :], 1e-7)
    mon.check('fit.bounds', bool(np.all(t <= 1 + 1e-9) and np.all(t >= fc - 1e-9)), 'halo carries more matter than its mass', worst=float(t.max()))
    mm = 10 ** np.sort(rng.uniform(5, 20, 40))
    f0 = float(rng.uniform(0, 1)) * fb
    g = np.asarray(p.fg_fit(mm, mb, f0))
    mon.check('gas.bounds', bool(np.all(g >= 0) and np.all(g <= fb - f0 + 1e-12)), 'gas fraction outside [0, baryons - stars]')
    mon.check('gas.monotonic', bool(np.all(np.diff(g) >= -1e-15)), 'gas fraction falls with mass')
    # without stars: no ejection -> dark-matter-only result, full ejection -> only the dark matter remains in haloes
    if kw['hod_model'] != 'Cacciato':
        dm = H.reads(H.spectra(**gen.materialise({**kw, 'hmcode_ingredients': None})), ('mm',))
        none = H.reads(H.spectra(**gen.materialise({**kw, 'mb': 1e-20})), ('mm',))
        H.same(mon, 'fit.none', none, dm, 1e-9)
        every = H.reads(H.spectra(**gen.materialise({**kw, 'mb': 1e40})), ('mm',))
        mon.close('fit.all', every['mm', 'pk_1h'], fc**2 * dm['mm', 'pk_1h'], 1e-9)
        mon.close('fit.all', every['mm', 'pk_2h'], dm['mm', 'pk_2h'], 1e-9)
    else:
        # the observed stellar fraction at no ejection: profile carries exactly the halo mass
        none = H.spectra(**gen.materialise({**kw, 'mb': 1e-20}))
        s = np.asarray(none.fstar_mm)
        Wn = np.asarray(none.matter_profile_with_feedback_stellar_fraction_from_obs(s))
        mon.close('fit.none', Wn[:, :, 0, :] / base, np.ones(Wn[:, :, 0, :].shape), 1e-9)
