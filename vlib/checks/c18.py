"""C18: satellite alignment kernels against the transform of the aligned NFW profile; amplitude averages."""
import numpy as np
from hankel import HankelTransform
from scipy.special import spherical_jn
from .. import gen, ref, harness as H
from ..ref import align_radial, f_ell, f_ell_numeric
PROPERTY = 'C18'
RULE = ('random halo tables (masses, concentrations, radii, redshifts), slopes, amplitudes (below and above the cap), multipole limits, truncation, '
        'luminosity samples and both transform methods; non-trivial when kernels were compared with the reference transform')
ASSUMPTIONS = ['scipy.fft.fht and hankel.HankelTransform trusted for the tight comparison; the loose one is direct quadrature',
               'angular factors for slopes 0 and -2 are the tabulated published ones']
REQUIRED = ['kernel', 'upsampled', 'direct', 'hankel', 'hankel.up', 'methods', 'linear', 'capped', 'angular', 'alignment_gi', 'gamma_1h_amp', 'lum.mean', 'lum.double', 'own_halo', 'truncated']


def cases(tier, rng):
    n = 500 if tier == 'quick' else 6000
    return H.seeds(rng, n) + H.seeds(rng, n // 5, hankel=True) + H.seeds(rng, n // 3, amp=True)


def direct(rs, c, rv, amp, slope, ell_max, trunc, k):
    """Sum over multipoles of int r^2 gamma(r) rho(r) j_l(kr) dr / mass, by brute-force quadrature."""
    mn = 4 * np.pi * rs**3 * (np.log(1 + c) - c / (1 + c))
    out = np.zeros(len(k), complex)
    for ell in range(2, ell_max + 1, 2):
        for i, q in enumerate(k):
            rmax = rv if trunc else min(max(400 / q, 50 * rv), 1e7)
            r1 = np.logspace(-6, np.log10(min(rmax, 3 / q)), 3000)
            s = np.sum(.5 * np.diff(np.log(r1)) * (lambda y: y[1:] + y[:-1])(align_radial(r1, rs, rv, amp, slope, False) * r1**3 * spherical_jn(ell, q * r1)))
            if rmax > 3 / q:
                r2 = np.linspace(3 / q, rmax, int(np.clip(rmax * q * 25, 400, 40000)))
                y = align_radial(r2, rs, rv, amp, slope, False) * r2**2 * spherical_jn(ell, q * r2)
                s += np.sum(.5 * (y[1:] + y[:-1])) * (r2[1] - r2[0])
            out[i] += (1j) ** ell * (2 * ell + 1) * s / mn * f_ell(ell, slope)
    return np.abs(out)


def haloes(rng, nm):
    nz = gen.count(rng, 1, 3, (6, 12))
    z = np.sort(rng.uniform(0, 2, nz)) + .02 * np.arange(nz)
    m = np.logspace(rng.uniform(9.5, 11.5), rng.uniform(14, 15.5), nm)
    rho = 200 * 8e10 * rng.uniform(.5, 3)
    rv = (3 * m / (4 * np.pi * rho)) ** (1 / 3) * (1 + .1 * rng.uniform(size=(nz, 1)))
    c = rng.uniform(4, 12) * (m / 1e12) ** rng.uniform(-.15, -.05) / (1 + z[:, None]) ** .7
    if rng.random() < .25:                     # flat at high mass: haloes that have only just formed
        c = np.maximum(c, np.quantile(c, gen.U(rng, .2, .9), axis=-1, keepdims=True))
    rs = rv / c
    if rng.random() < .3:
        rs = rs * rng.uniform(.9, 1.1, rs.shape)
    return z, m, rv, c, rs


def run_case(case, mon):
    from onepower import SatelliteAlignment
    rng = np.random.default_rng(case['seed'])
    if case.get('amp'):
        return amplitudes(rng, mon)
    nm = gen.count(rng, 2, 7, (12, 30)) if not case.get('hankel') else int(rng.integers(5, 16))
    z, m, rv, c, rs = haloes(rng, nm)
    slope = gen.pick(rng, -2., 0., -2, 0, gen.U(rng, -2.6, -.2), gen.U(rng, -1.9, .1))
    amp = float(10 ** rng.uniform(-4.5, -1.0)) * gen.pick(rng, 1, 1, 1, 1, 1, 1, 1, 1, -1, 0)
    ell_max = int(rng.choice([2, 4, 6, 6, 8, 10, 3, 7, 9]))
    trunc = bool(rng.random() < .35)
    if trunc:
        mon.event('truncated')
    mon.note = dict(slope=slope, amp=amp, ell_max=ell_max, truncate=trunc, nm=nm, nz=len(z))
    kw = dict(z_vec=z, mass_in=m, c_in=c, r_s_in=rs, rvir_in=rv, gamma_1h_slope=slope, gamma_1h_amplitude=amp, truncate=trunc, ell_max=ell_max,
              satellite_ia_depends_on='constant')
    if case.get('hankel'):
        return hankel_case(rng, mon, kw)
    one_radius = rng.random() < .3
    if one_radius:
        kw['rvir_in'] = rv[0]
        rv = np.broadcast_to(rv[0], rs.shape)
    s = SatelliteAlignment(**kw)
    w, wz, wm, wk = s.wkm
    tol = 2e-5      # well above the rounding noise of the logarithmic transform
    k = np.sort(10 ** rng.uniform(-3, 2.5, gen.count(rng, 3, 11, (60, 200))))
    up = s.upsampled_wkm(k, m)
    em = 2 * (ell_max // 2)
    want = np.array([[ref.wkm_kernel(rs[j, i], c[j, i], rv[j, i], amp, slope, em, trunc, wk) for i in range(nm)] for j in range(len(z))])
    mon.close('kernel', w, want, tol, scale=100 * np.max(want, axis=-1, keepdims=True))
    mon.close('kernel', wz, z, 0)
    mon.close('kernel', wm, m, 0)
    want = np.array([[ref.wkm_kernel(rs[j, i], c[j, i], rv[j, i], amp, slope, em, trunc, k) for i in range(nm)] for j in range(len(z))])
    mon.close('upsampled', up, want, tol, scale=100 * np.max(want, axis=-1, keepdims=True))
    # one halo of the table alone gives the same kernel
    j, i = int(rng.integers(len(z))), int(rng.integers(nm))
    alone = SatelliteAlignment(**{**kw, 'z_vec': z[j:j + 1], 'mass_in': m[i:i + 1], 'c_in': c[j:j + 1, i:i + 1], 'r_s_in': rs[j:j + 1, i:i + 1],
                                  'rvir_in': rv[j:j + 1, i:i + 1]})
    mon.close('own_halo', alone.upsampled_wkm(k, m[i:i + 1])[0, 0], up[j, i], tol, scale=100 * np.max(up[j, i]))
    # brute-force quadrature
    if rng.random() < .4:
        sel = np.flatnonzero((wk > .02) & (wk < 100))
        sel = rng.choice(sel, 4, replace=False)
        d = direct(rs[j, i], c[j, i], rv[j, i], amp, slope, em, trunc, wk[sel])
        full = np.max(w[j, i][wk < 100])
        mon.close('direct', w[j, i][sel], d, .15 if trunc else .02, atol=(.1 if trunc else .004) * full, redshift=j, halo=i)
    # linear in the amplitude below the cap, saturating above
    core = np.max((.06 / rv) ** slope) if slope < 0 else 1.0
    low = .29 / core * float(rng.uniform(.05, .4))
    if slope <= 0:
        f = float(rng.uniform(1.2, 2.4))
        A = SatelliteAlignment(**{**kw, 'gamma_1h_amplitude': low}).upsampled_wkm(k, m)
        B = SatelliteAlignment(**{**kw, 'gamma_1h_amplitude': low * f}).upsampled_wkm(k, m)
        mon.close('linear', B, f * A, tol, scale=100 * np.max(B, axis=-1, keepdims=True))
        if slope == 0:
            X = SatelliteAlignment(**{**kw, 'gamma_1h_amplitude': .3}).upsampled_wkm(k, m)
            Y = SatelliteAlignment(**{**kw, 'gamma_1h_amplitude': .3 * f}).upsampled_wkm(k, m)
            mon.close('capped', Y, X, tol, scale=100 * np.max(X, axis=-1, keepdims=True))
    # the tabulated angular factors for slope -2 agree with the general expression
    sl = -2 + 1e-9
    P = SatelliteAlignment(**{**kw, 'gamma_1h_slope': -2.0}).upsampled_wkm(k, m)
    Q = SatelliteAlignment(**{**kw, 'gamma_1h_slope': sl}).upsampled_wkm(k, m)
    mon.close('angular', P, Q, max(tol, 1e-4), scale=1e6 * np.max(P))


def hankel_case(rng, mon, kw):
    from onepower import SatelliteAlignment
    z, m, c, rs, rv = kw['z_vec'], kw['mass_in'], kw['c_in'], kw['r_s_in'], kw['rvir_in']
    nh, nk = int(rng.choice([150, 250, 350])), int(rng.integers(6, 12))
    nmass = int(rng.integers(3, len(m) + 1))
    kw = {**kw, 'ell_max': min(kw['ell_max'], 6)}
    s = SatelliteAlignment(**kw, method='hankel', n_hankel=nh, nk=nk, nmass=nmass)
    w, wz, wm, wk = s.wkm
    idx = [int(np.flatnonzero(m == x)[0]) for x in wm]
    mon.check('hankel', idx[0] == 0 and idx[-1] == len(m) - 1 and len(idx) >= nmass and idx == sorted(set(idx)),
              'masses of the coarse table do not span the input masses', idx=idx, nmass=nmass, nm=len(m))
    mon.close('hankel', wk, np.logspace(-3, 3, nk), 1e-9)
    em = 2 * (kw['ell_max'] // 2)
    want = np.zeros((len(z), len(idx), nk), complex)
    for ell in range(2, em + 1, 2):
        ht = HankelTransform(ell + .5, nh, np.pi / nh)
        for j in range(len(z)):
            for a, i in enumerate(idx):
                mn = 4 * np.pi * rs[j, i] ** 3 * (np.log(1 + c[j, i]) - c[j, i] / (1 + c[j, i]))
                fn = lambda x: align_radial(x, rs[j, i], rv[j, i], kw['gamma_1h_amplitude'], kw['gamma_1h_slope'], kw['truncate']) * np.sqrt(x * np.pi / 2)
                u = ht.transform(fn, wk)[0] / (wk**.5 * mn)
                want[j, a] += (1j) ** ell * (2 * ell + 1) * u * f_ell(ell, kw['gamma_1h_slope'])
    want = np.abs(want)
    mon.close('hankel', w, want, 1e-6)
    # onto fine masses and wavenumbers: linear in log10(w/k^2) against log10 k and log10 m
    k = np.sort(10 ** rng.uniform(-2, 2, 5))
    if np.all(want > 0):
        lw = np.log10(want / wk**2)
        t = np.array([ref.lin_interp(np.log10(wm), x, np.log10(m)) for x in lw])                 # z, m, k
        t = np.array([ref.lin_interp(np.log10(wk), x.T, np.log10(k)).T for x in t])
        mon.close('hankel.up', s.upsampled_wkm(k, m), 10**t * k**2, 1e-6)
    elif not want.any():
        mon.close('hankel.up', s.upsampled_wkm(k, m), np.zeros((len(z), len(m), len(k))), 0)
    f = SatelliteAlignment(**kw)
    W, _, _, K = f.wkm
    for a, i in enumerate(idx):
        for j in range(len(z)):
            sel = (wk > 1) & (wk < 100)
            ff = np.interp(wk, K, W[j, i])
            mon.close('methods', w[j, a][sel], ff[sel], .25 if kw['truncate'] else .05, atol=(.12 if kw['truncate'] else .03) * np.max(W[j, i]), halo=i)


def amplitudes(rng, mon):
    from onepower import AlignmentAmplitudes
    nz = gen.count(rng, 2, 5, (9, 20))
    z = np.linspace(rng.uniform(0, .3), rng.uniform(.6, 1.5), nz)
    if rng.random() < .4:                      # unevenly spaced
        z = np.sort(z + rng.uniform(-.4, .4, nz) * (z[1] - z[0]))
    files = {t: gen.write_lum(gen.lum_file(rng, z, 400 if rng.random() < .5 else 3000), z) for t in ('cen', 'sat')}
    a2, a1 = float(rng.uniform(.5, 8)), float(10 ** rng.uniform(-4, -2))
    kw = dict(z_vec=z, gamma_2h_amplitude=a2, gamma_1h_amplitude=a1, beta_cen=gen.U(rng, -.5, 1.5), beta_sat=gen.U(rng, -.5, 1.5),
              mpivot_cen=13.5, mpivot_sat=13.4, lpivot_cen=gen.U(rng, 9.5, 11), lpivot_sat=gen.U(rng, 9.5, 11),
              z_loglum_file_centrals=files['cen'], z_loglum_file_satellites=files['sat'],
              central_ia_depends_on=gen.pick(rng, 'constant', 'luminosity', 'luminosity', 'halo_mass'),
              satellite_ia_depends_on=gen.pick(rng, 'constant', 'luminosity', 'luminosity', 'halo_mass'))
    if kw['central_ia_depends_on'] == 'luminosity' and rng.random() < .5:
        kw['beta_two'] = gen.U(rng, -.5, 1.5)
        mon.event('lum.double')
    s = AlignmentAmplitudes(**kw)
    mon.note = {q: v for q, v in kw.items() if 'file' not in q}
    L0c, L0s = 10 ** kw['lpivot_cen'], 10 ** kw['lpivot_sat']

    def fc(L):
        b = kw['beta_cen']
        if kw.get('beta_two') is not None:
            return a2 * np.where(L > L0c, (L / L0c) ** b, (L / L0c) ** kw['beta_two'])
        return a2 * (L / L0c) ** b
    want = ref.lum_average(files['cen'], z, fc) if kw['central_ia_depends_on'] == 'luminosity' else np.full(nz, a2)
    mon.close('alignment_gi', s.alignment_gi, want, 1e-6)
    fs = lambda L: a1 * (L / L0s) ** kw['beta_sat']
    ws = ref.lum_average(files['sat'], z, fs) if kw['satellite_ia_depends_on'] == 'luminosity' else np.full(nz, a1)
    mon.close('gamma_1h_amp', s.gamma_1h_amp, ws, 1e-6)
    # the average over the galaxies themselves
    for t, dep, fn, got in (('cen', kw['central_ia_depends_on'], fc, s.alignment_gi), ('sat', kw['satellite_ia_depends_on'], fs, s.gamma_1h_amp)):
        if dep != 'luminosity':
            continue
        gz, gl = ref.lum_sample(files[t])
        for i in range(nz):
            sel = ref.nearest(z, i, gz)
            v = fn(10 ** gl[sel])
            # the code integrates a 10000-bin histogram with Simpson weights: per-galaxy weight scatter of a third, plus the bin width
            noise = 6 / 3 * np.sqrt(np.sum(v**2)) / v.size
            mon.close('lum.mean', np.asarray(got)[i], np.mean(v), .01, atol=noise, redshift=i, sample=t)
