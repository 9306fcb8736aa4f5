"""C08: halo occupation distributions against the model formulas and their integrals."""
import numpy as np
from astropy.cosmology import FlatLambdaCDM
from .. import gen, ref, harness as H
PROPERTY = 'C08'
RULE = ('random HOD model, parameters, bins, redshift coverage and mass grids, on synthetic mass functions (direct construction) and inside full '
        'spectra objects; non-trivial when every public statistic was compared with the formula-level reference')
ASSUMPTIONS = ['scipy.simpson trusted']
REQUIRED = ['hod_cen', 'hod_sat', 'f_c', 'f_s', 'number_density', 'stellar_fraction', 'galaxy_linear_bias', 'avg_halo_mass_cen', 'nonneg', 'fractions',
            'bin.alone', 'bins.add', 'in_spectra', 'from_file', 'model.Cacciato', 'model.Simple', 'model.Zehavi', 'model.Zheng', 'model.Zhai']


def cases(tier, rng):
    n = 900 if tier == 'quick' else 8000
    return H.seeds(rng, n) + H.seeds(rng, n // 6, full=True)


def synthetic(rng):
    nm = gen.count(rng, 12, 59, (150, 500))
    m = np.logspace(rng.uniform(9, 11), rng.uniform(14.5, 16), nm)
    z = np.array(gen.redshifts(rng, *((2, 6) if rng.random() > gen.LARGE else (10, 30))))
    ms = 10 ** (13.5 - .4 * z)[:, None]
    dn = 1e-2 * (m / 1e12) ** rng.uniform(-1., -.8) * np.exp(-m / ms)
    b = .7 + (m / ms) ** rng.uniform(.3, .6)
    return m, z, dn, b


def run_case(case, mon):
    rng = np.random.default_rng(case['seed'])
    import onepower
    if case.get('full'):
        kw = gen.base(rng)
        gen.galaxy(rng, kw)
        mon.note = H.digest(kw)
        args = gen.materialise(kw)
        p = H.spectra(**args)
        R = ref.Ref(**args)
        mon.event('in_spectra')
        h, w = p.hod, R.hod()
        for q in H.HODQ:
            mon.close(q, getattr(h, q), getattr(w, q), 1e-7)
        return
    m, z, dn, b = synthetic(rng)
    model = gen.pick(rng, 'Cacciato', 'Cacciato', *gen.HOD_MODELS)
    s = gen.hod_settings(rng, list(z), gen.count(rng, 1, 5, (8, 16)))
    nb = 1 if 'observables_rows' in s else len(s['obs_min'])
    par = gen.hod_params(rng, model, nb)
    cosmo = FlatLambdaCDM(H0=float(rng.uniform(60, 80)), Om0=.3, Ob0=.05)
    mon.event('model.' + model)
    if 'observables_rows' in s:
        mon.event('from_file')
    mon.note = dict(model=model, params=par, bins=nb, nz=len(z), nm=len(m))
    arr = {q: (np.array(v) if isinstance(v, list) else v) for q, v in par.items()}
    cls = getattr(onepower, model)

    def make(settings, params):
        return cls(cosmo=cosmo, mass=m.copy(), dndlnm=dn.copy(), halo_bias=b.copy(), z_vec=z.copy(), hod_settings=settings, **params)
    settings = gen.mat_settings(s)
    h = make(settings, arr)
    w = ref.RefHOD(model, par, settings, m, dn, b, z, cosmo.h)
    qs = list(H.HODQ)
    rng.shuffle(qs)
    for q in qs:
        mon.close(q, getattr(h, q), getattr(w, q), 1e-8)
    hc, hs = np.asarray(h.hod_cen), np.asarray(h.hod_sat)
    zb = [np.asarray(x) for x in w.z]
    for i in range(nb):
        inside = (z >= zb[i].min()) & (z <= zb[i].max())
        mon.check('nonneg', bool(np.all(hc[i][inside] >= -1e-12) and np.all(hs[i][inside] >= -1e-12)), 'negative occupation', bin=i)
        if inside.any():
            tot = np.asarray(h.f_c)[i][inside] + np.asarray(h.f_s)[i][inside]
            mon.close('fractions', tot, np.ones(tot.shape), 1e-8)
            mon.close('fractions', np.asarray(h.number_density)[i][inside], (np.asarray(h.number_density_cen) + np.asarray(h.number_density_sat))[i][inside], 1e-8)
    if model != 'Cacciato' and par.get('A_cen') is None:
        mon.check('nonneg', bool(np.all(hc <= 1 + 1e-12)), 'more than one central')
    # a bin computed alone
    if nb > 1:
        i = int(rng.integers(nb))
        s1 = {q: (v[i:i + 1] if q in gen.HOD_ARRAYS else v) for q, v in settings.items()}
        a1 = {q: (v[i:i + 1] if isinstance(v, np.ndarray) else v) for q, v in arr.items()}
        h1 = make(s1, a1)
        for q in H.HODQ:
            mon.close('bin.alone', np.asarray(getattr(h1, q))[0], np.asarray(getattr(h, q))[i], 1e-9, which=q)
    # adjacent observable bins add up
    if model == 'Cacciato':
        lo, hi = 8.5, 11.5
        mid = float(rng.uniform(9, 11))
        zz = [float(z[0])], [float(z[-1])]
        S = lambda a, c: {'observables_file': None, 'obs_min': np.array([a]), 'obs_max': np.array([c]), 'zmin': np.array(zz[0]), 'zmax': np.array(zz[1]),
                          'nz': 2, 'nobs': 401, 'observable_h_unit': '1/h'}
        ap = {q: v for q, v in arr.items() if not q.startswith('A_')}
        A, B, C = make(S(lo, mid), ap), make(S(mid, hi), ap), make(S(lo, hi), ap)
        for q in ('hod_cen', 'hod_sat', 'number_density', 'stellar_fraction'):
            t = np.asarray(getattr(C, q))
            mon.close('bins.add', np.asarray(getattr(A, q)) + np.asarray(getattr(B, q)), t, 2e-4, scale=1e6 * np.max(np.abs(t)), which=q)
        mon.check('nonneg', bool(np.all(np.asarray(C.hod_cen) <= 1 + 1e-6)), 'central occupation above one', maximum=float(np.max(np.asarray(C.hod_cen))))
