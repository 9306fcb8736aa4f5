"""C13: results at one redshift, wavenumber or bin do not depend on what else was requested."""
import numpy as np
from .. import gen, harness as H
PROPERTY = 'C13'
RULE = ('random configurations evaluated on a full grid and on random subsets / permutations of redshifts, wavenumbers (first one kept) and observable '
        'bins; non-trivial when every result of the reduced request was compared with its entry in the full one')
ASSUMPTIONS = ['galaxy-sample redshifts coincide with the output redshifts, so that the documented interpolation is exact at the nodes',
               'the first wavenumber is kept (documented profile normalisation); de-wiggling, which filters along k, is not used for wavenumber subsets']
REQUIRED = ['z.subset', 'z.permuted', 'k.subset', 'k.permuted', 'bin.subset', 'bin.permuted', 'ingredient', 'single.z', 'single.bin', 'mode.None', 'mode.bnl', 'mode.fortuna', 'mode.hmcode', 'response', 'lum']
K_AXIS = {'u_dm', 'u_sat', 'nfw_cen', 'nfw_sat'}
ING = [q for q in H.INGREDIENTS]


def cases(tier, rng):
    n = 230 if tier == 'quick' else 3000
    return H.seeds(rng, n, what='z') + H.seeds(rng, n, what='k') + H.seeds(rng, n, what='bin')


def config(rng, what):
    mode = gen.pick(rng, None, None, 'bnl', 'fortuna', 'hmcode')
    if what == 'k' and mode == 'hmcode':
        mode = None
    lum = bool(rng.random() < .3)
    kw = gen.base(rng, mead=gen.pick(rng, 'mead2020', 'mead2020_feedback') if mode == 'hmcode' else None, nz=(3, 5), evenz=True, logk=mode == 'hmcode')
    z = np.linspace(kw['z_vec'][0], kw['z_vec'][-1], len(kw['z_vec']))
    kw['z_vec'] = [float(x) for x in z]
    gen.galaxy(rng, kw, nbins=int(rng.integers(2, 5)), cover=True, file_ok=False)
    gen.feedback(rng, kw)
    gen.alignment(rng, kw, lum=lum)
    kw['nonlinear_mode'] = mode
    kw['response'] = bool(rng.random() < .3)
    if kw.get('hmcode_ingredients') == 'fit' and mode == 'hmcode':
        kw['hmcode_ingredients'] = 'mead2020'
    for q in ('matter_power_nl', 'matter_power_lin'):
        if q == 'matter_power_nl' and (kw['response'] or mode == 'fortuna') or rng.random() < .3:
            kw[q] = gen.pnl_spec(rng)
    if mode == 'bnl':
        kw['dlog10m'] = .25
        kw['beta_nl'] = {'beta_seed': int(rng.integers(1 << 30)), 'zdep': bool(rng.random() < .6)}
    for s in ('hod_settings', 'hod_settings_mm'):
        if kw.get(s):
            nb = len(kw[s]['obs_min'])
            kw[s].update(zmin=[kw['z_vec'][0]] * nb, zmax=[kw['z_vec'][-1]] * nb, nz=len(z))
    if lum:
        # spacing tolerance of the luminosity bins
        pass
    return kw


def take(a, idx, axis):
    return np.take(np.asarray(a), idx, axis=axis)


def run_case(case, mon):
    rng = np.random.default_rng(case['seed'])
    what = case['what']
    kw = config(rng, what)
    mode = kw['nonlinear_mode']
    mon.note = dict(H.digest(kw), what=what)
    mon.event('mode.' + str(mode))
    if kw['response']:
        mon.event('response')
    lum = any(v == 'luminosity' for v in kw['align_params'].values())
    if lum:
        mon.event('lum')
    args = gen.materialise(kw)
    full = H.spectra(**args)
    nz, nk, nb = len(kw['z_vec']), len(kw['k_vec']), len(kw['hod_settings']['obs_min'])
    zi, ki, bi = np.arange(nz), np.arange(nk), np.arange(nb)
    perm = bool(rng.random() < .4)
    names = list(H.NAMES)
    if what == 'z':
        if perm and not lum:
            zi = rng.permutation(nz)
            mon.event('z.permuted')
        else:
            n = int(rng.integers(1, nz + 1))
            if n == 1:
                # a single redshift cannot carry the galaxy-sample interpolation: matter only
                zi = np.array([int(rng.integers(nz))])
                names = ['mm']
                mon.event('single.z')
            else:
                a = int(rng.integers(0, nz - n + 1))
                zi = np.arange(a, a + n)
                mon.event('z.subset')
    elif what == 'k':
        sub = np.sort(rng.choice(np.arange(1, nk), int(rng.integers(1, nk)), replace=False))
        if perm:
            sub = rng.permutation(sub)
            mon.event('k.permuted')
        else:
            mon.event('k.subset')
        ki = np.concatenate([[0], sub])
    else:
        if perm:
            bi = rng.permutation(nb)
            mon.event('bin.permuted')
        else:
            bi = np.sort(rng.choice(nb, int(rng.integers(1, nb)), replace=False))
            mon.event('bin.subset')
            if len(bi) == 1:
                mon.event('single.bin')
    sub = dict(args)
    sub['z_vec'], sub['k_vec'] = args['z_vec'][zi], args['k_vec'][ki]
    for q in ('matter_power_lin', 'matter_power_nl'):
        if sub.get(q) is not None:
            sub[q] = sub[q][np.ix_(zi, ki)].copy()
    if sub.get('beta_nl') is not None:
        b = sub['beta_nl'][:, ki]
        sub['beta_nl'] = (b[zi] if b.shape[0] == nz else b).copy()
    for q in ('norm_cen', 'norm_sat', 'eta_cen', 'eta_sat'):
        if isinstance(sub.get(q), np.ndarray):
            sub[q] = sub[q][zi]
    zz = sub['z_vec']
    for s in ('hod_settings', 'hod_settings_mm'):
        if sub.get(s):
            S = dict(sub[s])
            if s == 'hod_settings':
                for q in gen.HOD_ARRAYS:
                    S[q] = S[q][bi]
            n = len(S['obs_min'])
            if what == 'z':
                S.update(zmin=np.full(n, zz.min()), zmax=np.full(n, zz.max()), nz=len(zz))
            sub[s] = S
    sub['hod_params'] = {q: (v[bi] if isinstance(v, np.ndarray) else v) for q, v in sub['hod_params'].items()}
    if len(zi) == 1 and kw.get('hmcode_ingredients') == 'fit':
        mon.trivial = True
        return
    part = H.spectra(**sub)
    order = list(rng.permutation(names))
    for n in order:
        A, B = getattr(full, 'power_spectrum_' + n), getattr(part, 'power_spectrum_' + n)
        for c in H.PARTS:
            a, b = getattr(A, c), getattr(B, c)
            if a is None or b is None:
                mon.check('none', a is None and b is None, 'present in one request only', spectrum=n, part=c)
                continue
            a = np.asarray(a)
            if a.ndim == 3:
                if a.shape[0] == nb and n != 'mm':
                    a = take(a, bi, 0)
                a = take(take(a, zi, 1), ki, 2)
            mon.close(f'{what}.{"permuted" if perm else "subset"}', b, a, 1e-7, scale=100 * np.max(np.abs(a), axis=-1, keepdims=True), spectrum=n, part=c)
    for q in ING:
        a, b = np.asarray(getattr(full, q)), np.asarray(getattr(part, q))
        if a.ndim and a.shape[0] == nz and q not in ('mass', 'kh'):
            a = take(a, zi, 0)
            if q in K_AXIS:
                a = take(a, ki, 1)
        mon.close('ingredient', b, a, 1e-8, which=q)
    if what == 'bin':
        for q in H.HODQ:
            mon.close('bin.' + ('permuted' if perm else 'subset'), np.asarray(getattr(part.hod, q)), take(getattr(full.hod, q), bi, 0), 1e-8, which=q)
    elif what == 'z' and len(zi) > 1:
        for q in H.HODQ:
            mon.close('z.' + ('permuted' if perm and not lum else 'subset'), np.asarray(getattr(part.hod, q)), take(getattr(full.hod, q), zi, 1), 1e-7, which=q)
