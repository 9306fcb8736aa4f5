"""C12: upsampled and mixed spectra against independent interpolation and mixing."""
import numpy as np
from .. import gen, harness as H
from ..ref import lin_interp
PROPERTY = 'C12'
RULE = ('random one- and two-population mixtures of real spectra, output grids inside, on and beyond the nodes, extrapolation options, fraction '
        'functions, several rounds of requests and updates of grids and fractions; non-trivial when mixed spectra were compared with independent interpolation')
ASSUMPTIONS = ['the spectra of each population are taken from separately built model objects (their own correctness is C05-C07)']
REQUIRED = ['mixed.mm', 'mixed.gg', 'mixed.gm', 'mixed.mi', 'mixed.ii', 'mixed.gi', 'node', 'beyond_z', 'filled', 'beyond_k', 'two', 'one', 'fraction', 'round2', 'unrequested',
            'unmixed', 'extremes']
NAMES = H.NAMES
COMP = ('1h', '2h', 'tot')


def cases(tier, rng):
    return H.seeds(rng, 480 if tier == 'quick' else 6000)


def grid(rng, x, mon, what, log=False):
    """Output nodes: a mix of own nodes, points in between and points beyond."""
    x = np.asarray(x)
    t = np.log10(x) if log else x
    span = t[-1] - t[0]
    n = int(rng.integers(1, 9))
    out = []
    for _ in range(n):
        q = rng.random()
        if q < .3:
            out.append(t[int(rng.integers(len(t)))])
        elif q < .8:
            out.append(rng.uniform(t[0], t[-1]))
        elif q < .9:
            out.append(t[-1] + rng.uniform(0, .5) * span)
        else:
            out.append(t[0] - rng.uniform(0, .5) * span)
    out = np.array(sorted(set(out)))
    if rng.random() < .15:
        rng.shuffle(out)
    if rng.random() < .15:
        out = t.copy()
    if log:
        nodes = {float(a): float(b) for a, b in zip(t, x)}
        return np.array([nodes.get(float(o), 10.0 ** o) for o in out])
    return np.maximum(out, 0.0) if what == 'z' else out


def interp_z_k(P, z0, k0, z, k, opt):
    fill = None if opt == 'extrapolate' else opt
    a = lin_interp(z0, np.moveaxis(P, 1, 0), z, fill)        # (z, bins, k)
    b = lin_interp(np.log10(k0), np.moveaxis(a, 2, 0), np.log10(k), None)   # (k, z, bins)
    return np.moveaxis(b, (0, 1, 2), (2, 1, 0))


def run_case(case, mon):
    from onepower import UpsampledSpectra
    rng = np.random.default_rng(case['seed'])
    kw = gen.base(rng, nz=(1, 1) if rng.random() < .06 else (2, 4), nk=(6, 12))
    gen.galaxy(rng, kw, nbins=int(rng.integers(1, 3)), file_ok=False)
    gen.alignment(rng, kw)
    two = rng.random() < .75
    par2 = None
    if two:
        k2 = dict(kw)
        k2.pop('hod_params')
        par2 = {'hod_params': gen.hod_params(rng, kw['hod_model'], len(kw['hod_settings']['obs_min']))}
        if rng.random() < .5:
            par2['hod_settings'] = gen.hod_settings(rng, kw['z_vec'], len(kw['hod_settings']['obs_min']), True, False)
        if rng.random() < .5:
            tmp = {'z_vec': kw['z_vec']}
            gen.alignment(rng, tmp)
            par2['align_params'] = tmp['align_params']
            for t, T in (('cen', 'central'), ('sat', 'satellite')):     # parameters are merged: keep the combination valid
                own = par2['align_params'].get(f'{T}_ia_depends_on')
                first = kw['align_params'].get(f'{T}_ia_depends_on')
                if own != 'constant' and first == 'constant':
                    par2['align_params'].update({f'{T}_ia_depends_on': 'halo_mass', f'mpivot_{t}': 13.1})
        if rng.random() < .3:
            par2['norm_sat'] = gen.U(rng, .5, 1.3)
        if rng.random() < .2:
            par2['k_vec'] = gen.wavenumbers(rng, 6, 12)
            par2['k_vec'][0] = kw['k_vec'][0]
            par2['k_vec'] = sorted(set(par2['k_vec']))
        per_z = any(isinstance(kw.get(q), list) for q in ('norm_cen', 'norm_sat', 'eta_cen', 'eta_sat')) or any('file' in q for q in {**kw['align_params'], **par2.get('align_params', {})})
        if rng.random() < .25 and len(kw['z_vec']) > 1 and not per_z:
            z0, z1 = kw['z_vec'][0], kw['z_vec'][-1]
            par2['z_vec'] = sorted({gen.r(q) for q in np.linspace(max(0, z0 - gen.U(rng, 0, .1)), z1 + gen.U(rng, -.1, .1) * (z1 - z0), int(rng.integers(2, 6)))})
            mon.event('two grids')
        mon.event('two')
    else:
        mon.event('one')
    args = gen.materialise(kw)
    twin1 = H.spectra(**gen.materialise(kw))
    twin2 = None
    if two:
        # hod_params, align_params are merged into those of the first population
        full = dict(kw)
        for q, v in par2.items():
            full[q] = {**kw[q], **v} if q in ('hod_params', 'align_params', 'hod_settings') and kw.get(q) else v
        twin2 = H.spectra(**gen.materialise(full))
    p2 = None if par2 is None else gen.materialise({'z_vec': kw['z_vec'], **par2})
    if p2 and 'z_vec' not in par2:
        p2.pop('z_vec')
    fz = fr = None
    if rng.random() < .8:
        fz, fr = fraction(rng, kw, mon)
    opt = 'extrapolate' if rng.random() < .6 else float(rng.choice([0.0, 3.5]))
    z, k = grid(rng, kw['z_vec'], mon, 'z'), grid(rng, kw['k_vec'], mon, 'k', True)
    own = rng.random() < .5
    u = UpsampledSpectra(z=z, k=k, fraction_z=fz, fraction=fr, model=H.spectra(**args) if own else None,
                         model_1_params=None if own else args, model_2_params=p2, extrapolate_option=opt)
    mon.note = dict(H.digest(kw), two=two, fraction=fr is not None, option=opt, z=list(z), k=len(k))
    want_all = {}
    for rnd in range(int(rng.integers(1, 4))):
        if rnd:
            mon.event('round2')
            q = rng.random()
            if q < .3:
                z = grid(rng, kw['z_vec'], mon, 'z')
                u.update(z=z)
            elif q < .6:
                k = grid(rng, kw['k_vec'], mon, 'k', True)
                u.update(k=k)
            elif q < .8 and fr is not None:
                fz, fr = fraction(rng, kw, mon)
                u.update(fraction_z=fz, fraction=fr)
            elif q < .9:
                opt = 'extrapolate' if opt != 'extrapolate' else 2.0
                u.update(extrapolate_option=opt)
        names = list(rng.permutation(NAMES))[:int(rng.integers(1, 7))]
        comps = list(rng.permutation(COMP))[:int(rng.integers(1, 4))]
        u.results(names, comps)
        f1 = np.ones(len(z)) if fr is None else lin_interp(fz, fr, z, None)
        zz, kk = np.array(kw['z_vec']), np.array(kw['k_vec'])
        if np.any(z > zz[-1]) or np.any(z < zz[0]):
            mon.event('beyond_z' if opt == 'extrapolate' else 'filled')
        if np.any(k > kk[-1] * 1.001) or np.any(k < kk[0] * .999):
            mon.event('beyond_k')
        for n in names:
            got = getattr(u, 'power_spectrum_' + n)
            for c in comps:
                P1 = np.asarray(getattr(getattr(twin1, 'power_spectrum_' + n), 'pk_' + c))
                A = interp_z_k(P1, zz, kk, z, k, opt)
                sc = np.max(np.abs(P1))
                B = None
                if two:
                    P2 = np.asarray(getattr(getattr(twin2, 'power_spectrum_' + n), 'pk_' + c))
                    B = interp_z_k(P2, np.asarray(twin2.z_vec), np.asarray(twin2.k_vec), z, k, opt)
                    sc = max(sc, np.max(np.abs(P2)))
                want = combine(n, A, B, f1)
                g = getattr(got, 'pk_' + c)
                row = np.max(np.abs(P1))
                mon.close('mixed.' + n, g, want, 1e-7, atol=1e-12 * sc, spectrum=n, part=c, round=rnd)
                # exact reproduction at the nodes
                iz = [(a, int(np.flatnonzero(zz == q)[0])) for a, q in enumerate(z) if np.any(zz == q)]
                ik = [(a, int(np.flatnonzero(kk == q)[0])) for a, q in enumerate(k) if np.any(kk == q)]
                same_k = (not two) or np.array_equal(twin2.k_vec, kk) and np.array_equal(twin2.z_vec, zz)
                if iz and ik and same_k:
                    za, zb = zip(*iz)
                    ka, kb = zip(*ik)
                    G = np.asarray(g)[:, list(za)][:, :, list(ka)]
                    N1 = P1[:, list(zb)][:, :, list(kb)]
                    N2 = None if not two else P2[:, list(zb)][:, :, list(kb)]
                    mon.close('node', G, combine(n, N1, N2, f1[list(za)]), 1e-9, atol=1e-13 * sc, spectrum=n, part=c)
                if n == 'mm':
                    mon.close('unmixed', g, A, 1e-7, atol=1e-12 * sc)
                if fr is not None and np.any(f1 == 1.0) and n != 'mm':
                    i = np.flatnonzero(f1 == 1.0)
                    mon.close('extremes', np.asarray(g)[:, i], A[:, i], 1e-7, atol=1e-12 * sc)
                if fr is not None and np.any(f1 == 0.0) and n != 'mm' and two:
                    i = np.flatnonzero(f1 == 0.0)
                    mon.close('extremes', np.asarray(g)[:, i], B[:, i], 1e-7, atol=1e-12 * sc)
            for c in set(COMP) - set(comps):
                mon.check('unrequested', getattr(got, 'pk_' + c) is None, 'component present although not requested', spectrum=n, part=c)


def combine(n, A, B, f1):
    if n == 'mm':
        return A
    f = f1[None, :, None]
    B = np.zeros_like(A) if B is None else B
    if n in ('gm', 'mi'):
        return f * A + (1 - f) * B
    return f ** 2 * A + (1 - f) ** 2 * B


def fraction(rng, kw, mon):
    mon.event('fraction')
    q = rng.random()
    z0, z1 = kw['z_vec'][0], kw['z_vec'][-1]
    n = int(rng.integers(2, 7))
    fz = np.linspace(max(0, z0 - .2), z1 + .2, n) if rng.random() < .7 else np.linspace(z0 + .1 * (z1 - z0), z1 - .1 * (z1 - z0), n)
    if q < .15:
        return fz, np.zeros(n)
    if q < .3:
        return fz, np.ones(n)
    return fz, rng.uniform(0, 1, n)
