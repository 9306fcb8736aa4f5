"""C03: structural invariants of every spectrum over all modes (shape, finiteness, total, sign)."""
import numpy as np
from .. import gen, harness as H
PROPERTY = 'C03'
RULE = ('random configurations over all non-linear modes, response, feedback, HOD, alignment and grid options, including samples that do not cover '
        'all redshifts; non-trivial when all six spectra were produced and every array was inspected')
ASSUMPTIONS = ['values themselves are decided by C05-C07; this monitor needs no reference model']
REQUIRED = ['shape', 'finite', 'total', 'sign', 'smooth', 'response', 'uncovered', 'lin']


def cases(tier, rng):
    return H.seeds(rng, 1000 if tier == 'quick' else 8000)


def config(rng):
    kw = gen.base(rng, nz=(2, 5), nk=(4, 40))
    gen.galaxy(rng, kw, nbins=int(rng.integers(1, 5)), cover=bool(rng.random() < .6))
    gen.feedback(rng, kw)
    gen.alignment(rng, kw)
    kw['response'] = bool(rng.random() < .3)
    mead = str(kw.get('hmcode_ingredients')).startswith('mead')
    mode = gen.pick(rng, None, 'fortuna', 'bnl', 'hmcode' if mead else None)
    kw['nonlinear_mode'] = mode
    if mode == 'hmcode' or rng.random() < .1:
        kw['k_vec'] = [float(x) for x in np.logspace(-3, rng.uniform(.5, 1.5), int(rng.integers(16, 30)))]
        kw['dewiggle'] = bool(rng.random() < .5)
    if mode == 'bnl':
        kw['k_vec'] = kw['k_vec'][:12]
        kw['dlog10m'] = .25
        kw['beta_nl'] = {'beta_seed': int(rng.integers(1 << 30)), 'zdep': bool(rng.random() < .5), 'amp': .3}
    if rng.random() < .7:
        kw['matter_power_nl'] = gen.pnl_spec(rng)
    if rng.random() < .3:
        kw['matter_power_lin'] = gen.pnl_spec(rng)
    if mode == 'fortuna':
        kw['t_eff'] = gen.U(rng, 0, 1)
    return kw


def span(s, z, nb):
    z = np.asarray(z)
    if 'observables_rows' in s:
        zz = [q[0] for q in s['observables_rows']]
        lo, hi = [min(zz)], [max(zz)]
    else:
        lo, hi = s['zmin'], s['zmax']
    inside = [lo[b] >= z.min() and hi[b] <= z.max() for b in range(nb)]
    return np.array([(z >= lo[b]) & (z <= hi[b]) & inside[b] for b in range(nb)])


def run_case(case, mon):
    rng = np.random.default_rng(case['seed'])
    kw = config(rng)
    mon.note = H.digest(kw)
    args = gen.materialise(kw)
    p = H.spectra(**args)
    s = args['hod_settings']
    nb = 1 if s.get('observables_file') else len(s['obs_min'])
    cfg_settings = kw['hod_settings']
    nz, nk = len(kw['z_vec']), len(kw['k_vec'])
    f_c = np.asarray(p.hod.f_c)
    if (f_c == 0).any():
        mon.event('uncovered')
    order = list(H.NAMES)
    rng.shuffle(order)
    lin = p.power_spectrum_lin.pk_tot
    mon.check('lin', np.shape(lin) == (1, nz, nk) and np.all(np.isfinite(lin)), 'linear spectrum shape or value', shape=list(np.shape(lin)))
    for n in order:
        x = getattr(p, 'power_spectrum_' + n)
        want = (1 if n == 'mm' else nb, nz, nk)
        parts = [('pk_1h', x.pk_1h), ('pk_2h', x.pk_2h), ('pk_tot', x.pk_tot)]
        if n in ('gg', 'gm'):
            parts.append(('galaxy_linear_bias', x.galaxy_linear_bias))
        good = True
        for nm, v in parts:
            ok = mon.check('shape', np.shape(v) == want, f'{n}.{nm}', got=list(np.shape(v)), want=list(want))
            if ok:
                bad = ~np.isfinite(v)
                if nm == 'galaxy_linear_bias':
                    # sqrt of a product: undefined where the redshift interpolation of the galaxy sample overshoots to a negative fraction
                    over = (f_c < 0) | (np.asarray(p.hod.f_s) < 0)
                    if over.shape == bad.shape[:2]:
                        bad = bad & ~over[..., None]
                ok = mon.check('finite', not bad.any(), f'{n}.{nm} not finite', n=int(np.sum(bad)))
            good &= ok
        if not good:
            continue
        one, two, tot = (np.asarray(a) for a in (x.pk_1h, x.pk_2h, x.pk_tot))
        if n == 'mm' and kw['response']:
            mon.event('response')
            mon.check('total', not one.any() and not two.any(), 'response matter split not zero')
            if args.get('matter_power_nl') is not None:
                mon.close('total', tot, args['matter_power_nl'][None], 1e-12)
        elif n == 'mm' and kw['nonlinear_mode'] == 'hmcode':
            mon.event('smooth')
            k = np.array(kw['k_vec'])
            al = 1.875 * 1.603 ** np.asarray(p.neff)[None, :, None]
            D = k**3 / (2 * np.pi**2)
            with np.errstate(divide='ignore'):
                want_tot = np.exp(np.logaddexp(al * np.log(D * one), al * np.log(D * two)) / al) / D
            mon.close('total', tot, want_tot, 1e-7, which='mm smoothed')
        else:
            sc = np.max(np.abs(one) + np.abs(two), axis=-1, keepdims=True)
            mon.close('total', tot, one + two, 1e-9, scale=sc, which=n)
        if n in ('mm', 'gg', 'gm'):
            # beyond a sample's redshifts occupations, and beyond z_vec mass functions, are extrapolated linearly: no sign there
            covered = np.ones(want[:2], bool) if n == 'mm' else span(cfg_settings, kw['z_vec'], nb)
            mon.event('signed', covered.sum())
            mon.check('sign', bool(np.all(one[covered] >= 0)), f'{n} one-halo negative', minimum=float(one.min()))
