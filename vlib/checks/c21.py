"""C21: input spectra are used as given on the right grid."""
import numpy as np
from hmf.density_field.transfer_models import EH_NoBAO
from .. import gen, ref, harness as H
PROPERTY = 'C21'
RULE = ('random cosmologies, grids, supplied or internal linear and non-linear spectra, de-wiggling on and off; non-trivial when the reported or used input spectra '
        'were compared with the supplied tables / the halo-model library')
ASSUMPTIONS = ['hmf trusted for the linear and non-linear spectrum of one redshift']
REQUIRED = ['beyond table', 'supplied.lin', 'internal.lin', 'supplied.nl', 'internal.nl', 'dewiggled', 'dw.large', 'dw.smooth', 'dw.damped', 'scaling', 'local', 'local.nl', 'peff', 'hmcode', 'untouched', 'single.z', 'shape']
NAMES = H.NAMES


def cases(tier, rng):
    n = 150 if tier == 'quick' else 2000
    return [c for w in ('lin', 'nl', 'dw', 'use') for c in H.seeds(rng, n, what=w)] + H.seeds(rng, 0 if tier == 'quick' else 12, what='lin', camb=True)


def run_case(case, mon):
    rng = np.random.default_rng(case['seed'])
    {'lin': lin, 'nl': nl, 'dw': dw, 'use': use}[case['what']](rng, mon, case)


def lin(rng, mon, case):
    kw = gen.base(rng, nz=(1, 5), nk=(8, 40))
    if case.get('camb'):
        kw.update(transfer_model='CAMB', growth_model='CambGrowth', w0=-1.0, wa=0.0, transfer_params=None, growth_params=None)
    elif rng.random() < .15:                           # wavenumbers beyond the internal table
        kw.update(lnk_min=gen.U(rng, -8, -4), lnk_max=gen.U(rng, 1, 4), dlnk=gen.U(rng, .05, .2))
        mon.event('beyond table', int(np.log(kw['k_vec'][-1]) > kw['lnk_max'] or np.log(kw['k_vec'][0]) < kw['lnk_min']))
    mon.note = H.digest(kw)
    if len(kw['z_vec']) == 1:
        mon.event('single.z')
    given = rng.random() < .4
    if given:
        kw['matter_power_lin'] = gen.pnl_spec(rng)
    args = gen.materialise(kw)
    if given:
        args['matter_power_lin'] *= rng.uniform(.5, 2, args['matter_power_lin'].shape)      # rough: nothing may be smoothed
        before = args['matter_power_lin'].copy()
    p = H.spectra(**args)
    if rng.random() < .5:
        p.power_spectrum_mm
    got = np.asarray(p.power_spectrum_lin.pk_tot)
    mon.check('shape', got.shape == (1, len(kw['z_vec']), len(kw['k_vec'])), 'shape', shape=list(got.shape))
    if given:
        mon.close('supplied.lin', got[0], before, 0)
        mon.close('untouched', args['matter_power_lin'], before, 0)
    else:
        R = ref.Ref(**args)
        mon.close('internal.lin', got[0], R.plin_raw(), 1e-8)
        # each value lies between the two neighbouring tabulated values of its own redshift
        kh, tab = R.kh, R.power
        for i in range(len(kw['z_vec'])):
            for j, k in enumerate(kw['k_vec']):
                if kh[0] <= k <= kh[-1]:
                    a = int(np.clip(np.searchsorted(kh, k) - 1, 0, len(kh) - 2))
                    lo, hi = sorted((tab[i, a], tab[i, a + 1]))
                    mon.check('internal.lin', lo * (1 - 1e-9) <= got[0, i, j] <= hi * (1 + 1e-9), 'outside the neighbouring library values', z=i, k=k)


def nl(rng, mon, case):
    kw = gen.base(rng, nz=(1, 4), nk=(8, 20))
    given = rng.random() < .5
    kw['transfer_model'] = gen.pick(rng, 'EH', 'EH_NoBAO', 'BBKS')
    kw.pop('transfer_params', None)
    if given:
        kw['matter_power_nl'] = gen.pnl_spec(rng)
    mode = gen.pick(rng, 'response', 'fortuna')
    kw['response'] = mode == 'response'
    if mode == 'fortuna':
        kw['nonlinear_mode'] = 'fortuna'
        kw['t_eff'] = gen.pick(rng, 0.0, 1.0, gen.U(rng, 0, 1))
    mon.note = H.digest(kw)
    args = gen.materialise(kw)
    if given:
        args['matter_power_nl'] *= rng.uniform(.5, 2, args['matter_power_nl'].shape)
        before = args['matter_power_nl'].copy()
    p = H.spectra(**args)
    R = ref.Ref(**args)
    if mode == 'response':
        got = p.power_spectrum_mm
        if given:
            mon.close('supplied.nl', got.pk_tot[0], before, 0)
            mon.close('untouched', args['matter_power_nl'], before, 0)
        else:
            mon.close('internal.nl', got.pk_tot[0], R.pnl(), 1e-7)
        # the linear spectrum is not replaced
        mon.close('internal.lin', p.power_spectrum_lin.pk_tot[0], R.plin_raw(), 1e-8)
    else:
        mon.close('peff', p.peff, R.peff(), 1e-7)
        mon.event('supplied.nl' if given else 'internal.nl')
        if kw['t_eff'] == 1.0:
            mon.close('peff', p.peff, p.power_spectrum_lin.pk_tot[0], 1e-12)
        if kw['t_eff'] == 0.0 and given:
            mon.close('peff', p.peff, before, 0)


def dw(rng, mon, case):
    hm = rng.random() < .4
    kw = gen.base(rng, mead=gen.pick(rng, 'mead2020', 'mead2020_feedback') if hm else None, nz=(1, 4))
    if len(kw['z_vec']) == 1:
        mon.event('single.z')
    n = int(rng.integers(60, 160))
    k = np.logspace(rng.uniform(-4.5, -3.5), rng.uniform(0, 1.5), n)
    kw['k_vec'] = [float(x) for x in k]
    if hm:
        kw['nonlinear_mode'] = 'hmcode'
        mon.event('hmcode')
    else:
        kw['dewiggle'] = True
    mon.note = H.digest(kw)
    args = gen.materialise(kw)
    z = args['z_vec']
    src = gen.pick(rng, 'internal', 'supplied', 'smooth', 'wiggly')
    R0 = ref.Ref(**args)
    nw = k ** kw['n_s'] * np.exp(EH_NoBAO(R0.cosmo).lnt(np.log(k))) ** 2
    nw = nw / nw.max() * 2e4
    A = 1 / (1 + z[:, None]) ** 2
    if src == 'supplied':
        args['matter_power_lin'] = gen.synth_power(gen.pnl_spec(rng), z, k)
    elif src == 'smooth':
        args['matter_power_lin'] = nw * A
    elif src == 'wiggly':
        om = rng.uniform(12, 20)
        args['matter_power_lin'] = nw * A * (1 + .05 * np.sin(om * np.log(k)))
    R = ref.Ref(**args)
    p = H.spectra(**args)
    got = np.asarray(p.power_spectrum_lin.pk_tot)[0]
    raw = R.plin_raw()
    mon.close('dewiggled', got, R.plin(), 1e-7)
    # largest scales unchanged: what is removed is at most (k sigma_v)^2 of the wiggles
    sv2 = np.array([ref.simpson(raw[i] * k, x=np.log(k)) for i in range(len(z))]) / (6 * np.pi**2)
    lim = np.minimum(1, k[None] ** 2 * sv2[:, None] * 1.2)
    big = k < 1e-3
    mon.check('dw.large', bool(np.all(np.abs(got / raw - 1)[:, big] <= lim[:, big])), 'large scales changed', worst=float(np.abs(got / raw - 1)[:, big].max()))
    if src == 'smooth':
        mon.close('dw.smooth', got, raw, 1e-7)
    if src == 'wiggly':
        mid = (k > 10 * k[0]) & (k < k[-1] / 10)
        for i in range(len(z)):
            full = mid & (k**2 * sv2[i] > 6)
            if full.any():
                left = np.abs(got[i] / (nw * A[i]) - 1)[full].max()
                mon.check('dw.damped', left < .01, 'wiggles survive where they should be damped away', left=float(left))


def use(rng, mon, case):
    """Scaling and locality of the supplied spectra in all two-halo terms."""
    kw = gen.base(rng, nk=(6, 10), nz=(2, 3))
    gen.galaxy(rng, kw)
    gen.alignment(rng, kw)
    mode = gen.pick(rng, None, 'bnl', 'fortuna', 'response')
    kw['matter_power_lin'] = gen.pnl_spec(rng)
    if mode == 'bnl':
        kw['dlog10m'] = .25
        kw['beta_nl'] = {'beta_seed': 3, 'zdep': True}
    if mode in ('bnl', 'fortuna'):
        kw['nonlinear_mode'] = mode
    if mode in ('fortuna', 'response'):
        kw['matter_power_nl'] = gen.pnl_spec(rng)
    kw['response'] = mode == 'response'
    mon.note = H.digest(kw)
    args = gen.materialise(kw)
    base = H.reads(H.spectra(**args))
    shape = args['matter_power_lin'].shape
    i, j = (int(rng.integers(n)) for n in shape)
    if mode != 'response':
        f = float(rng.uniform(.3, 3))
        other = dict(args, matter_power_lin=args['matter_power_lin'] * f)
        if mode == 'fortuna':
            other['matter_power_nl'] = args['matter_power_nl'] * f
        s = H.reads(H.spectra(**other))
        for n in NAMES:
            mon.close('scaling', s[n, 'pk_2h'], f * base[n, 'pk_2h'], 1e-8, spectrum=n)
            mon.close('scaling', s[n, 'pk_1h'], base[n, 'pk_1h'], 1e-8, spectrum=n)
    for q in ('matter_power_lin', 'matter_power_nl'):
        if q not in args:
            continue
        t = args[q].copy()
        t[i, j] *= 1.7
        s = H.reads(H.spectra(**dict(args, **{q: t})))
        changed = False
        for n in NAMES:
            for c in ('pk_1h', 'pk_2h', 'pk_tot'):
                a, b = s[n, c].copy(), base[n, c].copy()
                changed |= bool(np.any(a[:, i, j] != b[:, i, j]))
                a[:, i, j] = b[:, i, j] = 0.0
                mon.close('local' if q.endswith('lin') else 'local.nl', a, b, 1e-9, spectrum=n, part=c, table=q)
        if q == 'matter_power_lin' and mode != 'response' or q == 'matter_power_nl' and mode == 'response':
            mon.check('local', changed, 'the supplied spectrum has no effect', table=q)
