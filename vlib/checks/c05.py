"""C05: matter spectrum against the reference halo model, random configurations."""
import numpy as np
from .. import gen, ref, harness as H
PROPERTY = 'C05'
RULE = ('random cosmology/grid/ingredient/mode configurations drawn from the seed; non-trivial when the matter spectrum of the real '
        'object was produced and compared with the per-redshift reference at every wavenumber')
ASSUMPTIONS = ['hmf, halomod, astropy, scipy are trusted and shared by code and oracle', 'EH/BBKS/BondEfs transfer functions for speed; CAMB in the thorough tier']
REQUIRED = ['mm.pk_1h', 'mm.pk_2h', 'mm.pk_tot', 'mode.vanilla', 'mode.hmcode', 'mode.fit', 'mode.bnl', 'mode.feedback']


def cases(tier, rng):
    c = H.seeds(rng, 420 if tier == 'quick' else 6000)
    if tier == 'thorough':
        c += H.seeds(rng, 24, camb=True)
    else:
        c += H.seeds(rng, 2, camb=True)
    return c


def config(rng, camb=False):
    mode = gen.pick(rng, 'vanilla', 'vanilla', 'mead', 'hmcode', 'hmcode', 'fit', 'bnl', 'feedback')
    mead = {'mead': 'mead2020', 'hmcode': gen.pick(rng, 'mead2020', 'mead2020_feedback'), 'feedback': 'mead2020_feedback'}.get(mode, '')
    single = mode != 'fit' and rng.random() < .15
    kw = gen.base(rng, mead=mead, nz=(1, 1) if single else (2, 4), logk=(mode == 'hmcode'))
    if mode == 'hmcode':
        kw['nonlinear_mode'] = 'hmcode'
        if len(kw['k_vec']) < 16:
            kw['k_vec'] = [float(x) for x in np.logspace(-3, 1, 20)]
        if rng.random() < .2:  # early times: sharp transition exponents
            kw['z_vec'] = [gen.r(z + 3.0) for z in kw['z_vec']]
    if mode == 'fit':
        kw['hmcode_ingredients'] = 'fit'
        kw['hod_model'] = gen.pick(rng, 'Cacciato', 'Cacciato', 'Cacciato', 'Zheng')
        if kw['hod_model'] == 'Cacciato':
            kw['hod_params'] = gen.hod_params(rng, 'Cacciato', 1)
        kw['hod_settings_mm'] = gen.mm_settings(rng, kw)
        kw['mb'] = gen.r(10 ** rng.uniform(12.5, 14.5))
        kw['hod_settings'] = gen.hod_settings(rng, kw['z_vec'], 2, True, False)
    if mode == 'bnl':
        kw['nonlinear_mode'] = 'bnl'
        kw['k_vec'] = kw['k_vec'][:12]
        kw['dlog10m'] = .25
        kw['beta_nl'] = {'beta_seed': int(rng.integers(1 << 30)), 'zdep': bool(rng.random() < .5), 'symmetric': bool(rng.random() < .5)}
    if rng.random() < .25:
        kw['matter_power_lin'] = gen.pnl_spec(rng)
    if mode != 'hmcode' and rng.random() < .15:
        kw['nonlinear_mode'] = kw.get('nonlinear_mode') or gen.pick(rng, None, 'fortuna')
        if kw['nonlinear_mode'] is None:
            del kw['nonlinear_mode']
    if camb:
        kw['transfer_model'] = 'CAMB'
        kw['growth_model'] = 'CambGrowth'
        kw['transfer_params'] = kw['growth_params'] = None
        kw['w0'], kw['wa'] = -1.0, 0.0
    return mode, kw


def run_case(case, mon):
    rng = np.random.default_rng(case['seed'])
    mode, kw = config(rng, case.get('camb'))
    mon.note = H.digest(kw)
    p = H.spectra(**gen.materialise(kw))
    R = ref.Ref(**gen.materialise(kw))
    mon.event('mode.' + mode)
    H.vs_ref(mon, p, R, ['mm'], 1e-6)
