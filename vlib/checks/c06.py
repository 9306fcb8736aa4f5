"""C06: galaxy-galaxy and galaxy-matter spectra against the reference halo model."""
import numpy as np
from .. import gen, ref, harness as H
PROPERTY = 'C06'
RULE = ('random cosmology/grid/ingredient/HOD/Poisson/feedback configurations; non-trivial when galaxy-galaxy and galaxy-matter spectra of the '
        'real object were compared with the reference for every bin, redshift and wavenumber')
ASSUMPTIONS = ['hmf, halomod, astropy, scipy are trusted', 'galaxy samples need at least two output redshifts and two sample redshifts']
REQUIRED = ['gg.pk_1h', 'gg.pk_2h', 'gg.pk_tot', 'gg.galaxy_linear_bias', 'gm.pk_1h', 'gm.pk_2h', 'gm.pk_tot', 'gm.galaxy_linear_bias',
            'hod.Cacciato', 'hod.Zheng', 'hod.Zhai', 'hod.Simple', 'hod.Zehavi', 'poisson.power_law', 'fb.fit', 'fb.mead2020_feedback', 'fb.pointmass']


def cases(tier, rng):
    return H.seeds(rng, 640 if tier == 'quick' else 6000) + H.seeds(rng, 0 if tier == 'quick' else 16, camb=True)


def config(rng, camb=False):
    kw = gen.base(rng)
    gen.galaxy(rng, kw)
    gen.feedback(rng, kw)
    if rng.random() < .2:
        kw['matter_power_lin'] = gen.pnl_spec(rng)
    q = rng.random()
    if q < .12:
        kw['nonlinear_mode'] = 'bnl'
        kw['k_vec'] = kw['k_vec'][:10]
        kw['dlog10m'] = .25
        kw['beta_nl'] = {'beta_seed': int(rng.integers(1 << 30)), 'zdep': bool(rng.random() < .5), 'symmetric': True}
    elif q < .2:
        kw['nonlinear_mode'] = 'fortuna'
    elif q < .3 and kw.get('hmcode_ingredients', '') and kw['hmcode_ingredients'].startswith('mead'):
        kw['nonlinear_mode'] = 'hmcode'
        kw['k_vec'] = [float(x) for x in np.logspace(-3, 1, 20)]
    if camb:
        kw.update(transfer_model='CAMB', growth_model='CambGrowth', w0=-1.0, wa=0.0, transfer_params=None, growth_params=None)
    return kw


def run_case(case, mon):
    rng = np.random.default_rng(case['seed'])
    kw = config(rng, case.get('camb'))
    mon.note = H.digest(kw)
    p = H.spectra(**gen.materialise(kw))
    R = ref.Ref(**gen.materialise(kw))
    mon.event('hod.' + kw['hod_model'])
    mon.event('poisson.' + kw.get('poisson_model', 'constant'))
    mon.event('fb.' + str(kw.get('hmcode_ingredients')))
    if kw.get('pointmass'):
        mon.event('fb.pointmass')
    H.vs_ref(mon, p, R, ['gm', 'gg'] if rng.random() < .5 else ['gg', 'gm'], 1e-6)
