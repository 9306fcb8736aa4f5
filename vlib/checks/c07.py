"""C07: intrinsic-alignment spectra against the reference halo model."""
import numpy as np
from .. import gen, ref, harness as H
PROPERTY = 'C07'
RULE = ('random cosmology/grid/HOD/alignment configurations in the standard, fortuna, hmcode-ingredient and non-linear-bias modes; non-trivial '
        'when mi, ii and gi of the real object were compared with the reference for every bin, redshift and wavenumber')
ASSUMPTIONS = ['hmf, halomod, astropy, scipy (FFTLog) are trusted', 'a pivot mass is given only together with the halo-mass dependence',
               'luminosity samples populate every redshift interval']
REQUIRED = [f'{s}.{p}' for s in ('mi', 'ii', 'gi') for p in ('pk_1h', 'pk_2h', 'pk_tot')] + ['mode.fortuna', 'mode.bnl', 'mode.None', 'dep.luminosity', 'dep.constant', 'dep.halo_mass']


def cases(tier, rng):
    return H.seeds(rng, 560 if tier == 'quick' else 5000) + H.seeds(rng, 0 if tier == 'quick' else 16, camb=True)


def config(rng, camb=False):
    lum = bool(rng.random() < .4)
    kw = gen.base(rng, evenz=lum and rng.random() < .5)
    gen.galaxy(rng, kw)
    gen.feedback(rng, kw)
    gen.alignment(rng, kw, lum=lum)
    if rng.random() < .2:
        kw['matter_power_lin'] = gen.pnl_spec(rng)
    q = rng.random()
    if q < .15:
        kw['nonlinear_mode'] = 'bnl'
        kw['k_vec'] = kw['k_vec'][:10]
        kw['dlog10m'] = .25
        kw['beta_nl'] = {'beta_seed': int(rng.integers(1 << 30)), 'zdep': bool(rng.random() < .5), 'symmetric': True}
    elif q < .45:
        kw['nonlinear_mode'] = 'fortuna'
        kw['t_eff'] = gen.U(rng, 0, 1)
        if rng.random() < .7:
            kw['matter_power_nl'] = gen.pnl_spec(rng)
    elif q < .52 and kw.get('hmcode_ingredients', '') and kw['hmcode_ingredients'].startswith('mead'):
        kw['nonlinear_mode'] = 'hmcode'
        kw['k_vec'] = [float(x) for x in np.logspace(-3, 1, 20)]
    if camb:
        kw.update(transfer_model='CAMB', growth_model='CambGrowth', w0=-1.0, wa=0.0, transfer_params=None, growth_params=None)
    return kw


def run_case(case, mon):
    rng = np.random.default_rng(case['seed'])
    kw = config(rng, case.get('camb'))
    mon.note = H.digest(kw)
    p = H.spectra(**gen.materialise(kw))
    R = ref.Ref(**gen.materialise(kw))
    mon.event('mode.' + str(kw.get('nonlinear_mode')))
    for t in ('central', 'satellite'):
        mon.event('dep.' + kw['align_params'].get(t + '_ia_depends_on', 'halo_mass'))
    order = ['mi', 'ii', 'gi']
    rng.shuffle(order)
    H.vs_ref(mon, p, R, order, 2e-6)
    h = R.hod()
    mon.close('mean mass', p.mass_avg, h.avg_halo_mass_cen / h.number_density_cen, 1e-6)
