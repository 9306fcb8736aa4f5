"""C09: response mode = plain halo-model result times P_nl / P_mm(halo model)."""
import numpy as np
from .. import gen, ref, harness as H
PROPERTY = 'C09'
RULE = ('random configurations; for each, spectra are read in a random order from a response object (built directly or switched on by an update) and '
        'compared with those of a plain object; non-trivial when all six spectra were compared')
ASSUMPTIONS = ['the plain (response off) results are decided by C05-C07, C10']
REQUIRED = ['mm.pk_tot', 'gg.pk_tot', 'gm.pk_1h', 'mi.pk_2h', 'ii.pk_tot', 'gi.pk_tot', 'bias', 'switched', 'internal_nl', 'supplied_nl', 'reread', 'mode.bnl', 'mode.hmcode', 'mode.fortuna']


def cases(tier, rng):
    return H.seeds(rng, 480 if tier == 'quick' else 5000)


def run_case(case, mon):
    rng = np.random.default_rng(case['seed'])
    mode = gen.pick(rng, None, None, 'bnl', 'hmcode', 'fortuna')
    kw = gen.base(rng, mead=gen.pick(rng, 'mead2020', 'mead2020_feedback') if mode == 'hmcode' else None)
    gen.galaxy(rng, kw, cover=True)
    gen.feedback(rng, kw)
    gen.alignment(rng, kw)
    kw['nonlinear_mode'] = mode
    if mode == 'hmcode':
        kw['k_vec'] = [float(x) for x in np.logspace(-3, 1, 20)]
    if mode == 'bnl':
        kw['k_vec'] = kw['k_vec'][:10]
        kw['dlog10m'] = .25
        kw['beta_nl'] = {'beta_seed': int(rng.integers(1 << 30)), 'amp': .2}
    if rng.random() < .7:
        kw['matter_power_nl'] = gen.pnl_spec(rng)
        mon.event('supplied_nl')
    else:
        mon.event('internal_nl')
    mon.event('mode.' + str(mode))
    mon.note = H.digest(kw)
    plain = H.spectra(**gen.materialise(kw))
    order = list(H.NAMES)
    if rng.random() < .4:
        mon.event('switched')
        resp = H.spectra(**gen.materialise(kw))
        for n in order[:int(rng.integers(0, 7))]:
            getattr(resp, 'power_spectrum_' + n)
        resp.update(response=True)
    else:
        resp = H.spectra(**gen.materialise(kw), response=True)
    rng.shuffle(order)
    got = H.reads(resp, order)
    base = H.reads(plain)
    if kw.get('matter_power_nl'):
        pnl = gen.materialise(kw)['matter_power_nl'][None]
    else:
        R = ref.Ref(**{**gen.materialise(kw), 'response': True})
        pnl = R.pnl()[None]
    f = pnl / base['mm', 'pk_tot']
    mon.close('mm.pk_tot', got['mm', 'pk_tot'], pnl, 1e-8)
    for n in H.NAMES[1:]:
        for part in H.PARTS[:3]:
            mon.close(f'{n}.{part}', got[n, part], base[n, part] * f, 1e-7)
    for n in ('gg', 'gm'):
        mon.close('bias', got[n, 'galaxy_linear_bias'], base[n, 'galaxy_linear_bias'], 1e-9)
    rng.shuffle(order)
    again = H.reads(resp, order)
    H.same(mon, 'reread', again, got, 1e-12)
