"""C10: the non-linear halo bias table enters as the full double mass integral."""
import numpy as np
from .. import gen, ref, harness as H
PROPERTY = 'C10'
RULE = ('random configurations with random tables (symmetric, asymmetric, redshift dependent, zero, sums of tables); non-trivial when the two-halo terms '
        'of all six spectra were compared with the explicit double sum')
ASSUMPTIONS = ['the integral over both masses is the trapezoidal sum on the halo-mass grid']
REQUIRED = [f'{s}.pk_2h' for s in H.NAMES] + ['zero', 'linear', 'zdep', 'asymmetric', 'slice', 'one_halo']


def cases(tier, rng):
    return H.seeds(rng, 320 if tier == 'quick' else 4000)


def run_case(case, mon):
    rng = np.random.default_rng(case['seed'])
    kw = gen.base(rng, nk=(4, 8))
    kw['dlog10m'] = gen.pick(rng, .25, .3, .4)
    gen.galaxy(rng, kw, cover=bool(rng.random() < .8))
    gen.feedback(rng, kw)
    gen.alignment(rng, kw)
    kw['nonlinear_mode'] = 'bnl'
    spec = {'beta_seed': int(rng.integers(1 << 30)), 'zdep': bool(rng.random() < .6), 'symmetric': bool(rng.random() < .5)}
    kw['beta_nl'] = spec
    if spec['zdep']:
        mon.event('zdep')
    if not spec['symmetric']:
        mon.event('asymmetric')
    mon.note = H.digest(kw)
    args = gen.materialise(kw)
    p = H.spectra(**gen.materialise(kw))
    R = ref.Ref(**args)
    order = list(H.NAMES)
    rng.shuffle(order)
    H.vs_ref(mon, p, R, order, 1e-6)
    got = H.reads(p)
    B = args['beta_nl']
    # zero table: same as no table and no two-halo truncation
    zero = H.reads(H.spectra(**{**gen.materialise(kw), 'beta_nl': np.zeros_like(B)}))
    plain = H.reads(H.spectra(**{**gen.materialise(kw), 'beta_nl': None, 'nonlinear_mode': None, 'two_halo_ktrunc': None, 'two_halo_ktrunc_ia': None}))
    H.same(mon, 'zero', zero, plain, 1e-7)
    # linear in the table
    B2 = gen.synth_beta({**spec, 'beta_seed': spec['beta_seed'] + 1}, kw)
    a, b = rng.uniform(-2, 2, 2)
    g2 = H.reads(H.spectra(**{**gen.materialise(kw), 'beta_nl': B2}))
    gl = H.reads(H.spectra(**{**gen.materialise(kw), 'beta_nl': a * B + b * B2}))
    for n in H.NAMES:
        c = lambda g: g[n, 'pk_2h'] - zero[n, 'pk_2h']
        sc = np.max(np.abs(a * c(got)) + np.abs(b * c(g2)) + np.abs(zero[n, 'pk_2h']), axis=-1, keepdims=True)
        mon.close('linear', c(gl), a * c(got) + b * c(g2), 1e-7, scale=sc * 10, which=n)
        mon.close('one_halo', gl[n, 'pk_1h'], zero[n, 'pk_1h'], 1e-10, which=n)
    # a table that differs at one redshift only changes that redshift
    if B.shape[0] > 1:
        i = int(rng.integers(B.shape[0]))
        B3 = B.copy()
        B3[i] = B2[i]
        g3 = H.reads(H.spectra(**{**gen.materialise(kw), 'beta_nl': B3}))
        for n in H.NAMES:
            for part in ('pk_2h', 'pk_tot'):
                want = got[n, part].copy()
                want[:, i] = g2[n, part][:, i]
                mon.close('slice', g3[n, part], want, 1e-10, which=n)
