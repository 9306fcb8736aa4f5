"""C16: invalid requests are refused, and the object stays usable."""
import numpy as np
from .. import gen, harness as H, history as S
PROPERTY = 'C16'
RULE = ('a valid object with a random history of reads and updates is given an invalid value (alone or together with valid changes) by construction, update or clone; the request must '
        'raise at the latest when an output that depends on it is read; the values are then withdrawn and all outputs are compared with an object that never saw them; '
        'non-trivial when the refusal was observed and the outputs after it compared')
ASSUMPTIONS = ['withdrawing means setting the entries of the refused request back to their last valid values']
IA = ('mi', 'ii', 'gi')
ALLS = tuple(H.NAMES)


def bad_shape(rng, c, key):
    nz, nk = len(c['z_vec']), len(c['k_vec'])
    sh = gen.pick(rng, (nz + 1, nk), (nz, nk + 1), (nz, nk - 1), (nk, nz), (nz * nk,), (1, nk) if nz > 1 else (2, nk), (nk,))
    if sh == (nz, nk):
        sh = (nz + 1, nk)
    return {key: rng.uniform(100, 1000, sh)}


def al(c, **kw):
    return {'align_params': {**c['align_params'], **kw}}


# name -> (arguments to request, outputs that depend on them, state needed beforehand)
def catalogue(rng, c):
    p = lambda *a: gen.pick(rng, *a)
    junk = p('foo', 'HMCODE', 'none', '', 'mead', 3, 'halo mass')
    nz, nk = len(c['z_vec']), len(c['k_vec'])
    plain = dict(hmcode_ingredients=None, nonlinear_mode=None)       # the HMCode ingredients bring their own models
    cat = {
        'mode': (dict(nonlinear_mode=p('foo', 'Bnl', 'hmcode2020', '', 1)), None, {}),
        'ingredients': (dict(hmcode_ingredients=p('foo', 'mead2016', 'Fit', '', 1)), None, {}),
        'hmcode alone': (dict(nonlinear_mode='hmcode'), None, dict(hmcode_ingredients=None)),
        'hmcode fit': (dict(nonlinear_mode='hmcode', hmcode_ingredients='fit'), None, {}),
        'hmcode dropped': (dict(hmcode_ingredients=p(None, 'fit')), None, dict(hmcode_ingredients=p('mead2020', 'mead2020_feedback'), nonlinear_mode='hmcode')),
        'central option': (al(c, central_ia_depends_on=junk), IA, {}),
        'satellite option': (al(c, satellite_ia_depends_on=junk), IA, {}),
        'central mass pivot': (al(c, central_ia_depends_on='halo_mass', mpivot_cen=None), IA, {}),
        'satellite mass pivot': (al(c, satellite_ia_depends_on='halo_mass', mpivot_sat=None), ('ii', 'gi', 'mi'), {}),
        'central luminosity pivot': (al(c, central_ia_depends_on='luminosity', lpivot_cen=None, mpivot_cen=None), IA, {}),
        'satellite luminosity pivot': (al(c, satellite_ia_depends_on='luminosity', lpivot_sat=None, mpivot_sat=None), IA, {}),
        'central luminosity file': (al(c, central_ia_depends_on='luminosity', lpivot_cen=10., mpivot_cen=None, z_loglum_file_centrals=None), IA, {}),
        'satellite luminosity file': (al(c, satellite_ia_depends_on='luminosity', lpivot_sat=10., mpivot_sat=None, z_loglum_file_satellites=None), IA, {}),
        'double mass law': (al(c, central_ia_depends_on='halo_mass', mpivot_cen=13., beta_two=.3), IA, {}),
        'ell_max': (al(c, ell_max=int(rng.integers(12, 30))), IA, {}),
        'linear shape': (bad_shape(rng, c, 'matter_power_lin'), ALLS, dict(nonlinear_mode=p(None, 'fortuna'), hmcode_ingredients=None, dewiggle=False)),
        'nonlinear shape': (bad_shape(rng, c, 'matter_power_nl'), p(('gg', 'gm'), IA, ('mm',)), dict(response=True)),
        'nonlinear shape fortuna': (bad_shape(rng, c, 'matter_power_nl'), IA, dict(response=False, nonlinear_mode='fortuna')),
        'poisson': (dict(poisson_model='power_law', poisson_params=p({'pivot': None, 'slope': .1}, {'pivot': 13., 'slope': None}, {})), ('gg',),
                    dict(poisson_model='constant', poisson_params={'poisson': 1.1})),
        'uneven k': (dict(k_vec=np.linspace(.01, 2., nk)), ('mm',), dict(dewiggle=True, matter_power_lin=None, matter_power_nl=None, nonlinear_mode=None)),
        'unknown name': ({p('sigma8', 'omega_x', 'zvec', 'hod', 'align_par'): 1.0}, None, {}),
        'hod model': (dict(hod_model=p('Foo', 'cacciato', '')), ('gg', 'gm'), {}),
        'poisson model': (dict(poisson_model=p('foo', 'powerlaw')), ('gg',), {}),
        'mass function': (dict(hmf_model='Foo'), ('mm',), plain),
        'bias model': (dict(bias_model='Foo'), ('mm', 'gg'), plain),
        'mass definition': (dict(mdef_model='SOFoo'), ('mm',), plain),
        'concentration': (dict(halo_concentration_model_dm='Foo99'), ('mm',), plain),
        'transfer': (dict(transfer_model='Foo'), ('mm',), {}),
        'hod parameter': (dict(hod_params={'not_a_parameter': 1.0}), ('gg', 'gm'), {}),
    }
    return cat


NAMES = list(catalogue(np.random.default_rng(0), S.initial(np.random.default_rng(0))))
ALONE = ['method', 'central_ia_depends_on', 'satellite_ia_depends_on', 'ell_max', 'mass resolution', 'lpivot_cen', 'lpivot_sat', 'mpivot_cen', 'mpivot_sat', 'file_cen', 'file_sat', 'beta_two', 'bnl']
REQUIRED = ['refused.' + n for n in NAMES] + ['alone.' + n for n in ALONE] + ['usable', 'usable.alone', 'at construction', 'by clone', 'with valid changes', 'repeated', 'read before', 'clone parent', 'no emulator']


def cases(tier, rng):
    n = 20 if tier == 'quick' else 150
    m = 14 if tier == 'quick' else 80
    return [c for w in NAMES for c in H.seeds(rng, n, what=w)] + [c for w in ALONE for c in H.seeds(rng, m, alone=w)] + H.seeds(rng, 2, kind='noemu')


def refuses(f):
    try:
        f()
    except Exception as e:
        return e
    return None


def run_case(case, mon):
    rng = np.random.default_rng(case['seed'])
    if case.get('kind') == 'noemu':
        return no_emulator(case['seed'], mon)
    if 'alone' in case:
        return alone(case['alone'], rng, mon)
    w = case['what']
    c = S.initial(rng)
    for _ in range(int(rng.integers(0, 3))):
        c.update(S.mutate(rng, c, gen.pick(rng, 'cosmo', 'hodp', 'align', 'trunc', 'hmcode', 'mode', 'poisson')))
    req, outs, need = catalogue(rng, c)[w]
    c.update(need)
    if c['nonlinear_mode'] == 'hmcode' and not str(c['hmcode_ingredients']).startswith('mead'):
        c['nonlinear_mode'] = None
    if w == 'poisson':
        c['poisson_params'] = {'poisson': 1.1}
    mon.note = dict(request=w, depends=outs)
    args = S.arguments(c)
    if w in ('linear shape', 'nonlinear shape', 'nonlinear shape fortuna'):
        for k in ('matter_power_lin', 'matter_power_nl'):
            c.setdefault(k, None)
    # 1. construction
    if rng.random() < .35:
        full = {**args, **{k: (({**args[k], **v} if isinstance(v, dict) and isinstance(args.get(k), dict) else v)) for k, v in req.items()}}
        e = refuses(lambda: [getattr(H.spectra(**full), 'power_spectrum_' + n).pk_tot for n in (outs or ('mm',))])
        mon.check('at construction', e is not None, 'numbers for an invalid configuration', request=w)
    p = H.spectra(**S.arguments(c))
    if rng.random() < .6:
        mon.event('read before')
        S.observe(p, S.some(rng) + (list(outs) if outs and rng.random() < .5 else []))
    back = {k: S.arguments(c)[k] for k in req if k in c}
    for rep in range(1 if rng.random() < .6 else 2):
        if rep:
            mon.event('repeated')
        extra = {}
        if rng.random() < .5 and w != 'unknown name':
            u = S.mutate(rng, c, gen.pick(rng, 'cosmo', 'trunc', 'truncia', 'agn', 'delta', 'mb'))
            extra = {k: v for k, v in S.arguments(c, u).items() if k not in req and k not in ('nonlinear_mode', 'hmcode_ingredients')}
            if extra:
                mon.event('with valid changes')
        keys = list(req) + list(extra)
        rng.shuffle(keys)
        r = {**{k: (dict(v) if isinstance(v, dict) else v) for k, v in req.items()}, **extra}
        r = {k: r[k] for k in keys}
        if rng.random() < .25:
            parent = S.observe(p, ('mm', 'gg'))
            q = []
            e = refuses(lambda: q.append(p.clone(**r)))
            mon.event('by clone')
            if e is None:
                e = read_refuses(rng, q[0], outs)
            mon.check('refused.' + w, e is not None, 'numbers for an invalid request (clone)', request=w)
            H.same(mon, 'clone parent', S.observe(p, ('mm', 'gg')), parent, 1e-12)
            continue
        e = refuses(lambda: p.update(**r))
        if e is None:
            e = read_refuses(rng, p, outs)
        mon.check('refused.' + w, e is not None, 'numbers for an invalid request', request=w, keys=[str(k) for k in keys])
        undo = {**back, **{k: S.arguments(c)[k] for k in extra}}
        for k in list(undo):
            if isinstance(undo[k], dict):
                p.update(**{k: {}})
        if undo:
            p.update(**undo)
        if rng.random() < .4:
            S.observe(p, S.some(rng, 1, 3))
    # 3. usable afterwards, also for the next valid step
    reads = list(S.ALL)
    rng.shuffle(reads)
    reads = reads[:12] + list(H.NAMES)
    H.same(mon, 'usable', S.observe(p, reads), S.observe(H.spectra(**S.arguments(c)), reads[::-1]), 1e-9)
    u = S.mutate(rng, c, gen.pick(rng, 'cosmo', 'hodp', 'align', 'trunc', 'norm', 'agn'))
    c = S.apply(rng, p, c, u)
    H.same(mon, 'usable', S.observe(p, H.NAMES), S.observe(H.spectra(**S.arguments(c)), H.NAMES), 1e-9)


def read_refuses(rng, p, outs):
    """Every dependent output raises; returns None when one of them gives numbers."""
    if outs is None:
        return None
    outs = list(outs)
    rng.shuffle(outs)
    e = None
    for n in outs:
        e = refuses(lambda: getattr(p, 'power_spectrum_' + n).pk_tot)
        if e is None:
            return None
    return e


NOEMU = '''
import sys, json
sys.modules['dark_emulator'] = None                        # as if the optional emulator were not installed
sys.path.insert(0, sys.argv[1])
from vlib import common
common.load_target()
import numpy as np
from vlib import gen, harness as H, history as S
from vlib.checks.c16 import refuses
rng = np.random.default_rng(int(sys.argv[2]))
out = {}
c = S.initial(rng)
c.update(nonlinear_mode='bnl', hmcode_ingredients=None)
p = []
e = refuses(lambda: (p.append(H.spectra(**S.arguments(c))), getattr(p[0], 'power_spectrum_' + gen.pick(rng, *H.NAMES)).pk_2h))
out['refused'] = e is not None
c['beta_nl'] = {'beta_seed': 3, 'zdep': False, 'amp': .3}  # with a table of one's own it is not needed
f = H.spectra(**S.arguments(c))
if p:
    p[0].update(beta_nl=S.arguments(c)['beta_nl'])
a = [np.asarray(getattr(f, 'power_spectrum_' + n).pk_tot) for n in H.NAMES]
out['table'] = bool(all(np.all(np.isfinite(x)) for x in a))
out['usable'] = not p or bool(all(np.allclose(np.asarray(getattr(p[0], 'power_spectrum_' + n).pk_tot), x, rtol=1e-9) for n, x in zip(H.NAMES, a)))
print('RESULT ' + json.dumps(out))
'''


def no_emulator(seed, mon):
    import json, subprocess, sys
    from ..common import ROOT
    r = subprocess.run([sys.executable, '-c', NOEMU, ROOT, str(seed)], capture_output=True, text=True, timeout=240)
    line = [x for x in r.stdout.splitlines() if x.startswith('RESULT ')]
    mon.check('no emulator', bool(line), 'the package does not work without the optional emulator', err=r.stderr[-500:])
    for k, v in (json.loads(line[0][7:]) if line else {}).items():
        mon.check('no emulator', v, {'refused': 'non-linear bias without table or emulator gives numbers', 'table': 'a supplied table is not usable without the emulator', 'usable': 'not usable after the refusal'}[k])


def alone(w, rng, mon):
    """The alignment and non-linear-bias classes used on their own."""
    from onepower import SatelliteAlignment, AlignmentAmplitudes, NonLinearBias
    if w == 'bnl':
        o = NonLinearBias(mass=np.logspace(12, 14, 3), z_vec=np.array([.2]), k_vec=np.array([.1, 1.]), h0=.67, omega_b=.049, omega_c=.26, omega_lambda=.69, n_s=.96,
                          A_s=None, sigma_8=.8)
        first = np.array(o.bnl) if rng.random() < .5 else None
        e = refuses(lambda: (o.update(sigma_8=None, A_s=None), o.bnl))
        mon.check('alone.bnl', e is not None, 'numbers without an amplitude')
        o.update(sigma_8=.8)
        again = np.array(o.bnl)
        if first is not None:
            mon.close('usable.alone', again, first, 1e-12)
        return
    nm, nz = int(rng.integers(4, 9)), int(rng.integers(2, 4))
    z = np.linspace(.1, .8, nz)
    lf = lambda: gen.write_lum({'lum_seed': int(rng.integers(1 << 30)), 'n': 60, 'mean': 10., 'sig': .3}, z)
    m = np.logspace(11, 15, nm)
    c = rng.uniform(3, 8, (nz, nm))
    rv = (m / 1e14) ** (1 / 3) * np.ones((nz, nm))
    st = dict(z_vec=z, mass_in=m, c_in=c, r_s_in=rv / c, rvir_in=rv, gamma_1h_amplitude=1e-3, gamma_2h_amplitude=3., gamma_1h_slope=gen.pick(rng, -2., 0., -1.7), ell_max=4,
              central_ia_depends_on='constant', satellite_ia_depends_on='constant', lpivot_cen=10., lpivot_sat=10., mpivot_cen=13., mpivot_sat=13., beta_cen=.4, beta_sat=.3,
              beta_two=None, method='fftlog', nmass=3, nk=8, n_hankel=120, z_loglum_file_centrals=lf(), z_loglum_file_satellites=lf())
    k = np.logspace(-2, 1, 4)
    bad, out = {
        'method': (dict(method=gen.pick(rng, 'foo', 'FFTLog', None)), 'wkm'),
        'central_ia_depends_on': (dict(central_ia_depends_on=gen.pick(rng, 'foo', None, 'mass')), 'gi'),
        'satellite_ia_depends_on': (dict(satellite_ia_depends_on=gen.pick(rng, 'foo', None, 'mass')), 'amp'),
        'ell_max': (dict(ell_max=int(rng.integers(12, 40))), 'wkm'),
        'mass resolution': (dict(method='hankel', nmass=nm + int(rng.integers(1, 5))), 'wkm'),
        'lpivot_cen': (dict(central_ia_depends_on='luminosity', lpivot_cen=None), 'gi'),
        'lpivot_sat': (dict(satellite_ia_depends_on='luminosity', lpivot_sat=None), 'amp'),
        'mpivot_cen': (dict(central_ia_depends_on='halo_mass', mpivot_cen=None), 'gi'),
        'mpivot_sat': (dict(satellite_ia_depends_on='halo_mass', mpivot_sat=None), 'amp'),
        'file_cen': (dict(central_ia_depends_on='luminosity', z_loglum_file_centrals=None), 'gi'),
        'file_sat': (dict(satellite_ia_depends_on='luminosity', z_loglum_file_satellites=None), 'amp'),
        'beta_two': (dict(central_ia_depends_on='halo_mass', beta_two=.5), 'gi'),
    }[w]

    def read(o, what):
        return {'gi': lambda: np.array(o.alignment_gi), 'amp': lambda: np.array(o.gamma_1h_amp), 'wkm': lambda: np.array(o.upsampled_wkm(k, m))}[what]()
    mon.check('alone.' + w, refuses(lambda: read(SatelliteAlignment(**{**st, **bad}), out)) is not None, 'numbers for an invalid configuration')
    if out == 'amp':
        mon.check('alone.' + w, refuses(lambda: read(SatelliteAlignment(**{**st, **bad}), 'wkm')) is not None, 'kernel for an invalid configuration')
    o = SatelliteAlignment(**st)
    for x in ('gi', 'amp', 'wkm'):
        if rng.random() < .5:
            read(o, x)
    mon.check('alone.' + w, refuses(lambda: (o.update(**bad), read(o, out))) is not None, 'numbers for an invalid update')
    o.update(**{x: st[x] for x in bad})
    f = SatelliteAlignment(**st)
    for x in ('wkm', 'amp', 'gi'):
        mon.close('usable.alone', read(o, x), read(f, x), 1e-10, which=x)
