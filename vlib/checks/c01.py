"""C01: every read of a long-lived, updated or cloned object equals that of a freshly built one."""
import numpy as np
from .. import gen, harness as H, history as S
PROPERTY = 'C01'
RULE = ('random histories of updates, partial reads and clones; after updates a random set of outputs is compared with an object built directly from the final '
        'values; a history is non-trivial when it contains at least one update followed by a compared read; the signature is the sequence of changed groups and reads')
ASSUMPTIONS = ['updates go through update() or clone(), as the framework documents (direct attribute assignment is deprecated there)',
               'dictionary parameters are given with all their keys, since the framework merges dictionaries',
               'the private parameter dictionaries of UpsampledSpectra are set at construction only, and a model handed to it is not updated behind its back once a second population was derived from it']
REQUIRED = ['spectra', 'clone', 'parent after clone', 'upsampled', 'satellite', 'amplitudes', 'bnl', 'ingredients', 'back'] + ['group.' + g for g in sorted(set(S.GROUPS))]
CASE_LIMIT = 600


def cases(tier, rng):
    q = tier == 'quick'
    return (H.seeds(rng, 6 if q else 40, kind='bnl') + H.seeds(rng, 500 if q else 8000, kind='spectra') +
            [x for g in sorted(set(S.GROUPS)) for m in (None, 'bnl', 'fortuna', 'hmcode') for x in H.seeds(rng, 2 if q else 20, kind='sweep', group=g, mode=m)] + H.seeds(rng, 30 if q else 500, kind='ingredients') +
            H.seeds(rng, 60 if q else 1000, kind='upsampled') + H.seeds(rng, 60 if q else 1000, kind='satellite') + H.seeds(rng, 90 if q else 1500, kind='standin'))


def run_case(case, mon):
    rng = np.random.default_rng(case['seed'])
    if case['kind'] == 'sweep':
        sweep(rng, mon, case['group'], case.get('mode'))
    else:
        globals()[case['kind']](rng, mon)


def spectra(rng, mon):
    c = S.initial(rng)
    p = H.spectra(**S.arguments(c))
    hist, parents = [], []
    for step in range(int(rng.integers(2, 7))):
        if rng.random() < .8:
            names = S.some(rng, 1, 8)
            S.observe(p, names)
            hist.append(names)
        groups = [gen.pick(rng, *S.GROUPS) for _ in range(int(gen.pick(rng, 1, 1, 2, 3)))]
        if rng.random() < .2:
            parents.append((p, c))
            p = p.clone()
            mon.event('clone')
        for g in groups:
            c = S.apply(rng, p, c, S.mutate(rng, c, g))
            mon.event('group.' + g)
        hist.append(groups)
        if rng.random() < .5:
            compare(rng, mon, p, c, hist, 'spectra')
    compare(rng, mon, p, c, hist, 'spectra', full=True)
    for q, cq in parents:
        compare(rng, mon, q, cq, hist, 'parent after clone')
    mon.sig = str(hist)
    mon.note = {'history': hist[:8]}


def sweep(rng, mon, group, mode=None):
    """Everything read, one group of parameters changed, everything compared; in a random mode."""
    c = S.initial(rng)
    for g in rng.permutation(['mode', 'hmcode', 'response', 'dewiggle', 'point', 'obs', 'beta', 'dark', 'mdef'])[: int(rng.integers(0, 5))]:
        c = {**c, **S.mutate(rng, c, str(g))}
    if mode is not None:                                   # every group of parameters is swept in every mode
        c = {**c, 'nonlinear_mode': mode, 'hmcode_ingredients': 'mead2020' if mode == 'hmcode' else c['hmcode_ingredients'],
             'beta_nl': {'beta_seed': int(rng.integers(1 << 30)), 'zdep': bool(rng.random() < .5), 'amp': .3}}
    p = H.spectra(**S.arguments(c))
    first, c0 = S.observe(p, S.ALL), c
    for i in range(3):
        u = S.mutate(rng, c, group)
        c = S.apply(rng, p, c, u)
        mon.event('group.' + group)
        f = H.spectra(**S.arguments(c))
        H.same(mon, 'sweep', S.observe(p, S.ALL), S.observe(f, S.ALL), 1e-9)
    c = S.apply(rng, p, c, {k: v for k, v in c0.items() if c[k] != v})     # and back to where it started
    H.same(mon, 'back', S.observe(p, S.ALL), first, 1e-9)
    mon.note = {'group': group}


def compare(rng, mon, p, c, hist, ev, full=False):
    names = list(H.NAMES) + S.some(rng, 4, 8) if full else S.some(rng, 2, 6)
    names = list(dict.fromkeys(names))
    rng.shuffle(names)
    f = H.spectra(**S.arguments(c))
    want = S.observe(f, [names[i] for i in rng.permutation(len(names))])
    mon.event('reads refused', sum(isinstance(v, str) for v in want.values()))
    H.same(mon, ev, S.observe(p, names), want, 1e-9)
    if mon.violations and 'history' not in mon.violations[-1]:
        mon.violations[-1]['history'] = str(hist)[:900]


def ingredients(rng, mon):
    from onepower.hmi import HaloModelIngredients
    gone = ('nonlinear_mode', 'dewiggle', 'response', 'pointmass', 'compute_observable', 'matter_power_lin', 'matter_power_nl', 'mb', 'beta_nl', 'one_halo_ktrunc',
            'two_halo_ktrunc', 't_eff', 'one_halo_ktrunc_ia', 'two_halo_ktrunc_ia', 'poisson_model', 'poisson_params', 'hod_model', 'hod_params', 'hod_settings',
            'hod_settings_mm', 'obs_settings', 'align_params')
    c = S.initial(rng)
    strip = lambda a: {k: v for k, v in a.items() if k not in gone}
    p = HaloModelIngredients(**strip(S.arguments(c)))
    for _ in range(int(rng.integers(2, 6))):
        S.observe(p, [gen.pick(rng, *S.TRACKED_ING) for _ in range(4)])
        g = gen.pick(rng, 'cosmo', 'dark', 'z', 'k', 'mass', 'mdef', 'hmf', 'conc', 'transfer', 'growth', 'prof', 'norm', 'hmcode', 'delta', 'agn')
        u = S.mutate(rng, c, g)
        p.update(**strip(S.arguments(c, u)))
        c = {**c, **u}
        names = [gen.pick(rng, *S.TRACKED_ING) for _ in range(5)]
        f = HaloModelIngredients(**strip(S.arguments(c)))
        H.same(mon, 'ingredients', S.observe(p, names), S.observe(f, names[::-1]), 1e-9)


def upsampled(rng, mon):
    from onepower.add import UpsampledSpectra
    c = S.initial(rng)
    m1 = S.arguments(c)
    c2 = S.mutate(rng, c, gen.pick(rng, 'hodp', 'align', 'hodp'))
    st = dict(z=np.sort(rng.uniform(0, 2, 4)), k=np.logspace(-3, .5, 7), fraction_z=None, fraction=None, model=None, model_1_params=m1, model_2_params=None,
              extrapolate_option='extrapolate')
    if rng.random() < .5:
        st['model'] = H.spectra(**m1)
        base = c

    def frac():
        return dict(fraction_z=np.linspace(0, 3, 5), fraction=rng.uniform(0, 1, 5))

    st.update(frac() if rng.random() < .6 else {})
    if st['fraction'] is not None:
        st['model_2_params'] = S.arguments(c, c2)
    build = lambda s, mdl: UpsampledSpectra(**{**s, 'model': mdl})

    def read(o, names):
        out = {}
        for n in names:
            try:
                o.results([n], ['1h', '2h', 'tot'])
                x = getattr(o, 'power_spectrum_' + n)
                for part in ('pk_1h', 'pk_2h', 'pk_tot'):
                    out[n, part] = np.array(getattr(x, part))
            except Exception as e:
                out[n] = 'raises ' + type(e).__name__
        out['f1'], out['f2'] = np.array(o.frac_1), np.array(o.frac_2)
        return out

    u = build(st, st['model'])
    for _ in range(int(rng.integers(2, 6))):
        read(u, [gen.pick(rng, *H.NAMES)])
        q = gen.pick(rng, 'z', 'k', 'fraction', 'drop', 'opt', 'model', 'outer')
        up = {}
        if q == 'z':
            up['z'] = np.sort(rng.uniform(0, 2, int(rng.integers(2, 6))))
        elif q == 'k':
            up['k'] = np.logspace(-3, rng.uniform(0, 1), int(rng.integers(2, 9)))
        elif q == 'fraction':
            up.update(frac())
        elif q == 'drop':
            up.update(fraction=None, fraction_z=None)
        elif q == 'opt':
            up['extrapolate_option'] = gen.pick(rng, 'extrapolate', 0.0)
        elif q == 'model' and st['model'] is not None:
            c = {**c, **S.mutate(rng, c, 'cosmo')}
            up['model'] = H.spectra(**S.arguments(c))
        elif q == 'outer' and st['model'] is not None and st['model_2_params'] is None:
            x = S.mutate(rng, c, gen.pick(rng, 'cosmo', 'hodp', 'align'))
            c = S.apply(rng, st['model'], c, x)
        u.update(**up)
        st.update(up)
        names = [gen.pick(rng, *H.NAMES) for _ in range(2)]
        f = build(st, None if st['model'] is None else H.spectra(**S.arguments(c)))
        H.same(mon, 'upsampled', read(u, names), read(f, names), 1e-9)


def satellite(rng, mon):
    from onepower.ia import SatelliteAlignment, AlignmentAmplitudes
    z = np.linspace(.1, 1., 3)

    def halo():
        m = np.logspace(rng.uniform(10.5, 11), rng.uniform(14, 15), int(rng.integers(6, 9)))
        nz = len(st['z_vec'])
        cc = rng.uniform(3, 9, (nz, m.size))
        rv = np.tile(.3 * (m / 1e13) ** (1 / 3), (nz, 1)) * rng.uniform(.9, 1.1, (nz, 1))
        return dict(mass_in=m, c_in=cc, r_s_in=rv / cc, rvir_in=rv)

    def lum():
        return gen.write_lum({'lum_seed': int(rng.integers(1 << 30)), 'n': 200, 'mean': gen.U(rng, 9.7, 10.4), 'sig': .3}, st['z_vec'])

    st = dict(z_vec=z)
    st.update(halo())
    st.update(method='fftlog', ell_max=6, truncate=False, nmass=5, nk=6, n_hankel=100, central_ia_depends_on='halo_mass', satellite_ia_depends_on='halo_mass', gamma_2h_amplitude=5.,
              beta_cen=.4, beta_two=None, gamma_1h_amplitude=.002, gamma_1h_slope=-2., beta_sat=.4, mpivot_cen=13.5, mpivot_sat=13.5, lpivot_cen=10., lpivot_sat=10.,
              z_loglum_file_centrals=lum(), z_loglum_file_satellites=lum())
    sat = bool(rng.random() < .6)
    halo_keys = ('mass_in', 'c_in', 'r_s_in', 'rvir_in', 'method', 'ell_max', 'truncate', 'nmass', 'nk', 'n_hankel')
    cls = SatelliteAlignment if sat else AlignmentAmplitudes
    trim = lambda d: d if sat else {k: v for k, v in d.items() if k not in halo_keys}

    def read(o, full=False):
        out = {}
        for n in ('alignment_gi', 'gamma_1h_amp'):
            if full or rng.random() < .6:
                out[n] = np.array(getattr(o, n))
        if sat:
            if full or rng.random() < .6:
                out['wkm'] = np.array(o.wkm[0])
            if full or rng.random() < .4:
                out['up'] = np.array(o.upsampled_wkm(np.logspace(-2, 2, 7), np.logspace(11, 14, 5) if o.method == 'hankel' else o.mass))
        return out

    o = cls(**trim(dict(st)))
    for _ in range(int(rng.integers(2, 6))):
        read(o)
        g = gen.pick(rng, 'amp1', 'amp2', 'slope', 'dep', 'dep', 'beta', 'two', 'pivot', 'file', 'halo', 'z', 'ell', 'trunc', 'method')
        u = {}
        if g == 'amp1':
            u['gamma_1h_amplitude'] = gen.r(10 ** rng.uniform(-4, -2))
        elif g == 'amp2':
            u['gamma_2h_amplitude'] = gen.U(rng, 1, 8)
        elif g == 'slope':
            u['gamma_1h_slope'] = gen.pick(rng, -2., 0., gen.U(rng, -2.4, -.6))
        elif g == 'dep':
            u[gen.pick(rng, 'central_ia_depends_on', 'satellite_ia_depends_on')] = gen.pick(rng, 'constant', 'luminosity', 'halo_mass')
        elif g == 'beta':
            u[gen.pick(rng, 'beta_cen', 'beta_sat')] = gen.U(rng, .1, 1.)
        elif g == 'two':
            u['beta_two'] = gen.pick(rng, None, gen.U(rng, .1, 1.))
        elif g == 'pivot':
            u[gen.pick(rng, 'lpivot_cen', 'lpivot_sat', 'mpivot_cen')] = gen.U(rng, 9.5, 10.5)
        elif g == 'file':
            u[gen.pick(rng, 'z_loglum_file_centrals', 'z_loglum_file_satellites')] = lum()
        elif g == 'halo':
            u.update(halo())
        elif g == 'z':
            st['z_vec'] = np.linspace(.1, gen.U(rng, .6, 1.5), int(rng.integers(2, 5)))
            u.update(z_vec=st['z_vec'], z_loglum_file_centrals=lum(), z_loglum_file_satellites=lum(), **halo())
        elif g == 'ell':
            u['ell_max'] = gen.pick(rng, 2, 4, 6, 8)
        elif g == 'trunc':
            u['truncate'] = not st['truncate']
        elif g == 'method':
            u['method'] = gen.pick(rng, 'fftlog', 'hankel', 'fftlog')
        if {**st, **u}['central_ia_depends_on'] == 'halo_mass':
            u['beta_two'] = None
        u = trim(u)
        if not u:
            continue
        o.update(**u)
        st.update(u)
        if sat and st['method'] == 'hankel' and st['mass_in'].size * len(st['z_vec']) > 30:
            st['nmass'] = 3
            o.update(nmass=3)
        H.same(mon, 'satellite' if sat else 'amplitudes', read(o, True), read(cls(**trim(dict(st))), True), 1e-9)


def bnl(rng, mon):
    from onepower.bnl import NonLinearBias
    st = dict(mass=np.logspace(12, 14.5, 4), z_vec=np.array([0., .5]), k_vec=np.logspace(-2, 1, 8), h0=.67, sigma_8=.8, A_s=None, omega_b=.049, omega_c=.26, omega_lambda=.69,
              n_s=.96, w0=-1., z_dep=False)
    o = NonLinearBias(**st)
    o.bnl
    for g in rng.permutation(['h0', 'sigma_8', 'A_s', 'omega_c', 'n_s', 'w0', 'mass', 'k', 'z', 'zdep'])[:2]:
        u = {'h0': dict(h0=.7), 'sigma_8': dict(sigma_8=gen.U(rng, .75, .85), A_s=None), 'A_s': dict(A_s=gen.U(rng, 1.9e-9, 2.3e-9)), 'omega_c': dict(omega_c=gen.U(rng, .25, .28)),
             'n_s': dict(n_s=gen.U(rng, .94, .99)), 'w0': dict(w0=gen.U(rng, -1.1, -.9)), 'mass': dict(mass=np.logspace(12, 14, 5)), 'k': dict(k_vec=np.logspace(-1, 1, 5)),
             'z': dict(z_vec=np.array([.2, .7]), z_dep=True), 'zdep': dict(z_dep=not st['z_dep'])}[g]
        o.update(**u)
        st.update(u)
        if rng.random() < .5:
            o.bnl
    H.same(mon, 'bnl', {'bnl': np.array(o.bnl)}, {'bnl': np.array(NonLinearBias(**st).bnl)}, 1e-9)


def standin(rng, mon):
    """The same with the emulator replaced by an analytic stand-in: many more histories, every parameter."""
    from dark_emulator import darkemu
    from . import c11
    from onepower.bnl import NonLinearBias
    old = darkemu.base_class
    darkemu.base_class = c11.Fake
    try:
        st = {**c11.setting(rng)}
        for q in ('A_s', 'sigma_8'):
            st.setdefault(q, None)
        o = NonLinearBias(**st)
        if rng.random() < .85:
            np.array(o.bnl)
        for step in range(int(rng.integers(1, 5))):
            new = c11.setting(rng)
            for q in ('A_s', 'sigma_8'):
                new.setdefault(q, None)
            if rng.random() < .5:
                names = [gen.pick(rng, *sorted(new))]
            else:
                names = list(rng.permutation(sorted(new)))[:int(rng.integers(2, 6))]
            u = {str(q): new[q] for q in names}
            both = {**st, **u}
            if both['A_s'] is None and both['sigma_8'] is None:
                u['sigma_8'] = gen.U(rng, .7, .9)
            if rng.random() < .15:
                keep, was = o, dict(st)
                o = o.clone()
                o.update(**u)
                H.same(mon, 'bnl', {'bnl': np.array(keep.bnl)}, {'bnl': np.array(NonLinearBias(**was).bnl)}, 1e-9)
            else:
                o.update(**u)
            st.update(u)
            mon.note = sorted(u)
            if rng.random() < .7:
                H.same(mon, 'bnl', {'bnl': np.array(o.bnl)}, {'bnl': np.array(NonLinearBias(**st).bnl)}, 1e-9)
        H.same(mon, 'bnl', {'bnl': np.array(o.bnl)}, {'bnl': np.array(NonLinearBias(**st).bnl)}, 1e-9)
    except c11.HarnessError as e:
        mon.trivial = True
        mon.note = str(e)
    finally:
        darkemu.base_class = old
