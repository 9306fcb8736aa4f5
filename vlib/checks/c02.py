"""C02: isolation of inputs, clones, sibling objects, earlier results and read order."""
import hashlib
import numpy as np
from .. import gen, harness as H, history as S
PROPERTY = 'C02'
RULE = ('random configurations whose input arrays are write-protected and checksummed; two objects share the same inputs and are read, updated and cloned in an '
        'interleaved order while handed-out results are checksummed; models of two cosmologies whose ingredients are read in alternation (colossus '
        'concentrations included); non-trivial when inputs were verified after all reads and an interleaving had at least one update')
ASSUMPTIONS = ['the caller does not write into results handed out']
REQUIRED = ['inputs', 'handed out', 'sibling', 'parent', 'clone', 'order', 'repeat', 'upsampled', 'satellite', 'hod', 'update inputs', 'cosmology']


def cases(tier, rng):
    q = tier == 'quick'
    return (H.seeds(rng, 220 if q else 5000, kind='objects') + H.seeds(rng, 90 if q else 1500, kind='order') + H.seeds(rng, 50 if q else 800, kind='upsampled') +
            H.seeds(rng, 40 if q else 600, kind='parts') + H.seeds(rng, 24 if q else 300, kind='cosmologies'))


def run_case(case, mon):
    globals()[case['kind']](np.random.default_rng(case['seed']), mon)


def freeze(v):
    if isinstance(v, np.ndarray):
        v.flags.writeable = False
    elif isinstance(v, dict):
        for x in v.values():
            freeze(x)
    elif isinstance(v, (list, tuple)):
        for x in v:
            freeze(x)
    return v


def mark(v):
    """A content fingerprint of nested inputs."""
    if isinstance(v, np.ndarray):
        return ('a', v.shape, str(v.dtype), v.tobytes())
    if isinstance(v, dict):
        return ('d', tuple((k, mark(x)) for k, x in sorted(v.items(), key=lambda q: str(q[0]))))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(mark(x) for x in v))
    return repr(v)


def prep(rng):
    c = S.initial(rng)
    for g in rng.permutation(['mode', 'hmcode', 'response', 'dewiggle', 'point', 'obs', 'beta', 'dark', 'mdef', 'pnl', 'plin', 'norm', 'poisson'])[: int(rng.integers(1, 7))]:
        c = {**c, **S.mutate(rng, c, str(g))}
    a = S.arguments(c)
    if rng.random() < .4:
        for k in ('hod_settings', 'obs_settings'):
            if rng.random() < .5:
                a[k] = {**a[k]}
    return c, freeze(a)


def hand(p, names, kept):
    """Read outputs keeping the arrays that were handed out, with fingerprints."""
    for n in names:
        try:
            if n in H.NAMES or n == 'lin':
                x = getattr(p, 'power_spectrum_' + n)
                vs = [(n + '.' + q, getattr(x, q)) for q in H.PARTS]
            elif n.startswith('hod.'):
                vs = [(n, getattr(p.hod, n[4:]))]
            else:
                vs = [(n, getattr(p, n))]
        except Exception:
            continue
        for q, v in vs:
            if isinstance(v, np.ndarray):
                kept.append((q, v, hashlib.sha1(np.ascontiguousarray(v).tobytes()).digest()))


def verify_kept(mon, kept):
    for q, v, h in kept:
        mon.check('handed out', hashlib.sha1(np.ascontiguousarray(v).tobytes()).digest() == h, 'a result already handed out changed', which=q)


def objects(rng, mon):
    c, args = prep(rng)
    before = mark(args)
    a, b = H.spectra(**args), H.spectra(**args)        # the very same input objects
    mon.check('inputs', mark(args) == before, 'inputs changed by the constructor')
    objs = [['a', a, c], ['b', b, c]]
    kept, log = [], []
    for _ in range(int(rng.integers(4, 9))):
        o = objs[int(rng.integers(len(objs)))]
        q = rng.random()
        if q < .5:
            names = S.some(rng, 1, 5)
            hand(o[1], names, kept)
            log.append((o[0], names))
        elif q < .8:
            g = gen.pick(rng, *S.GROUPS)
            u = S.mutate(rng, o[2], g)
            ua = freeze(S.arguments(o[2], u))
            um = mark(ua)
            hold = S.arguments
            S.arguments = lambda *_x: ua
            try:
                o[2] = S.apply(rng, o[1], o[2], u)
            finally:
                S.arguments = hold
            log.append((o[0], g))
            mon.check('update inputs', mark(ua) == um, 'the arguments of update were changed', group=g)
            # the dictionaries handed to update are given to the other object as well
            if rng.random() < .3 and not any(k.endswith('params') or 'settings' in k for k in u):
                for x in objs[:2]:
                    # only where they mean the same there (a bias table depends on the masses)
                    if x is not o and x[2] is c and S.valid({**c, **u}) and mark(S.arguments(c, u)) == um:
                        x[1].update(**ua)
                        x[2] = {**x[2], **u}
        elif len(objs) < 4:
            objs.append([o[0] + "'", o[1].clone(), o[2]])
            mon.event('clone')
            log.append((o[0], 'clone'))
    mon.check('inputs', mark(args) == before, 'inputs changed', log=str(log)[:600])
    verify_kept(mon, kept)
    for name, o, co in objs:
        names = list(dict.fromkeys(S.some(rng, 3, 7)))
        f = H.spectra(**S.arguments(co))
        ev = 'sibling' if len(name) == 1 else 'clone'
        H.same(mon, ev, S.observe(o, names), S.observe(f, names), 1e-9)
    # a clone that is changed must leave its parent alone, and the reverse
    name, o, co = objs[0]
    names = list(dict.fromkeys(S.some(rng, 3, 6)))
    r0 = S.observe(o, names)
    k = o.clone()
    u = S.mutate(rng, co, gen.pick(rng, *S.GROUPS))
    S.apply(rng, k, co, u)
    S.observe(k, names)
    H.same(mon, 'parent', S.observe(o, names), r0, 0)
    verify_kept(mon, kept)
    mon.check('inputs', mark(args) == before, 'inputs changed after cloning', log=str(log)[:600])
    mon.note = {'log': str(log)[:300]}


def order(rng, mon):
    c, args = prep(rng)
    n = list(S.ALL)
    res = []
    for _ in range(2):
        rng.shuffle(n)
        p = H.spectra(**args)
        out = {}
        for q in n:
            out.update(S.observe(p, [q]))
        H.same(mon, 'repeat', S.observe(p, n[::-1]), out, 0)
        res.append(out)
    H.same(mon, 'order', res[0], res[1], 0)
    # each output alone on a new object
    for q in rng.permutation(n)[:3]:
        one = S.observe(H.spectra(**args), [str(q)])
        H.same(mon, 'order', one, {k: res[0][k] for k in one}, 0)


def upsampled(rng, mon):
    from onepower.add import UpsampledSpectra
    c, args = prep(rng)
    model = H.spectra(**args)
    names = [gen.pick(rng, *H.NAMES) for _ in range(3)]
    kept = []
    hand(model, names, kept)
    r0 = S.observe(model, names)
    u = S.mutate(rng, c, gen.pick(rng, 'hodp', 'align', 'cosmo', 'hods'))
    while 'hod_settings' in u and len(u['hod_settings']['obs_min']) != len(c['hod_settings']['obs_min']):
        u = S.mutate(rng, c, 'hods')                   # mixed populations share the bins
    p2 = freeze(S.arguments(c, u))
    inp = freeze(dict(z=np.linspace(.1, 1, 5), k=np.logspace(-2, 0, 6), fraction_z=np.linspace(0, 2, 4), fraction=rng.uniform(0, 1, 4)))
    m = mark([p2, inp])
    up = UpsampledSpectra(model=model, model_1_params=args, model_2_params=p2, **inp)
    hold = {}
    for n in list(names) + [gen.pick(rng, *H.NAMES)]:
        up.results([n], ['1h', '2h', 'tot'])
        x = getattr(up, 'power_spectrum_' + n).pk_tot
        hold.setdefault(n, (x, x.tobytes()))
    for n, (x, s) in hold.items():
        mon.check('upsampled', x.tobytes() == s, 'earlier upsampled result changed', which=n)
    H.same(mon, 'upsampled', S.observe(model, names), r0, 0)
    mon.check('inputs', mark([p2, inp]) == m, 'inputs of the upsampled spectra changed')
    verify_kept(mon, kept)
    # two mixtures sharing one model
    up2 = UpsampledSpectra(model=model, model_1_params=args, model_2_params=freeze(S.arguments(c, S.mutate(rng, c, 'hodp'))), **inp)
    up2.results(names, ['tot'])
    n = names[0]
    up.results([n], ['1h', '2h', 'tot'])
    mon.close('upsampled', getattr(up, 'power_spectrum_' + n).pk_tot, hold[n][0], 0)


INGREDIENTS = ('rvir_cen', 'rvir_sat', 'mass', 'dndlnm', 'halo_bias', 'mean_density0', 'nu', 'sigma8_z', 'growth_factor', 'power', 'conc_cen', 'conc_sat', 'r_s_cen', 'r_s_sat', 'u_dm', 'u_sat')


def cosmologies(rng, mon):
    """Two cosmologies read in alternation, ingredient by ingredient, against each of them read alone."""
    colossus = ('diemer15', 'diemer19', 'prada12', 'ishiyama21', 'ludlow16', 'child18', 'bhattacharya13')
    configs = []
    for _ in range(2):
        kw = gen.base(rng, nz=(1, 2), nk=(4, 8))
        kw.update(hmcode_ingredients=None, dlog10m=.4)
        if rng.random() < .8:
            kw['halo_concentration_model_dm'] = gen.pick(rng, *colossus)
        if rng.random() < .5:
            kw['halo_concentration_model_sat'] = gen.pick(rng, *colossus)
        configs.append(gen.materialise(kw))
    read = lambda p, n: np.array(getattr(p, n), dtype=float)
    alone = []
    for kw in configs:
        p = H.spectra(**kw)
        alone.append({n: read(p, n) for n in INGREDIENTS})
    ps = [H.spectra(**kw) for kw in configs]
    todo = [[str(n) for n in rng.permutation(INGREDIENTS)] for _ in ps]
    got = [{}, {}]
    while any(todo):
        i = int(rng.integers(2))
        for n in todo[i][:int(rng.integers(1, 4))]:
            got[i][n] = read(ps[i], n)
            todo[i].remove(n)
    for i in range(2):
        H.same(mon, 'cosmology', got[i], alone[i], 1e-12)


def parts(rng, mon):
    from onepower.ia import SatelliteAlignment
    from onepower import hod as hodmod
    z = np.linspace(.1, 1., 3)
    m = np.logspace(11, 15, 12)
    cc = rng.uniform(3, 9, (3, 12))
    rv = np.tile(.3 * (m / 1e13) ** (1 / 3), (3, 1))
    arg = freeze(dict(z_vec=z, mass_in=m, c_in=cc, r_s_in=rv / cc, rvir_in=rv, gamma_1h_slope=gen.pick(rng, -2., -1.5), ell_max=gen.pick(rng, 2, 6)))
    mk = mark(arg)
    a, b = SatelliteAlignment(**arg), SatelliteAlignment(**arg)
    w = a.wkm
    h = [np.array(x) for x in w]
    b.update(gamma_1h_amplitude=.01)
    b.wkm
    a.upsampled_wkm(np.logspace(-2, 1, 5), m)
    a.alignment_gi, a.gamma_1h_amp
    for x, y in zip(w, h):
        mon.check('satellite', np.array_equal(x, y), 'satellite kernel handed out changed')
    mon.check('satellite', np.array_equal(a.wkm[0], h[0]), 'satellite kernel changed by another object or read')
    mon.check('inputs', mark(arg) == mk, 'inputs of the satellite alignment changed')
    # occupation models called directly
    c = S.initial(rng)
    s = freeze(gen.mat_settings(c['hod_settings']))
    pars = freeze({k: (np.array(v) if isinstance(v, list) else v) for k, v in c['hod_params'].items()})
    dn = freeze(np.abs(rng.normal(1, .1, (len(c['z_vec']), 12))) * 1e-3)
    hb = freeze(np.abs(rng.normal(1, .1, (len(c['z_vec']), 12))))
    from astropy.cosmology import Planck15
    zz = freeze(np.array(c['z_vec']))
    mk = mark([s, pars, dn, hb, zz, m])
    build = lambda: getattr(hodmod, c['hod_model'])(cosmo=Planck15, mass=m, dndlnm=dn, halo_bias=hb, z_vec=zz, hod_settings=s, **pars)
    x, y = build(), build()
    r1 = {q: np.array(getattr(x, q)) for q in H.HODQ}
    r2 = {q: np.array(getattr(y, q)) for q in H.HODQ[::-1]}
    H.same(mon, 'hod', r1, r2, 0)
    H.same(mon, 'hod', {q: np.array(getattr(x, q)) for q in H.HODQ}, r1, 0)
    mon.check('inputs', mark([s, pars, dn, hb, zz, m]) == mk, 'inputs of the occupation model changed')
