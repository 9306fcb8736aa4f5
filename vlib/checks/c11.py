"""C11: the emulated non-linear halo bias."""
import numpy as np
from scipy.interpolate import interp1d
from .. import gen, ref, harness as H
PROPERTY = 'C11'
RULE = ('random cosmologies in and outside the emulator range and random grids; most cases replace the emulator by an analytic stand-in that records which cosmology it was set '
        'to (so thousands of table entries per cosmology are predicted exactly), the others run the installed dark emulator; non-trivial when a whole table was compared')
ASSUMPTIONS = ['the dark emulator itself is trusted', 'the prescription (envelope of |1+beta|, offset at k=0.05, logistic cut-offs, five-mass nearest table) is part of the specification']
REQUIRED = ['table', 'real table', 'symmetric', 'finite', 'large scales', 'small scales', 'set cosmology', 'clipped', 'unclipped', 'from sigma8', 'from A_s', 'zdep', 'fixed z', 'sub-grid',
            'clip', 'in spectra', 'no amplitude']
CASE_LIMIT = 400
RANGE = np.array([[0.0211375, 0.0233625], [0.10782, 0.13178], [0.54752, 0.82128], [2.4752, 3.7128], [0.916275, 1.012725], [-1.2, -0.8]])


class HarnessError(Exception):
    pass


class FakeCosmo:
    def __init__(self, o):
        self.o = o

    def get_Omega0(self):
        return self.o.omega0()


class Fake:
    """Stand-in with the emulator's interface: smooth spectra with oscillations, tied to all six parameters."""
    log = []

    def __init__(self, *a, **k):
        self.c = None
        self.cosmo = FakeCosmo(self)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise HarnessError(f'emulator method {n} has no stand-in')

    def set_cosmology(self, cparam):
        c = np.array(cparam, float)
        if c.shape != (1, 6):
            raise RuntimeError('cosmological parameters must have shape (1, 6)')
        self.c = c[0]
        Fake.log.append(self.c.copy())

    def omega0(self):
        return 1 - self.c[2]

    def get_sigma8(self):
        b, c, L, A, n, w = self.c
        return np.sqrt(np.exp(A) / 21) * (.8 + .3 * (c - .12) / .12 - .2 * (L - .7) + .5 * (n - .96) + .1 * (w + 1) - (b - .022))

    def get_pklin_from_z(self, k, z):
        k = np.asarray(k, float)
        x = k / .02
        return np.exp(self.c[3]) * 1e3 * x ** self.c[4] / (1 + x**2) ** 1.3 / (1 + z) ** (2 + .2 * self.c[5])

    def get_phh_mass(self, k, M1, M2, z):
        k = np.asarray(k, float)
        b, c, L, A, n, w = self.c
        u, v = np.log10(M1) - 13, np.log10(M2) - 13
        bias = lambda t: 1.5 + .6 * t + .2 * t * t + .3 * z
        osc = 1 + (.3 + .05 * (u + v) + .3 * (L - .7)) * np.sin((12 + 3 * w + 40 * (c - .12)) * np.log(k)) * k / (.1 + k)
        rise = 1 + (.8 + .3 * u * v + .2 * z + 10 * (b - .022)) * k / (1 + k)
        return bias(u) * bias(v) * self.get_pklin_from_z(k, z) * osc * rise + 30. + 5 * (u + v)


def target(st, emu):
    """Set emu to the cosmology of st; returns the clipped parameters."""
    clip = lambda p: np.clip(p, RANGE[:, 0], RANGE[:, 1])
    def vec(lnA):
        h2 = st['h0'] ** 2
        return np.array([st['omega_b'] * h2, st['omega_c'] * h2, st['omega_lambda'] - .00064, lnA, st['n_s'], st['w0']])
    if st.get('A_s') is not None:
        A = st['A_s']
    else:
        emu.set_cosmology(clip(vec(np.log(21.))).reshape(1, 6))
        A = 2.1e-9 * (st['sigma_8'] / emu.get_sigma8()) ** 2
    raw = vec(np.log(A * 1e10))
    emu.set_cosmology(clip(raw).reshape(1, 6))
    return clip(raw), bool(np.any(clip(raw) != raw))


def node_table(emu, z):
    om = emu.cosmo.get_Omega0()
    v = 1000.**3 * 200 / 2048.**3
    kmax = 2 * np.pi / (3 * v / (4 * np.pi)) ** (1 / 3)
    M = np.linspace(np.log10(2.77536627e11 * om * v), 14., 5)
    lk = np.linspace(-3, np.log10(200.), 1000)
    k = 10 ** lk
    plin = np.asarray(emu.get_pklin_from_z(k, z))
    k0 = np.array([.05])
    p0 = float(np.ravel(emu.get_pklin_from_z(k0, z))[0])
    b = [np.sqrt(float(np.ravel(emu.get_phh_mass(k0, 10**m, 10**m, z))[0]) / p0) for m in M]
    cut = 1 / (1 + np.exp(-10 * (lk - np.log10(.05)))) / (1 + np.exp(10 * (lk - np.log10(3 * kmax))))
    out = np.zeros((5, 5, 1000))
    for i in range(5):
        for j in range(i, 5):
            phh = np.array(emu.get_phh_mass(k, 10 ** M[i], 10 ** M[j], z))
            phh = phh - np.mean(phh[(k > 100) & (k < 200)])
            y = np.abs(phh / (b[i] * b[j] * plin))
            pk = [q for q in range(1, 999) if np.sign(y[q + 1] - y[q]) < np.sign(y[q] - y[q - 1])]
            f = interp1d(k[pk], y[pk], kind='quadratic', fill_value='extrapolate')
            out[i, j] = out[j, i] = (f(k) - f(.05)) * cut
    return M, lk, out


def nearest(grid, x):
    """index of the nearest node and whether the choice is clear-cut."""
    d = np.abs(np.asarray(x)[:, None] - grid[None])
    s = np.sort(d, axis=1)
    return np.argmin(d, axis=1), (s[:, 1] - s[:, 0]) > 1e-7


def table(emu, z, mass, k):
    M, lk, T = node_table(emu, z)
    a, oka = nearest(M, np.log10(mass))
    c, okc = nearest(lk, np.log10(k))
    out = T[np.ix_(a, a, c)].transpose(2, 0, 1)
    return out, okc[:, None, None] & oka[None, :, None] & oka[None, None, :]


def setting(rng, real=False):
    wild = rng.random() < .35
    u = lambda a, b, e=0.: gen.U(rng, a - (e if wild else 0), b + (e if wild else 0))
    h = u(.66, .7, .08)
    st = dict(h0=h, omega_b=gen.r(u(.0213, .0232, .002) / h**2), omega_c=gen.r(u(.109, .130, .02) / h**2), n_s=u(.92, 1.01, .06), w0=u(-1.15, -.85, .15))
    st['omega_lambda'] = gen.r(1 - st['omega_b'] - st['omega_c'])
    if rng.random() < .5:
        st['A_s'] = gen.r(np.exp(u(2.6, 3.5, .4)) * 1e-10)
        if rng.random() < .5:
            st['sigma_8'] = gen.U(rng, .6, 1.)
    else:
        st['sigma_8'] = u(.7, .9, .15)
        if rng.random() < .5:
            st['A_s'] = None
    nm, nk = gen.count(rng, 3, 9, (20, 40), .04), gen.count(rng, 3, 11, (60, 150), .04)
    lo, hi = rng.uniform(9, 13), rng.uniform(13.5, 16)
    st['mass'] = np.sort(10 ** rng.uniform(lo, hi, nm)) if rng.random() < .5 else np.logspace(lo, hi, nm)
    st['k_vec'] = np.sort(10 ** rng.uniform(-4, 2.7, nk)) if rng.random() < .5 else np.logspace(rng.uniform(-4, -1), rng.uniform(0, 2.7), nk)
    st['z_vec'] = np.array(sorted(gen.U(rng, 0, 1.4) for _ in range(gen.count(rng, 1, 3, (6, 12), .04))))
    st['z_dep'] = bool(rng.random() < .6)
    if rng.random() < .3:
        st['z_vec'] = rng.permutation(st['z_vec'])
    if not st['z_dep'] and rng.random() < .3:
        st['z_vec'] = np.linspace(0, 4, 5)     # does not matter: the table is at a fixed redshift
    return st


def cases(tier, rng):
    q = tier == 'quick'
    return (H.seeds(rng, 12 if q else 120, what='real') + H.seeds(rng, 120 if q else 2500, what='fake') + H.seeds(rng, 300 if q else 3000, what='clip') +
            H.seeds(rng, 24 if q else 300, what='spectra') + H.seeds(rng, 6 if q else 60, what='none'))


def run_case(case, mon):
    rng = np.random.default_rng(case['seed'])
    from dark_emulator import darkemu
    w = case['what']
    if w == 'real':
        return check(rng, mon, darkemu.base_class, real=True)
    if w == 'clip':
        return clip(rng, mon)
    if w == 'none':
        return none(rng, mon)
    old = darkemu.base_class
    darkemu.base_class = Fake
    Fake.log = []
    try:
        (check if w == 'fake' else spectra)(rng, mon, Fake)
    except HarnessError as e:
        mon.trivial = True
        mon.note = str(e)
    finally:
        darkemu.base_class = old


def check(rng, mon, make, real=False):
    from onepower import NonLinearBias
    st = setting(rng, real)
    if real:
        st['z_vec'] = st['z_vec'][:2]
    mon.note = {k: v for k, v in st.items() if np.ndim(v) == 0}
    before = {k: np.array(v) for k, v in st.items() if isinstance(v, np.ndarray)}
    o = NonLinearBias(**st)
    got = np.asarray(o.bnl, float)
    log = list(Fake.log)
    emu = make()
    par, clipped = target(st, emu)
    mon.event('clipped' if clipped else 'unclipped')
    mon.event('from A_s' if st.get('A_s') is not None else 'from sigma8')
    if not real:
        mon.close('set cosmology', log[-1], par, 1e-9, atol=1e-10)
    zs = st['z_vec'] if st['z_dep'] else [.01]
    mon.event('zdep' if st['z_dep'] else 'fixed z')
    mon.check('table' if not real else 'real table', got.shape == (len(zs), len(st['k_vec']), len(st['mass']), len(st['mass'])), 'shape', shape=list(got.shape))
    mon.check('finite', bool(np.all(np.isfinite(got))), 'not finite')
    mon.close('symmetric', got, got.transpose(0, 1, 3, 2), 0)
    for i, z in enumerate(zs):
        want, sure = table(emu, z, st['mass'], st['k_vec'])
        sc = np.max(np.abs(want)) + 1e-300
        mon.close('real table' if real else 'table', np.where(sure, got[i], want), want, 1e-5 if real else 1e-6, scale=1e11 * (1e-5 if real else 1e-7) * sc, z=float(z))
        if not real:
            # one redshift on its own, one sub-grid, one permutation of the wavenumbers
            one = NonLinearBias(**{**st, 'z_dep': True, 'z_vec': np.array([z])}).bnl
            mon.close('sub-grid', np.asarray(one)[0], got[i], 1e-9, part='z')
    lowk = st['k_vec'] < 2e-3
    if lowk.any():
        mon.check('large scales', bool(np.all(np.abs(got[:, lowk]) < 1e-4)), 'does not vanish on large scales', maximum=float(np.abs(got[:, lowk]).max()))
    hik = st['k_vec'] > 150
    if hik.any():
        mon.check('small scales', bool(np.all(np.abs(got[:, hik]) < 1e-3 * (1 + np.abs(got).max()) + 2e-3)), 'does not vanish beyond the resolution', maximum=float(np.abs(got[:, hik]).max()))
    if not real:
        kp, mp = rng.permutation(len(st['k_vec']))[:2], rng.permutation(len(st['mass']))[:2]
        sub = NonLinearBias(**{**st, 'k_vec': st['k_vec'][kp], 'mass': st['mass'][mp]}).bnl
        mon.close('sub-grid', np.asarray(sub), got[np.ix_(range(len(zs)), kp, mp, mp)], 1e-9, part='k, mass')
    for k, v in before.items():
        mon.close('sub-grid', st[k], v, 0, part='inputs kept', which=k)


def clip(rng, mon):
    from onepower import NonLinearBias
    o = NonLinearBias(mass=np.logspace(12, 15, 3), z_vec=np.array([.1]), k_vec=np.array([.1, 1.]))
    width = RANGE[:, 1] - RANGE[:, 0]
    mid = RANGE.mean(axis=1)
    p = mid + width * rng.uniform(-1.2, 1.2, 6)
    for i in np.flatnonzero(rng.random(6) < .2):
        p[i] = RANGE[i, int(rng.integers(2))]
    keep = p.copy()
    got = np.asarray(o.test_cosmo(p))
    want = np.clip(keep, RANGE[:, 0], RANGE[:, 1])
    mon.close('clip', got.ravel(), want, 0)
    mon.check('clip', got.shape == (1, 6), 'shape', shape=list(got.shape))
    mon.close('clip', np.ravel(p), keep, 0)


def none(rng, mon):
    from onepower import NonLinearBias
    st = setting(rng)
    st.update(A_s=None, sigma_8=None)
    try:
        NonLinearBias(**st).bnl
    except ValueError:
        mon.check('no amplitude', True, '')
    else:
        mon.check('no amplitude', False, 'numbers without an amplitude')


def spectra(rng, mon, make):
    """A spectra object asked for the non-linear bias without a table computes it for its own cosmology and grids."""
    kw = gen.base(rng, nz=(2, 3), nk=(4, 6))
    kw['dlog10m'] = gen.pick(rng, .3, .4)
    gen.galaxy(rng, kw, cover=True)
    kw['nonlinear_mode'] = 'bnl'
    mon.note = H.digest(kw)
    args = gen.materialise(kw)
    p = H.spectra(**args)
    got = H.reads(p, ('mm', 'gg', 'gm'))
    changes = dict(sigma_8=gen.U(rng, .7, .9), n_s=gen.U(rng, .92, 1.), omega_c=gen.U(rng, .22, .28), h0=gen.U(rng, .65, .72), w0=gen.U(rng, -1.1, -.9))
    ch = gen.pick(rng, *changes)
    for step in range(2):
        if step:
            args[ch] = changes[ch]
            p.update(**{ch: changes[ch]})
            got = H.reads(p, ('mm', 'gg', 'gm'))
        emu = make()
        om = args['omega_b'] + args['omega_c']
        st = dict(h0=args['h0'], omega_b=args['omega_b'], omega_c=args['omega_c'], omega_lambda=1 - float(p.omega_m), n_s=args['n_s'], w0=args.get('w0', -1.), sigma_8=args['sigma_8'])
        mon.close('in spectra', p.omega_m, om, .02, part='matter density with neutrinos')
        target(st, emu)
        mass = np.asarray(p.mass)
        T, sure = table(emu, .01, mass, np.asarray(args['k_vec']))
        if not sure.all():
            continue
        q = H.spectra(**{**args, 'beta_nl': T[None]})
        H.same(mon, 'in spectra', got, H.reads(q, ('mm', 'gg', 'gm')), 1e-6)
