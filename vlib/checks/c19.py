"""C19: the real-space CosmoSIS modules: projected correlations, cosmology correction, angle conversion."""
import numpy as np
from scipy.integrate import simpson
from scipy.special import gamma, kv, loggamma
from .. import gen, harness as H
from ..block import DataBlock, options, load, COSMO
PROPERTY = 'C19'
RULE = ('random spectra that are sums of functions with closed-form Hankel transforms, positive, negative or of mixed sign, with random bins, redshift kernels, '
        'grids and transform sizes; random cosmology corrections and angle conversions; non-trivial when outputs of the real module were compared')
ASSUMPTIONS = ['cosmosis is not installed: a stand-in data block is used', 'astropy cosmology and units are trusted',
               'transform accuracy claimed to 1e-3 of the larger of the value and the profile amplitude at that separation']
REQUIRED = ['wp', 'ds', 'layout', 'mixed sign', 'negative', 'correct.wp', 'correct.ds', 'theta', 'untouched', 'refused', 'ogata']

def cases(tier, rng):
    n = 450 if tier == 'quick' else 1500
    return H.seeds(rng, n, kind='pk') + H.seeds(rng, n, kind='cosmo') + H.seeds(rng, n // 2, kind='theta') + H.seeds(rng, n // 6, kind='ogata') + H.seeds(rng, n, kind='fftlog')


def run_case(case, mon):
    rng = np.random.default_rng(case['seed'])
    globals()[case['kind']](rng, mon)


# sums of c (k^2+a^2)^(-nu-1): J0 and J2 transforms in closed form
def shape(terms, k):
    return sum(c * (k * k + a * a) ** (-nu - 1) for c, a, nu in terms)


def j0(terms, r):
    return sum(c * (r / (2 * a)) ** nu * kv(nu, a * r) / gamma(nu + 1) for c, a, nu in terms)


def j2(terms, r):
    """2/r^2 int_0^r f r' dr' - f, with int_0^r r'^(nu+1) K_nu(a r') dr' = 2^nu Gamma(nu+1)/a^(nu+2) - r^(nu+1) K_(nu+1)(a r)/a."""
    tot = 0
    for c, a, nu in terms:
        pre = c / ((2 * a) ** nu * gamma(nu + 1))
        inner = pre * (2**nu * gamma(nu + 1) / a ** (nu + 2) - r ** (nu + 1) * kv(nu + 1, a * r) / a)
        tot = tot + 2 / r**2 * inner - pre * r**nu * kv(nu, a * r)
    return tot


def pk(rng, mon):
    m = load('pk_to_real/pk_to_real.py')
    kind = gen.pick(rng, 'wp', 'ds')
    nb = gen.count(rng, 1, 3, (10, 13))
    n = int(gen.pick(rng, 1024, 2048, 4096, 8192, 1500, 3001))
    nz = int(rng.integers(3, 8))
    z = np.linspace(gen.U(rng, 0, .2), gen.U(rng, .5, 1.2), nz)
    rmin, rmax = gen.pick(rng, .1, .2), gen.pick(rng, 20., 60.)
    o = dict(corr_type=kind, sample='nz_lens', n_transform=n, rp_min=rmin, rp_max=rmax)
    if rng.random() < .25:                                 # the documented defaults
        n = 8192
        del o['n_transform']
    if rng.random() < .25:
        rmin = .1
        del o['rp_min']
    if rng.random() < .15:
        rmax = 1000.
        del o['rp_max']
    kx0, kx1 = 1e-4, 5e6
    if rng.random() < .3:
        kx0 = o['k_min_extrapolate'] = gen.pick(rng, 5e-5, 2e-4)
        kx1 = o['k_max_extrapolate'] = gen.pick(rng, 1e6, 1e7)
    deft = {'wp': ('galaxy_power', 'wp'), 'ds': ('matter_galaxy_power', 'ds')}[kind]
    insec, outsec = deft
    if rng.random() < .4:
        insec = o['input_section_name'] = 'my_power'
    elif rng.random() < .3:
        o['input_section_name'] = ''
    if rng.random() < .4:
        outsec = o['output_section_name'] = 'my_out'
    elif rng.random() < .3:
        o['output_section_name'] = ''
    suffixes = None
    if nb > 1 or rng.random() < .4:
        suffixes = [gen.pick(rng, 'x', 'q') + str(i + 1) for i in range(nb)]
        o['suffixes'] = suffixes if nb > 1 else suffixes[0]
    sign = gen.pick(rng, 'positive', 'positive', 'negative', 'mixed')
    blk = DataBlock()
    truth = {}
    zk = np.linspace(z[0] - .1, z[-1] + .1, 30) if rng.random() < .5 else np.linspace(z[0] + .1, z[-1] - .05, 30)
    blk['nz_lens', 'z'] = zk
    if suffixes is None:
        blk['nz_lens', 'nbin'] = nb
    rho = gen.U(rng, 5e10, 1e11)
    blk['density', 'mean_density0'] = np.full(nz, rho)
    k = np.logspace(np.log10(kx0), np.log10(kx1), 12000) if sign == 'mixed' else np.logspace(gen.U(rng, -3.5, -3), 3, 4000)
    for b in range(nb):
        sec = insec + (f'_{suffixes[b]}' if suffixes else '')
        terms = []
        for _ in z:
            t = [(gen.U(rng, .5, 2), gen.U(rng, .1, 1.5), gen.pick(rng, .5, .8, 1.)) for _ in range(2)]
            if sign == 'negative':
                t = [(-c, a, nu) for c, a, nu in t]
            if sign == 'mixed':
                t[1] = (-t[1][0], t[1][1] * 3, t[0][2])
            terms.append(t)
        truth[b] = terms
        blk[sec, 'k_h'], blk[sec, 'z'] = k, z
        blk[sec, 'p_k'] = np.array([shape(t, k) for t in terms])
        blk['nz_lens', f'bin_{b + 1}'] = np.abs(np.sin(np.linspace(.2, 2.5, 30) + b)) * gen.U(rng, .5, 2)
    if sign != 'positive':
        mon.event('mixed sign' if sign == 'mixed' else 'negative')
    before = dict(blk.d)
    mark = len(blk.log)
    cfg = m.setup(options(**o))
    reps = 2 if rng.random() < .3 else 1
    for _ in range(reps):
        m.execute(blk, cfg)
    rp = np.asarray(blk[outsec, 'rp'])
    mon.check('layout', rp.ndim == 1 and np.all(np.diff(rp) > 0) and rp[0] > rmin and rp[-1] < rmax, 'separations outside the requested range')
    dl = np.log(kx1 / kx0) / (n - 1)
    mon.check('layout', rp[0] < rmin * np.exp(1.01 * dl) and rp[-1] > rmax * np.exp(-1.01 * dl) and np.allclose(np.diff(np.log(rp)), dl, rtol=1e-6), 'separations do not fill the range')
    mon.check('layout', blk[outsec, 'nbin'] == nb and blk[outsec, 'sample'] == 'nz_lens' and blk[outsec, 'sep_name'] == 'rp' and blk[outsec, 'save_name'] == kind, 'labels')
    for b in range(nb):
        nzk = np.interp(z, zk, before['nz_lens', f'bin_{b + 1}'], left=0, right=0)
        fz = np.array([(j0 if kind == 'wp' else j2)(t, rp) for t in truth[b]]) / (2 * np.pi)
        amp = np.array([sum(abs(c) / (2 * nu * a ** (2 * nu)) for c, a, nu in t) * np.exp(-.5 * min(t[0][1], t[1][1]) * rp) for t in truth[b]]) / (2 * np.pi)
        p0 = max(abs(shape(t, 0.)) for t in truth[b])      # k below k_min = 1e-4 is not part of the transform
        w = nzk[:, None] * (1 if kind == 'wp' else rho / 1e12)
        want = simpson(w * fz, x=z, axis=0)
        scale = np.abs(simpson(np.abs(w), x=z, axis=0)) * amp.max(0)
        floor = 1e-8 * p0 * np.abs(simpson(np.abs(w), x=z, axis=0))
        got = blk[outsec, f'bin_{b + 1}']
        mon.close(kind, got, want, 1e-3, atol=3e-4 * scale + floor, bin=b, ntr=n, sign=sign)
    wrote = {(s, q) for _, s, q in blk.log[mark:]}
    mon.check('untouched', all(s == outsec for s, _ in wrote) and all(np.array_equal(blk.d[q], v) for q, v in before.items()), 'entries other than the outputs changed')
    try:
        m.setup(options(**{**o, 'corr_type': 'xi'}))
        mon.check('refused', False, 'unknown transform accepted')
    except ValueError:
        mon.event('refused')


def ogata(rng, mon):
    """The alternative transform module: its quadrature is a listed defect, everything around it is checked."""
    from hankel import HankelTransform
    m = load('pk_to_real/pk_to_real_ogata.py')
    kind = gen.pick(rng, 'wp', 'ds')
    nb = int(rng.integers(1, 4))
    z = np.linspace(gen.U(rng, 0, .2), gen.U(rng, .5, 1.2), int(rng.integers(3, 6)))
    n, rmin, rmax = int(gen.pick(rng, 100, 250)), gen.pick(rng, .1, .3), gen.pick(rng, 5., 20.)
    o = dict(corr_type=kind, sample='nz_src', n_transform=n, rp_min=rmin, rp_max=rmax)
    insec, outsec = {'wp': ('galaxy_power', 'wp'), 'ds': ('matter_galaxy_power', 'ds')}[kind]
    suffixes = [f'b{i + 1}' for i in range(nb)]
    o['suffixes'] = suffixes if nb > 1 else suffixes[0]
    blk = DataBlock()
    zk = np.linspace(z[0] - .1, z[-1] + .1, 30) if rng.random() < .5 else np.linspace(z[0] + .1, z[-1] - .05, 30)
    blk['nz_src', 'z'] = zk
    k = np.logspace(-4, 3, 1500)
    truth = {}
    for b in range(nb):
        sec = f'{insec}_{suffixes[b]}'
        truth[b] = [[(gen.U(rng, .5, 2), gen.U(rng, .1, 1.5), gen.pick(rng, .5, .8, 1.)) for _ in range(2)] for _ in z]
        blk[sec, 'k_h'], blk[sec, 'z'], blk[sec, 'p_k'] = k, z, np.array([shape(t, k) for t in truth[b]])
        blk['nz_src', f'bin_{b + 1}'] = np.abs(np.sin(np.linspace(.2, 2.5, 30) + b)) * gen.U(rng, .5, 2)
    before = dict(blk.d)
    mark = len(blk.log)
    m.execute(blk, m.setup(options(**o)))
    rp = np.asarray(blk[outsec, 'rp'])
    mon.check('ogata', np.all(np.diff(rp) > 0) and rp[0] > rmin and rp[-1] < rmax and blk[outsec, 'nbin'] == nb and blk[outsec, 'sample'] == 'nz_src', 'layout')
    ht = HankelTransform(0. if kind == 'wp' else 2., 20, np.pi / 20)
    for b in range(nb):
        nzk = np.interp(z, zk, before['nz_src', f'bin_{b + 1}'], left=0, right=0)
        got = np.asarray(blk[outsec, f'bin_{b + 1}'])
        right = simpson(nzk[:, None] * np.array([(j0 if kind == 'wp' else j2)(t, rp) for t in truth[b]]) / (2 * np.pi), x=z, axis=0)
        if np.all(np.abs(got - right) <= .05 * np.abs(right)):
            continue
        rows = []
        for t in truth[b]:
            y = shape(t, k)
            lin = lambda q: np.where(q > k[-1], y[-1] + (q - k[-1]) * (y[-1] - y[-2]) / (k[-1] - k[-2]), np.where(q < k[0], y[0] + (q - k[0]) * (y[1] - y[0]) / (k[1] - k[0]), np.interp(q, k, y)))
            rows.append([ht.transform(lambda x: lin(x / rr) * x)[0] / (2 * np.pi * rr**2) for rr in rp])
        mon.known('pk_to_real_ogata')
        mon.close('ogata', got, simpson(nzk[:, None] * np.array(rows), x=z, axis=0), 1e-7, bin=b)
    wrote = {(s, q) for _, s, q in blk.log[mark:]}
    mon.check('untouched', all(s == outsec for s, _ in wrote) and all(np.array_equal(blk.d[q], v) for q, v in before.items()), 'entries other than the outputs changed')


def cosmo(rng, mon):
    import astropy.cosmology as ac
    m = load('pk_to_real/correct_cosmo_real.py')
    kind = gen.pick(rng, 'wp', 'ds')
    nb = gen.pick(rng, 1, 1, 2, 3)
    z = [gen.U(rng, .05, .5) for _ in range(nb)]
    cls = gen.pick(rng, 'LambdaCDM', 'FlatLambdaCDM', 'Flatw0waCDM')
    ck = {'LambdaCDM': dict(H0=gen.U(rng, 65, 75), Om0=gen.U(rng, .25, .35), Ode0=gen.U(rng, .65, .75)), 'FlatLambdaCDM': dict(H0=gen.U(rng, 65, 75), Om0=gen.U(rng, .25, .35)),
          'Flatw0waCDM': dict(H0=gen.U(rng, 65, 75), Om0=gen.U(rng, .25, .35), w0=gen.U(rng, -1.1, -.9))}[cls]
    o = dict(section_name=kind + '_x', z=z[0] if nb == 1 and rng.random() < .5 else z)
    if cls != 'LambdaCDM' or rng.random() < .7:
        o.update(cosmo_kwargs=repr(ck), astropy_cosmology_class=cls)
    else:
        ck = dict(H0=70.0, Om0=.3, Ode0=.7)
    sec = o['section_name']
    rp = np.logspace(-1, 2, 20)
    P = {'hubble': gen.U(rng, 62, 78), 'omega_b': gen.U(rng, .04, .06), 'omega_m': gen.U(rng, .25, .35), 'mnu': gen.pick(rng, 0., .06), 'w': gen.U(rng, -1.1, -.9), 'wa': gen.U(rng, -.2, .2)}
    if rng.random() < .5:
        P['TCMB'] = gen.U(rng, 2.7, 2.75)
    blk = DataBlock({(COSMO, k): v for k, v in P.items()})
    blk[sec, 'nbin'], blk[sec, 'save_name'], blk[sec, 'rp'] = nb, kind, rp
    f = [rng.uniform(.5, 2, 20) * 10 / rp for _ in range(nb)]
    for b in range(nb):
        blk[sec, f'bin_{b + 1}'] = f[b]
    before = dict(blk.d)
    m.execute(blk, m.setup(options(**o)))
    D = getattr(ac, cls)(**ck)
    R = ac.Flatw0waCDM(H0=P['hubble'], Ob0=P['omega_b'], Om0=P['omega_m'], m_nu=[0, 0, P['mnu']], Tcmb0=P.get('TCMB', 2.7255), w0=P['w'], wa=P['wa'])
    h = P['hubble'] / ck['H0']
    zs, tot = .6, 1.
    for b, zb in enumerate(z):
        ratio = R.comoving_distance(zb).value / D.comoving_distance(zb).value * h
        tot *= ratio
        if kind == 'wp':
            c = D.efunc(zb) / R.efunc(zb) / h
        else:
            def crit(q):    # inverse critical surface density times the source distance factors
                return q.angular_diameter_distance_z1z2(zb, zs).value * q.angular_diameter_distance(zb).value / q.angular_diameter_distance(zs).value
            c = crit(R) / crit(D) * h
        mon.close('correct.' + kind, blk[sec, f'bin_{b + 1}'], f[b] * c, 1e-9, bin=b)
        if nb == 1:
            mon.close('correct.' + kind, blk[sec, 'rp'], rp * ratio, 1e-9, which='rp')
    if nb > 1:
        # the defect recorded in known_findings.txt; any other value is reported
        mon.known('rp of several bins')
        mon.close('correct.' + kind, blk[sec, 'rp'], rp * tot, 1e-9, which='rp of several bins')
    ok = all(np.array_equal(blk.d[q], v) for q, v in before.items() if q[0] != sec or q[1] in ('nbin', 'save_name')) and set(blk.d) == set(before)
    mon.check('untouched', ok, 'entries other than bins and rp changed')
    for bad in (dict(z=z + [.1]), dict(save='xx')):
        b2 = DataBlock(before)
        if 'save' in bad:
            b2[sec, 'save_name'] = 'xx'
        try:
            m.execute(b2, m.setup(options(**{**o, 'z': bad.get('z', z)})))
            mon.check('refused', False, 'invalid request accepted', request=str(bad))
        except ValueError:
            mon.event('refused')


RAD = {'rad': 1., 'deg': np.pi / 180, 'arcmin': np.pi / 180 / 60, 'arcsec': np.pi / 180 / 3600, 'radian': 1., 'radians': 1., 'degree': np.pi / 180, 'arcminute': np.pi / 180 / 60,
       'arcsecond': np.pi / 180 / 3600, 'mrad': 1e-3, 'mas': np.pi / 180 / 3600e3}


def theta(rng, mon):
    m = load('convert_theta/convert_theta.py')
    for _ in range(4):
        a, b = gen.pick(rng, *RAD), gen.pick(rng, 'rad', 'deg', 'arcmin', 'arcsec')
        t = np.sort(10 ** rng.uniform(-3, 3, int(rng.integers(1, 30))))
        blk = DataBlock({('shear', 'theta'): t, ('shear', 'bin_1_1'): t * 2, ('other', 'theta'): t})
        blk.put_metadata('shear', 'theta', 'unit', a)
        cfg = m.setup(options(output_units=b, section_name='shear'))
        m.execute(blk, cfg)
        mon.close('theta', blk['shear', 'theta'], t * RAD[a] / RAD[b], 1e-12, a=a, b=b)
        mon.check('theta', blk.get_metadata('shear', 'theta', 'unit') == b, 'unit label')
        mon.check('untouched', np.array_equal(blk['shear', 'bin_1_1'], t * 2) and np.array_equal(blk['other', 'theta'], t), 'other entries changed')
        m.execute(blk, cfg)
        mon.close('theta', blk['shear', 'theta'], t * RAD[a] / RAD[b], 1e-12, which='second run')
    try:
        m.setup(options(output_units='furlong', section_name='shear'))
        mon.check('refused', False, 'unknown unit accepted')
    except ValueError:
        mon.event('refused')


def fht_direct(a, x, dln, mu, q, kr, back=False):
    """Discrete logarithmic Hankel transform (Hamilton 2000, eqs 17-19 and 31), all modes by complex arithmetic."""
    n = len(a)
    m = np.fft.fftfreq(n, 1 / n)
    y = q + 2j * np.pi * m / (n * dln)
    u = np.exp(y * np.log(2) + loggamma((mu + 1 + y) / 2) - loggamma((mu + 1 - y) / 2) - 2j * np.pi * m / (n * dln) * np.log(kr))
    if n % 2 == 0:
        u[n // 2] = u[n // 2].real
    if back:
        return (np.fft.ifft(np.fft.fft((a * (x * kr) ** q)[::-1]) / u)).real * x ** q
    return np.fft.ifft(np.fft.fft(a * x ** -q) * u).real[::-1] * (x * kr) ** -q


def fftlog(rng, mon):
    """The transform behind the module against a direct evaluation, for any size, order, bias and direction."""
    try:
        m = load('pk_to_real/pyfftlog.py')
        fns = m.fhti, m.fht, m.fhtq, m.fftl, m.krgood
    except (OSError, AttributeError):
        mon.trivial = True                                 # another implementation is used: the modules themselves are monitored
        return
    n = int(rng.integers(8, 300))
    mu = gen.pick(rng, 0., 2., .5, gen.U(rng, 0, 4))
    q = 0 if rng.random() < .5 else gen.U(rng, -.9, .9)
    dln = gen.U(rng, .01, .3)
    kr = gen.U(rng, .3, 3)
    a = rng.normal(size=n) if rng.random() < .5 else np.exp(-((np.arange(n) - n / 2) * dln) ** 2 / gen.U(rng, .5, 5))
    keep = a.copy()
    opt = int(rng.integers(2))
    got_kr, xs = m.fhti(n, mu, dln, q=q, kr=kr, kropt=opt)
    mon.note = dict(n=n, mu=mu, q=q, dln=dln, kr=kr, kropt=opt)
    want_kr = kr
    if opt:                                                # the nearest kr at which the Nyquist coefficient is real
        y = 1j * np.pi / (2 * dln)
        arg = np.log(2 / kr) / dln + (loggamma((mu + 1 + q) / 2 + y).imag + loggamma((mu + 1 - q) / 2 + y).imag) / np.pi
        want_kr = kr * np.exp((arg - np.round(arg)) * dln)
    mon.close('fftlog', got_kr, want_kr, 1e-9, part='kr')
    x = np.exp((np.arange(n) - (n - 1) / 2) * dln)
    rk = gen.U(rng, .5, 2)
    nyq = n % 2 == 0 and not opt                           # without the low-ringing kr the Nyquist mode has no exact inverse
    f = fht_direct(a, x, dln, mu, q, want_kr)
    g = fht_direct(a * x ** .5, x, dln, mu, q, want_kr)
    # the element-wise bias factors range over many decades: compare in the biased quantity
    w = (x * want_kr) ** q
    mon.close('fftlog', m.fht(a, xs, tdir=1) * w, f * w, 1e-7, atol=1e-9 * np.max(np.abs(f * w)), part='forward')
    mon.close('fftlog', m.fftl(a, xs, rk, 1) * w * x ** .5, g * rk ** .5 * w, 1e-7, atol=1e-9 * np.max(np.abs(g * w)), part='fftl')
    mon.close('fftlog', m.fhtq(a * x ** -q, xs, tdir=1), f * w, 1e-7, atol=1e-9 * np.max(np.abs(f * w)), part='biased')
    if not nyq:
        b = fht_direct(a, x, dln, mu, q, want_kr, back=True)
        mon.close('fftlog', m.fht(a, xs, tdir=-1) / x ** q, b / x ** q, 1e-7, atol=1e-9 * np.max(np.abs(b / x ** q)), part='backward')
        r = m.fht(m.fht(a, xs, tdir=1), xs, tdir=-1)
        mon.close('fftlog', r / x ** q, a / x ** q, 1e-7, atol=1e-8 * np.max(np.abs(a / x ** q)), part='round trip')
    mon.close('fftlog', a, keep, 0, part='input kept')
