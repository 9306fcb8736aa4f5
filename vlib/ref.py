"""Independent reference model: evaluates the halo model one redshift / bin / wavenumber at a time.

Nothing here uses onepower. External libraries (hmf, halomod, astropy, scipy) are trusted.
"""
import numpy as np
from scipy.integrate import quad, simpson, solve_ivp
from scipy.interpolate import interp1d
from scipy.special import erf, binom, gamma as Gamma
from scipy.ndimage import gaussian_filter1d
from scipy.fft import fht, fhtoffset
from astropy import units as u
from astropy.cosmology import Flatw0waCDM, Planck15
import halomod.concentration as hconc
from halomod.concentration import interp_concentration, make_colossus_cm
from halomod.halo_model import DMHaloModel
from hmf.halos.mass_definitions import SphericalOverdensity
from hmf.density_field.transfer_models import EH_NoBAO

LN10 = np.log(10.0)

DEFAULTS = dict(
    z_vec=np.linspace(0.0, 3.0, 15), h0=0.7, omega_c=0.25, omega_b=0.05, w0=-1.0, wa=0.0, n_s=0.9, tcmb=2.7255,
    Neff=3.044, m_nu=0.06, sigma_8=0.8, log10T_AGN=7.8,
    k_vec=np.logspace(-4, 4, 100), lnk_min=np.log(1e-4), lnk_max=np.log(1e4), dlnk=(np.log(1e4) - np.log(1e-4)) / 100,
    Mmin=9.0, Mmax=16.0, dlog10m=0.05, mdef_model='SOMean', hmf_model='Tinker10', bias_model='Tinker10',
    halo_profile_model_dm='NFW', halo_concentration_model_dm='Duffy08', halo_profile_model_sat='NFW',
    halo_concentration_model_sat='Duffy08', transfer_model='CAMB', transfer_params=None, growth_model='CambGrowth',
    growth_params=None, norm_cen=1.0, norm_sat=1.0, eta_cen=0.0, eta_sat=0.0, overdensity=200.0, delta_c=1.686,
    hmcode_ingredients=None,
    nonlinear_mode=None, dewiggle=False, response=False, pointmass=False, compute_observable=False,
    matter_power_lin=None, matter_power_nl=None, mb=13.87, beta_nl=None, one_halo_ktrunc=0.1, two_halo_ktrunc=2.0,
    poisson_model='constant', poisson_params=None, hod_model='Cacciato', hod_params=None, hod_settings=None,
    hod_settings_mm=None, obs_settings=None, t_eff=0.0, one_halo_ktrunc_ia=4.0, two_halo_ktrunc_ia=6.0, align_params=None,
)

HOD_DEFAULTS = {
    'Cacciato': dict(log10_obs_norm_c=9.95, log10_m_ch=11.24, g1=3.18, g2=0.245, sigma_log10_O_c=0.157, norm_s=0.562,
                     pivot=12.0, alpha_s=-1.18, beta_s=2, b0=-1.17, b1=1.53, b2=-0.217, A_cen=None, A_sat=None),
    'Simple': dict(log10_Mmin=12.0, log10_Msat=13.0, alpha=1.0, A_cen=None, A_sat=None),
    'Zehavi': dict(log10_Mmin=12.0, log10_Msat=13.0, alpha=1.0, A_cen=None, A_sat=None),
    'Zheng': dict(log10_Mmin=12.0, log10_M0=12.0, log10_M1=13.0, sigma=0.15, alpha=1.0, A_cen=None, A_sat=None),
    'Zhai': dict(log10_Mmin=13.68, log10_Msat=14.87, log10_Mcut=12.32, sigma=0.82, alpha=0.41, A_cen=None, A_sat=None),
}
HOD_SETTINGS_DEFAULT = {'observables_file': None, 'obs_min': [8.0], 'obs_max': [12.0], 'zmin': [0.0], 'zmax': [0.2],
                        'nz': 15, 'nobs': 300, 'observable_h_unit': '1/h^2'}
ALIGN_DEFAULTS = dict(central_ia_depends_on='halo_mass', satellite_ia_depends_on='halo_mass', gamma_2h_amplitude=5.33,
                      beta_cen=0.44, beta_two=None, gamma_1h_amplitude=0.0015, gamma_1h_slope=-2.0, beta_sat=0.44,
                      mpivot_cen=13.5, mpivot_sat=13.5, lpivot_cen=None, lpivot_sat=None, z_loglum_file_centrals=None,
                      z_loglum_file_satellites=None, ell_max=6, truncate=False)


class MeanOverdensity(SphericalOverdensity):
    """Haloes of a given overdensity times the mean matter density (HMCode ingredients)."""
    _defaults = {'overdensity': 200}

    def halo_density(self, z=0, cosmo=Planck15):
        return self.params['overdensity'] * self.mean_density(z, cosmo)

    @property
    def colossus_name(self):
        return '200c'

    def __str__(self):
        return 'SOVirial'


def lin_interp(x, y, xq, fill=None):
    """Piecewise linear through (x, y[0..]) along axis 0; linear extrapolation or a fill value outside."""
    x = np.asarray(x, float)
    y = np.asarray(y, float)
    out = np.empty((len(xq),) + y.shape[1:])
    for n, q in enumerate(xq):
        if fill is not None and (q < x[0] or q > x[-1]):
            out[n] = fill
            continue
        if len(x) == 1:                                # a single node: its value is held
            out[n] = y[0]
            continue
        j = int(np.clip(np.searchsorted(x, q) - 1, 0, len(x) - 2))
        t = (q - x[j]) / (x[j + 1] - x[j])
        out[n] = y[j] + t * (y[j + 1] - y[j])
    return out


def some(n):
    """Density to normalise with: a population without galaxies contributes nothing."""
    return np.where(n == 0, 1.0, n)


def growth_solution(cosmo, tight=False):
    """Unnormalised growth (g ~ a at early times) by integrating the growth equation; returns g(a) and int g/a."""
    a0 = 1e-4
    Om = cosmo.Om0 + cosmo.Onu0
    Ode = 1.0 - Om
    Ok = cosmo.Ok0

    def X(a):
        return cosmo.de_density_scale(1.0 / a - 1.0)

    def H2(a):
        return Om * a**-3 + Ode * X(a) + Ok * a**-2

    def Omz(a):
        return Om * a**-3 / H2(a)

    def acc(a):
        return -0.5 * (Om * a**-3 + (1.0 + 3.0 * cosmo.w(1.0 / a - 1.0)) * Ode * X(a))

    f = 1.0 - Omz(a0)
    p = 1.0 - 3.0 * f / 5.0
    y0 = (a0**p, p * a0 ** (p - 1.0))

    def rhs(a, y):
        return y[1], -(2.0 + acc(a) / H2(a)) * y[1] / a + 1.5 * Omz(a) * y[0] / a**2

    if tight:
        sol = solve_ivp(rhs, (a0, 1.0), y0, rtol=1e-8, atol=1e-12, dense_output=True)
        g = lambda a: sol.sol(a)[0]
    else:
        grid = np.linspace(a0, 1.0, 129)
        vals = solve_ivp(rhs, (a0, 1.0), y0, t_eval=grid).y[0]
        g = interp1d(grid, vals, kind='cubic', assume_sorted=True)
    return g, a0


def mead_collapse(cosmo, z_vec, tight=False):
    g, a0 = growth_solution(cosmo, tight)
    dc, Dv, gz, Gz = [], [], [], []
    fnu = cosmo.Onu0 / (cosmo.Om0 + cosmo.Onu0)
    for z in z_vec:
        a = 1.0 / (1.0 + z)
        ga = float(g(a))
        Ga = float(g(a0)) + quad(lambda t: float(g(t)) / t, a0, a)[0]
        Om = cosmo.Om(z) + cosmo.Onu(z)
        x, y = ga / a, Ga / a
        F = lambda p: p[0] + p[1] * (1 - x) + p[2] * (1 - x) ** 2 + p[3] * (1 - y)
        lg = np.log10(Om)
        d = 1 + F([-0.0069, -0.0208, 0.0312, 0.0021]) * lg + F([0.0001, -0.0647, -0.0417, 0.0646])
        D = 1 + F([-0.79, -10.17, 2.51, 6.51]) * lg + F([-1.89, 0.38, 18.8, -15.87]) * lg**2
        dc.append(d * 0.15 * (12 * np.pi) ** (2 / 3) * (1 - 0.041 * fnu))
        Dv.append(D * 18 * np.pi**2 * (1 + 0.763 * fnu))
        gz.append(ga)
        Gz.append(Ga)
    return np.array(dc), np.array(Dv), np.array(gz), np.array(Gz)


def conc_class(name):
    return interp_concentration(getattr(hconc, name)) if hasattr(hconc, name) else interp_concentration(make_colossus_cm(name))


def trapz(y, x):
    return float(np.sum(0.5 * (y[1:] + y[:-1]) * np.diff(x)))


class RefHOD:
    """One galaxy sample."""

    def __init__(self, model, params, settings, mass, dndlnm, bias, z_vec, h):
        self.model = model
        self.p = {**HOD_DEFAULTS[model], **(params or {})}
        s = dict(settings) if settings else dict(HOD_SETTINGS_DEFAULT)
        self.s = s
        self.m = mass
        self.z_vec = np.asarray(z_vec, float)
        self.h = h
        if s.get('observables_file') is not None:
            rows = [list(map(float, l.split()[:3])) for l in open(s['observables_file']) if l.strip() and not l.startswith('#')]
            rows = np.array(rows)
            self.z = [rows[:, 0]]
            self.lo = [np.log10(rows[:, 1])]
            self.hi = [np.log10(rows[:, 2])]
            self.nb = 1
        else:
            self.nb = len(s['obs_min'])
            nz = s['nz']
            self.z = [np.linspace(a, b, nz) for a, b in zip(s['zmin'], s['zmax'])]
            self.lo = [np.full(nz, float(v)) for v in s['obs_min']]
            self.hi = [np.full(nz, float(v)) for v in s['obs_max']]
        self.nobs = s['nobs']
        self.dn = [lin_interp(self.z_vec, dndlnm, zb) for zb in self.z]
        self.b = [lin_interp(self.z_vec, bias, zb) for zb in self.z]
        self._calc()

    def par(self, name, nb):
        v = self.p[name]
        return float(v[nb]) if hasattr(v, '__len__') else v

    def cof(self, O, m):
        """Conditional observable functions of centrals and satellites at observables O (array), mass m."""
        p = self.p
        x = m / 10.0 ** p['log10_m_ch']
        Oc = 10.0 ** p['log10_obs_norm_c'] * x ** p['g1'] / (1 + x) ** (p['g1'] - p['g2'])
        s = p['sigma_log10_O_c']
        cen = np.exp(-(np.log10(O / Oc) ** 2) / (2 * s * s)) / (np.sqrt(2 * np.pi) * LN10 * s * O)
        Os = p['norm_s'] * Oc
        lm = np.log10(m) - p['pivot']
        phi = 10.0 ** (p['b0'] + p['b1'] * lm + p['b2'] * lm**2)
        t = O / Os
        sat = phi / Os * t ** p['alpha_s'] * np.exp(-(t ** p['beta_s']))
        return cen, sat

    def occupation(self, nb, j, m):
        mod = self.model
        if mod == 'Cacciato':
            O = np.logspace(self.lo[nb][j], self.hi[nb][j], self.nobs)
            c, s = self.cof(O, m)
            nc, ns = simpson(c, x=O), simpson(s, x=O)
        else:
            g = lambda n: self.par(n, nb)
            Mmin = 10.0 ** g('log10_Mmin')
            if mod in ('Simple', 'Zehavi') or g('sigma') == 0.0:
                nc = 1.0 if m >= Mmin else 0.0
            else:
                nc = 0.5 * (1 + erf(np.log10(m / Mmin) / g('sigma')))
            if mod == 'Simple' or mod == 'Zehavi':
                ns = (m / 10.0 ** g('log10_Msat')) ** g('alpha')
            elif mod == 'Zheng':
                M0 = 10.0 ** g('log10_M0')
                ns = ((m - M0) / 10.0 ** g('log10_M1')) ** g('alpha') if m > M0 else 0.0
            elif mod == 'Zhai':
                ns = (m / 10.0 ** g('log10_Msat')) ** g('alpha') * np.exp(-(10.0 ** g('log10_Mcut')) / m)
        if self.p['A_cen'] is not None:
            nc = nc + self.p['A_cen'] * min(nc, 1 - nc)
        if mod == 'Simple':
            ns = ns * nc
        if self.p['A_sat'] is not None:
            ns = ns * (1 + self.p['A_sat'])
        return nc, ns

    def _calc(self):
        m = self.m
        nb, zq = self.nb, self.z_vec
        sh = (nb, len(zq))
        self.hod_cen = np.zeros(sh + (len(m),))
        self.hod_sat = np.zeros(sh + (len(m),))
        self.stellar_fraction_cen = np.zeros(sh + (len(m),))
        self.stellar_fraction_sat = np.zeros(sh + (len(m),))
        names = ['number_density_cen', 'number_density_sat', 'number_density', 'f_c', 'f_s', 'avg_halo_mass_cen',
                 'avg_halo_mass_sat', 'avg_halo_mass', 'galaxy_linear_bias_cen', 'galaxy_linear_bias_sat', 'galaxy_linear_bias']
        for n in names:
            setattr(self, n, np.zeros(sh))
        self.obs_c, self.obs_s, self.obs_grid = [], [], []
        for b in range(nb):
            nz = len(self.z[b])
            Nc, Ns = np.zeros((nz, len(m))), np.zeros((nz, len(m)))
            Fc, Fs = np.zeros((nz, len(m))), np.zeros((nz, len(m)))
            cache = {}
            for j in range(nz):
                key = (self.lo[b][j], self.hi[b][j])
                if key not in cache:
                    col = np.array([self.occupation(b, j, mm) for mm in m])
                    if self.model == 'Cacciato':
                        O = np.logspace(self.lo[b][j], self.hi[b][j], self.nobs)
                        fr = []
                        for mm in m:
                            c, s = self.cof(O, mm)
                            fr.append((simpson(c * O, x=O) / mm, simpson(s * O, x=O) / mm))
                        fr = np.array(fr)
                    else:
                        fr = np.zeros((len(m), 2))
                    cache[key] = (col, fr)
                col, fr = cache[key]
                Nc[j], Ns[j], Fc[j], Fs[j] = col[:, 0], col[:, 1], fr[:, 0], fr[:, 1]
            dn, bi = self.dn[b], self.b[b]
            I = lambda y: simpson(y, x=m)
            nc = np.array([I(Nc[j] * dn[j] / m) for j in range(nz)])
            ns = np.array([I(Ns[j] * dn[j] / m) for j in range(nz)])
            nt = np.array([I((Nc[j] + Ns[j]) * dn[j] / m) for j in range(nz)])
            mc = np.array([I(Nc[j] * dn[j]) for j in range(nz)])
            ms = np.array([I(Ns[j] * dn[j]) for j in range(nz)])
            bc = np.array([I(Nc[j] * bi[j] * dn[j] / m) for j in range(nz)]) / nt
            bs = np.array([I(Ns[j] * bi[j] * dn[j] / m) for j in range(nz)]) / nt
            L = lambda y, fill=None: lin_interp(self.z[b], y, zq, fill)
            self.number_density_cen[b], self.number_density_sat[b], self.number_density[b] = L(nc), L(ns), L(nt)
            self.f_c[b], self.f_s[b] = L(nc / nt, 0.0), L(ns / nt, 0.0)
            self.avg_halo_mass_cen[b], self.avg_halo_mass_sat[b], self.avg_halo_mass[b] = L(mc, 0.0), L(ms, 0.0), L(mc + ms, 0.0)
            self.galaxy_linear_bias_cen[b], self.galaxy_linear_bias_sat[b], self.galaxy_linear_bias[b] = L(bc), L(bs), L(bc + bs)
            self.hod_cen[b], self.hod_sat[b] = L(Nc), L(Ns)
            hfac = self.h if self.s.get('observable_h_unit', '1/h^2') == '1/h^2' else 1.0
            self.stellar_fraction_cen[b], self.stellar_fraction_sat[b] = L(Fc) * hfac, L(Fs) * hfac
        self.hod = self.hod_cen + self.hod_sat
        self.stellar_fraction = self.stellar_fraction_cen + self.stellar_fraction_sat

    def observable_function(self):
        """ln10 * O * Phi(O) for centrals and satellites: lists over bins of (nz, nobs)."""
        cen, sat, grid = [], [], []
        for b in range(self.nb):
            nz = len(self.z[b])
            C, S, G = np.zeros((nz, self.nobs)), np.zeros((nz, self.nobs)), np.zeros((nz, self.nobs))
            for j in range(nz):
                O = np.logspace(self.lo[b][j], self.hi[b][j], self.nobs)
                rows = [self.cof(O, mm) for mm in self.m]
                w = self.dn[b][j] / self.m
                C[j] = simpson(np.array([r[0] for r in rows]) * w[:, None], x=self.m, axis=0) * O * LN10
                S[j] = simpson(np.array([r[1] for r in rows]) * w[:, None], x=self.m, axis=0) * O * LN10
                G[j] = O
            cen.append(C); sat.append(S); grid.append(G)
        return np.array(cen), np.array(sat), np.array(grid), np.array(self.z)


# ------------------------------------------------------------------ alignment
F_ELL_ZERO = {0: 0.0, 2: 2.77582637, 4: -0.19276603, 6: 0.04743899, 8: -0.01779024, 10: 0.00832446}
F_ELL_M2 = {0: 0.0, 2: 4.71238898, 4: -2.61799389, 6: 2.06167032, 8: -1.76714666, 10: 1.57488973}


def f_ell_numeric(ell, b):
    """Angular part at theta_k = pi/2, phi_k = 0 (Schneider & Bridle 2010): closed sum."""
    if ell == 0:
        return 0.0
    gj = {2: np.pi / 2, 4: np.pi / 2, 6: 15 * np.pi / 32, 8: 7 * np.pi / 16, 10: 105 * np.pi / 256}
    tot = 0.0
    for m in range(2, ell + 1, 2):
        a = m + b
        I = 2 * Gamma(a / 2 + 1) * Gamma(0.5) / (2 * Gamma(a / 2 + 1.5))
        tot += binom(ell, m) * binom(0.5 * (ell + m - 1.0), ell) * gj[m] * I
    return 2.0**ell * tot


def f_ell(ell, b):
    if b == 0:
        return F_ELL_ZERO[ell]
    if b == -2:
        return F_ELL_M2[ell]
    return f_ell_numeric(ell, b)


def align_radial(r, rs, rv, amp, slope, truncate, rcore=0.06):
    x = np.where(r < rcore, rcore, r)
    gam = np.minimum(amp * (x / rv) ** slope, 0.3)
    prof = 1.0 / ((r / rs) * (1 + r / rs) ** 2)
    if truncate:
        prof = np.where(r >= rv, 0.0, prof)
    return gam * prof


def wkm_kernel(rs, c, rv, amp, slope, ell_max, truncate, kout):
    """Kernel for one redshift and mass on the internal 100-point k grid, then linear onto kout."""
    kk = np.logspace(-3, 3, 100)
    mn = 4 * np.pi * rs**3 * (np.log(1 + c) - c / (1 + c))
    r = np.logspace(-8, 8, 512)
    dl = np.log(r[1] / r[0])
    tot = np.zeros(len(kk), complex)
    base = align_radial(r, rs, rv, amp, slope, truncate) * r**1.5 * np.sqrt(np.pi / 2)
    for i, ell in enumerate(range(0, ell_max + 1, 2)):
        mu, bias = ell + 0.5, (-0.5 * (i + 2.0) if truncate else max(-0.5 * (i + 2.0), slope - 1.0))
        off = fhtoffset(dl, mu=mu, initial=-2 * np.log(10.0), bias=bias)
        k = np.exp(off) / r[::-1]
        ft = fht(base, dl, mu=mu, offset=off, bias=bias) / (k**1.5 * mn)
        uk = np.interp(kk, k, ft)
        tot += (1j) ** ell * (2 * ell + 1) * uk * f_ell(ell, slope)
    w = np.abs(tot)
    return lin_interp(kk, w, kout)


def lum_sample(path):
    from astropy.io import fits
    with fits.open(path) as f:
        d = f[1].data
        return np.array(d['z'], float), np.array(d['loglum'], float)


def nearest(z_vec, i, z):
    """Which of the redshifts z lie in the interval of z_vec[i], half way to its neighbours."""
    up = z_vec[i + 1] - z_vec[i] if i + 1 < len(z_vec) else z_vec[i] - z_vec[i - 1]
    down = z_vec[i] - z_vec[i - 1] if i else z_vec[1] - z_vec[0]
    return (z >= z_vec[i] - down / 2) & (z < z_vec[i] + up / 2)


def lum_average(path, z_vec, fn, nbins=10000):
    """Average of fn(L) over the luminosity histogram of the galaxies in each redshift interval."""
    z, ll = lum_sample(path)
    out = []
    for i in range(len(z_vec)):
        L = 10.0 ** ll[nearest(z_vec, i, z)]
        if not L.size:
            out.append(0.0)
            continue
        h, e = np.histogram(L, bins=nbins, density=True)
        x = e[:-1] + 0.5 * (e[-1] - e[0]) / nbins
        out.append(simpson(h * fn(x), x=x))
    return np.array(out)


class Ref:
    """Full reference for one configuration (keyword arguments of the public spectra class)."""

    def __init__(self, **kw):
        unknown = set(kw) - set(DEFAULTS)
        if unknown:
            raise KeyError(f'HarnessError unknown {unknown}')
        self.p = {**DEFAULTS, **kw}
        p = self.p
        self.z = np.asarray(p['z_vec'], float)
        self.k = np.asarray(p['k_vec'], float)
        self.cosmo = Flatw0waCDM(H0=100 * p['h0'], Ob0=p['omega_b'], Om0=p['omega_c'] + p['omega_b'], Neff=p['Neff'],
                                 m_nu=[0, 0, p['m_nu']] * u.eV, Tcmb0=p['tcmb'], w0=p['w0'], wa=p['wa'])
        self.Om0 = p['omega_c'] + p['omega_b']
        self.mead = p['hmcode_ingredients'] in ('mead2020', 'mead2020_feedback')
        self._ingredients()

    # ---------------------------------------------------------------- ingredients
    def _perz(self, v):
        return np.broadcast_to(np.atleast_1d(v).astype(float), self.z.shape)

    def _ingredients(self):
        p, z = self.p, self.z
        n = len(z)
        norm_c, norm_s = self._perz(p['norm_cen']), self._perz(p['norm_sat'])
        eta_c, eta_s = self._perz(p['eta_cen']), self._perz(p['eta_sat'])
        if self.mead:
            dc, Dv, self.growth_g, self.growth_G = mead_collapse(self.cosmo, z)
            self.dc, self.Dv = dc, Dv
            th = p['log10T_AGN'] - 7.8
            if p['hmcode_ingredients'] == 'mead2020':
                K = np.full(n, 5.196)
            else:
                K = 5.196 / 4 * (3.44 - 0.496 * th) * 10 ** (z * (-0.0671 - 0.0371 * th))
            self.K = K
        elif p['mdef_model'] == 'SOVirial':
            dc = 0.15 * (12 * np.pi) ** (2 / 3) * (1 + 0.0123 * np.log10(np.array([self.cosmo.Om(zz) for zz in z])))
        else:
            dc = np.full(n, p['delta_c'])
        rows = {q: [] for q in ('dndlnm', 'halo_bias', 'mean_density0', 'mean_density_z', 'rho_halo', 'nu', 'neff', 'sigma8_z',
                                'power', 'nonlinear_power', 'halo_overdensity_mean', 'conc_cen', 'conc_sat', 'r_s_cen', 'r_s_sat',
                                'rvir_cen', 'rvir_sat', 'nfw_cen', 'nfw_sat', 'growth_factor')}
        want_nl = p['matter_power_nl'] is None and (p['response'] or p['nonlinear_mode'] == 'fortuna')
        for i, zz in enumerate(z):
            common = dict(z=float(zz), lnk_min=p['lnk_min'], lnk_max=p['lnk_max'], dlnk=p['dlnk'], Mmin=p['Mmin'], Mmax=p['Mmax'],
                          dlog10m=p['dlog10m'], cosmo_model=self.cosmo, sigma_8=p['sigma_8'], n=p['n_s'],
                          transfer_model=p['transfer_model'], transfer_params=dict(p['transfer_params'] or {}),
                          growth_model=p['growth_model'], growth_params=dict(p['growth_params'] or {}), delta_c=dc[i])
            if self.mead:
                common.update(hmf_model='ST', bias_model='ST99', mdef_model=MeanOverdensity, mdef_params={'overdensity': Dv[i]},
                              disable_mass_conversion=True)
            else:
                common.update(hmf_model=p['hmf_model'], bias_model=p['bias_model'], mdef_model=p['mdef_model'],
                              mdef_params={} if p['mdef_model'] == 'SOVirial' else {'overdensity': p['overdensity']},
                              disable_mass_conversion=False)
            mods = []
            for typ, prof, cm, norm, eta in (('cen', p['halo_profile_model_dm'], p['halo_concentration_model_dm'], norm_c[i], eta_c[i]),
                                             ('sat', p['halo_profile_model_sat'], p['halo_concentration_model_sat'], norm_s[i], eta_s[i])):
                cpar = {'norm': norm}
                if self.mead:
                    cc = interp_concentration(hconc.Bullock01)
                    cpar['K'] = self.K[i]
                else:
                    cc = conc_class(cm)
                x = DMHaloModel(halo_profile_model=prof, halo_concentration_model=cc,
                                halo_profile_params={'cosmo': self.cosmo, 'eta_bloat': 0.0}, halo_concentration_params=cpar, **common)
                if self.mead:
                    eta = 0.1281 * x.sigma8_z ** (-0.3644)
                x.update(halo_profile_params={'eta_bloat': eta})
                mods.append(x)
            c, s = mods
            self.mass = 10 ** np.arange(p['Mmin'], p['Mmax'], p['dlog10m'])
            rows['dndlnm'].append(c.dndlnm); rows['halo_bias'].append(c.halo_bias)
            rows['mean_density0'].append(c.mean_density0); rows['mean_density_z'].append(c.mean_density)
            rows['rho_halo'].append(c.halo_overdensity_mean * c.mean_density0)
            rows['halo_overdensity_mean'].append(c.halo_overdensity_mean)
            rows['nu'].append(np.sqrt(c.nu)); rows['neff'].append(c.n_eff_at_collapse); rows['sigma8_z'].append(c.sigma8_z[0])
            rows['power'].append(c.power)
            if want_nl:
                rows['nonlinear_power'].append(c.nonlinear_power)
            rows['growth_factor'].append(c.growth.growth_factor(float(zz)))
            for t, x in (('cen', c), ('sat', s)):
                rows[f'conc_{t}'].append(x.cmz_relation)
                rows[f'r_s_{t}'].append(x.halo_profile._rs_from_m(x.m))
                rows[f'rvir_{t}'].append(x.halo_profile.halo_mass_to_radius(x.m))
                rows[f'nfw_{t}'].append(x.halo_profile.u(self.k, x.m))
            self.kh = c.k
        for q, v in rows.items():
            setattr(self, q, np.array(v) if len(v) else None)
        self.growth_factor = np.array([float(np.ravel(g)[0]) for g in self.growth_factor])
        self.u_dm = self.nfw_cen / self.nfw_cen[:, :1, :]
        self.u_sat = self.nfw_sat / self.nfw_sat[:, :1, :]
        self.delta_c = dc

    # ---------------------------------------------------------------- input spectra
    def _to_k(self, tab):
        return np.array([lin_interp(self.kh, row, self.k) for row in tab])

    def plin_raw(self):
        if self.p['matter_power_lin'] is not None:
            return np.array(self.p['matter_power_lin'], float)
        return self._to_k(self.power)

    def plin(self):
        if not hasattr(self, '_plin'):
            P = self.plin_raw()
            if self.p['nonlinear_mode'] == 'hmcode' or self.p['dewiggle']:
                P = self.dewiggle(P)
            self._plin = P
        return self._plin

    def dewiggle(self, P):
        k = self.k
        dl = np.log(k[1] / k[0])
        now = k ** self.p['n_s'] * np.exp(EH_NoBAO(self.cosmo).lnt(np.log(k))) ** 2
        out = np.empty_like(P)
        for i in range(len(P)):
            sv2 = simpson(P[i] * k, dx=dl) / (2 * np.pi**2) / 3
            smooth = gaussian_filter1d(P[i] / now, 0.25 / dl) * now
            out[i] = P[i] - (1 - np.exp(-(k**2) * sv2)) * (P[i] - smooth)
        return out

    def pnl(self):
        if self.p['matter_power_nl'] is not None:
            return np.array(self.p['matter_power_nl'], float)
        return self._to_k(self.nonlinear_power)

    # ---------------------------------------------------------------- galaxies
    def hod(self):
        if not hasattr(self, '_hod'):
            self._hod = RefHOD(self.p['hod_model'], self.p['hod_params'], self.p['hod_settings'], self.mass, self.dndlnm,
                               self.halo_bias, self.z, self.p['h0'])
        return self._hod

    def hod_mm(self):
        if not hasattr(self, '_hod_mm'):
            self._hod_mm = RefHOD(self.p['hod_model'], self.p['hod_params'], self.p['hod_settings_mm'], self.mass, self.dndlnm,
                                  self.halo_bias, self.z, self.p['h0'])
        return self._hod_mm

    def poisson(self):
        q = self.p['poisson_params'] or {}
        a = q.get('poisson', 1.0)
        if self.p['poisson_model'] == 'constant':
            return np.full(len(self.mass), a)
        return a * (self.mass / 10.0 ** q['pivot']) ** q['slope']

    # ---------------------------------------------------------------- profiles (Nb, Nz, Nk, Nm)
    def gas_fraction(self, m, mb, fstar):
        x = (m / mb) ** 2
        return (self.p['omega_b'] / self.Om0 - fstar) * x / (1 + x)

    def W_matter(self):
        return (self.mass[None, None, :] / self.mean_density0[:, None, None] * self.u_dm)[None]

    def W_feedback(self):
        th = self.p['log10T_AGN'] - 7.8
        out = np.empty(self.u_dm.shape)
        for i, z in enumerate(self.z):
            fs = 0.01 * (2.01 - 0.3 * th) * 10 ** (z * (0.409 + 0.0224 * th))
            mb = 10 ** (13.87 + 1.81 * th) * 10 ** (z * (0.195 * th - 0.108))
            fg = self.gas_fraction(self.mass, mb, fs)
            w = self.mass / self.mean_density0[i]
            out[i] = (self.p['omega_c'] / self.Om0 + fg) * w * self.u_dm[i] + fs * w
        return out[None]

    def W_fit(self, fstar):
        out = []
        for b in range(fstar.shape[0]):
            o = np.empty(self.u_dm.shape)
            for i in range(len(self.z)):
                fs = fstar[b, i]
                fg = self.gas_fraction(self.mass, self.p['mb'], fs)
                w = self.mass / self.mean_density0[i]
                o[i] = (self.p['omega_c'] / self.Om0 + fg) * w * self.u_dm[i] + fs * w
            out.append(o)
        return np.array(out)

    def W_mm_1h(self):
        h = self.p['hmcode_ingredients']
        if h == 'mead2020_feedback':
            return self.W_feedback()
        if h == 'fit':
            fstar = self.hod_mm().stellar_fraction if self.p['hod_model'] == 'Cacciato' else np.zeros((1, len(self.z), len(self.mass)))
            return self.W_fit(fstar)
        return self.W_matter()

    def W_gm_1h(self):
        h = self.p['hmcode_ingredients']
        if h == 'mead2020_feedback':
            return self.W_feedback()
        if h == 'mead2020':
            return self.W_matter()
        if h == 'fit' or self.p['pointmass']:
            return self.W_fit(self.hod().stellar_fraction)
        return self.W_matter()

    def W_cen(self):
        h = self.hod()
        a = h.f_c[:, :, None] * h.hod_cen / some(h.number_density_cen)[:, :, None]
        return np.repeat(a[:, :, None, :], len(self.k), axis=2)

    def W_sat(self):
        h = self.hod()
        a = h.f_s[:, :, None] * h.hod_sat / some(h.number_density_sat)[:, :, None]
        return a[:, :, None, :] * self.u_sat[None]

    # ---------------------------------------------------------------- integrals
    def one_halo(self, W1, W2):
        nb = max(W1.shape[0], W2.shape[0])
        out = np.empty((nb, len(self.z), len(self.k)))
        for b in range(nb):
            for i in range(len(self.z)):
                y = W1[b % W1.shape[0], i] * W2[b % W2.shape[0], i] * (self.dndlnm[i] / self.mass)
                out[b, i] = simpson(y, x=self.mass, axis=-1)
        return out

    def biased(self, W):
        out = np.empty(W.shape[:3])
        for b in range(W.shape[0]):
            for i in range(len(self.z)):
                out[b, i] = simpson(W[b, i] * (self.halo_bias[i] * self.dndlnm[i] / self.mass), x=self.mass, axis=-1)
        return out

    def missing(self):
        return np.array([1 - simpson(self.halo_bias[i] * self.dndlnm[i] / self.mean_density0[i], x=self.mass) for i in range(len(self.z))])

    def Im(self):
        A = self.missing()
        out = np.empty((1, len(self.z), len(self.k)))
        for i in range(len(self.z)):
            out[0, i] = simpson(self.u_dm[i] * (self.halo_bias[i] * self.dndlnm[i] / self.mean_density0[i]), x=self.mass, axis=-1) + A[i]
        return out

    def I_align(self, W):
        """Bias-weighted integral plus the compensation for haloes below the lowest mass."""
        A = self.missing()
        return self.biased(W) + A[None, :, None] * W[..., 0] * self.mean_density0[None, :, None] / self.mass[0]

    def I_NL(self, W1, W2):
        beta = np.asarray(self.p['beta_nl'], float)
        m = self.mass
        w = np.empty_like(m)
        w[1:-1] = 0.5 * (m[2:] - m[:-2]); w[0] = 0.5 * (m[1] - m[0]); w[-1] = 0.5 * (m[-1] - m[-2])
        A = self.missing()
        nb = max(W1.shape[0], W2.shape[0])
        out = np.empty((nb, len(self.z), len(self.k)))
        for b in range(nb):
            for i in range(len(self.z)):
                bz = beta[i if beta.shape[0] > 1 else 0]
                q = w * self.halo_bias[i] * self.dndlnm[i] / m
                for j in range(len(self.k)):
                    f1, f2 = W1[b % W1.shape[0], i, j], W2[b % W2.shape[0], i, j]
                    # effective weights with the missing mass added at the lowest-mass node
                    x1, x2 = q * f1, q * f2
                    low = A[i] * self.mean_density0[i] / m[0]
                    e1, e2 = x1.copy(), x2.copy()
                    e1[0] += low * f1[0]
                    e2[0] += low * f2[0]
                    out[b, i, j] = e1 @ bz[j] @ e2
        return out

    # ---------------------------------------------------------------- truncations
    def T1(self):
        kt = self.p['one_halo_ktrunc']
        if kt is None:
            return np.ones(len(self.k))
        x = (self.k / kt) ** 4
        return x / (1 + x)

    def T2(self):
        if self.p['two_halo_ktrunc'] is None:
            return np.ones(len(self.k))
        x = (self.k / 0.05699) ** 2.853
        return 1 - 0.05 * x / (1 + x)

    def T1ia(self):
        kt = self.p['one_halo_ktrunc_ia']
        return np.ones(len(self.k)) if kt is None else 1 - np.exp(-((self.k / kt) ** 2))

    def T2ia(self):
        kt = self.p['two_halo_ktrunc_ia']
        return np.ones(len(self.k)) if kt is None else np.exp(-((self.k / kt) ** 2))

    # ---------------------------------------------------------------- spectra -> (1h, 2h, tot[, bias])
    def mm_halo(self):
        if hasattr(self, '_mm'):
            return self._mm
        W = self.W_mm_1h()
        P = self.plin()[None]
        if self.p['nonlinear_mode'] == 'hmcode':
            s8 = self.sigma8_z[None, :, None]
            kk = self.k[None, None, :]
            x2 = (kk / (0.05699 * s8**-1.089)) ** 2.853
            two = P * (1 - 0.2696 * s8**0.9403 * x2 / (1 + x2))
            x1 = (kk / (0.05618 * s8**-1.013)) ** 4
            one = self.one_halo(W, W) * x1 / (1 + x1)
            al = 1.875 * 1.603 ** self.neff[None, :, None]
            D = kk**3 / (2 * np.pi**2)
            with np.errstate(divide='ignore'):
                tot = np.exp(np.logaddexp(al * np.log(D * one), al * np.log(D * two)) / al) / D
        else:
            one = self.one_halo(W, W) * self.T1()
            Im = self.Im()
            if self.p['nonlinear_mode'] == 'bnl':
                two = P * (Im**2 + self.I_NL(self.W_matter(), self.W_matter()))
            else:
                two = P * Im**2 * self.T2()
            tot = one + two
        self._mm = (one, two, tot)
        return self._mm

    def mm(self):
        if self.p['response']:
            P = self.pnl()[None]
            return np.zeros_like(P), np.zeros_like(P), P, None
        return (*self.mm_halo(), None)

    def _resp(self, one, two, tot, bias=None):
        if self.p['response']:
            f = self.pnl()[None] / self.mm_halo()[2]
            one, two, tot = one * f, two * f, tot * f
        return one, two, tot, bias

    def gg(self):
        C, S = self.W_cen(), self.W_sat()
        P = self.plin()[None]
        Ic, Is = self.biased(C), self.biased(S)
        one = (2 * self.one_halo(C, S) + self.one_halo(S * self.poisson(), S)) * self.T1()
        if self.p['nonlinear_mode'] == 'bnl':
            two = P * ((Ic + Is) ** 2 + self.I_NL(C + S, C + S))
        else:
            two = P * (Ic + Is) ** 2 * self.T2()
        return self._resp(one, two, one + two, np.abs(Ic + Is))

    def gm(self):
        C, S, M = self.W_cen(), self.W_sat(), self.W_gm_1h()
        P = self.plin()[None]
        Ic, Is, Im = self.biased(C), self.biased(S), self.Im()
        one = (self.one_halo(C, M) + self.one_halo(S, M)) * self.T1()
        if self.p['nonlinear_mode'] == 'bnl':
            two = P * ((Ic + Is) * Im + self.I_NL(C + S, self.W_matter()))
        else:
            two = P * (Ic + Is) * Im * self.T2()
        return self._resp(one, two, one + two, np.sqrt((Ic + Is) * Im))

    # ---------------------------------------------------------------- alignment
    def align(self):
        if hasattr(self, '_al'):
            return self._al
        a = {**ALIGN_DEFAULTS, **(self.p['align_params'] or {})}
        ones = np.ones(len(self.z))
        if a['central_ia_depends_on'] == 'luminosity':
            l0 = 10.0 ** a['lpivot_cen']
            if a['beta_two'] is not None:
                fn = lambda L: np.where(L > l0, (L / l0) ** a['beta_cen'], (L / l0) ** a['beta_two'])
            else:
                fn = lambda L: (L / l0) ** a['beta_cen']
            A2 = a['gamma_2h_amplitude'] * lum_average(a['z_loglum_file_centrals'], self.z, fn)
        else:
            A2 = a['gamma_2h_amplitude'] * ones
        if a['satellite_ia_depends_on'] == 'luminosity':
            l0 = 10.0 ** a['lpivot_sat']
            A1 = a['gamma_1h_amplitude'] * lum_average(a['z_loglum_file_satellites'], self.z, lambda L: (L / l0) ** a['beta_sat'])
        else:
            A1 = a['gamma_1h_amplitude'] * ones
        self._al = (a, A2, A1)
        return self._al

    def kernel(self):
        a, _, A1 = self.align()
        out = np.empty((len(self.z), len(self.k), len(self.mass)))
        for i in range(len(self.z)):
            for j in range(len(self.mass)):
                out[i, :, j] = wkm_kernel(self.r_s_cen[i, j], self.conc_cen[i, j], self.rvir_cen[i, j], A1[i], a['gamma_1h_slope'],
                                          a['ell_max'], a['truncate'], self.k)
        return out

    def _mass_scaling(self, beta, mpivot):
        h = self.hod()
        if beta is None or mpivot is None:
            return np.ones_like(h.f_c)
        mean = h.avg_halo_mass_cen / h.number_density_cen
        return np.where(mean > 0, mean / 10.0**mpivot, 1.0) ** beta          # outside the sample there are no galaxies to scale

    def E_cen(self):
        a, A2, _ = self.align()
        h = self.hod()
        amp = h.f_c * (5e-14 * A2 / self.growth_factor)[None, :] * self._mass_scaling(a['beta_cen'], a['mpivot_cen'] if a['central_ia_depends_on'] == 'halo_mass' else None)
        return np.repeat((amp[:, :, None] * self.mass)[:, :, None, :], len(self.k), axis=2)

    def E_sat(self):
        if not hasattr(self, '_es'):
            a, _, _ = self.align()
            h = self.hod()
            amp = h.f_s / some(h.number_density_sat) * self._mass_scaling(a['beta_sat'], a['mpivot_sat'] if a['satellite_ia_depends_on'] == 'halo_mass' else None)
            self._es = amp[:, :, None, None] * h.hod_sat[:, :, None, :] * self.kernel()[None]
        return self._es

    def peff(self):
        t = self.p['t_eff']
        return (1 - t) * self.pnl() + t * self.plin()

    def nla(self):
        _, A2, _ = self.align()
        return 5e-14 * A2 * self.mean_density0 / self.growth_factor

    def mi(self):
        Es, Ec = self.E_sat(), self.E_cen()
        P, M = self.plin()[None], self.W_gm_1h()
        one = -self.one_halo(M, Es) * self.T1ia()
        mode = self.p['nonlinear_mode']
        if mode == 'fortuna':
            two = -self.hod().f_c[:, :, None] * self.peff()[None] * self.nla()[None, :, None] * self.T2ia()
        else:
            I = self.I_align(Es) + self.I_align(Ec)
            if mode == 'bnl':
                two = -P * (I * self.Im() + self.I_NL(Ec + Es, self.W_matter()))
            else:
                two = -P * I * self.Im() * self.T2ia()
        return self._resp(one, two, one + two)

    def ii(self):
        Es, Ec = self.E_sat(), self.E_cen()
        P = self.plin()[None]
        one = self.one_halo(Es, Es) * self.T1ia()
        mode = self.p['nonlinear_mode']
        if mode == 'fortuna':
            two = self.hod().f_c[:, :, None] ** 2 * self.peff()[None] * self.nla()[None, :, None] ** 2 * self.T2ia()
        else:
            Is, Ic = self.I_align(Es), self.I_align(Ec)
            quad_ = Ic * Ic + Is * Is + Ic * Is
            if mode == 'bnl':
                two = P * (quad_ + self.I_NL(Es, Es) + self.I_NL(Ec, Ec) + self.I_NL(Ec, Es))
            else:
                two = P * quad_ * self.T2ia()
        return self._resp(one, two, one + two)

    def gi(self):
        Es, Ec, C = self.E_sat(), self.E_cen(), self.W_cen()
        P = self.plin()[None]
        one = self.one_halo(C, Es) * self.T1ia()
        Ic = self.biased(C)
        mode = self.p['nonlinear_mode']
        if mode == 'fortuna':
            two = self.peff()[None] * Ic * self.nla()[None, :, None] * self.T2ia()
        else:
            I = self.I_align(Es) + self.I_align(Ec)
            if mode == 'bnl':
                two = P * (Ic * I + self.I_NL(Ec, C) + self.I_NL(Es, C))
            else:
                two = P * Ic * I * self.T2ia()
        return self._resp(one, two, one + two)

    def spectrum(self, name):
        return getattr(self, name)()
