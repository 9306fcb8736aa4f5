"""Helpers shared by the checks: building the object under test, reading results, comparing to the reference."""
import copy
import numpy as np
from . import gen, ref
from .common import mismatch

NAMES = ('mm', 'gg', 'gm', 'mi', 'ii', 'gi')
PARTS = ('pk_1h', 'pk_2h', 'pk_tot', 'galaxy_linear_bias')


def spectra(**kw):
    from onepower import Spectra
    return Spectra(**kw)


def reads(p, names=NAMES):
    """Read spectra; returns {(spectrum, part): copied array or None}."""
    out = {}
    for n in names:
        x = getattr(p, 'power_spectrum_' + n)
        for part in PARTS:
            v = getattr(x, part)
            out[n, part] = None if v is None else np.array(v, float)
    return out


def vs_ref(mon, p, R, names, rtol=1e-6, parts=PARTS):
    for n in names:
        got = getattr(p, 'power_spectrum_' + n)
        want = R.spectrum(n)
        for part, w in zip(PARTS, want):
            if w is None or part not in parts:
                continue
            mon.close(f'{n}.{part}', getattr(got, part), w, rtol)


def same(mon, name, a, b, rtol=1e-9):
    """Two dicts of results agree."""
    ok = True
    for key in sorted(set(a) | set(b), key=str):
        x, y = a.get(key), b.get(key)
        if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
            ok &= mon.close(name, x, y, rtol, which=str(key))
        else:
            ok &= mon.check(name, (x is None and y is None) or (isinstance(x, str) and x == y), 'differ',
                            which=str(key), a=None if x is None else str(type(x)), b=None if y is None else str(type(y)), ea=x if isinstance(x, str) else None, eb=y if isinstance(y, str) else None)
    return ok


def seeds(rng, n, **extra):
    return [dict(seed=int(s), **extra) for s in rng.integers(1 << 40, size=n)]


def digest(kw):
    """Short human-readable description of a configuration for the evidence."""
    keys = ('hmcode_ingredients', 'nonlinear_mode', 'response', 'hod_model', 'mdef_model', 'hmf_model', 'bias_model', 'transfer_model',
            'pointmass', 'dewiggle')
    d = {k: kw[k] for k in keys if k in kw and kw[k] is not None}
    d['nz'], d['nk'] = len(kw['z_vec']), len(kw['k_vec'])
    if kw.get('hod_settings'):
        d['bins'] = len(kw['hod_settings'].get('obs_min', [0]))
    return d


INGREDIENTS = ('mass', 'dndlnm', 'halo_bias', 'mean_density0', 'mean_density_z', 'rho_halo', 'nu', 'neff', 'sigma8_z', 'power', 'kh',
               'halo_overdensity_mean', 'conc_cen', 'conc_sat', 'r_s_cen', 'r_s_sat', 'rvir_cen', 'rvir_sat', 'nfw_cen', 'nfw_sat',
               'u_dm', 'u_sat', 'growth_factor')

HODQ = ('hod_cen', 'hod_sat', 'hod', 'number_density_cen', 'number_density_sat', 'number_density', 'f_c', 'f_s', 'avg_halo_mass_cen',
        'avg_halo_mass_sat', 'avg_halo_mass', 'galaxy_linear_bias_cen', 'galaxy_linear_bias_sat', 'galaxy_linear_bias',
        'stellar_fraction_cen', 'stellar_fraction_sat', 'stellar_fraction')
