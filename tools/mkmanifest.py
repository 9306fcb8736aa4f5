"""Regenerate MANIFEST.json from properties.jsonl and the check modules that exist."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'C01': 'runtime monitor over construct/read/update/clone histories: every read of a long-lived object compared with a fresh object',
 'C02': 'runtime monitor with frozen, checksummed and shared inputs, read-order and cross-object interference oracle',
 'C03': 'online invariant monitor (shape, finiteness, total, sign) on every spectrum of random configurations',
 'C04': 'metamorphic runtime oracle on the large-scale limit of the spectra',
 'C05': 'runtime differential oracle: independent reference halo model for the matter spectrum',
 'C06': 'runtime differential oracle: independent reference halo model for galaxy spectra',
 'C07': 'runtime differential oracle: independent reference halo model for alignment spectra',
 'C08': 'runtime differential and conservation oracle for HOD quantities',
 'C09': 'runtime relational oracle: response vs halo-model ratio',
 'C10': 'runtime differential oracle: independent quadrature of the non-linear bias integral',
 'C11': 'runtime differential oracle: emulator ratios recomputed independently',
 'C12': 'runtime differential oracle: independent interpolation and mixing',
 'C13': 'metamorphic runtime oracle: subsets and permutations of grids and bins',
 'C14': 'online bound/monotonicity monitor plus differential oracle on feedback',
 'C15': 'runtime differential oracle: direct hmf/halomod and tight ODE integration',
 'C16': 'fault-injection workload: rejected requests, then state compared with an untouched twin',
 'C17': 'trace monitor on a recording DataBlock with independent expected writes',
 'C18': 'runtime differential oracle: direct quadrature of the satellite alignment kernels',
 'C19': 'runtime differential oracle: direct Hankel quadrature and analytic pairs',
 'C20': 'runtime differential and conservation oracle for the observable function',
 'C21': 'runtime differential oracle for the input spectra',
}
NOTE = ('Randomised executions of the real code, every observed value judged by an oracle; no claim beyond the executions explored. '
        'Trusted: hmf, halomod, numpy, scipy, astropy and the reference code in vlib.')
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(f'{root}/vlib/checks/{i.lower()}.py'):
        checks.append(dict(property=i, quick_cmd=f'bash check.sh {i} quick', thorough_cmd=f'bash check.sh {i} thorough',
                           evidence_file=f'evidence/{i}.json', technique=TECH[i], level='exploration', level_note=NOTE))
    else:
        na.append(dict(property=i, reason='check not built yet'))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
               notes='No hooks: all monitors observe the public interface of the unmodified code imported from /repo/src.'),
          open(root + '/MANIFEST.json', 'w'), indent=1)
