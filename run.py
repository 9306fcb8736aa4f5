#!/usr/bin/env python3
"""run.py <property id> [quick|thorough] [--replay FILE]"""
import os, sys
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS', 'NUMEXPR_NUM_THREADS', 'NUMBA_NUM_THREADS'):
    os.environ[v] = '1'
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import common

def main(argv):
    pid = argv[0].upper()
    tier = argv[1] if len(argv) > 1 and not argv[1].startswith('--') else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    replay = argv[argv.index('--replay') + 1] if '--replay' in argv else None
    return common.run(f'vlib.checks.{pid.lower()}', tier, seed, replay)

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
