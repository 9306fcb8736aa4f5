"""A recording stand-in for the CosmoSIS data block (cosmosis itself is not installed), and a loader for the modules that use it."""
import importlib.util, os, sys, types
import numpy as np
from .common import REPO

OPT = 'module_options'
COSMO = 'cosmological_parameters'


class BlockError(ValueError):
    pass


class DataBlock:
    fail_at = None               # number of the write that fails (fault injection)

    def __init__(self, data=None):
        self.d = {}
        self.meta = {}
        self.log = []            # every write: (op, section, name)
        for (s, n), v in (data or {}).items():
            self.d[s.lower(), n.lower()] = v

    def k(self, s, n):
        return str(s).lower(), str(n).lower()

    def has_value(self, s, n):
        return self.k(s, n) in self.d

    def has_section(self, s):
        return any(a == s.lower() for a, _ in self.d)

    def _get(self, s, n, default=None, conv=None):
        key = self.k(s, n)
        if key not in self.d:
            if default is None:
                raise BlockError(f'not found: {key}')
            return default
        v = self.d[key]
        if conv is float:
            if isinstance(v, (str, bool)) or np.ndim(v):
                raise BlockError(f'wrong type: {key}')
            return float(v)
        if conv is int:
            if isinstance(v, (str, bool)) or np.ndim(v) or int(v) != v:
                raise BlockError(f'wrong type: {key}')
            return int(v)
        if conv is bool:
            return bool(v)
        if conv is str:
            if not isinstance(v, str):
                raise BlockError(f'wrong type: {key}')
        return v.copy() if isinstance(v, np.ndarray) else v

    def get(self, s, n):
        return self._get(s, n)

    def get_double(self, s, n, default=None):
        return self._get(s, n, default, float)

    def get_int(self, s, n, default=None):
        return self._get(s, n, default, int)

    def get_bool(self, s, n, default=None):
        return self._get(s, n, default, bool)

    def get_string(self, s, n, default=None):
        return self._get(s, n, default, str)

    def get_double_array_1d(self, s, n, default=None):
        return self._get(s, n, default)

    def get_double_array_nd(self, s, n, default=None):
        return self._get(s, n, default)

    def __getitem__(self, key):
        return self._get(*key)

    def _fault(self):
        if self.fail_at is not None and len(self.log) + 1 >= self.fail_at:
            raise BlockError('injected fault: the block refuses the write')

    def _set(self, op, s, n, v, kind=None):
        self._fault()
        if kind == '1d':
            v = np.array(v, float)
            if v.ndim != 1:
                raise BlockError(f'{s}.{n}: not a 1d array {v.shape}')
        elif kind == 'nd':
            v = np.array(v, float)
        elif isinstance(v, np.ndarray):
            v = np.array(v)
        self.log.append((op, *self.k(s, n)))
        self.d[self.k(s, n)] = v

    def _put(self, s, n, v, kind=None):
        if self.k(s, n) in self.d:
            raise BlockError(f'already in the block: {s}.{n}')
        self._set('put', s, n, v, kind)

    def _replace(self, s, n, v, kind=None):
        if self.k(s, n) not in self.d:
            raise BlockError(f'nothing to replace: {s}.{n}')
        self._set('replace', s, n, v, kind)

    def __setitem__(self, key, v):
        self._set('set', *key, v)

    def put(self, s, n, v):
        self._put(s, n, v)

    put_double = put_int = put_string = put_bool = put

    def replace(self, s, n, v):
        self._replace(s, n, v)

    replace_double = replace_int = replace_string = replace_bool = replace

    def put_double_array_1d(self, s, n, v):
        self._put(s, n, v, '1d')

    def put_double_array_nd(self, s, n, v):
        self._put(s, n, v, 'nd')

    def replace_double_array_1d(self, s, n, v):
        self._replace(s, n, v, '1d')

    def replace_double_array_nd(self, s, n, v):
        self._replace(s, n, v, 'nd')

    def _grid(self, op, s, nx, x, ny, y, nz, z):
        x, y, z = (np.array(a, float) for a in (x, y, z))
        if x.ndim != 1 or y.ndim != 1 or z.shape != (x.size, y.size):
            raise BlockError(f'{s}.{nz}: grid shapes {x.shape} {y.shape} {z.shape}')
        for n, v in ((nx, x), (ny, y)):
            if self.has_value(s, n) and not np.array_equal(self.d[self.k(s, n)], v) and op == 'put':
                raise BlockError(f'{s}.{n}: axis changed')
            self._set('axis', s, n, v)
        if op == 'put':
            self._put(s, nz, z)
        else:
            self._set('replace', s, nz, z)

    def put_grid(self, *a):
        self._grid('put', *a)

    def replace_grid(self, *a):
        self._grid('replace', *a)

    def get_metadata(self, s, n, key):
        try:
            return self.meta[(*self.k(s, n), key)]
        except KeyError:
            raise BlockError(f'no metadata {s}.{n}.{key}')

    def put_metadata(self, s, n, key, v):
        self.meta[(*self.k(s, n), key)] = v

    replace_metadata = put_metadata


def options(**kw):
    return DataBlock({(OPT, k): v for k, v in kw.items() if v is not None})


def load(rel):
    """A fresh copy of a CosmoSIS module of the repository, with the stand-in for cosmosis in place."""
    top, db = types.ModuleType('cosmosis'), types.ModuleType('cosmosis.datablock')
    db.option_section = OPT

    class Names:
        def __getattr__(self, n):
            return n
    db.names = Names()
    db.DataBlock = DataBlock
    db.BlockError = BlockError
    top.datablock = db
    sys.modules['cosmosis'], sys.modules['cosmosis.datablock'] = top, db
    path = os.path.join(REPO, 'cosmosis_modules', rel)
    d = os.path.dirname(path)
    if d not in sys.path:
        sys.path.insert(0, d)
    spec = importlib.util.spec_from_file_location('cm_' + os.path.basename(rel)[:-3], path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod
