"""pandas with symbolic cells.  Symbolic values live in object columns; in CSV text a symbolic value is written as a
unique decimal number (a placeholder), which read_csv turns back into the symbolic value - the reading and writing of the
text itself (header, skipped rows, chunks, columns, appending) is done by pandas"""
import numpy as np
import pandas as pd

from .symex import is_sym

_cells = {}      # placeholder -> symbolic value
_ids = {}
_installed = [False]


def reset():
    _cells.clear()
    _ids.clear()


def text(v):
    """the CSV text of a value"""
    if is_sym(v):
        n = 700000000.0 + len(_cells) + 0.5
        _cells[n] = v
        return repr(n)
    if isinstance(v, float):
        return repr(v)
    return str(v)


def write_csv(path, columns, rows, index=False):
    with open(path, 'w') as f:
        f.write(','.join(([''] if index else []) + [str(c) for c in columns]) + '\n')
        for i, r in enumerate(rows):
            f.write(','.join(([str(i)] if index else []) + [text(v) for v in r]) + '\n')


def resolve(df):
    if not _cells:
        return df
    out = df
    for j in range(df.shape[1]):
        col = df.iloc[:, j]
        if col.dtype.kind == 'f' and any(x in _cells for x in col.tolist()):
            if out is df:
                out = df.copy()
            vals = np.empty(len(col), dtype=object)
            for i, x in enumerate(col.tolist()):
                vals[i] = _cells.get(x, x)
            name = out.columns[j]
            out = pd.concat([out.iloc[:, :j], pd.DataFrame({name: pd.Series(vals, index=out.index, dtype=object)}, index=out.index), out.iloc[:, j + 1:]], axis=1)
    return out


class Reader:
    """chunks of a file"""

    def __init__(self, r):
        self._r = r

    def __iter__(self):
        return self

    def __next__(self):
        return resolve(next(self._r))

    def get_chunk(self, *a, **k):
        return resolve(self._r.get_chunk(*a, **k))

    def read(self, *a, **k):
        return resolve(self._r.read(*a, **k))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._r.close()

    def __getattr__(self, n):
        return getattr(self._r, n)


def install():
    if _installed[0]:
        return
    _installed[0] = True
    real_read = pd.read_csv

    def read_csv(*a, **k):
        r = real_read(*a, **k)
        return resolve(r) if isinstance(r, pd.DataFrame) else Reader(r) if hasattr(r, 'get_chunk') else r
    pd.read_csv = read_csv
    real_to_csv = pd.DataFrame.to_csv

    def to_csv(self, *a, **k):
        out = self
        for j, (c, dt) in enumerate(zip(self.columns, self.dtypes)):
            if dt == object and any(is_sym(x) for x in self.iloc[:, j]):
                out = out.copy() if out is self else out
                out.isetitem(j, [float(text(x)) if is_sym(x) else x for x in self.iloc[:, j]]) if hasattr(out, 'isetitem') \
                    else out.__setitem__(c, [float(text(x)) if is_sym(x) else x for x in self.iloc[:, j]])
        return real_to_csv(out, *a, **k)
    pd.DataFrame.to_csv = to_csv

    def numpy_of(cls):
        real = cls.to_numpy

        def to_numpy(self, dtype=None, *a, **k):
            if dtype is not None and np.dtype(dtype).kind == 'f':
                r = real(self, None, *a, **k)
                if r.dtype == object:
                    if any(is_sym(x) for x in r.flat):
                        return r.copy()
                    return r.astype(dtype)
            return real(self, dtype, *a, **k)
        cls.to_numpy = to_numpy

        real_astype = cls.astype

        def astype(self, dtype, *a, **k):
            if not isinstance(dtype, dict) and dtype in (float, np.float64, 'float', 'float64') and \
                    any(is_sym(x) for x in real(self, object).flat):
                return self.copy()
            return real_astype(self, dtype, *a, **k)
        cls.astype = astype
    numpy_of(pd.DataFrame)
    numpy_of(pd.Series)
