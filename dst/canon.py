"""Canonical, comparable and picklable forms of everything the library returns."""
import re

import numpy as np
import pandas as pd
import xarray as xr

_HEX = re.compile(r'0x[0-9a-fA-F]+')

# tolerances: the oracle runs the same code on the same input, so answers are
# expected to be bit-identical; the slack only absorbs memory-alignment effects
FLOAT_ATOL = 1e-7
FLOAT_RTOL = 1e-9
TIME_ATOL_NS = 100_000


def _arr(a):
    return np.array(a, copy=True)


def canon(x):
    if isinstance(x, xr.DataArray):
        coords = {str(k): (tuple(map(str, v.dims)), _arr(v.values), {str(a): canon(b) for a, b in v.attrs.items()})
                  for k, v in x.coords.items()}
        return ('da', str(x.name), tuple(map(str, x.dims)), _arr(x.values), coords,
                {str(k): canon(v) for k, v in x.attrs.items()})
    if isinstance(x, pd.DatetimeIndex):
        return ('idx', str(x.tz), np.array(x.asi8, copy=True).astype('int64'), str(x.dtype), str(x.name), str(x.freq))
    if isinstance(x, pd.DataFrame):
        return ('df', tuple(map(str, x.columns)), canon(x.index), _arr(x.values))
    if isinstance(x, np.ndarray):
        return ('np', _arr(x))
    if isinstance(x, BaseException):
        return ('exc', type(x).__name__, _HEX.sub('0x', str(x))[:400])
    if isinstance(x, dict):
        return ('dict', {str(k): canon(v) for k, v in x.items()})
    if isinstance(x, (list, tuple)):
        return ('seq', [canon(v) for v in x])
    if isinstance(x, (bool, np.bool_)):
        return ('v', bool(x))
    if isinstance(x, (int, np.integer)):
        return ('v', int(x))
    if isinstance(x, (float, np.floating)):
        return ('np', np.array(float(x)))
    if x is None or isinstance(x, str):
        return ('v', x)
    return ('obj', type(x).__name__, _HEX.sub('0x', repr(x)))


def diff_arr(a, b, where=''):
    if a.dtype.kind != b.dtype.kind:
        return f'{where}: dtype {b.dtype} != expected {a.dtype}'
    if a.shape != b.shape:
        return f'{where}: shape {b.shape} != expected {a.shape}'
    if a.size == 0:
        return None
    k = a.dtype.kind
    if k in 'fc':
        na, nb = np.isnan(a), np.isnan(b)
        if (na != nb).any():
            i = int(np.argmax((na != nb).ravel()))
            return f'{where}: NaN pattern differs at flat index {i}: got {b.ravel()[i]} expected {a.ravel()[i]}'
        with np.errstate(all='ignore'):
            bad = ~((a == b) | (np.abs(a - b) <= FLOAT_ATOL + FLOAT_RTOL * np.abs(a)) | na)
        if bad.any():
            i = int(np.argmax(bad.ravel()))
            return (f'{where}: {int(bad.sum())}/{a.size} values differ, first at flat index {i}: '
                    f'got {float(b.ravel()[i])!r} expected {float(a.ravel()[i])!r}')
        return None
    if k in 'mM':
        ai = a.astype(a.dtype.str[:2] + '8[ns]').astype('int64')
        bi = b.astype(b.dtype.str[:2] + '8[ns]').astype('int64')
        nat = np.iinfo('int64').min
        if ((ai == nat) != (bi == nat)).any():
            return f'{where}: NaT pattern differs'
        bad = np.abs(ai - bi) > TIME_ATOL_NS
        if bad.any():
            i = int(np.argmax(bad.ravel()))
            return (f'{where}: {int(bad.sum())}/{a.size} times differ, first at flat index {i}: '
                    f'got {b.ravel()[i]} expected {a.ravel()[i]}')
        return None
    if not np.array_equal(a, b):
        bad = (a != b).ravel()
        i = int(np.argmax(bad))
        return f'{where}: values differ at flat index {i}: got {b.ravel()[i]!r} expected {a.ravel()[i]!r}'
    return None


def diff(a, b, where=''):
    """None when b matches the expected a; otherwise a one-line description."""
    if a[0] != b[0]:
        return f'{where}: got {short(b)} expected {short(a)}'
    k = a[0]
    if k == 'da':
        if a[1] != b[1]:
            return f'{where}: name {b[1]!r} != expected {a[1]!r}'
        if a[2] != b[2]:
            return f'{where}: dims {b[2]} != expected {a[2]}'
        d = diff_arr(a[3], b[3], where)
        if d:
            return d
        if set(a[4]) != set(b[4]):
            return f'{where}: coords {sorted(b[4])} != expected {sorted(a[4])}'
        for c in a[4]:
            if a[4][c][0] != b[4][c][0]:
                return f'{where}.coords[{c}]: dims {b[4][c][0]} != expected {a[4][c][0]}'
            d = diff_arr(a[4][c][1], b[4][c][1], f'{where}.coords[{c}]')
            if d:
                return d
            if a[4][c][2].keys() != b[4][c][2].keys() or any(diff(v, b[4][c][2][n]) for n, v in a[4][c][2].items()):
                return f'{where}.coords[{c}]: attrs {b[4][c][2]} != expected {a[4][c][2]}'
        if set(a[5]) != set(b[5]):
            return f'{where}: attrs {sorted(b[5])} != expected {sorted(a[5])}'
        for c in a[5]:
            d = diff(a[5][c], b[5][c], f'{where}.attrs[{c}]')
            if d:
                return d
        return None
    if k == 'idx':
        if a[1] != b[1]:
            return f'{where}: zone {b[1]} != expected {a[1]}'
        if a[2].shape != b[2].shape or not np.array_equal(a[2], b[2]):
            return f'{where}: times differ: got {b[2][:3]}.. expected {a[2][:3]}..'
        if a[4:] != b[4:]:
            return f'{where}: name and freq of the index are {b[4:]}, expected {a[4:]}'
        return None
    if k == 'df':
        if a[1] != b[1]:
            return f'{where}: columns {b[1]} != expected {a[1]}'
        return diff(a[2], b[2], where + '.index') or diff_arr(a[3], b[3], where)
    if k == 'np':
        return diff_arr(a[1], b[1], where)
    if k == 'dict':
        if set(a[1]) != set(b[1]):
            return f'{where}: keys {sorted(b[1])} != expected {sorted(a[1])}'
        for c in a[1]:
            d = diff(a[1][c], b[1][c], f'{where}[{c}]')
            if d:
                return d
        return None
    if k == 'seq':
        if len(a[1]) != len(b[1]):
            return f'{where}: length {len(b[1])} != expected {len(a[1])}'
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            d = diff(x, y, f'{where}[{i}]')
            if d:
                return d
        return None
    if a != b:
        return f'{where}: got {short(b)} expected {short(a)}'
    return None


def short(c):
    if c[0] in ('da',):
        return f'DataArray {c[1]} shape {c[3].shape}'
    if c[0] == 'exc':
        return f'{c[1]}({c[2][:160]!r})'
    s = repr(c)
    return s if len(s) < 200 else s[:200] + '...'
