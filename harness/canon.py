"""Canonical observations: plain integers, strings, lists.  A value that has
no canonical form raises Bad, which the specifications judge as the failing
clause "shape" (never as an evaluation error)."""
import numbers
from fractions import Fraction

import numpy as np


class Bad(Exception):
    pass


LIM = 2 ** 31 - 1


def num(x):
    """an integer that TLC can hold"""
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, numbers.Integral):
        v = int(x)
    elif isinstance(x, (numbers.Real, np.floating)):
        f = float(x)
        if f != f or f in (float('inf'), float('-inf')) or f != int(f):
            raise Bad('not an integer: %r' % x)
        v = int(f)
    else:
        raise Bad('not a number: %r' % (x,))
    if abs(v) > LIM:
        raise Bad('number out of range: %r' % (x,))
    return v


def text(x):
    if not isinstance(x, str):
        raise Bad('not text: %r' % (x,))
    return str(x)


def texts(xs):
    if xs is None:
        raise Bad('None instead of a list')
    return [text(x) for x in xs]


def fixed(x, scale=1000000):
    """value as a rounded fixed-point integer; infinities and NaN are marked"""
    f = float(x)
    if f != f:
        raise Bad('NaN')
    v = round(f * scale) if abs(f) != float('inf') else None
    if v is None or abs(v) > LIM:
        raise Bad('out of range: %r' % (x,))
    return int(v)


def ratio(x, maxden=10 ** 4):
    """exact small fraction [n, d], or Bad"""
    if isinstance(x, numbers.Integral):
        return [int(x), 1]
    f = Fraction(float(x)).limit_denominator(maxden)
    if abs(float(f) - float(x)) > 1e-9 * max(1.0, abs(float(x))):
        raise Bad('not a small fraction: %r' % (x,))
    return [f.numerator, f.denominator]


def freq(d):
    return sorted([text(k), num(v)] for k, v in dict(d).items())


def cells(m, conv=num, keepzero=False):
    """cells of a TypeTokenMatrix-like object as [row, col, value], recorded
    cells only for a sparse one, all cells for a dense one"""
    import scipy.sparse as sp
    rows, cols = texts(list(m.row_items)), texts(list(m.col_items))
    a = m.matrix
    out = []
    if sp.issparse(a):
        c = a.tocoo()
        if tuple(c.shape) != (len(rows), len(cols)):
            raise Bad('shape %r for %d rows and %d columns' % (c.shape, len(rows), len(cols)))
        acc = {}
        for i, j, v in zip(c.row, c.col, c.data):
            acc[(int(i), int(j))] = acc.get((int(i), int(j)), 0) + v
        for (i, j), v in acc.items():
            if keepzero or v != 0:
                out.append([rows[i], cols[j], conv(v)])
    else:
        a = np.asarray(a)
        if a.shape != (len(rows), len(cols)):
            raise Bad('shape %r for %d rows and %d columns' % (a.shape, len(rows), len(cols)))
        for i in range(len(rows)):
            for j in range(len(cols)):
                if keepzero or a[i, j] != 0:
                    out.append([rows[i], cols[j], conv(a[i, j])])
    return sorted(out)


def matrix(m, conv=num, keepzero=False):
    import scipy.sparse as sp
    return {'rows': texts(list(m.row_items)), 'cols': texts(list(m.col_items)),
            'cells': cells(m, conv, keepzero),
            'sparse': bool(sp.issparse(m.matrix))}
