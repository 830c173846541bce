"""Labelled matrices: histories and files."""
import os

import numpy as np

from harness.canon import Bad, num, text, texts


def build(s, scale, as_float):
    """a matrix object from its recorded cells"""
    import scipy.sparse as sp
    from nephosem import TypeTokenMatrix
    shape = (len(s['rows']), len(s['cols']))
    # scale k: the unit is 1/k; scale -k: the unit is k
    whole = bool(s.get('whole'))
    dt = np.float64 if (as_float or scale > 1 and not whole) else np.int64
    r = np.array([c[0] - 1 for c in s['cells']], dtype=int)
    k = np.array([c[1] - 1 for c in s['cells']], dtype=int)
    v = np.array([c[2] for c in s['cells']], dtype=dt)
    if s['mask']:
        v = v.astype(bool)
    elif whole:
        v = v // scale
    elif scale > 1:
        v = v / scale
    elif scale < 0:
        v = v * -scale
    if s['dense']:
        a = np.zeros(shape, dtype=v.dtype)
        a[r, k] = v
        return TypeTokenMatrix(a, list(s['rows']), list(s['cols']))
    fmt = s.get('fmt', 'csr')
    m = sp.coo_matrix((v, (r, k)), shape=shape)
    m = m.tocsr() if fmt == 'csr' else m.tocsc()
    return TypeTokenMatrix(m, list(s['rows']), list(s['cols']))


def value(x, scale):
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if scale < 0:
        if int(x) != x or int(x) % scale:
            raise Bad('not a multiple of the unit: %r' % x)
        return num(int(x) // -scale)
    return num(x * scale)


def snap(m, scale):
    import scipy.sparse as sp
    rows, cols = texts(list(m.row_items)), texts(list(m.col_items))
    a = m.matrix
    if tuple(a.shape) != (len(rows), len(cols)) or tuple(m.shape) != tuple(a.shape):
        raise Bad('shape %r for %d rows and %d columns' % (a.shape, len(rows), len(cols)))
    cells = []
    if sp.issparse(a):
        c = a.tocoo()
        acc = {}
        for i, j, v in zip(c.row, c.col, c.data):
            acc[(int(i), int(j))] = acc.get((int(i), int(j)), 0) + value(v, scale)
        cells = [[i + 1, j + 1, v] for (i, j), v in sorted(acc.items())]
        dense = False
    elif isinstance(a, np.ndarray) and a.ndim == 2:
        cells = [[i + 1, j + 1, value(a[i, j], scale)] for i in range(a.shape[0]) for j in range(a.shape[1])]
        dense = True
    else:
        raise Bad('kind of matrix: %r' % type(a))
    return {'rows': rows, 'cols': cols, 'dense': dense, 'mask': a.dtype == bool, 'cells': cells}


def flat(x, scale):
    import scipy.sparse as sp
    if sp.issparse(x):
        x = x.toarray()
    return [value(v, scale) for v in np.asarray(x).ravel().tolist()]


def index(m, a, b, style):
    def one(t):
        if t[0] == 'n':
            return t[1]
        if t[0] == 'i':
            return t[1] - 1
        if t[0] == 's':
            return slice(t[1] - 1, t[2])
        return slice(None)
    if b[0] == '-' and style:
        return m[one(a)]
    return m[one(a), one(b)]


def cmp(m, c, n):
    return {'<': lambda: m < n, '<=': lambda: m <= n, '>': lambda: m > n, '>=': lambda: m >= n}[c]()


def step(objs, o, case, scale):
    """returns (new object or None, r, names, trip)"""
    from nephosem.core.matrix import TypeTokenMatrix
    from nephosem.specutils import mxutils
    m, y = objs[o['x'] - 1], objs[o['y'] - 1]
    f = o['f']
    if m.matrix.dtype == bool and f != 'mask':
        scale = 1
    if f == 'sub':
        kw = {}
        if o['hr']:
            kw['row'] = list(o['nr'])
        if o['hc']:
            kw['col'] = list(o['nc'])
        res = m.submatrix(**kw)
        for k, v in (('row', o['nr']), ('col', o['nc'])):
            if k in kw and kw[k] != list(v):
                raise Bad('argument changed')
        return res, [], [], []
    if f == 'reorder':
        return m.reorder(list(o['nr']), axis=o['axis']), [], [], []
    if f == 'transpose':
        return m.transpose(), [], [], []
    if f == 'todense':
        return m.todense(), [], [], []
    if f == 'copy':
        return (m.copy() if o['n'] == 0 else m.deepcopy()), [], [], []
    if f == 'drop':
        return m.drop(axis=o['axis'], n_nonzero=o['n']), [], [], []
    if f == 'drop_empty':
        return m.drop_empty(axis=o['axis'], explicit=bool(o['n'])), [], [], []
    if f == 'sample':
        p = o['n'] / 100 if o['n'] < 100 else o['n'] // 100
        kw = dict(percent=p, replace=bool(o['hr']))
        if o['hc']:
            kw['seed'] = o['axis']
        res = m.sample(**kw)
        if o['hc']:
            again = m.sample(**kw)
            if again.row_items != res.row_items:
                raise Bad('same seed, other sample')
        return res, [], [], []
    if f == 'mask':
        n = o['n'] * -scale if scale < 0 else o['n'] / scale if (scale != 1 or o.get('fl')) else o['n']
        return cmp(m, o['cmp'], n), [], [], []
    if f == 'mult':
        return m.multiply(y), [], [], []
    if f == 'merge':
        return m.merge(y), [], [], []
    if f == 'merge2':
        return mxutils.merge_two_matrices(m, y), [], [], []
    if f == 'mergeall':
        a, r, c = mxutils.merge_matrices([objs[i - 1] for i in o['ys']])
        return TypeTokenMatrix(a, r, c), [], [], []
    if f == 'concat':
        return m.concatenate(y, axis=o['axis']), [], [], []
    if f == 'dict':
        d = mxutils.transform_spmatrix_to_dict(m.matrix, m.row_items, m.col_items)
        return TypeTokenMatrix(mxutils.transform_dict_to_spmatrix(d, m.row_items, m.col_items), m.row_items, m.col_items), [], [], []
    if f == 'todict':
        d = mxutils.transform_spmatrix_to_dict(m.matrix, m.row_items, m.col_items)
        return None, [], [], [[text(r), text(c), value(v, scale)] for r, row in d.items() for c, v in row.items()]
    if f == 'get':
        return None, flat(index(m, o['ga'], o['gb'], o['n'] == 0), scale), [], []
    if f == 'sum':
        if o['axis'] == 2:
            return None, [value(m.sum(), scale)], [], []
        d = m.sum(axis=o['axis'])
        return None, [value(v, scale) for v in d.values()], texts(d.keys()), []
    if f == 'count':
        return None, [num(v) for v in np.asarray(m.count_nonzero(axis=o['axis'])).ravel().tolist()], [], []
    if f == 'empty_rows':
        return None, [], texts(m.empty_rows(explicit=bool(o['n']))), []
    if f == 'equal':
        return None, [1 if m.equal(y) else 0], [], []
    if f == 'frame':
        df = m.dataframe
        return None, flat(df.values.astype(float), scale), texts(df.index.tolist()) + texts(df.columns.tolist()), []
    if f == 'colloc':
        return None, [], texts(m.get_colloc_contexts(o['nr'][0])), []
    if f == 'copyout':
        a = m.get_matrix()
        (a.data if hasattr(a, 'indptr') else a)[...] = 7 if a.dtype != bool else False
        return None, [], [], []
    if f == 'show':
        if str(m) != repr(m):
            raise Bad('str and repr differ')
        return shown(m, scale, o)
    if f == 'csv':
        import tempfile
        fd, p = tempfile.mkstemp(suffix='.csv')
        os.close(fd)
        enc = ['utf-8', 'utf-16'][o['n'] % 2]
        m.to_csv(p, sep=o['cmp'], encoding=enc, verbose=False)
        try:
            return TypeTokenMatrix.read_csv(p, sep=o['cmp'], index_col=0, issparse=not isinstance(m.matrix, np.ndarray),
                                            encoding=enc), [], [], []
        finally:
            os.remove(p)
    raise ValueError(f)


NOTHING = 99999


def shown(m, scale, o):
    """the printed table: labels and values (NOTHING for NaN)"""
    t = m.print_matrix(n_rows=o['n'], n_cols=o['axis']) if o['n'] else str(m)
    if scale < 0 or any(' ' in x for x in m.row_items + m.col_items):
        return None, [], ['-'], []
    lines = [x.split() for x in t.splitlines()]
    if lines[0][:2] != ['[%d,' % len(m.row_items), '%d]' % len(m.col_items)]:
        raise Bad('shape shown as %r' % lines[0][:2])
    cols = lines[0][2:]
    rows = lines[1:]
    if cols and cols[-1] == '...':
        cols = cols[:-1]
        if any(x[-1] != '...' for x in rows):
            raise Bad('ellipsis')
        rows = [x[:-1] for x in rows]
    if rows and rows[-1][0] == '...':
        rows = rows[:-1]
    r = []
    for x in rows:
        if len(x) != len(cols) + 1:
            raise Bad('row shown as %r' % x)
        for v in x[1:]:
            r.append(NOTHING if v.lower() == 'nan' else int(v == 'True') if v in ('True', 'False') else value(float(v), scale))
    return None, r, [x[0] for x in rows] + cols, []


MAKERS = {'csv', 'sub', 'reorder', 'transpose', 'todense', 'copy', 'drop', 'drop_empty', 'sample', 'mask', 'mult', 'merge', 'merge2',
          'mergeall', 'concat', 'dict'}


def op_mxhist(case, d):
    scale = case.get('scale', 1)
    objs = [build(s, scale, s.get('fl', case.get('float'))) for s in case['init']]
    out = []
    for o in case['ops']:
        none, ref = False, ''
        r, names, trip = [], [], []
        try:
            new, r, names, trip = step(objs, o, case, scale)
            if o['f'] in MAKERS:
                none = new is None
                if new is not None:
                    objs.append(new)
        except Bad:
            raise
        except Exception as e:
            ref = type(e).__name__
        out.append({'r': r, 'names': names, 'trip': trip, 'none': none, 'ref': ref,
                    'snap': [snap(x, scale) for x in objs]})
        if ref:
            # the remaining operations may refer to an object that is not there
            if o['f'] in MAKERS:
                break
    return out


def listing(d):
    out = {}
    for root, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            out[os.path.relpath(p, d)] = open(p, 'rb').read()
        for x in ds:
            out[os.path.relpath(os.path.join(root, x), d) + '/'] = b''
    return out


def op_mxfile(case, d):
    from nephosem import TypeTokenMatrix
    scale = case.get('scale', 1)
    mats = [build(s, scale, s.get('fl')) for s in case['mats']]
    w = os.path.join(d, 'w')
    os.makedirs(w)
    os.chdir(w)
    for n in [o['own'] for o in case['ops']] + case['present']:
        if os.path.dirname(n):
            os.makedirs(os.path.dirname(n), exist_ok=True)
    for n in case['present']:
        with open(n, 'w') as f:
            f.write('not yours: ' + n)
    out = []
    none = {'rows': [], 'cols': [], 'dense': False, 'mask': False, 'cells': []}
    for o in case['ops']:
        before = listing(w)
        ref, obj = '', none
        name = o['name'] if o['rel'] else os.path.join(w, o['name'])
        kw = {} if o['enc'] == '' else {'encoding': o['enc']}
        if not o['pack']:
            kw['pack'] = False
        try:
            if o['f'] == 'move':
                os.rename(o['from'] + '.pac', o['own'])
            elif o['f'] == 'save':
                mats[o['m'] - 1].save(name, verbose=False, **kw)
                snapnow = snap(mats[o['m'] - 1], scale)
                if snapnow != snap(build(case['mats'][o['m'] - 1], scale, case['mats'][o['m'] - 1].get('fl')), scale):
                    raise Bad('saving changed the matrix')
            else:
                obj = snap(TypeTokenMatrix.load(name, **kw), scale)
        except Bad:
            raise
        except Exception as e:
            ref = type(e).__name__
        after = listing(w)
        mine = {o['own'], o.get('from', '') + '.pac'} | set(o['stale'] if o['f'] == 'save' and not o['pack'] else [])
        others = all(after.get(k) == v for k, v in before.items() if k not in mine)
        out.append({'ref': ref, 'obj': obj, 'files': sorted(x for x in after if x[-1] != '/'), 'others': others})
    return out


OPS = {'mxhist': op_mxhist, 'mxfile': op_mxfile}
