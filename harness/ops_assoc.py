"""Calculations on matrices: association measures, token weights and vectors,
distances, ranks, neighbours."""
import numpy as np

from harness.canon import Bad, texts
from harness.ops_matrix import build, snap, step

FAR = 2000000000


def fx(x, unit=10000):
    """fixed point; anything without a value is FAR"""
    f = float(x)
    if f != f or abs(f) * unit >= FAR:
        return FAR
    return int(round(f * unit))


def snapf(m, unit):
    """like snap, values in fixed point"""
    import scipy.sparse as sp
    rows, cols = texts(list(m.row_items)), texts(list(m.col_items))
    a = m.matrix
    if tuple(a.shape) != (len(rows), len(cols)):
        raise Bad('shape %r for %d rows and %d columns' % (a.shape, len(rows), len(cols)))
    if sp.issparse(a):
        c = a.tocoo()
        acc = {}
        for i, j, v in zip(c.row, c.col, c.data):
            acc[int(i), int(j)] = acc.get((int(i), int(j)), 0) + float(v)
        cells = [[i + 1, j + 1, fx(v, unit)] for (i, j), v in sorted(acc.items())]
        dense = False
    else:
        a = np.asarray(a)
        if a.dtype == object:
            raise Bad('objects')
        cells = [[i + 1, j + 1, fx(a[i, j], unit)] for i in range(a.shape[0]) for j in range(a.shape[1])]
        dense = True
    return {'rows': rows, 'cols': cols, 'dense': dense, 'mask': False, 'cells': cells}


def freqs(how, m, axis, k):
    from nephosem import Vocab
    if how['how'] == 'none':
        return None
    if how['how'] == 'sums':
        return Vocab(m.sum(axis=axis))
    return Vocab({n: v * k for n, v in how['f']})


def op_assoc(case, d):
    from nephosem.specutils import mxcalc
    k = case['k']                  # every count is multiplied by k
    ref = build(case['init'], -k if k > 1 else 1, case.get('fl'))
    m = ref
    for o in case['pre']:
        m = step([m], o, case, 1)[0]
    if case['swap']:
        nf, cf = freqs(case['nf'], ref, 0, k), freqs(case['cf'], ref, 1, k)
    else:
        nf, cf = freqs(case['nf'], ref, 1, k), freqs(case['cf'], ref, 0, k)
    before = (snapf(m, 1), nf and sorted(nf.get_dict().items()), cf and sorted(cf.get_dict().items()))
    if case['fast']:
        kw = {}
        if nf is not None:
            kw['nfreq'] = nf
        if cf is not None:
            kw['cfreq'] = cf
        if case['meas'] == 'pmi':
            kw['positive'] = False
        res = mxcalc.compute_ppmi(m, **kw)
    else:
        kw = {'N': case['n'] * k} if case['n'] else {}
        res = mxcalc.compute_association(m, nf, cf, meas=case['meas'], **kw)
    after = (snapf(m, 1), nf and sorted(nf.get_dict().items()), cf and sorted(cf.get_dict().items()))
    unit = 10000
    if case['meas'] in ('lik', 'llik', 'chisq'):
        unit = 10000 / k
    elif case['meas'] == 'zscore':
        unit = 10000 / k ** 0.5
    for o in case['post']:
        res = step([res], o, case, 1)[0]
    return {'m': snapf(res, unit), 'same': before == after}


def op_weight(case, d):
    from nephosem.specutils import mxcalc
    s = case.get('scale', 1)
    pos, tw = build(case['pos'], 1, case['pos'].get('fl')), build(case['tw'], s, True)
    before = snapf(pos, 1), snapf(tw, 1000)
    kw = {}
    if not case['bool'] or case.get('explicit'):
        kw['booleanize'] = case['bool']
    if case['fmt'] != 'lemma/pos' or case.get('explicit'):
        kw['tokenFormat'] = case['fmt']
    if case['via'] == 'tc':
        from nephosem.models.typetoken import build_tc_weight_matrix
        res = build_tc_weight_matrix(pos, tw)
    else:
        res = mxcalc.compute_token_weights(pos, tw, **kw)
    return {'m': snapf(res, s), 'same': before == (snapf(pos, 1), snapf(tw, 1000))}


def op_vector(case, d):
    from nephosem.specutils import mxcalc
    # both matrices in the unit 1/s: addition is in 1/s^2
    s = case.get('scale', 1)
    w, x = build(case['w'], s, case['w'].get('fl')), build(case['s'], s, case['s'].get('fl'))
    before = snapf(w, 1000), snapf(x, 1000)
    kw = {}
    if case['f'] != 'addition' or case.get('explicit'):
        kw['operation'] = case['f']
    if case['norm'] != 'l1' or case.get('explicit'):
        kw['normalization'] = case['norm']
    res = mxcalc.compute_token_vectors(w, x, **kw)
    unit = 10000
    if case['norm'] == 'no':
        unit = 10000 * (s if case['f'] == 'weightedmean' else s * s)
    return {'m': snapf(res, unit), 'same': before == (snapf(w, 1000), snapf(x, 1000))}


def op_dist(case, d):
    from nephosem.specutils import mxcalc
    s = case.get('scale', 1)
    m = build(case['init'], s, case['init'].get('fl'))
    before = snapf(m, 1000)
    kw = {'axis': case['axis']} if case['axis'] or case.get('explicit') else {}
    if case['metric'] == 'similarity':
        res = mxcalc.compute_cosine(m, **kw)
    else:
        if case['metric'] != 'cosine' or case.get('explicit'):
            kw['metric'] = case['metric']
        res = mxcalc.compute_distance(m, **kw)
    if case['keep']:
        res = res.submatrix(row=list(case['keep']), col=list(case['keep']))
    unit = 10000 if case['metric'] in ('cosine', 'similarity') else 10000 * s
    return {'m': snapf(res, unit), 'same': before == snapf(m, 1000)}


def op_rank(case, d):
    from nephosem.specutils import mxcalc
    m = build(case['init'], case.get('scale', 1), case['init'].get('fl'))
    before = snapf(m, 1000)
    kw = {'reverse': case['up']} if case['up'] or case.get('explicit') else {}
    res = mxcalc.compute_simrank(m, **kw)
    return {'m': snapf(res, 1), 'same': before == snapf(m, 1000)}


def op_near(case, d):
    m = build(case['init'], case.get('scale', 1), case['init'].get('fl'))
    out = []
    for i, k, down in case['queries']:
        kw = {'descending': True} if down else {}
        ref, names = '', []
        try:
            names = texts(m.most_similar(m.row_items[i - 1], k=k, **kw))
        except Bad:
            raise
        except Exception as e:
            ref = type(e).__name__
        out.append({'names': names, 'ref': ref})
    return out


OPS = {'assoc': op_assoc, 'weight': op_weight, 'vector': op_vector, 'dist': op_dist, 'rank': op_rank, 'near': op_near}
