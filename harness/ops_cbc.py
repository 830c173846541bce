"""Clustering by committee."""
import os

import numpy as np

from harness import sched
from harness.canon import Bad, num, text
from harness.ops_assoc import fx


def names(n):
    return ['w%d/N' % i for i in range(1, n + 1)]


def index(name, n):
    s = text(name)
    ok = s.startswith('w') and s.endswith('/N') and s[1:-2].isdigit() and 1 <= int(s[1:-2]) <= n
    if not ok:
        raise Bad('no such element: %r' % (name,))
    return int(s[1:-2])


def lists(cs, n):
    if cs is None:
        raise Bad('None instead of committees')
    return [[index(e, n) for e in c] for c in cs]


def scored(L, n, conv=fx, order=True):
    out = []
    for x in L:
        s, c = x
        c = [index(e, n) for e in c]
        out.append([conv(s), c if order else sorted(c)])
    return out


def dense(rows, cols, vals, scale=1.0, sparse=False):
    from nephosem import TypeTokenMatrix
    import scipy.sparse as sp
    a = np.array(vals, dtype=np.float64) / scale
    if sparse:
        a = sp.csr_matrix(a)
    return TypeTokenMatrix(a, list(rows), list(cols))


def op_clean(case, d):
    from nephosem.models import cbc
    n = case['n']
    w = names(n)
    kinds = {'list': list, 'tuple': tuple, 'set': set}
    L = [(s / 4.0, kinds[case['as']](w[i - 1] for i in c)) for s, c in case['l']]
    keep = [(s, list(c)) for s, c in L]
    kept, sing = cbc.clean_clusters(L)
    if [(s, list(c)) for s, c in L] != keep:
        raise Bad('the list was changed')
    return {'kept': scored(kept, n, lambda s: num(s * 4), order=False), 'sing': sorted(index(e, n) for e in sing)}


def op_merge(case, d):
    from nephosem.models import cbc
    a = np.array(case['sim'], dtype=np.float64) / case['scale']
    ps = cbc.get_merged_committee(a, theta=case['theta'] / case['scale'])
    return {'pairs': [[num(i) + 1, num(j) + 1 if j >= 0 else 0] for i, j in ps]}


def threshold(case):
    how, v = case['t']
    if how == 'num':
        return 'distance', v / 100.0 / case['scale']
    if how == 'median' or how == 'mean':
        return 'distance', how
    if how == 'percent':
        return 'distance', '%d%%' % v
    return 'minsize', v


def metric_of(case):
    if case['metric'] == 'func':
        return {'score_metric': 'without_size', 'score_func': lambda size, avgsim: size + avgsim}
    return {'score_metric': case['metric']}


def home(d):
    os.environ['HOME'] = d


def op_step1(case, d):
    from nephosem.models import cbc
    home(d)
    n = len(case['d'])
    w = names(n)
    m = dense(w, w, case['d'], case['scale'])
    els = [w[e - 1] for e in case['els']]
    pm, t = threshold(case)
    k = case['kp'] / 100.0 if case['kp'] else case['k']
    kw = {'distmx': m, 'k': k, 'prune_method': pm, 't': t, 'highest_score': case['highest']}
    kw.update(metric_of(case))
    if case['cpus']:
        with sched.pooled(case['cpus'], case['plan'] or None):
            L = cbc.cbc_step1_multicore(els, **kw)
        left = sorted(os.listdir(os.path.join(d, '.cbc'))) if os.path.isdir(os.path.join(d, '.cbc')) else []
        if left:
            raise Bad('left behind: %r' % left)
    else:
        L = cbc.cbc_step1_single(els, **kw)
    return {'l': scored(L, n)}


def op_step2(case, d):
    from nephosem.models import cbc
    n = len(case['f'])
    w = names(n)
    els = [w[e - 1] for e in case['els']]
    rows = [e - 1 for e in case['els']]
    F, M = np.array(case['f'], dtype=np.float64)[rows], np.array(case['m'], dtype=np.float64)[rows]
    L = [(s / 10000.0, [w[i - 1] for i in c]) for s, c in case['l']]
    comms, mx = cbc.cbc_step2(L, elements=els, freqmx=F, ppmimx=M, theta=case['theta'] / 10000.0)
    return {'comms': lists(comms, n), 'vecs': [[fx(x) for x in r] for r in mx]}


def op_step3(case, d):
    from nephosem.models import cbc
    n = len(case['m'])
    w = names(n)
    els = [w[e - 1] for e in case['els']]
    M = np.array([case['m'][e - 1] for e in case['els']], dtype=np.float64)
    comms = [[w[e - 1] for e in c] for c in case['comms']]
    R, after = cbc.cbc_step3(els, measmx=M, comms=comms, commx=np.array(case['v'], dtype=np.float64),
                             theta=case['th'][0] / case['th'][1])
    return {'res': lists([R], n)[0], 'after': lists(after, n)}


def op_cbc(case, d):
    from nephosem.models import cbc
    from nephosem.specutils.mxcalc import compute_association, compute_distance
    from nephosem import Vocab
    home(d)
    n = len(case['f'])
    w = names(n)
    rows = [w[i - 1] for i in case['roworder']]
    pick = [i - 1 for i in case['roworder']]
    cols = ['f%d' % j for j in range(len(case['f'][0]))]
    F = np.array(case['f'])[pick]
    fm = dense(rows, cols, F, sparse=True)
    mm = dense(rows, cols, np.array(case['m'])[pick], sparse=True) if case['m'] else None
    dm = dense(rows, rows, np.array(case['d'])[pick][:, pick], case['scale']) if case['d'] else None
    pm, t = threshold(case)
    k = case['kp'] / 100.0 if case['kp'] else case['k']
    given = [w[e - 1] for e in case['given']]
    c = cbc.CBC(list(given), fm, measmx=mm, distmx=dm, k=k, theta1=case['theta1'] / 10000.0, theta2=case['theta2'] / 10000.0,
                prune_method=pm, t=t, score_metric=case['metric'], highest_score=case['highest'], num_iter=case['limit'])
    num_eles = len(case['els']) if len(case['els']) < len(given) else -1
    with sched.pooled(case['cpus'] or 16, case['plan'] or None):
        Cs, Rs = c.cluster(num_eles=num_eles, multicore=bool(case['cpus']))
    if len(Cs) != len(Rs):
        raise Bad('%d lists of committees, %d of residues' % (len(Cs), len(Rs)))
    rs = [{'comms': lists(a, n), 'res': lists([b], n)[0]} for a, b in zip(Cs, Rs)]
    # the steps one by one
    if mm is None:
        mm = compute_association(fm, Vocab(fm.sum(axis=1)), Vocab(fm.sum(axis=0)), meas="ppmi")
    if dm is None:
        dm = compute_distance(mm)
    chain, els = [], [w[e - 1] for e in case['els']]
    for r in rs:
        f1, m1, d1 = fm.submatrix(row=els), mm.submatrix(row=els), dm.submatrix(row=els, col=els)
        L = cbc.cbc_step1_single(els, distmx=d1, k=k, prune_method=pm, t=t, score_metric=case['metric'], highest_score=case['highest'])
        A = m1.matrix.toarray()
        comms, mx = cbc.cbc_step2(L, elements=els, freqmx=f1.matrix.toarray(), ppmimx=A, theta=case['theta1'] / 10000.0)
        s = {'l': scored(L, n), 'comms2': lists(comms, n), 'vecs': [[fx(x) for x in v] for v in mx]}
        if len(comms):
            R, after = cbc.cbc_step3(els, measmx=A, comms=comms, commx=mx, theta=case['theta2'] / 10000.0)
        else:
            R, after = els, []
        s['res'], s['comms3'] = lists([R], n)[0], lists(after, n)
        chain.append(s)
        els = [w[e - 1] for e in r['res']]
        if not els:
            break
    return {'rs': rs, 'chain': chain}


OPS = {'cbc_clean': op_clean, 'cbc_merge': op_merge, 'cbc_step1': op_step1, 'cbc_step2': op_step2,
       'cbc_step3': op_step3, 'cbc_run': op_cbc}
