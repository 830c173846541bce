"""Chains from a corpus to distances between tokens."""
import os

from harness.canon import freq, matrix, text, texts
from harness.ops_assoc import fx
from harness.ops_pipe import base_settings, select, write_corpus


def near0(m, unit=10000):
    g = matrix(m, lambda x: fx(x, unit))
    g['cells'] = [t for t in g['cells'] if t[2]]
    return {k: g[k] for k in ('rows', 'cols', 'cells')}


def ints(m):
    g = matrix(m)
    return {k: g[k] for k in ('rows', 'cols', 'cells')}


def setup(case, d):
    paths = write_corpus(case, d)
    os.makedirs(os.path.join(d, 'out'), exist_ok=True)
    return base_settings(case, d), lambda sel='sel': select(dict(case, sel=case[sel]), d, paths)


def pick(v, sel):
    """a vocabulary selected from another one"""
    if sel[0] == 'all':
        return v
    if sel[0] == 'min':
        return v[v.freq >= sel[1]]
    if sel[0] == 'top':
        return v[:sel[1]]
    return v[list(sel[1])]


def op_chain(case, d):
    import scipy.sparse as sp
    from nephosem import ColFreqHandler, ItemFreqHandler, TokenHandler, Vocab
    from nephosem.specutils import mxcalc
    s, fn = setup(case, d)
    W = case['workers']
    freqs = ItemFreqHandler(s, workers=W).build_item_freq(fn())
    out = {'freq': freq(freqs.freq_dict), 'stage': 0, 'nopairs': False, 'same': True}
    rowv, colv = pick(freqs, case['rsel']), pick(freqs, case['csel'])
    out['rowv'], out['colv'] = texts(rowv.get_item_list()), texts(colv.get_item_list())
    full = ColFreqHandler(s, workers=W, row_vocab=freqs, col_vocab=freqs).build_col_freq(fn())
    if full is None:
        return dict(out, nopairs=True)
    out['full'] = ints(full)
    nf, cf = Vocab(full.sum(axis=1)), Vocab(full.sum(axis=0))
    out['nf'], out['cf'] = freq(nf.freq_dict), freq(cf.freq_dict)
    before = [ints(full), out['freq'], out['nf'], out['cf'], out['rowv'], out['colv']]

    part = full.submatrix(row=rowv.get_item_list(), col=colv.get_item_list())
    if part is None:
        return dict(out, same=before[0] == ints(full))
    if case['cut']:
        part = part.multiply(part > case['cut'])
    if not any(t[2] for t in ints(part)['cells']):
        return dict(out, same=before[0] == ints(full))
    if case['tidy']:
        part = part.drop_empty(axis=1)
    out['part'] = ints(part)
    ass = mxcalc.compute_association(part, nfreq=nf, cfreq=cf, meas=case['meas'])
    out['ass'] = near0(ass)
    out['stage'] = 1

    th = TokenHandler(Vocab({q: 1 for q in case['queries']}), settings=s, workers=W)
    try:
        pos = th.retrieve_tokens(fn('tsel'))
    except ValueError:
        return out
    common = [x for x in case['order'] if x in part.col_items and x in pos.col_items]
    if not common:
        return out
    pos = pos.submatrix(col=common)
    wm, fm = ass.submatrix(col=common), part.submatrix(col=common)
    kw = {} if len(case['type']) > 1 else {'tokenFormat': 'lemma'}
    soc = full.submatrix(row=common[::-1] if case['turn'] else common)
    inner = [ints(pos), near0(wm), ints(fm), ints(soc), ints(part), near0(ass)]
    w = mxcalc.compute_token_weights(pos, wm, **kw)
    fw = mxcalc.compute_token_weights(pos, fm, **kw)
    out['w'], out['fw'] = near0(w), ints(fw)
    vec = mxcalc.compute_token_vectors(fw, soc, normalization='no')
    out['vec'] = ints(vec)
    dist = mxcalc.compute_distance(vec, metric='cityblock')
    out['dist'] = ints(dist)
    cos = mxcalc.compute_cosine(vec)
    out['cos'] = near0(cos)
    rank = mxcalc.compute_simrank(dist, reverse=True)
    out['rank'] = ints(rank)
    out['near'] = [[t, k, texts(dist.most_similar(t, k=k))] for t, k in zip(dist.row_items, case['ks'])]
    if case['meas'] == 'ppmi':
        spp = mxcalc.compute_association(soc, nfreq=nf, cfreq=cf, meas='ppmi')
        out['rvec'] = near0(mxcalc.compute_token_vectors(w, spp))
    out['stage'] = 2
    out['same'] = (before == [ints(full), freq(freqs.freq_dict), freq(nf.freq_dict), freq(cf.freq_dict),
                              texts(rowv.get_item_list()), texts(colv.get_item_list())]
                   and inner == [ints(pos), near0(wm), ints(fm), ints(soc), ints(part), near0(ass)]
                   and out['vec'] == ints(vec) and out['dist'] == ints(dist))
    return out


def op_vectorizer(case, d):
    from nephosem import ItemFreqHandler
    from nephosem.models.typetoken import TokenVectorizer, TypeVectorizer
    s, fn = setup(case, d)
    keep = dict(s)
    out = {'nopairs': False, 'ast': 'ok', 'tst': 'ok', 'vst': 'ok', 'concepts': [], 'vecs': []}
    kw = {}
    if case['given'] != 'none':
        v = ItemFreqHandler(s).build_item_freq(fn())
        if case['given'] in ('row', 'both'):
            kw['row_vocab'] = pick(v, case['rsel'])
        if case['given'] in ('col', 'both'):
            kw['col_vocab'] = pick(v, case['csel'])
    tv = TypeVectorizer(s, **kw)
    out['freq'] = freq(tv.build_vocab(fn()).freq_dict)
    full = tv.fit(fn())
    if full is None:
        return dict(out, nopairs=True, same=keep == s)
    out['full'] = ints(full)
    try:
        out['ass'] = near0(tv.vectorize(**({} if case['meas'] == 'ppmi' else {'meas': case['meas']})))
    except (ZeroDivisionError, ValueError):
        out['ast'] = 'exc'
    if case['given'] in ('col', 'both'):
        return dict(out, tst='skip', same=keep == s)
    concepts = {k: list(v) for k, v in case['concepts']}
    tk = TokenVectorizer(concepts, settings=s)
    try:
        got = tk.retrieve_tokens(fn('tsel'))
    except ValueError:
        return dict(out, tst='exc', same=keep == s)
    out['concepts'] = [[text(k), [[text(str(n)), sorted(text(str(t)) for t in n.tokens)] for n in v]] for k, v in got.items()]
    before = ints(full)
    kw = {}
    for n, v in (('freq_cutoff', case['fcut']), ('ppmi_cutoff', case['pcut'] / 10000.0), ('llr_cutoff', case['lcut'] / 10000.0)):
        if v:
            kw[n] = v
    try:
        vecs = tk.generate_vectors(full, **kw)
        out['vecs'] = [dict(near0(m), name=text(k)) for k, m in vecs.items()]
    except Exception:
        out['vst'] = 'exc'
    out['same'] = keep == s and before == ints(full) and concepts == {k: list(v) for k, v in case['concepts']}
    return out


OPS = {'chain': op_chain, 'vectorizer': op_vectorizer}
