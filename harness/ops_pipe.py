"""Corpus passes: frequencies, co-occurrences, tokens."""
import hashlib
import os
import signal

from harness import sched
from harness.canon import Bad, cells, freq, matrix, num, text, texts


def base_settings(case, d):
    s = {
        'file-encoding': case.get('enc', 'utf-8'), 'outfile-encoding': 'utf-8',
        'corpus-path': os.path.join(d, 'corpus') + case.get('slash', ''), 'output-path': os.path.join(d, 'out'),
        'tmp-path': os.path.join(d, 'tmp'),
        'line-machine': '\t'.join(['([^\t]+)'] * case.get('ncol', 3)),
        'line-format': ','.join(case.get('cols', ['word', 'pos', 'lemma'])),
        'type': '/'.join(case.get('type', ['lemma', 'pos'])),
        'colloc': '/'.join(case.get('colloc', ['lemma', 'pos'])),
        'token': '/'.join(case.get('token', ['word', 'pos'])) + '/fid/lid',
        'boundary-detection-mechanism': 'single',
        'separator-line-machine': case.get('sep', '</artikel>'),
        'single-boundary-machine': case.get('sep', '</artikel>'),
        'left-boundary-machine': '<artikel>', 'right-boundary-machine': '</artikel>',
        'left-span': case.get('l', 10), 'right-span': case.get('r', 10),
        'wqueries-default-key': '_DEFAULT_',
        'fnames-ext': '.fnames',
    }
    s.update(case.get('settings', {}))
    for k in case.get('drop', []):
        s.pop(k, None)
    return s


def write_corpus(case, d):
    root = os.path.join(d, 'corpus')
    os.makedirs(root, exist_ok=True)
    paths = []
    for f in case['files']:
        p = os.path.join(root, f['fid'] + f.get('ext', '.txt'))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if f.get('raw') is not None:
            data = bytes.fromhex(f['raw'])
        else:
            txt = '\n'.join(f['lines']) + ('\n' if f.get('nl', True) and f['lines'] else '')
            data = txt.encode(case.get('enc', 'utf-8'))
        if not f.get('missing'):
            with open(p, 'wb') as fh:
                fh.write(data)
        paths.append(p)
    return paths


def select(case, d, paths):
    how = case.get('how', 'list')
    sel = [paths[i - 1] for i in case['sel']]
    if how == 'list':
        return sel
    if how == 'file':
        p = os.path.join(d, 'sel.fnames')
        with open(p, 'w', encoding=case.get('enc', 'utf-8')) as fh:
            fh.write('\n'.join(sel) + '\n')
        return p
    if how == 'all':
        return None
    raise ValueError(how)


class Refused(Exception):
    """the tokens have no context at all: there is no matrix to build"""


class Fault(object):
    """Ends or blocks a worker process at a chosen point: when it opens the
    chosen corpus file.  (A stand-in for a process being killed.)"""

    def __init__(self, case, paths):
        self.kind = case.get('fault')
        self.path = os.path.abspath(paths[case['fault_file'] - 1]) if self.kind else None
        self.main = os.getpid()

    def __enter__(self):
        if self.kind in ('kill', 'raise'):
            import builtins
            import io
            self.orig = builtins.open
            orig, path, kind, main = self.orig, self.path, self.kind, self.main

            def opener(f, *a, **k):
                if isinstance(f, str) and os.path.abspath(f) == path and os.getpid() != main:
                    if kind == 'kill':
                        os.kill(os.getpid(), signal.SIGKILL)
                    raise IOError('injected fault')
                return orig(f, *a, **k)
            builtins.open = opener
            io.open = opener
        return self

    def __exit__(self, *a):
        if self.kind in ('kill', 'raise'):
            import builtins
            import io
            builtins.open = self.orig
            io.open = self.orig


def schedule_of(pl, nfiles, workers):
    """what actually happened, 1-based, for the trace"""
    takes = [[e[1] + 1, e[2] + 1] for e in pl.events if e[0] == 'take']
    exits = [e[1] + 1 for e in pl.events if e[0] == 'exit']
    return {'takes': takes, 'exits': exits, 'honoured': bool(pl.honoured)}


def vocab(items, case):
    """a vocabulary built at once or item by item"""
    from nephosem import Vocab
    if case.get('grown') == 'inc':
        v = Vocab()
        for x in items:
            v.increment(x)
    elif case.get('grown') == 'set':
        v = Vocab()
        for x in items:
            v[x] = 1
    else:
        v = Vocab({x: i + 1 for i, x in enumerate(items)})
    return v


def handler_run(case, d):
    if case.get('cpus'):
        with sched.pooled(case['cpus']):
            return _handler_run(case, d)
    return _handler_run(case, d)


def _handler_run(case, d):
    paths = write_corpus(case, d)
    os.makedirs(os.path.join(d, 'out'), exist_ok=True)
    s = base_settings(case, d)
    fn = select(case, d, paths)
    W = case.get('workers', 2)
    kind = case['kind']
    if kind == 'freq':
        from nephosem import ItemFreqHandler
        h = ItemFreqHandler(s, workers=W)

        def go(fn):
            return h.build_item_freq(fn)
    elif kind == 'cofreq':
        from nephosem import ColFreqHandler
        row = vocab(case['rows'], case)
        col = None if case.get('anyctx') else vocab(case['ctx'], case)
        if case.get('vocab_at') == 'init':
            h = ColFreqHandler(s, workers=W, row_vocab=row, col_vocab=col)

            def go(fn):
                return h.build_col_freq(fn)
        else:
            if case.get('vocab_at') == 'both':       # the ones of the call count
                h = ColFreqHandler(s, workers=W, row_vocab=vocab(['q/N'] + case['rows'][:1], {}),
                                   col_vocab=col and vocab(['q/N'] + case['ctx'][1:], {}))
            else:
                h = ColFreqHandler(s, workers=W)

            def go(fn):
                return h.build_col_freq(fn, row_vocab=row, col_vocab=col)
    elif kind == 'tokens':
        from nephosem import TokenHandler
        q = vocab(case['rows'], case)
        col = None if case.get('anyctx') else vocab(case['ctx'], case)
        h = TokenHandler(q, settings=s, workers=W, col_vocab=col)

        def go(fn):
            return h.retrieve_tokens(fn)
    else:
        raise ValueError(kind)
    for e in case.get('earlier', []):          # earlier passes with the same handler
        try:
            go([paths[i - 1] for i in e])
        except ValueError:                     # no token has a context
            if kind != 'tokens':
                raise
    plan = case.get('plan')
    sc = {'takes': [], 'exits': [], 'honoured': False}
    with Fault(case, paths):
        if plan:
            pl = sched.planned({'assign': [x - 1 for x in plan['assign']],
                                'exit': [x - 1 for x in plan['exit']]})
            try:
                with pl:
                    res = go(fn)
            except ValueError:
                if kind != 'tokens':
                    raise
                raise Refused(h, schedule_of(pl, len(case['sel']), W))
            finally:
                sc = schedule_of(pl, len(case['sel']), W)
        else:
            try:
                res = go(fn)
            except ValueError:
                if kind != 'tokens':
                    raise
                raise Refused(h, sc)
    return h, res, sc


def op_freq(case, d):
    h, res, sc = handler_run(dict(case, kind='freq'), d)
    return {'freq': freq(res.freq_dict), 'sched': sc}


def op_cofreq(case, d):
    h, res, sc = handler_run(dict(case, kind='cofreq'), d)
    if res is None:
        return {'none': True, 'rows': [], 'cols': [], 'cells': [], 'sched': sc}
    m = matrix(res)
    return {'none': False, 'rows': m['rows'], 'cols': m['cols'], 'cells': m['cells'], 'sched': sc}


def tokens_of(h):
    out = []
    for ty, node in h.type2toks.items():
        if text(ty) != str(node):
            raise Bad('type %r holds the tokens of %r' % (ty, str(node)))
        for t in node.tokens:
            out.append({'ty': text(ty), 'fid': text(t.fid), 'lid': text(t.lid), 'name': text(str(t)),
                        'left': [text(x.to_colloc()) for x in t.lcollocs],
                        'right': [text(x.to_colloc()) for x in t.rcollocs],
                        # the lines the context words stand on
                        'lat': ['%s#%s' % (x.fid, x.lid) for x in t.lcollocs], 'rat': ['%s#%s' % (x.fid, x.lid) for x in t.rcollocs]})
    out.sort(key=lambda t: (t['ty'], t['fid'], int(t['lid'])))
    return out


def op_tokens(case, d):
    try:
        h, res, sc = handler_run(dict(case, kind='tokens'), d)
    except Refused as r:
        h, sc = r.args
        return {'nomtx': True, 'toks': tokens_of(h), 'types': sorted(texts(h.type2toks.keys())), 'sched': sc,
                'rows': [], 'cols': [], 'cells': []}
    if res is None:
        raise Bad('no matrix')
    m = matrix(res)
    return {'nomtx': False, 'toks': tokens_of(h), 'types': sorted(texts(h.type2toks.keys())), 'sched': sc,
            'rows': m['rows'], 'cols': m['cols'], 'cells': m['cells']}


OPS = {'freq': op_freq, 'cofreq': op_cofreq, 'tokens': op_tokens}
