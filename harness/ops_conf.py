"""Configuration, corpus formats, file selection, word queries."""
import codecs
import logging
import os

from harness.canon import Bad, cells, freq, matrix, text, texts
from harness.ops_pipe import base_settings


def ini_text(doc, style):
    """an ini file with these sections and options, in one of several styles"""
    out = ['# a comment', '; another'] if style & 1 else []
    eq = ['=', ' = ', ' : ', ':'][(style >> 1) % 4]
    for sec in doc:
        out.append('[%s]' % sec['name'])
        for k, v in sec['opts']:
            if style & 8:
                out.append('# %s = something else' % k)
            out.append('%s%s%s%s' % (k, eq, v, '  ' if style & 16 else ''))
        if style & 32:
            out.append('')
    return '\n'.join(out) + ('' if style & 64 else '\n')


def tagged(v):
    if isinstance(v, bool):
        raise Bad('truth value')
    if isinstance(v, int):
        return '#%d' % v
    return '=' + text(v)


def pairs(d, inv):
    out = []
    for k in sorted(d):
        v = tagged(d[k])
        out.append([text(k), v if k not in ('corpus-path', 'output-path') else '=' + inv.get(v[1:], v[1:])])
    return out


def op_conf_hist(case, d):
    from nephosem import ColFreqHandler, ConfigLoader, ItemFreqHandler, TokenHandler, Vocab
    from nephosem.core.terms import CorpusFormatter, ItemNode
    from nephosem.models.deprel import DepRelHandler
    from nephosem.models.typetoken import TypeVectorizer
    logging.disable(logging.CRITICAL)
    try:
        real = {}
        for name, files in case['corpora'].items():
            real[name] = os.path.join(d, name)
            os.makedirs(real[name])
            for f in files:
                with open(os.path.join(real[name], f['fid'] + '.txt'), 'w', encoding='utf-8') as fh:
                    fh.write('\n'.join(f['lines']) + '\n')
        for name in ('O1', 'O2'):
            real[name] = os.path.join(d, name)
        inv = {v: k for k, v in real.items()}
        lo, di, ha, kinds, out = [], [], [], [], []

        def conf(o):
            return None if o['n'] == 0 else os.path.join(d, 'conf%d.ini' % o['n'])

        def value(v):
            return int(v[1:]) if v[0] == '#' else real.get(v[1:], v[1:])
        for i, o in enumerate(case['ops']):
            f, x, r = o['f'], o['x'] - 1, []
            if f == 'write':
                doc = [{'name': s['name'], 'opts': [[k, real.get(v, v)] for k, v in s['opts']]} for s in o['doc']]
                with open(conf(o), 'w', encoding='utf-8') as fh:
                    fh.write(ini_text(doc, case['style'] + i))
            elif f == 'loader':
                lo.append(ConfigLoader() if o['n'] == 0 else ConfigLoader(conf(o)))
            elif f == 'get':
                di.append(lo[x].settings)
            elif f == 'update':
                di.append(lo[x].update_config(conf(o)))
            elif f == 'copy':
                di.append(dict(di[x]))
            elif f == 'set':
                di[x][o['k']] = value(o['v'])
            elif f == 'del':
                di[x].pop(o['k'], None)
            elif f == 'handler':
                s = di[x]
                kinds.append(o['s'])
                if o['s'] == 'fmt':
                    ha.append(CorpusFormatter(s))
                elif o['s'] == 'item':
                    ha.append(ItemFreqHandler(s, workers=1))
                elif o['s'] == 'col':
                    ha.append(ColFreqHandler(s, workers=1))
                elif o['s'] == 'tok':
                    ha.append(TokenHandler(Vocab({'/'.join('a' for _ in s['type'].split('/')): 1}), settings=s, workers=1))
                elif o['s'] == 'dep':
                    ha.append(DepRelHandler(s, workers=1))
                elif o['s'] == 'tv':
                    ha.append(TypeVectorizer(s))
                else:
                    raise ValueError(o['s'])
            elif f == 'line':
                fm = ha[x] if kinds[x] == 'fmt' else CorpusFormatter(ha[x].settings) if kinds[x] == 'tv' else ha[x].formatter
                m = fm.match_line(o['s'])
                node = ItemNode(match=m, formatter=fm)
                r = {'ty': text(fm.get(m, 'type')), 'co': text(fm.get(m, 'colloc')), 'to': text(fm.get(m, 'token', 'f', '7')),
                     'word': text(node.word), 'lemma': text(node.lemma), 'pos': text(node.pos)}
                again = [fm.get_type(m), fm.get_colloc(m), fm.get_token(m, 'f', '7'), node.to_type(), node.to_colloc()]
                if again != [r['ty'], r['co'], r['to'], r['ty'], r['co']]:
                    raise Bad('two readings of one line: %r %r' % (r, again))
            elif f == 'run':
                h = ha[x]
                if kinds[x] == 'item':
                    r = {'freq': freq(h.build_item_freq().freq_dict)}
                else:
                    words = set()
                    for c in case['corpora'].values():
                        for fl in c:
                            for line in fl['lines']:
                                m = h.formatter.match_line(line.strip())
                                if m:
                                    words.add(h.formatter.get_type(m))
                    res = h.build_col_freq(row_vocab=Vocab({w: 1 for w in sorted(words)}))
                    m = matrix(res) if res is not None else {'cells': []}
                    r = {'cells': m['cells']}
            else:
                raise ValueError(f)
            out.append({'r': r, 'lo': [pairs(q._settings if hasattr(q, '_settings') else q.settings, inv) for q in lo],
                        'di': [pairs(q, inv) for q in di], 'ha': [pairs(q.settings, inv) for q in ha]})
            if any(pairs(q.settings, inv) != e for q, e in zip(lo, out[-1]['lo'])):
                raise Bad('the settings of a loader are not what it holds')
        return out
    finally:
        logging.disable(logging.NOTSET)


def op_bound(case, d):
    from nephosem.core.terms import CorpusFormatter
    from harness.rx import to_regex
    s = {'line-machine': '([^\t]+)\t([^\t]+)', 'line-format': 'word,lemma', 'type': 'lemma', 'token': 'word/fid/lid',
         'boundary-detection-mechanism': case['mech']}
    if case['mech'] == 'single':
        for k in case['names']:
            s[k] = to_regex(case['single'])
    else:
        s['left-boundary-machine'] = to_regex(case['left'])
        s['right-boundary-machine'] = to_regex(case['right'])
    f = CorpusFormatter(s)
    return [1 if f.separator_line_machine(x) else 0 for x in case['lines']]


KINDS = ('item', 'col', 'tok', 'dep')


def make(kind, s):
    from nephosem import ColFreqHandler, ItemFreqHandler, TokenHandler, Vocab
    from nephosem.models.deprel import DepRelHandler
    if kind == 'item':
        return ItemFreqHandler(s, workers=2)
    if kind == 'col':
        return ColFreqHandler(s, workers=2)
    if kind == 'tok':
        return TokenHandler(Vocab({'w/N': 1}), settings=s, workers=2)
    return DepRelHandler(s, workers=2)


def op_files(case, d):
    logging.disable(logging.CRITICAL)
    try:
        return files(case, d)
    finally:
        logging.disable(logging.NOTSET)


def files(case, d):
    """every corpus file i consists of the word w (and its own word wi)"""
    root = os.path.join(d, 'corpus')
    os.makedirs(root)
    for x in case.get('emptydirs', []):
        os.makedirs(os.path.join(root, x), exist_ok=True)

    def put(p, i):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as fh:
            fh.write('w\tN\tw\nx%d\tN\tx%d\n' % (i, i))
    known = []                               # name as observed, path
    for t in case['tree']:
        known.append((['corpus', t], os.path.join(root, t)))
    for g in case.get('outside', []):        # files elsewhere, given by a full or relative path
        known.append((['given', g], g if os.path.isabs(g) else os.path.join(d, g)))
    for i, (_, p) in enumerate(known):
        put(p, i)
    real = {os.path.realpath(p): (n, i) for i, (n, p) in enumerate(known)}

    def sub(x):
        return x.replace('@C', root).replace('@D', d)
    s = base_settings({'enc': case['enc'], 'l': 2, 'r': 2}, d)
    s['corpus-path'] = {'plain': root, 'slash': root + '/', 'rel': 'corpus', 'dot': './corpus'}[case['root']]
    arg = None
    if case['how'] == 'list':
        arg = [root + '/' + n if k == 'corpus' else sub(n) for k, n in case['want']]
    elif case['how'] == 'file':
        p = os.path.join(d, case['list'] + '.fnames')
        if not case['nofile']:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as fh:
                fh.write(case['eol'].join([sub(x) for x in case['lines']] + ([''] if case['lastnl'] else []))
                         .encode(case['enc']))
        arg = p if case['withext'] else p[:-len('.fnames')]
        if case['relarg']:
            arg = os.path.relpath(arg, d)

    def back(p):
        q = os.path.realpath(p)
        if q in real:
            return real[q][0]
        if q.startswith(os.path.realpath(root) + os.sep):
            return ['corpus', os.path.relpath(q, os.path.realpath(root))]
        return ['given', text(p).replace(d, '@D')]
    h = make(case['handler'], s)
    if case['via'] == 'prepare':
        return {'files': [back(p) for p in h.prepare_fnames(arg)]}
    if case['handler'] == 'item':
        fr = dict((k, n) for k, n in freq(h.build_item_freq(arg).freq_dict))
        got = {i: fr.get('x%d/N' % i, 0) for i in range(len(known))}
        if fr.get('w/N', 0) != sum(got.values()):
            raise Bad('inconsistent frequencies')
    elif case['handler'] == 'col':
        from nephosem import Vocab
        res = h.build_col_freq(arg, row_vocab=Vocab({'w/N': 1}))
        cs = matrix(res)['cells'] if res is not None else []
        got = {i: sum(c[2] for c in cs if c[1] == 'x%d/N' % i) for i in range(len(known))}
    elif case['handler'] == 'tok':
        res = None
        try:
            res = h.retrieve_tokens(arg)
        except ValueError:                   # no token has a context: no matrix
            pass
        got = {i: 0 for i in range(len(known))}
        for node in h.type2toks.values():
            for t in node.tokens:
                for c in t.rcollocs:
                    got[int(c.to_colloc()[1:-2])] += 1
    else:
        raise ValueError(case['handler'])
    return {'files': [known[i][0] for i, n in got.items() for _ in range(n)]}


def op_query(case, d):
    from nephosem.utils import get_word_str, read_word_queries
    p = os.path.join(d, 'q.txt')
    with open(p, 'wb') as fh:
        fh.write((case['eol'].join(case['lines']) + (case['eol'] if case['lastnl'] else '')).encode(case['enc']))
    kw = {} if case['enc'] == 'utf-8' and case['style'] & 1 else {'encoding': case['enc']}
    standard = case['def'] == '_DEFAULT_'
    if not (standard and case['style'] & 2):
        kw['wquery_default_key'] = case['def']
    es = read_word_queries(p, **kw)
    entries, asked = [], []
    for i, e in enumerate(es):
        if isinstance(e, dict):
            entries.append({'dict': True, 'word': '', 'tab': [[text(k), text(v)] for k, v in sorted(e.items())]})
        else:
            entries.append({'dict': False, 'word': text(e), 'tab': []})
        dk = {} if standard and case['style'] & 4 else {'def_key': case['def']}
        for c in case['ask']:
            asked.append({'i': i + 1, 'specific': True, 'corpus': c, 'w': text(get_word_str(e, specific=True, corpus_name=c, **dk))})
            asked.append({'i': i + 1, 'specific': False, 'corpus': c, 'w': text(get_word_str(e, corpus_name=c, **dk))})
        asked.append({'i': i + 1, 'specific': False, 'corpus': '', 'w': text(get_word_str(e, **dk))})
    return {'entries': entries, 'asked': asked}


OPS = {'confhist': op_conf_hist, 'bound': op_bound, 'selfiles': op_files, 'query': op_query}
