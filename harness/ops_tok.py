"""Tokens: collections, samples, concordances, names."""
import codecs
import os
import random

from harness.canon import Bad, num, text
from harness.ops_pipe import base_settings, matrix, write_corpus

NONE = '<none>'
COLS = ('word', 'lemma', 'pos')


def part(x):
    return NONE if x is None else text(x)


def known(d, cols):
    return {c: d[c] for c in cols if d[c] != NONE}


def item(it):
    return [part(it.word), part(it.lemma), part(it.pos)]


def make_item(x):
    from nephosem.core.terms import ItemNode
    return ItemNode(**known(dict(zip(COLS, x)), COLS))


def formatter(ty, to):
    from nephosem.core.terms import CorpusFormatter
    return CorpusFormatter({'line-machine': '([^\t]*)\t([^\t]*)\t([^\t]*)', 'line-format': 'word,pos,lemma', 'type': ty,
                            'token': to, 'colloc': 'lemma', 'boundary-detection-mechanism': 'single',
                            'separator-line-machine': '<s>'})


def line_of(f, p):
    return f.match_line('\t'.join(p[c] for c in ('word', 'pos', 'lemma')))


def make_token(p):
    from nephosem.core.terms import TokenNode
    ctx = {}
    if p['left'] or not p['bare']:
        ctx['lcollocs'] = [make_item(x) for x in p['left']]
    if p['right'] or not p['bare']:
        ctx['rcollocs'] = [make_item(x) for x in p['right']]
    if p['way'] == 'name':
        return TokenNode(token_str='/'.join(p[c] for c in p['fmt'].split('/')), token_fmt=p['fmt'], **ctx)
    lid = int(p['lid']) if p['bare'] and p['lid'].isdigit() and str(int(p['lid'])) == p['lid'] else p['lid']
    if p['way'] == 'parts':
        return TokenNode(token_fmt=p['fmt'], fid=p['fid'], lid=lid, **known(p, COLS), **ctx)
    f = formatter('lemma', p['fmt'])
    return TokenNode(match=line_of(f, p), formatter=f, fid=p['fid'], lid=lid, **ctx)


def make_type(o, toks):
    from nephosem.core.terms import TypeNode
    kw = {'tokens': toks} if toks or o['way'] != 'name' else {}
    if o['way'] == 'name':
        return TypeNode(type_str=o['ty'], type_fmt=o['fmt'], **kw)
    d = dict(zip(COLS, ('w0', 'l0', 'p0')))
    d.update(zip(o['fmt'].split('/'), o['ty'].split('/')))
    if o['way'] == 'parts':
        return TypeNode(type_fmt=o['fmt'], **d, **kw)
    f = formatter(o['fmt'], 'word/fid/lid')
    return TypeNode(match=line_of(f, d), formatter=f, **kw)


class Table:
    def __init__(self):
        self.rows, self.at = [], {}

    def add(self, t):
        r = {'name': text(str(t)), 'fid': part(t.fid), 'lid': part(t.lid), 'fmt': text(t.format),
             'left': [item(i) for i in t.lcollocs], 'right': [item(i) for i in t.rcollocs]}
        r.update({c: part(getattr(t, c)) for c in COLS})
        if (t.lspan, t.rspan) != (len(r['left']), len(r['right'])) or t.token != r['name']:
            raise Bad('a token that contradicts itself')
        k = repr(r)
        if k not in self.at:
            self.rows.append(r)
            self.at[k] = len(self.rows)
        return self.at[k]


def op_toks(case, d):
    from nephosem import TokenHandler, Vocab
    from nephosem.core.terms import TypeNode
    from nephosem.utils import save_concordance
    random.seed(case['seed'])
    pool = [make_token(p) for p in case['pool']]
    tab, objs, steps = Table(), [], []

    def get(i):
        return pool[i - 1] if case['share'] else make_token(case['pool'][i - 1])
    for k, o in enumerate(case['ops']):
        f, x, st, lines, new = o['f'], o['x'] - 1, 'ok', [], None
        path = os.path.join(d, 'file%d' % k)
        if f == 'new':
            new = make_type(o, [get(i) for i in o['toks']])
        elif f == 'add':
            objs[x].append_token(get(o['toks'][0]))
        elif f == 'merge':
            try:
                new = TypeNode.merge([objs[i - 1] for i in o['xs']])
                st = 'none' if new is None else 'ok'
            except ValueError:
                st = 'exc'
        elif f == 'sample':
            try:
                if o['n'] == 300 and not o['first']:
                    new = objs[x].sample()
                else:
                    new = objs[x].sample(o['n'], 'first' if o['first'] else 'random')
            except ValueError:
                st = 'exc'
        elif f == 'load':
            enc = {'encoding': o['enc']} if o['enc'] != 'utf-8' else {}
            objs[x].save(path, verbose=False, **enc)
            new = TypeNode.load(path, **enc)
        elif f == 'lines':
            enc = {'encoding': o['enc']} if o['enc'] != 'utf-8' else {}
            fm = {'colloc_fmt': o['fmt']} if o['fmt'] != 'lemma' else {}
            save_concordance(path, {'k%d' % i: objs[q - 1] for i, q in enumerate(o['xs'])}, **fm, **enc)
            with codecs.open(path, 'rb') as fh:
                txt = fh.read().decode(o['enc'])
            if txt and not txt.endswith('\n'):
                raise Bad('last line without end')
            lines = txt.split('\n')[:-1]
        elif f == 'found':
            c = dict(case['corpus'], type=o['fmt'].split('/'))
            root = os.path.join(d, 'c%d' % k)
            os.makedirs(root)
            s = base_settings(c, root)
            paths = write_corpus(c, root)
            h = TokenHandler(Vocab({q: 1 for q in case['corpus']['queries'][o['fmt']]}), settings=s, workers=c['workers'])
            try:
                h.retrieve_tokens(paths)
            except ValueError:      # no contexts at all
                pass
            objs.extend(v for _, v in sorted(h.type2toks.items()))
        if new is not None:
            objs.append(new)
        cols = []
        for c in objs:
            if str(c) != c.type:
                raise Bad('two names of a type')
            cols.append({'ty': text(c.type), 'fmt': text(c.format), 'freq': num(c.freq), 'toks': [tab.add(t) for t in c.tokens],
                         'items': [], 'parts': {q: part(getattr(c, q)) for q in COLS}})
        if new is not None:
            got = new.collocs if k % 2 else new.get_collocs()
            cols[-1]['items'] = sorted({tuple(item(i)) for i in got})
        steps.append({'st': st, 'cols': cols, 'lines': lines})
    return {'tab': tab.rows, 'steps': steps}


def op_toknames(case, d):
    from nephosem.core.terms import TokenNode, TypeNode
    out = []
    for q in case['qs']:
        try:
            if q['what'] == 'token':
                n = TokenNode(token_str=q['name'], token_fmt=q['fmt'])
                parts, back = {c: part(getattr(n, c)) for c in COLS + ('fid', 'lid')}, n.token
            else:
                n = TypeNode(type_str=q['name'], type_fmt=q['fmt'])
                parts, back = {c: part(getattr(n, c)) for c in COLS}, n.type
            if back != str(n):
                raise Bad('two names')
            ways = [n.to_type, n.to_colloc]
            out.append({'st': 'ok', 'parts': parts, 'back': back, 'as': [ways[i % 2](f) for i, f in enumerate(q['fmts'])]})
        except ValueError:
            out.append({'st': 'exc', 'parts': {}, 'back': '', 'as': []})
    return out


def op_toknodes(case, d):
    """the positions of the contexts of tokens made by hand"""
    from nephosem import Vocab
    from nephosem.core.terms import TokenNode, TypeNode
    from nephosem.models.typetoken import read_token_colloc
    from nephosem.specutils.mxutils import transform_nodes_to_matrix
    types = []
    for ty in sorted({t['ty'] for t in case['toks']}, reverse=case['rev']):
        toks = [TokenNode(token_str=t['name'], token_fmt='lemma/pos/fid/lid', lcollocs=[make_item(x) for x in t['left']],
                          rcollocs=[make_item(x) for x in t['right']]) for t in case['toks'] if t['ty'] == ty]
        types.append(TypeNode(type_str=ty, type_fmt='lemma/pos', tokens=toks))
    out = {'nomtx': False, 'rows': [], 'cols': [], 'cells': []}
    if case['how'] == 'read':
        for tn in types:
            vocab = Vocab({x: 1 for x in case['vocab']}) if case['vocab'] else None
            sett = {'left-span': case['l'], 'right-span': case['r']}
            if case['fmt'] != 'lemma/pos' or case['rev']:
                sett['colloc'] = case['fmt']
            got = read_token_colloc(tn, colloc_vocab=vocab, settings=sett)
            for tok, row in got.items():
                out['rows'].append(text(tok))
                out['cells'] += [[text(tok), text(k), num(v)] for k, v in row.items()]
        out['cols'] = sorted({c[1] for c in out['cells']})
        return out
    try:
        kw = {} if case['fmt'] == 'lemma/pos' and not case['rev'] else {'colloc_fmt': case['fmt']}
        m = transform_nodes_to_matrix(types if case['how'] == 'list' else {t.type: t for t in types}, **kw)
    except ValueError:
        return dict(out, nomtx=True)
    return dict(out, **matrix(m))


OPS = {'toks': op_toks, 'toknames': op_toknames, 'toknodes': op_toknodes}
