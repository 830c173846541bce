"""Vocabulary histories and files."""
import os
from collections import defaultdict

from harness.canon import Bad, freq, num, ratio, text, texts
from harness.rx import to_regex


def snap(objs):
    return [freq(o if isinstance(o, dict) else dict(o.items())) for o in objs]


def pyslice(a, b, k=1):
    return slice(a[1] if a[0] else None, b[1] if b[0] else None, *([k] if k != 1 else []))


def number(n, h, fl):
    """an integer, or a float when it has a half or the case wants one"""
    return n + 0.5 if h else float(n) if fl else n


def selection(v, o, fl):
    f = o['f']
    if f == 'items':
        return list(o['ks'])
    if f == 'freqs':
        return list(o['ns'])
    if f == 'cond':
        return cond(v, o['c1'], number(o['n1'], o['h1'], fl))
    if f == 'regex':
        return v.match('item', to_regex(o['pat']))
    if f == 'slice':
        return pyslice(o['a'], o['b'], o['n1'])
    raise ValueError(f)


def cond(v, c, n):
    return {'<': lambda: v.freq < n, '<=': lambda: v.freq <= n, '==': lambda: v.freq == n,
            '>': lambda: v.freq > n, '>=': lambda: v.freq >= n}[c]()


def op_vocab(case, d):
    import pandas as pd
    from nephosem import Vocab
    objs, out = [], []
    fl = case.get('fl', False)
    for o in case['ops']:
        f = o['f']
        r = []
        v = objs[o['x'] - 1] if objs else None
        if f == 'src':
            s = {k: n for k, n in o['ps']}
            how = case.get('source', 'dict')
            objs.append(defaultdict(int, s) if how == 'defaultdict' else s)
        elif f == 'new':
            if case.get('source') == 'frame':
                objs.append(Vocab(pd.DataFrame(sorted(v.items()), columns=['item', 'freq'])))
            else:
                objs.append(Vocab(v))
        elif f == 'copy':
            objs.append(v.copy() if o.get('alt') else v.deepcopy())
        elif f == 'dict':
            objs.append(v.get_dict())
        elif f in ('items', 'freqs', 'cond', 'regex', 'slice'):
            objs.append(v[selection(v, o, fl)])
        elif f == 'path':
            objs.append(v[tuple(selection(v, s, fl) for s in o['ops'])])
        elif f == 'chain':
            objs.append(v[cond(v, o['c1'], number(o['n1'], o['h1'], fl)), cond(v, o['c2'], number(o['n2'], o['h2'], fl))])
        elif f == 'word':
            objs.append(v.select_items(o['k']))
        elif f == 'sub':
            objs.append(v.subvocab(list(o['ks'])))
        elif f == 'inc':
            if o['n1'] == 1:
                v.increment(o['k'])
            else:
                v.increment(o['k'], o['n1'])
        elif f == 'set':
            v[o['k']] = o['n1']
        elif f == 'get':
            try:
                r = [num(v[o['k']])]
            except KeyError:
                r = [-1]
        elif f == 'has':
            r = [1 if o['k'] in v else 0]
        elif f == 'len':
            r = [num(len(v))]
        elif f == 'sum':
            r = [num(v.sum())]
            if v.sum_freq() != v.sum():
                raise Bad('sum and sum_freq differ')
        elif f == 'empty':
            r = [1 if v.isEmpty() else 0]
        elif f == 'equal':
            r = [1 if v.equal(objs[o['y'] - 1]) else 0]
        elif f == 'list':
            r = texts(v.get_item_list(sorting=o['k'], descending=bool(o['n1'])))
        elif f == 'keys':
            r = sorted(texts(v.keys()))
        elif f == 'values':
            r = sorted(num(x) for x in v.values())
        elif f == 'frame':
            df = v.dataframe
            r = [[text(i), num(n)] for i, n in zip(df['item'].tolist(), df['freq'].tolist())]
            # a returned frame is the caller's: changing it changes nothing else
            if len(df):
                df.loc[0, 'freq'] = 99
        elif f == 'show':
            str(v), repr(v)
            if len(v):
                v.describe()
        else:
            raise ValueError(f)
        out.append({'r': r, 'snap': snap(objs)})
    return out


def op_vfile(case, d):
    from nephosem import Vocab
    out = []
    for s in case['ops']:
        p = os.path.join(d, s['name'])
        if s['f'] == 'save':
            v = Vocab({k: (n[0] if n[1] == 1 else n[0] / n[1]) for k, n in s['ps']}, encoding=s['enc'])
            if s.get('how') == 'vocab-encoding':
                v.save(p, fmt=s['fmt'])
            else:
                v.save(p, encoding=s['enc'], fmt=s['fmt'])
            lines = []
            if s['fmt'] != 'json':
                txt = open(p, 'rb').read().decode(s['enc'])
                lines = txt.split('\n')
                if lines[-1] == '':
                    lines = lines[:-1]
            out.append({'lines': lines, 'ps': []})
        elif s['f'] == 'types':          # the file of selected types: their frequencies, 0 for unknown ones
            v = Vocab({k: (n[0] if n[1] == 1 else n[0] / n[1]) for k, n in s['ps']})
            v.make_type_file(s['its'], p, **({} if s['enc'] == 'utf-8' and s['how'] else {'encoding': s['enc']}))
            out.append({'lines': [], 'ps': [[text(k), ratio(n, 10 ** 6)] for k, n in sorted(v.items())]})
        else:
            v = Vocab.load(p, encoding=s['enc'], fmt=s['fmt'])
            out.append({'lines': [], 'ps': [[text(k), ratio(n, 10 ** 6)] for k, n in v.items()]})
    return out


OPS = {'vocab': op_vocab, 'vfile': op_vfile}
