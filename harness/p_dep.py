"""C17, C18, C23: dependency patterns."""
import json

from harness.main import Item

TIMEOUT = 25.0
LEMMAS = ['boy', 'girl', 'apple', 'give', 'eat', 'look', 'a', 'b', "d'r", 'x-y', '3,5', '\u00e9\u00e9n', '\u4e2d', 'Boy', 'boys', 'n\u2028l', 'n\u0085l']
TAGS = ['NN', 'NNS', 'VBZ', 'V', 'N', 'JJ', 'IN', 'DT']
RELS = ['nsubj', 'nsubjpass', 'dobj', 'iobj', 'det', 'amod', 'nmod:poss', 'prep', 'obj']
NONWORD = "-/.,:' #*$\u00a0\u2028\u0085"


def con(pat, grp):
    return {'pat': pat, 'grp': grp}


def constraint(rng, value, others):
    """a constraint that value usually meets"""
    k = rng.randint(0, 11)
    W, WS, END = ['word', NONWORD], ['words', NONWORD], ['end', '']
    cut = rng.randint(1, len(value))
    if k == 0:
        return con([['lit', value]], [[1, 1]])
    if k == 1:
        return con([['lit', value], END], [[1, 1]])
    if k == 2:
        return con([W], [[1, 1]])
    if k == 3:
        return con([W], [])
    if k == 4:
        return con([['lit', value[:cut]], WS], [[1, 1]])
    if k == 5:
        return con([['lit', value[:cut]], WS], [[1, 2], [2, 2]])
    if k == 6:
        return con([['star', ''], ['lit', value[-cut:]], END], [[2, 2]])
    if k == 7:
        return con([['alt', value, rng.choice(others)]], [[1, 1]])
    if k == 8:
        return con([['any', ''], ['star', '']], [[1, 2]])
    if k == 9:
        return con([['star', ''], ['opt', value[-1]]], [[1, 1], [2, 2]])
    if k == 10:
        return con([['plus', '/']], [[1, 1]])
    return con([['not', value[0] if rng.random() < 0.3 else '/'], ['star', '']], [[1, 2]])


ANY = {'pat': [['any', ''], ['star', '']], 'grp': [[1, 2]]}


def rand_tree(rng, n, how=None):
    """head of every node 2..n, any shape"""
    shape = rng.random()
    if how == 'pattern':        # long, with few branches
        return {i: max(1, i - rng.choice([1, 1, 1, 1, 2])) for i in range(2, n + 1)}
    if how == 'broom':          # many children with a child each
        return {i: 1 if i <= n // 2 + 1 else i - n // 2 for i in range(2, n + 1)}
    if how == 'fan':
        return {i: 1 if i < n else 2 for i in range(2, n + 1)}
    if how == 'star':
        return {i: 1 if i < n - 3 else rng.randint(1, 3) for i in range(2, n + 1)}
    if n in (5, 6, 7) and rng.random() < 0.3:          # two branches alike
        return {2: 1, 3: 1, 4: 2, 5: 3, 6: 2, 7: 3} if n == 7 else {i: 1 + (i > 3) * (i % 2 + 1) for i in range(2, n + 1)}
    if shape < 0.25:
        return {i: rng.randint(max(1, i - 2), i - 1) for i in range(2, n + 1)}
    if shape < 0.45:
        return {i: 1 if rng.random() < 0.7 else rng.randint(1, i - 1) for i in range(2, n + 1)}
    return {i: rng.randint(1, i - 1) for i in range(2, n + 1)}


def rand_words(rng, n, few):
    ls, ts = rng.sample(LEMMAS, 3 if few else 6), rng.sample(TAGS, 2 if few else 4)
    return [[rng.choice(ls), rng.choice(ts)] for _ in range(n)]


def rand_sentence(rng, n=None, few=True, broken=None, how=None):
    """words with heads; 0 is the artificial root; ids 1..n in text order"""
    n = n or rng.choice([1, 2, 3, 3, 4, 5, 6, 7])
    t = rand_tree(rng, n, how)
    perm = list(range(1, n + 1))
    rng.shuffle(perm)
    rels = rng.sample(RELS, 2 if few else 4)
    ws = []
    heads = {perm[0]: 0}
    for i, h in t.items():
        heads[perm[i - 1]] = perm[h - 1]
    if broken == 'cycle' and n > 1:
        a = rng.randint(1, n)
        heads[a] = rng.choice([x for x in range(1, n + 1)])
    elif broken == 'tworoots':
        heads[rng.randint(1, n)] = 0
    elif broken == 'outside':
        heads[rng.randint(1, n)] = n + 3
    elif broken == 'allout':
        heads = {i: (n + 3 if h == 0 else h) for i, h in heads.items()}
    for i, (l, p) in zip(range(1, n + 1), rand_words(rng, n, few)):
        ws.append({'id': i, 'lemma': l, 'pos': p, 'word': l + rng.choice(['', 's']), 'head': heads[i],
                   'rel': rng.choice(rels), 'enh': rng.choice(rels)})
    return ws


def rand_pattern(rng, ws, uses, rel_uses, plain_ids=False, bare=False, sizes=None):
    """a pattern derived from (part of) a sentence, so that it usually matches"""
    if rng.random() < 0.2 and not sizes:
        ws = rand_sentence(rng)
    ids = {w['id'] for w in ws}
    kids = {w['id']: [x for x in ws if x['head'] == w['id'] and x is not w] for w in ws}
    byid = {w['id']: w for w in ws}
    start = rng.choice(ws)
    size = rng.choice(sizes or [1, 2, 2, 3, 3, 4, 5, 5, 6])
    if sizes:          # where there is room
        roots = [w for w in ws if w['head'] in (0, w['id']) or w['head'] not in byid]
        start = roots[0] if roots and rng.random() < 0.7 and len(roots) + sum(len(k) for k in kids.values()) == len(ws) else start
    chosen, front = [start['id']], list(kids[start['id']])
    while front and len(chosen) < size:
        x = front.pop(rng.randrange(len(front)) if len(ws) < 40 or rng.random() < 0.5 else -1)
        if x['id'] in chosen:
            continue
        chosen.append(x['id'])
        front += kids[x['id']]
    nums = list(range(1, len(chosen) + 1))
    if not plain_ids:
        r = rng.random()
        if r < 0.4:
            rng.shuffle(nums)
        elif r < 0.55:
            nums = rng.sample(range(2, 30), len(chosen))
    new = dict(zip(chosen, nums))
    loose = (not sizes or size < 4) and rng.random() < 0.4
    nodes, edges = [], []
    for x in chosen:
        w = byid[x]
        k = []
        for a in uses:
            k.append({'n': a, 'c': dict(ANY) if loose and rng.random() < 0.7 else constraint(rng, w[a.lower()], LEMMAS if a.lower() != 'pos' else TAGS)})
        if bare and rng.random() < 0.15:
            k = []
        nodes.append({'id': new[x], 'con': k})
        if x != chosen[0]:
            k = [{'n': a, 'c': dict(ANY) if loose and rng.random() < 0.7 else constraint(rng, w['enh' if a == 'enh' else 'rel'], RELS)}
                 for a in rel_uses]
            if bare and rng.random() < 0.15:
                k = []
            edges.append({'h': new[w['head']], 'd': new[x], 'con': k})
    rng.shuffle(nodes)
    rng.shuffle(edges)
    return {'nodes': nodes, 'edges': edges}


def rand_macro(rng, p, k, uses, rel_uses, token=False, upper=False, one=True):
    ids = [n['id'] for n in p['nodes']]
    t = rng.choice(ids)
    fs = [a for a in uses if rng.random() < 0.75] or uses[:1]
    tf = [[a, rng.choice([0, 1, 1, 1, 2])] for a in fs]
    if token:
        tf += [['FID' if upper else 'fid', 1], ['LID' if upper else 'lid', 1]]
    f = -1 if rng.random() < 0.6 else rng.choice(ids)
    return {'pat': k, 't': t, 'f': f, 'tf': tf, 'ff': [[a, rng.choice([0, 1, 1, 1, 2])] for a in rng.sample(uses, rng.randint(1, len(uses)))],
            'ef': [[a, 1] for a in rel_uses]}


def graph_sentence(rng, ws, attrs, fid, extra=False):
    nodes = [{'id': w['id'], 'at': [[a, w[a.lower()]] for a in attrs] + [['lid', str(10 * w['id'])]]} for w in ws]
    edges = [{'h': w['head'], 'd': w['id'], 'at': [['deprel', w['rel']]] + ([['enh', w['enh']]] if extra else [])} for w in ws]
    if rng.random() < 0.5 and len(ws) > 1:      # without the artificial root
        edges = [e for e in edges if e['h'] != 0]
    have = {n['id'] for n in nodes}
    nodes += [{'id': h, 'at': []} for h in sorted({e['h'] for e in edges} - have)]
    if len(ws) > 2 and edges and rng.random() < 0.12:     # a word with two heads
        h, d = rng.sample([w['id'] for w in ws], 2)
        # (not so that the edges still form an undirected tree: whether that is a tree is left open)
        if not any(e['h'] == h and e['d'] == d for e in edges) and len(edges) + 1 >= len(nodes):
            edges.append(dict(edges[0], h=h, d=d))
    if rng.random() < 0.4:
        mp = {i: j for i, j in zip(sorted(have), rng.sample(range(1, 60 + 2 * len(ws)), len(have)))}
        free = {h: 300 + h for h in {n['id'] for n in nodes} - have if h != 0}
        mp.update(free)
        mp[0] = 0
        nodes = [dict(n, id=mp[n['id']]) for n in nodes]
        edges = [dict(e, h=mp[e['h']], d=mp[e['d']]) for e in edges]
    rng.shuffle(nodes)
    rng.shuffle(edges)
    return {'how': 'graph', 'fid': fid, 'nodes': nodes, 'edges': edges, 'lines': [], 'at': []}


LAYOUTS = [
    {'cols': ['word', 'pos', 'lemma', 'id', 'head', 'deprel'], 'na': ['word', 'pos', 'lemma'], 'ea': ['deprel'], 'type': ['lemma', 'pos']},
    {'cols': ['id', 'word', 'lemma', 'pos', 'head', 'deprel'], 'na': ['lemma', 'pos'], 'ea': ['deprel'], 'type': ['lemma', 'pos'], 'global': True},
    {'cols': ['FORM', 'POS', 'LEMMA', 'ID', 'HEAD', 'deprel'], 'na': ['FORM', 'POS', 'LEMMA'], 'ea': ['deprel'], 'type': ['LEMMA', 'POS'], 'upper': True},
    {'cols': ['deprel', 'head', 'id', 'pos', 'lemma'], 'na': ['pos', 'lemma'], 'ea': ['deprel'], 'type': ['lemma'], 'named': True},
    {'cols': ['nr', 'word', 'lemma', 'pos', 'gov', 'deprel', 'misc'], 'na': ['lemma', 'pos', 'misc'], 'ea': ['deprel'], 'type': ['lemma', 'pos']},
]


def layout(rng):
    c = json.loads(json.dumps(rng.choice(LAYOUTS)))
    low = [x.lower() for x in c['cols']]
    c['id'] = 1 + (low.index('id') if 'id' in low else low.index('nr'))
    c['head'] = 1 + (low.index('head') if 'head' in low else low.index('gov'))
    c['sep'] = rng.choice(['</s>', '</s>', '</artikel>', '=='])
    return c


def line_of(rng, c, w):
    src = {'id': str(w['id']), 'nr': str(w['id']), 'head': str(w['head']), 'gov': str(w['head']), 'deprel': w['rel'],
           'word': w['word'], 'form': w['word'], 'lemma': w['lemma'], 'pos': w['pos'], 'misc': '_'}
    s = '\t'.join(src[x.lower()] for x in c['cols'])
    r = rng.random()
    return '  ' + s if r < 0.04 else s + '\t' if r < 0.08 else s + '\textra' if r < 0.12 else s


BROKEN = [None] * 9 + ['cycle', 'cycle', 'tworoots', 'outside', 'allout']


def names_of(c):
    """the attribute names of a layout for lemma and pos, and the text of a sentence's words in these names"""
    return [x for x in c['na'] if x.lower() in ('lemma', 'pos')]


def record(kind, case):
    def make(obs):
        return {'_module': 'DepTrace', 'kind': kind, 'mode': case['mode'], 'any': case['any'], 'targets': case['targets'],
                'layout': {k: case['layout'][k] for k in ('cols', 'sep', 'id', 'head', 'na', 'ea')} if case.get('layout') else {},
                'pats': case['pats'], 'macs': case['macs'], 'sents': case.get('sents', []), 'steps': case.get('steps', []),
                'files': [{'fid': f['tok'], 'lines': f['lines']} for f in case.get('files', [])], 'sels': case.get('sels', []),
                'runs': [{'st': o['st'], 'e': o['e'], 'v': o['v'] if o['v'] is not None else []} for o in obs]}
    return make


def some_targets(rng, case, sents, names):
    ts = set()
    for ws in sents:
        for w in ws:
            ts.add('/'.join(w[a.lower()] for a in names))
            ts.add(w['lemma'])
            ts.add(w['lemma'] + '/' + w['pos'][0])
            ts.add(w['pos'])
    ts = sorted(ts)
    return rng.sample(ts, rng.randint(0, len(ts)))


LARGE = ['words', 'sentences', 'pattern', 'macros', 'star', 'broom', 'fan']


def match_case(rng, rels=False, large=None):
    """rels: relations have two attributes and few values; large: much of one thing"""
    few = not large and (rels or rng.random() < 0.7)
    c = layout(rng)
    names = names_of(c)
    ns = rng.choice([1, 1, 2, 3]) if large != 'sentences' else rng.choice([20, 34, 45])
    sizes = {'words': [25, 36, 50, 70], 'pattern': [14, 20, 26], 'star': [12, 20, 30], 'broom': [40, 60, 72], 'fan': [8, 9, 10], 'macros': [4, 5, 6]}.get(large)
    raw = [rand_sentence(rng, n=rng.choice(sizes) if sizes else None, few=few, broken=None if large and (k == 0 or large in ('pattern', 'star')) else rng.choice(BROKEN), how=large)
           for k in range(ns)]
    if rng.random() < 0.15:
        raw.append(raw[0])
    if large == 'pattern':          # almost the same sentence
        for _ in range(4):
            ws = [dict(w) for w in raw[0]]
            w = rng.choice(ws)
            w[rng.choice(['lemma', 'pos'])] = 'zz'
            if rng.random() < 0.3:
                w['rel'] = 'zz'
            raw.append(ws)
    if c['cols'][-1].lower() != 'lemma' and rng.random() < 0.15:
        w = rng.choice(rng.choice(raw))
        w['lemma'] = rng.choice(['\u00a0', '']) + w['lemma'] + rng.choice(['\u00a0', ''])
    extra = rels or rng.random() < 0.25
    case = {'op': 'match', 'mode': rng.choice(['type', 'token']), 'layout': c, 'via': 'api' if rels else rng.choice(['api', 'api', 'files'])}
    sents = []
    for i, ws in enumerate(raw):
        fid = rng.choice(['f1', 'f2'])
        if extra or rng.random() < 0.5:
            sents.append(graph_sentence(rng, ws, names, fid, extra))
        else:
            lines = [line_of(rng, c, w) for w in ws]
            at = [rng.randint(1, 5) + 0 for _ in ws]
            for k in range(1, len(at)):
                at[k] += at[k - 1]
            sents.append({'how': 'lines', 'fid': fid, 'nodes': [], 'edges': [], 'lines': lines, 'at': at})
    case['sents'] = sents
    np_ = rng.choice([1, 1, 2]) if large != 'macros' else rng.choice([6, 11, 16])
    uses = rng.sample(names, len(names)) if rng.random() < 0.7 or len(names) == 1 else names[:1]
    bare = case['via'] == 'api' and rng.random() < 0.3 and not large
    eu = rng.choice([['deprel'], ['enh'], ['enh', 'deprel']]) if extra and case['via'] == 'api' else ['deprel']
    psizes = {'words': [1, 2, 2, 3], 'pattern': [7, 9, 11, 13], 'star': [2, 3, 3], 'broom': [3], 'fan': [6, 7], 'macros': [1, 2, 2, 3, 4]}.get(large)
    case['pats'] = [rand_pattern(rng, rng.choice(raw) if large != 'pattern' else raw[0], uses, eu, bare=bare, sizes=psizes) for _ in range(np_)]
    case['macs'] = []
    up = bool(c.get('upper'))
    for k in range(rng.choice([1, 1, 2, 3]) if large != 'macros' else np_):
        k = rng.randint(1, np_) if large != 'macros' else k + 1
        case['macs'].append(rand_macro(rng, case['pats'][k - 1], k, uses, rng.sample(eu, rng.randint(1, len(eu))), case['mode'] == 'token', up))
    if case['via'] == 'files':
        for m in case['macs']:
            m['tf'], m['ff'] = case['macs'][0]['tf'], case['macs'][0]['ff']
    if bare:           # a target or feature needs its attributes
        for p in case['pats']:
            full = [m for m in case['macs'] if case['pats'][m['pat'] - 1] is p]
            for m in full:
                m['f'] = m['t'] if m['f'] == -1 else m['f']
                for n in p['nodes']:
                    if n['id'] in (m['t'], m['f']) and not n['con']:
                        n['con'] = [{'n': a, 'c': dict(ANY)} for a in uses]
    steps = [[s + 1, m + 1] for s in range(len(sents)) for m in range(len(case['macs']))]
    rng.shuffle(steps)
    if rng.random() < 0.3:
        steps.append(rng.choice(steps))
    case['steps'] = steps[:6 if not large else 60 if len(case['macs']) == 1 else 40]
    case['any'] = rng.random() < (0.9 if large else 0.7)
    case['targets'] = [] if case['any'] else some_targets(rng, case, raw, names)
    case['filter'] = rng.choice(['vocab', 'dict'])
    return case


def wide_case(rng):
    """branching patterns with many embeddings; relations of one or two attributes"""
    lem, rel = rng.choice([['a'], ['a', 'b'], ['a', '']]), rng.choice([['o'], ['o', 'p'], ['o', '']])
    two = rng.random() < 0.5
    deep = not two and rng.random() < 0.25       # two long branches

    def sent():
        n = rng.choice([5, 6, 7, 8]) if not two else rng.choice([3, 4, 5, 6])
        t = rng.choice([{i: 1 for i in range(2, n + 1)}, {i: 1 if i < 4 else 2 + i % 2 for i in range(2, n + 1)},
                        {i: 1 if i < 5 else i - 3 for i in range(2, n + 1)}, {i: max(1, i // 2) for i in range(2, n + 1)}])
        if deep:
            n = rng.choice([9, 10, 11])
            t = {i: max(1, i - 2) for i in range(2, n + 1)}
        perm = rng.sample(range(1, n + 1), n)
        nodes = [{'id': perm[i - 1], 'at': [['lemma', rng.choice(lem)], ['pos', 'N'], ['lid', str(perm[i - 1])]]} for i in range(1, n + 1)]
        edges = [{'h': perm[h - 1], 'd': perm[i - 1], 'at': [['deprel', rng.choice(rel)]] + ([['enh', rng.choice(['u', 'v', ''])]] if two else [])}
                 for i, h in t.items()]
        rng.shuffle(edges)
        return {'how': 'graph', 'fid': 'f', 'nodes': nodes, 'edges': edges, 'lines': [], 'at': []}

    def c(xs, p=0.7):
        x = [v for v in xs if v][0]
        if '' in xs:
            return con(rng.choice([[['star', '']], [['opt', x]], [['opt', x], ['end', '']], [['lit', x]], [['any', '']]]), [[1, 1]])
        return dict(ANY) if rng.random() < p else con([['lit', rng.choice(xs)]], [[1, 1]])

    def pattern():
        m = rng.choice([3, 4, 5, 5]) if not two else rng.choice([2, 2, 3, 4])
        u = rng.choice([{i: 1 for i in range(2, m + 1)}, {i: 1 if i < 4 else i - 2 for i in range(2, m + 1)}, {i: i // 2 for i in range(2, m + 1)}])
        if deep:
            m = rng.choice([7, 8, 9, 10])
            u = {i: max(1, i - 2) for i in range(2, m + 1)}
        ids = rng.sample(range(1, m + 1), m)
        es = []
        for i, h in u.items():
            k = [{'n': 'deprel', 'c': c(rel)}] if not two or rng.random() < 0.3 else []
            if two and (not k or rng.random() < 0.5):
                k.append({'n': 'enh', 'c': c(rng.choice([['u', 'v'], ['u', '']]), 0.3)})
                rng.shuffle(k)
            es.append({'h': ids[h - 1], 'd': ids[i - 1], 'con': k})
        return {'nodes': [{'id': i, 'con': [{'n': 'lemma', 'c': c(lem)}]} for i in ids], 'edges': es}
    sents = [sent() for _ in range(rng.choice([1, 1, 2]))]
    pats = [pattern() for _ in range(rng.choice([1, 1, 2]))]
    macs = []
    for k, p in enumerate(pats, 1):
        ea = sorted({x['n'] for e in p['edges'] for x in e['con']})
        # (a feature shows the relation attributes of its filter: every edge has them)
        ea = [a for a in ea if all(any(x['n'] == a for x in e['con']) for e in p['edges'])]
        macs.append(rand_macro(rng, p, k, ['lemma'], ea))
    steps = [[i, k] for i in range(1, len(sents) + 1) for k in range(1, len(macs) + 1)]
    return {'op': 'match', 'mode': 'type', 'layout': None, 'via': 'api', 'sents': sents, 'pats': pats, 'macs': macs, 'steps': steps,
            'any': True, 'targets': [], 'filter': 'dict'}


LAWS = '''INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS SentSize = %d PatSize = %d Words = {"a", "b"} Rels = {%s} Variant = "%s" Root0 = %s
INVARIANT %s
'''


def laws(ss, ps, rels, variant='right', root0='TRUE', inv='Complete TwoWays', violates=None, what=''):
    s = {'module': 'DepLaws', 'cfg': LAWS % (ss, ps, ', '.join('"%s"' % r for r in rels), variant, root0, inv), 'what': what,
         'workers': 3}
    if violates:
        s['violates'] = violates
    return s


def plan(prop, ctx):
    return globals()['plan_' + prop](ctx)


def plan_C17(ctx):
    rng = ctx.rng
    items = []
    for _ in range(ctx.n(100, 800)):
        c = wide_case(rng)
        items.append(Item([c], record('match', c)))
    for k in range(ctx.n(480, 4500)):
        c = match_case(rng, k % 8 < 2)
        items.append(Item([c], record('match', c)))
    for k in range(ctx.n(35, 350)):
        c = match_case(rng, large=LARGE[k % 7])
        items.append(Item([c], record('match', c)))
    specs = [laws(3, 3, ['x'], what='matching machine against the definition'),
             laws(3, 3, ['x'], 'shared', violates='Complete', inv='Complete', what='two pattern nodes on one word'),
             laws(3, 2, ['x'], 'emptyfails', violates='Complete', inv='Complete', what='nodes without constraints never fit'),
             laws(3, 2, ['x'], 'first', violates='Complete', inv='Complete', what='only the first fitting child')]
    if not ctx.quick:
        specs += [laws(4, 3, ['x'], root0='FALSE', what='matching machine against the definition'),
                  laws(3, 3, ['x', 'y'], what='matching machine against the definition')]
    return {'items': items, 'specs': specs}


def corpus_case(rng, nf=None, large=None):
    c = layout(rng)
    names = names_of(c)
    few = large != 'sentences' and rng.random() < 0.7
    mode = rng.choice(['type', 'type', 'token']) if large != 'counts' else 'type'
    nf = nf or (rng.choice([1, 2, 2, 3]) if large != 'files' else rng.choice([12, 20, 34, 40]))
    if large == 'words':
        nf = 1
    fids = rng.sample(['a', 'b.v2', 'sub/c', 'sub/deep/d', 'sub/a', 'v1.2/g'] + ['m/f%d' % i for i in range(40 if nf > 6 else 0)], nf)
    files, raw = [], []
    words = rng.choice([26, 40, 60]) if large == 'words' else None
    nsent = {'sentences': [20, 34, 44], 'words': [2, 3], 'files': [1, 1, 2], 'macros': [2, 3]}.get(large, [0, 1, 2, 3])
    for fid in fids:
        lines = []
        for k in range(rng.choice(nsent)):
            if rng.random() < 0.3:
                lines.append(rng.choice(['<s id="1">', '', '<text>', 'a\tb']))
            if rng.random() < 0.15:
                lines.append(c['sep'])           # an empty stretch
            ws = rand_sentence(rng, n=words or rng.choice([1, 2, 3, 4, 5]), few=few, broken=rng.choice(BROKEN))
            if raw and rng.random() < 0.2:
                ws = rng.choice(raw)
            raw.append(ws)
            for w in (ws if rng.random() < 0.8 else rng.sample(ws, len(ws))):
                lines.append(line_of(rng, c, w))
                if rng.random() < 0.06:
                    lines.append('<note>')
            lines.append(c['sep'] + rng.choice(['', '', ' x']))
        if large == 'counts' and raw:        # one sentence very often
            ws = rng.choice(raw)[:2]
            for _ in range(rng.choice([70, 150])):
                lines += [line_of(rng, c, w) for w in ws] + [c['sep']]
        if lines and rng.random() < 0.4:
            lines.pop()
        if rng.random() < 0.2:
            lines.append(c['sep'])
        files.append({'fid': fid, 'tok': fid, 'lines': lines, 'ext': rng.choice(['.txt', '.conll']), 'nl': rng.random() < 0.7})
    if not raw:
        raw = [rand_sentence(rng)]
        ws = raw[0]
        files[0]['lines'] = [line_of(rng, c, w) for w in ws]
    case = {'op': 'depmx', 'mode': mode, 'layout': c, 'via': rng.choice(['api', 'files']), 'files': files,
            'workers': rng.choice([1, 2, 3]), 'how': rng.choice(['list', 'list', 'file', 'all'])}
    uses = names if rng.random() < 0.7 or len(names) == 1 else names[:1]
    np_ = rng.choice([1, 2, 3]) if large != 'macros' else rng.choice([10, 14, 20])
    if large == 'counts':
        np_ = 1
    case['pats'] = [rand_pattern(rng, rng.choice(raw), uses, ['deprel'], sizes=[1, 2] if large in ('counts', 'words') else None) for _ in range(np_)]
    case['macs'] = []
    up = bool(c.get('upper'))
    for k in range(1, np_ + 1):
        case['macs'].append(rand_macro(rng, case['pats'][k - 1], k, uses, ['deprel'], mode == 'token' or rng.random() < 0.1, up))
    if rng.random() < 0.3:                      # macros of two files may have the same number
        case['mids'] = [rng.choice([1, 2]) for _ in case['macs']]
    base = case['macs'][0]
    if case['via'] == 'files' or rng.random() < 0.5:
        for m in case['macs']:
            m['tf'], m['ff'] = base['tf'], base['ff']
    case['any'] = rng.random() < 0.6
    case['targets'] = [] if case['any'] else some_targets(rng, case, raw, names)
    case['filter'] = rng.choice(['vocab', 'list'])
    case['enc'] = rng.choice(['utf-8', 'utf-8', 'latin-1', 'utf-16'])
    if case['enc'] == 'latin-1' and any(ch > '\u00ff' for f in files for l in f['lines'] for ch in l):
        case['enc'] = 'utf-8'
    full = list(range(1, nf + 1))
    case['sels'] = [full if case['how'] == 'all' else rng.sample(full, rng.randint(1, nf)) if rng.random() < 0.4 else rng.sample(full, nf)]
    if rng.random() < 0.25:                    # the same handler again
        case['sels'].append(full if case['how'] == 'all' else rng.sample(full, rng.randint(1, nf)))
    return case


def plan_C18(ctx):
    from harness.p_pipe import pool_spec, schedules
    rng = ctx.rng
    items = []
    for _ in range(ctx.n(150, 1500)):
        c = match_case(rng)
        items.append(Item([c], record('items', c)))
    for k in range(ctx.n(21, 210)):
        c = match_case(rng, large=LARGE[k % 7])
        items.append(Item([c], record('items', c)))
    for k in range(ctx.n(16, 160)):
        c = match_case(rng, large='fan')
        for m in c['macs']:
            m['f'] = -1
        items.append(Item([c], record('items', c)))
    for k in range(ctx.n(15, 150)):
        c = corpus_case(rng, large=['files', 'sentences', 'counts', 'macros', 'words'][k % 5])
        items.append(Item([c], record('depmx', c)))
    for _ in range(ctx.n(190, 2000)):
        c = corpus_case(rng)
        items.append(Item([c], record('depmx', c)))
    facts = {}
    for nf, nw in ((2, 2), (3, 2)) + (() if ctx.quick else ((3, 3), (4, 2))):
        ss = schedules(ctx, nf, nw)
        facts['schedules %d files %d workers' % (nf, nw)] = len(ss)
        for p in (ss if not ctx.quick else rng.sample(ss, min(len(ss), 10))):
            c = corpus_case(rng, nf=nf)
            c.update(workers=nw, plan=p, sels=[list(range(1, nf + 1))], how='list')
            items.append(Item([c], record('depmx', c)))
    specs = [laws(3, 3, ['x'], inv='OrderFree Hidden', what='features hide the target and do not depend on the order of siblings'),
             pool_spec(3, 2, 'perFile', 'n'), pool_spec(2, 3, 'perFile', 'all')]
    if not ctx.quick:
        specs += [laws(4, 3, ['x'], inv='OrderFree Hidden', what='laws of features'), pool_spec(4, 3, 'perFile', 'n')]
    return {'items': items, 'specs': specs, 'facts': facts}


# --------------------------------------------------------------------------
# C23
# --------------------------------------------------------------------------
REGS = ['\\w+', '(\\w+)', '(V)\\w*', '.+', '(N)\\w*$', 'by', '(?:a|b)', '[^/]+', '(nsubj)$', "d'r", '(\u00e9|e)', '\\S{2,3}', '(a) b', '<x>', 'a&b', '"q"']
ATTRS = ['lemma', 'pos', 'LEMMA', 'FORM', 'morph']


def pat_docs(rng, large=None):
    """a pattern document and a macro document over it; large: much of one thing"""
    na = rng.sample(ATTRS, rng.choice([1, 2, 2, 3]))
    ea = ['deprel'] if rng.random() < 0.7 else rng.choice([['deprel', 'enh'], ['pos'], ['DEPREL']])
    keys = []
    for what, names in (('node', na), ('edge', ea)):
        for n in names:
            has = rng.random() < 0.5
            keys.append({'what': what, 'name': n, 'has': has, 'val': rng.choice(REGS) if has else ''})
    if rng.random() < 0.3:
        rng.shuffle(keys)

    def data(names):
        return [[n, rng.choice(REGS)] for n in rng.sample(names, rng.randint(0, len(names)))]
    graphs = []
    gids = rng.sample(range(1, 400), rng.choice([1, 2, 3, 4]) if large != 'graphs' else rng.choice([13, 35]))
    if rng.random() < 0.4:
        gids = rng.sample(range(1, len(gids) + 1), len(gids))
    if rng.random() < 0.4:
        gids.sort()
    for gid in gids:
        n = rng.choice([1, 2, 3, 3, 4, 5, 6]) if large != 'nodes' else rng.choice([11, 18, 26])
        ids = list(range(1, n + 1))
        r = rng.random()
        if r < 0.3:
            rng.shuffle(ids)
        elif r < 0.5:
            ids = rng.sample(range(0 if rng.random() < 0.2 else 1, 40), n)
        t = rand_tree(rng, n)
        ns = [{'id': i, 'data': data(na)} for i in ids]
        es = [{'h': ids[h - 1], 'd': ids[i - 1], 'data': data(ea)} for i, h in t.items()]
        if rng.random() < 0.4:
            rng.shuffle(ns)
            rng.shuffle(es)
        graphs.append({'id': gid, 'nodes': ns, 'edges': es})
    pick = rng.sample(na, rng.randint(1, len(na)))
    tf = [[a, rng.choice([0, 1, 2])] for a in pick] + ([['fid', 1], ['lid', 1]] if rng.random() < 0.3 else [])
    ff = [[a, rng.choice([0, 1, 2, 3])] for a in rng.sample(na, rng.randint(1, len(na)))]
    macs = []
    for i in rng.sample(range(1, 500), rng.choice([1, 2, 3, 5]) if large != 'macros' else rng.choice([33, 60])):
        g = rng.choice(graphs)
        ids = [n['id'] for n in g['nodes']]
        macs.append({'id': i, 'pat': g['id'], 't': rng.choice(ids), 'f': rng.choice(ids + [-1, -1]),
                     'td': rng.choice([None, '', 'noun', 'a & b']), 'fd': rng.choice([None, '', 'subject of verb'])})
    style = {'nl': rng.choice(['nice', 'nice', 'tight', 'crlf']), 'comments': rng.random() < 0.25, 'cdata': rng.random() < 0.2,
             'head': rng.random() < 0.7, 'short': rng.random() < 0.4, 'end': rng.random() < 0.8, 'eids': rng.random() < 0.2}
    return {'op': 'patfiles', 'style': style, 'doc': {'keys': keys, 'graphs': graphs},
            'mdoc': {'con': rng.choice(['/', '/', ':', '|']), 'tf': tf, 'ff': ff, 'ef': ea[0], 'macs': macs}}


def written(rng, ks, named):
    """token kinds of ArrowGen with real items, spaced at will"""
    def item():
        if named:
            rel = '(?P<DEPREL>%s)%s' % (rng.choice(RELS), rng.choice(['', '$']))
            node = '(?P<LEMMA>%s)/(?P<POS>%s)%s' % (rng.choice(['\\w+', '.+', 'by', "d'r"]), rng.choice(['N', 'V', '\\w+', 'JJ']), rng.choice(['', '\\w*', '$']))
            if rng.random() < 0.2:
                node = '(?P<LEMMA>\\w+)'
            if rng.random() < 0.15:
                node = '\\w?(?P<LEMMA>\\w+)/N(?P<POS>N?)'
        else:
            rel = rng.choice(['(nsubj)', '(nsubj)$', 'pobj', '(nmod:poss)', '\\w+'])
            node = rng.choice(['\\w+/(V)\\w*', '(\\w+)/(N)\\w*', 'by/IN', '(\\w+)/(JJ)', '(a-b)/(x)', '(a|b)/(<)'])
        return rel + rng.choice([' ', ' ', '  ']) + node
    sp = rng.choice([0, 0.3, 1])
    out = ''
    for k in ks:
        out += (item() if k == 'item' else k) + (' ' if rng.random() < sp else '')
    return out


def long_tokens(rng):
    """token kinds of a long expression: upward from the target for a while, then down"""
    how = rng.choice([[1, 1, 2, 3, 7], [2], [2, 2, 3]])

    def down(left, deep):
        n = rng.choice(how) if deep < 9 else 0
        n = min(n, left)
        if n == 0:
            return []
        kids = []
        left -= n
        for k in range(n):
            sub = down(left if k == n - 1 else left // 2 if len(how) > 1 else left * rng.randint(0, 1), deep + 1)
            left -= sub.count('item')
            kids.append(['item'] + sub)
        if n == 1 and rng.random() < 0.8:
            return ['->'] + kids[0]
        return ['->', '['] + [t for i, k in enumerate(kids) for t in ([','] if i else []) + k] + [']']
    up = ['<-', 'item'] * rng.choice([0, 1, 3, 8])
    rest = down(rng.choice([9, 14, 24]), 0)
    return up + rest or ['->', 'item']


def target_text(rng, named):
    return rng.choice(['(?P<LEMMA>\\w+)/(?P<POS>N)\\w*', '(?P<LEMMA>.+)/(?P<POS>V)']) if named else rng.choice(['(\\w+)/(N)\\w*', ' \\w+/(V)'])


def rec23(kind, case):
    def make(obs):
        keep = {k: case[k] for k in ('doc', 'mdoc', 'exprs', 'macros') if k in case}
        if 'mdoc' in keep:
            keep['mdoc'] = dict(keep['mdoc'], macs=[{k: m[k] for k in ('id', 'pat', 't', 'f')} for m in keep['mdoc']['macs']])
        return dict(keep, _module='PatTrace', kind=kind,
                    runs=[{'st': o['st'], 'e': o['e'], 'v': o['v'] if o['v'] is not None else []} for o in obs])
    return make


ARROWS = '''INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Size = %d Variant = "%s" Show = %s
INVARIANT %s
'''


def plan_C23(ctx):
    rng = ctx.rng
    items = []
    for _ in range(ctx.n(300, 3000)):
        c = pat_docs(rng)
        items.append(Item([c], rec23('files', c)))
    for k in range(ctx.n(15, 150)):
        c = pat_docs(rng, ['graphs', 'nodes', 'macros'][k % 3])
        items.append(Item([c], rec23('files', c)))
    exprs = [json.loads(x) for x in dict.fromkeys(ctx.generate('ArrowGen', ARROWS % (ctx.n(5, 6), 'right', 'TRUE', 'ReadsBack OneHead'), 'EXPR'))]
    some = exprs if not ctx.quick else rng.sample(exprs, min(len(exprs), 240))
    some = some + [{'k': long_tokens(rng)} for _ in range(ctx.n(24, 240))]
    rng.shuffle(some)
    for rep in range(ctx.n(1, 3)):
        for i in range(0, len(some), 3):
            es = [{'target': target_text(rng, False), 'text': written(rng, x['k'], False)} for x in some[i:i + 3]]
            c = {'op': 'arrows', 'exprs': es}
            items.append(Item([c], rec23('arrows', c)))
        cuts = list(range(0, len(some), 4))
        for i in cuts + [-1, -2]:
            es = [{'target': target_text(rng, True), 'text': written(rng, x['k'], True)} for x in rng.sample(exprs, min(len(exprs), 60 - 20 * i))] if i < 0 else [{'target': target_text(rng, True), 'text': written(rng, x['k'], True)} for x in some[i:i + 4]]
            plain = rng.random() < 0.5
            c = {'op': 'sheet', 'exprs': es, 'macros': rng.random() < 0.5, 'plain': plain, 'sep': '\t' if plain else rng.choice(['\t', ';']),
                 'tcol': 'Target Regex' if plain else 'T', 'fcol': 'Feature Regex' if plain else 'F'}
            c['cols'] = rng.choice([[c['tcol'], c['fcol']], ['ID', c['tcol'], c['fcol']], ['ID', c['fcol'], 'note', c['tcol']]])
            items.append(Item([c], rec23('sheet', c)))
    specs = [{'module': 'ArrowGen', 'cfg': ARROWS % (ctx.n(6, 7), 'right', 'FALSE', 'ReadsBack OneHead'), 'what': 'reader of arrow expressions', 'workers': 3},
             {'module': 'ArrowGen', 'cfg': ARROWS % (5, 'flatcommas', 'FALSE', 'ReadsBack'), 'what': 'commas of inner brackets end outer ones', 'violates': 'ReadsBack'},
             {'module': 'ArrowGen', 'cfg': ARROWS % (4, 'nocommas', 'FALSE', 'ReadsBack'), 'what': 'siblings become descendants', 'violates': 'ReadsBack'}]
    return {'items': items, 'specs': specs, 'facts': {'arrow expressions': len(exprs)}}
