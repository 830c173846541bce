"""C25: token collections."""
import itertools
import json

from harness.main import Item

TIMEOUT = 30.0
GEN = '''INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Variant = "%s" Tokens0 = {1, 2} MaxObj = 3 Depth = %d Emit = %s
INVARIANT %s
CONSTRAINT Limit
%s
'''
LAWS = 'PROPERTY Frame Population Refused Sampled Told'
NAMES = '''INIT NInit
NEXT NNext
CHECK_DEADLOCK FALSE
CONSTANTS Variant = "%s" Texts = {"a", "b"} Words = {"a", "b"} MaxParts = %d
INVARIANT Rebuilt Readable
'''
COLS = ['word', 'lemma', 'pos']
KNOWN = COLS + ['fid', 'lid']
NONE = '<none>'
TEXTS = {'word': ['de', 'x y', '\u00e9\u00e9n', '"q"', 'W'], 'lemma': ['de', 'be', '\u00e9', "l'", 'W'], 'pos': ['N', 'V', 'DET', 'n'],
         'fid': ['f0', 'g', 'f0.x', 'de'], 'lid': ['1', '2', '12', '007', '-1']}
TYPES = [['be', 'lemma'], ['be', 'word'], ['be/N', 'lemma/pos'], ['N/be', 'pos/lemma'], ['\u00e9\u00e9n', 'word'], ['be/N', 'word/pos'],
         ['a/b/c', 'word/pos/lemma'], ['a/b/c', 'lemma/word/pos'], ['W', 'lemma']]


def rand_fmt(rng, cols=KNOWN, usual=0.4):
    if rng.random() < usual:
        return rng.choice(['word/pos/fid/lid', 'lemma/fid/lid', 'lemma/pos/fid/lid', 'word/fid/lid'])
    return '/'.join(rng.sample(cols, rng.randint(1, len(cols))))


def rand_items(rng, n, lemmas):
    return [[NONE if lemmas else rng.choice(TEXTS['word']), rng.choice(TEXTS['lemma']), NONE if lemmas else rng.choice(TEXTS['pos'])]
            for _ in range(n)]


def rand_token(rng, lemmas=False, full=True):
    p = {c: rng.choice(TEXTS[c]) for c in KNOWN}
    p['fmt'] = rand_fmt(rng)
    p['way'] = rng.choice(['parts', 'parts', 'name', 'match'])
    if p['way'] == 'match' and not p['fmt'].endswith('/fid/lid'):
        p['way'] = 'parts'
    if not full and p['way'] == 'parts':
        for c in COLS:
            if c not in p['fmt'].split('/') and rng.random() < 0.3:
                p[c] = NONE
    if all(p[c] == NONE for c in COLS):
        p['word'] = 'de'
    if p['way'] == 'name' and not set(p['fmt'].split('/')) & set(COLS):
        p['way'] = 'parts'
    p['bare'] = rng.random() < 0.3
    p['left'] = rand_items(rng, rng.choice([0, 0, 1, 2, 3]), lemmas)
    p['right'] = rand_items(rng, rng.choice([0, 0, 1, 2, 3]), lemmas)
    return p


def has(p, c):
    return p[c] != NONE if p['way'] != 'name' else c in p['fmt'].split('/')


def B(f, **k):
    return dict({'f': f, 'ty': '', 'fmt': '', 'toks': [], 'x': 0, 'xs': [], 'n': 0, 'first': False, 'way': '', 'enc': 'utf-8'}, **k)


def rand_corpus(rng):
    files = []
    for k in range(rng.randint(1, 3)):
        lines = ['<s>' if rng.random() < 0.15 else '\t'.join([rng.choice(['a', 'b', 'c']), rng.choice(['N', 'V']), rng.choice(['a', 'b'])])
                 for _ in range(rng.randint(1, 9))]
        files.append({'fid': 'f%d' % k, 'lines': lines})
    return {'files': files, 'l': rng.randint(0, 3), 'r': rng.randint(0, 3), 'sep': '<s>', 'workers': rng.randint(1, 3),
            'queries': {'lemma/pos': ['a/N', 'b/V', 'c/N'], 'lemma': ['a', 'zz'], 'word': ['a', 'c'], 'pos/word': ['N/b', 'V/a']}}


def rand_history(rng, corpus, lemmas):
    large = rng.random() < 0.05
    pool = [rand_token(rng, lemmas, rng.random() < 0.6) for _ in range(40 if large else rng.randint(1, 9))]
    if rng.random() < 0.2:          # names that are not different
        pool.append(dict(pool[0], left=rand_items(rng, 2, lemmas)))
    ops, kinds, free = [], [], []
    names = rng.sample(TYPES, rng.randint(1, 3))
    fmts = [f for f in ('lemma', 'word', 'pos', 'lemma/pos', 'word/pos', 'pos/word/lemma')
            if all(all(has(p, c) for p in pool) for c in f.split('/')) and (not lemmas or f == 'lemma')]
    encs = ['utf-8', 'utf-8', 'latin-1', 'utf-16']
    for _ in range(rng.randint(4, 14)):
        f = rng.choice(['new', 'new', 'add', 'add', 'merge', 'merge', 'merge', 'sample', 'sample', 'sample', 'load', 'lines', 'lines', 'found'])
        if f in ('new', 'add') or not kinds:
            if f == 'add' and kinds:
                x = rng.randrange(len(kinds))
                ops.append(B('add', x=x + 1, toks=[rng.randint(1, len(pool))]))
                free[x] = None if free[x] is None else free[x] + 1
                continue
            ty, fmt = rng.choice(names)
            n = rng.choice([0, 1, 2, 3, 5, 8]) if not large else rng.choice([2, 12, 24])
            ops.append(B('new', ty=ty, fmt=fmt, toks=[rng.randint(1, len(pool)) for _ in range(n)] if rng.random() < 0.3
                         else rng.sample(range(1, len(pool) + 1), min(n, len(pool))), way=rng.choice(['name', 'parts', 'match'])))
            kinds.append((ty, fmt))
            free.append(len(ops[-1]['toks']))
        elif f == 'merge':
            k = rng.choice(kinds)
            same = [i + 1 for i, q in enumerate(kinds) if q == k]
            xs = [rng.choice(same) for _ in range(rng.randint(0, 3) if rng.random() < 0.93 else rng.randint(4, 7))]
            if rng.random() < 0.2:
                xs.insert(rng.randint(0, len(xs)), rng.randint(1, len(kinds)))
            ops.append(B('merge', xs=xs))
            if xs and len({kinds[i - 1] for i in xs}) == 1:
                kinds.append(k)
                ns = [free[i - 1] for i in xs]
                free.append(None if None in ns else sum(ns))
        elif f == 'sample':
            x = rng.randrange(len(kinds))
            ops.append(B('sample', x=x + 1, n=rng.choice([0, 1, 1, 2, 2, 3, 4, 6, 300] + [9, 13] * large), first=rng.random() < 0.5))
            n = ops[-1]['n']
            if not ops[-1]['first'] and (free[x] is None or n > free[x]):     # it may be refused: what comes later cannot count on it
                break
            kinds.append(kinds[x])
            free.append(None if free[x] is None else min(n, free[x]))
        elif f == 'load' and not lemmas:
            x = rng.randrange(len(kinds))
            ops.append(B('load', x=x + 1, enc=rng.choice(encs)))
            kinds.append(kinds[x])
            free.append(free[x])
        elif f == 'lines' and fmts:
            ops.append(B('lines', xs=rng.sample(range(1, len(kinds) + 1), rng.randint(0, min(3, len(kinds)))), fmt=rng.choice(fmts),
                         enc=rng.choice(encs)))
        elif f == 'found' and corpus and not lemmas:
            fmt = rng.choice(sorted(corpus['queries']))
            ops.append(B('found', fmt=fmt))
            for q in sorted(corpus['queries'][fmt]):
                kinds.append((q, fmt))
                free.append(None)
    return ops, pool


def rec(kind, case, keys):
    def make(obs):
        r = {'_module': 'TokTrace', 'kind': kind,
             'runs': [{'st': o['st'], 'e': o['e'], 'v': o['v'] if o['v'] is not None else []} for o in obs]}
        for k in keys:
            r[k] = case[k]
        return r
    return make


def toks_item(ops, pool, seed, share, corpus=None):
    c = {'op': 'toks', 'ops': ops, 'pool': pool, 'seed': seed, 'share': share, 'corpus': corpus}
    return Item([c], rec('toks', c, ['ops', 'pool']))


def name_queries(rng, n):
    qs = []
    for _ in range(n):
        what = rng.choice(['token', 'token', 'type'])
        cols = KNOWN if what == 'token' else COLS
        fmt = '/'.join(rng.sample(cols, rng.randint(1, len(cols))))
        fs = fmt.split('/')
        name = '/'.join(rng.choice(TEXTS[c]) for c in fs)
        k = rng.random()
        if k < 0.1:
            name = name + '/' + rng.choice(['x', 'N', ''])
        elif k < 0.15 and len(fs) > 1:
            name = name.rsplit('/', 1)[0]
        elif k < 0.2:
            fmt = '/'.join([rng.choice(['Lemma', 'file', 'stem', ' pos'])] + fs[1:])
        elif what == 'type' and k < 0.25:
            fmt = '/'.join([rng.choice(['fid', 'lid'])] + fs[1:])
        inner = [c for c in fs if c in COLS]
        fmts = ['/'.join(rng.sample(inner, rng.randint(1, len(inner)))) for _ in range(2)] if inner else []
        if what == 'token' and not inner:
            fmts = [rng.choice(fs)]
        qs.append({'what': what, 'name': name, 'fmt': fmt, 'fmts': fmts})
    return qs


def plan(prop, ctx):
    rng, items = ctx.rng, []
    hist = ctx.generate('TokensGen', GEN % ('right', ctx.n(4, 5), 'TRUE', 'Out', ''), 'HIST', extra=[])
    hist = sorted(set(hist))
    some = hist if len(hist) <= ctx.n(250, 2500) else rng.sample(hist, ctx.n(250, 2500))
    for h in some:
        pool = [rand_token(rng) for _ in range(2)]
        ops = [dict(B(o['f']), **o, way=rng.choice(['name', 'parts', 'match'])) for o in json.loads(h)]
        items.append(toks_item(ops, pool, rng.randrange(1000), rng.random() < 0.5))
    found = 0
    for _ in range(ctx.n(350, 5000)):
        corpus = rand_corpus(rng) if rng.random() < 0.15 else None
        ops, pool = rand_history(rng, corpus, rng.random() < 0.15)
        found += any(o['f'] == 'found' for o in ops)
        items.append(toks_item(ops, pool, rng.randrange(1000), rng.random() < 0.5, corpus))
    allq = []
    for what, cols in (('type', COLS), ('token', KNOWN)):
        for n in range(1, len(cols) + 1):
            for fs in itertools.permutations(cols, n):
                inner = [c for c in fs if c in COLS]
                if what == 'type' or inner:
                    allq.append({'what': what, 'name': '/'.join(rng.choice(TEXTS[c]) for c in fs), 'fmt': '/'.join(fs), 'fmts': ['/'.join(inner)]})
    allq += name_queries(rng, ctx.n(800, 20000))
    for k in range(0, len(allq), 60):
        c = {'op': 'toknames', 'qs': allq[k:k + 60]}
        items.append(Item([c], rec('names', c, ['qs'])))
    specs = [{'module': 'TokensGen', 'cfg': GEN % ('right', ctx.n(3, 5), 'FALSE', 'Separate', LAWS), 'what': 'every short history of collections'},
             {'module': 'TokNames', 'cfg': NAMES % ('right', ctx.n(3, 5)), 'what': 'names in every order of their parts, lines of a concordance'}]
    for v, law in [('merge-into-first', 'Separate'), ('merge-once', 'Population'), ('merge-names', 'Refused'), ('sample-again', 'Sampled'),
                   ('sample-shuffled', 'Sampled'), ('sample-shares', 'Separate')]:
        specs.append({'module': 'TokensGen', 'cfg': GEN % (v, 4, 'FALSE', 'Separate', LAWS), 'what': 'broken collections: ' + v, 'violates': law})
    for v, law in [('usual-order', 'Rebuilt'), ('place-last', 'Rebuilt'), ('nearest-first', 'Readable')]:
        specs.append({'module': 'TokNames', 'cfg': NAMES % (v, 3), 'what': 'broken names: ' + v, 'violates': law})
    return {'items': items, 'specs': specs, 'facts': {'histories generated by TLC': len(hist), 'of these replayed': len(some),
                                                      'histories with tokens retrieved from a corpus': found, 'names taken apart': len(allq)}}
