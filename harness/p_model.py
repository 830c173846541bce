"""C28: from a corpus to token distances."""
from harness.main import Item
from harness.p_assoc import MEAS
from harness.p_pipe import gen_file

TIMEOUT = 40.0
LAWS = '''INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS MaxLen = %d MaxSpan = %d TwoTo = %d
MRk <- Rk0
INVARIANTS Laws Selections
'''
WORDS = ['de', 'kat', 'mat', 'hond', 'en', 'w\u00e9l', 'Kat']
LAYOUTS = [
    (['word', 'pos', 'lemma'], ['lemma', 'pos'], ['lemma', 'pos', 'word']),
    (['word', 'pos', 'lemma'], ['lemma', 'pos'], ['lemma', 'pos']),
    (['word', 'lemma', 'pos'], ['lemma'], ['lemma']),
    (['lemma', 'pos', 'word'], ['lemma', 'pos'], ['lemma', 'pos']),
    (['word', 'pos', 'lemma'], ['word'], ['word', 'pos']),
]


def corpus(rng, layouts=LAYOUTS):
    cols, ty, to = rng.choice(layouts)
    c = {'cols': cols, 'ncol': 3, 'type': ty, 'colloc': ty, 'token': to, 'sep': rng.choice(['</s>', '</artikel>']),
         'workers': rng.choice([1, 1, 2, 3]), 'how': 'list'}
    c['l'], c['r'] = rng.choice([(1, 1), (1, 2), (2, 1), (2, 2), (0, 2), (3, 1)])
    ws = rng.sample(WORDS, rng.randint(2, 5))
    vocab = [(w, rng.choice(['N', 'V']), rng.choice([w, w, w, ws[0]])) for w in ws]
    # some words are more usual
    bag = vocab + vocab[:2] * rng.choice([0, 1, 2])
    room = 116 // (c['l'] + c['r'])
    files = []
    for f in rng.sample(['a', 'sub/b', 'c.d'], rng.choice([1, 2, 2, 3])):
        lines = gen_file(rng, c, bag, maxseg=4, maxlen=9)[:max(0, room)]
        room -= len(lines)
        files.append({'fid': f, 'lines': lines, 'ext': '.txt', 'nl': True})
    c['_once'] = None
    if rng.random() < 0.4:        # a word that occurs once
        f = rng.choice(files)
        once = {'word': 'nu', 'pos': 'N', 'lemma': 'nu'}
        f['lines'].insert(rng.randint(0, len(f['lines'])), '\t'.join(once[x] for x in cols))
        c['_once'] = '/'.join(once[x] for x in ty)
    c['files'] = files
    c['sel'] = list(range(1, len(files) + 1))
    if rng.random() < 0.3:        # a part of the files, in any order
        c['sel'] = rng.sample(c['sel'], rng.randint(1, len(files)))
    c['tsel'] = list(c['sel'])    # files the tokens come from
    if rng.random() < 0.3:
        c['tsel'] = rng.sample(range(1, len(files) + 1), rng.randint(1, len(files)))
    c['how'] = rng.choice(['list', 'list', 'file'] + (['all'] * 2 if c['sel'] == c['tsel'] == list(range(1, len(files) + 1)) else []))
    types = sorted({'/'.join({'word': w, 'pos': p, 'lemma': l}[x] for x in ty) for w, p, l in vocab})
    if c['_once']:
        types.append(c['_once'])
    return c, types


def choice(rng, types):
    return rng.choice([['all'], ['all'], ['min', rng.randint(2, 3)], ['top', rng.randint(1, len(types))],
                       ['items', rng.sample(types, rng.randint(1, len(types)))]])


EMPTY = {'rows': [], 'cols': [], 'cells': []}
CHAIN = dict({k: EMPTY for k in ('full', 'part', 'ass', 'w', 'fw', 'vec', 'dist', 'cos', 'rank', 'rvec')},
             freq=[], rowv=[], colv=[], nf=[], cf=[], near=[], stage=0, nopairs=False, same=True)
VECS = dict({k: EMPTY for k in ('full', 'ass')}, freq=[], nopairs=False, ast='ok', tst='ok', vst='ok', concepts=[], vecs=[], same=True)


def rec(c, more, empty):
    idx = {x: i + 1 for i, x in enumerate(c['cols'])}
    base = {'_module': 'ModelTrace', 'kind': c['op'], 'ncol': c['ncol'], 'sep': c['sep'], 'l': c['l'], 'r': c['r'], 'sel': c['sel'], 'tsel': c['tsel'],
            'files': [{'fid': f['fid'], 'lines': f['lines']} for f in c['files']],
            'ty': [idx[x] for x in c['type']], 'co': [idx[x] for x in c['colloc']], 'to': [idx[x] for x in c['token']]}
    base.update({k: c[k] for k in more})

    def make(obs):
        return dict(base, runs=[{'st': o['st'], 'e': o['e'], 'v': dict(empty, **(o['v'] or {}))} for o in obs])
    return make


def plan(prop, ctx):
    rng = ctx.rng
    items = []
    for _ in range(ctx.n(150, 1800)):
        c, types = corpus(rng)
        c.update(op='chain', rsel=choice(rng, types), csel=choice(rng, types), cut=rng.choice([0, 0, 1, 2]), tidy=rng.random() < 0.5,
                 meas=rng.choice(['ppmi', 'ppmi', 'ppmi'] + MEAS), queries=rng.sample(types, rng.choice([1, 1, rng.randint(1, len(types))])),
                 order=rng.sample(types, len(types)), turn=rng.random() < 0.7, ks=[rng.randint(1, 5) for _ in range(130)])
        if c['_once'] and rng.random() < 0.5:
            c['queries'] = [c['_once']]
        if rng.random() < 0.4:        # nothing left out
            c.update(rsel=['all'], csel=['all'], cut=0, meas='ppmi')
        if rng.random() < 0.15:
            c['queries'].append('zz/Z' if len(c['type']) > 1 else 'zz')
        items.append(Item([c], rec(c, ['rsel', 'csel', 'cut', 'tidy', 'meas', 'queries'], CHAIN)))
    for _ in range(ctx.n(80, 900)):
        c, types = corpus(rng, [x for x in LAYOUTS if x[1] == ['lemma', 'pos']])
        given = rng.choice(['none', 'none', 'row', 'row', 'both', 'col'])
        pool = rng.sample(types, len(types))
        cs = []
        for name in rng.sample(['dier', 'ding', 'w\u00f3rd'] + types, rng.choice([1, 2, 2])):
            cs.append([name, pool[:rng.randint(1, 3)]])
            pool = (pool[len(cs[-1][1]):] if rng.random() < 0.6 else []) or rng.sample(types, len(types))
        c.update(op='vectorizer', given=given, rsel=choice(rng, types) if given in ('row', 'both') else ['all'],
                 csel=choice(rng, types) if given in ('col', 'both') else ['same'], concepts=cs,
                 fcut=rng.choice([0, 0, 0, 1]), pcut=rng.choice([0, 0, 0, 3000]), lcut=rng.choice([0, 0, 0, 5000]),
                 meas=rng.choice(['ppmi', 'ppmi'] + MEAS))
        items.append(Item([c], rec(c, ['rsel', 'csel', 'concepts', 'fcut', 'pcut', 'lcut', 'meas'], VECS)))
    specs = [{'module': 'ModelLaws', 'cfg': LAWS % (ctx.n(4, 6), ctx.n(2, 3), ctx.n(2, 3)), 'what': 'laws of the chain, every small text'}]
    return {'items': items, 'specs': specs}
