"""C07-C09: vocabularies."""
import json

from harness.main import Item

TIMEOUT = 20.0
GEN = '''INIT Init
NEXT Random
CHECK_DEADLOCK FALSE
CONSTANTS Names = {%s} MaxObj = 6 MaxFreq = 3 Depth = %d Emit = TRUE Skip = {}
INVARIANT Out
'''
LAWS = '''INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Names = {"a/N", "b/N"} MaxObj = %d MaxFreq = 2 Depth = %d Emit = FALSE Skip = {}
INVARIANT OneFreqEach RankIsOrder SelectionLaws
CONSTRAINT Limit
PROPERTY Frame OthersUntouched
'''


def plan(prop, ctx):
    return globals()['plan_' + prop](ctx)


def rec(kind, case):
    def make(obs):
        return {'_module': 'VocabTrace', 'kind': kind, 'ops': case['ops'],
                'runs': [{'st': o['st'], 'e': o['e'], 'v': o['v'] if o['v'] is not None else []} for o in obs]}
    return make


def hist_item(ops, source):
    ops = [dict(o) for o in ops]
    c = {'op': 'vocab', 'ops': ops, 'source': source, 'fl': len(ops) % 2 == 0}
    return Item([c], rec('hist', c))


def generated(ctx, n, depth, names):
    lines = ctx.generate('VocabGen', GEN % (', '.join('"%s"' % x for x in names), depth), 'HIST',
                         extra=['-simulate', 'num=%d' % n, '-depth', str(depth), '-seed', str(ctx.seed + depth)])
    seen, out = set(), []
    for x in lines:
        if x not in seen:
            seen.add(x)
            out.append(json.loads(x))
    return out


BASE = {'x': 1, 'y': 1, 'k': '', 'ks': [], 'ns': [], 'n1': 0, 'n2': 0, 'c1': '<', 'c2': '<',
        'a': [0, 0], 'b': [0, 0], 'pat': [], 'ps': [], 'h1': 0, 'h2': 0, 'ops': []}
ITEMS = ['huis/N', 'Huis/N', 'huis/V', 'huizen/N', 'a/b/N', 'a/b', 'ab', '\u00e9\u00e9n/Num', '\u4e2d/N', 'x y/N', '/', '1/Num',
         "'s/Det", 'z', 'zz', 'Z/A', '-/P', '.*/N', 'h', 'onafhankelijkheidsverklaringsplechtigheidszaal/N',
         'meervoudigepersoonlijkheidsstoornisbehandelingscentrumdirecteursvergaderingen/' * 2 + 'N']


def op(f, **k):
    return dict(BASE, f=f, ops=[], **k)


def rand_pat(rng, items):
    it = rng.choice(items)
    k = rng.randint(0, 8)
    if k == 0:
        return [['lit', it[:rng.randint(0, len(it))]]]
    if k == 1:
        return [['star', ''], ['lit', it[-2:]], ['end', '']]
    if k == 2:
        return [['any', ''], ['lit', it[1:2]]]
    if k == 3:
        return [['plus', '/'], ['lit', '/'], ['any', ''], ['end', '']]
    if k == 4:
        return [['cls', 'aHh'], ['opt', 'u'], ['star', ''], ['lit', '/']]
    if k == 5:
        return [['alt', it, rng.choice(items)], ['end', '']]
    if k == 6:
        return [['not', 'h'], ['star', '']]
    if k == 7:
        return [['lit', it], ['end', '']]
    return [['star', ''], ['lit', '/N']]


def big_source(rng):
    if rng.random() < 0.05:        # many items, high frequencies
        n = rng.choice([70, 110, 150])
        few = rng.random() < 0.3
        return [['w%d/%s' % (i, rng.choice('NV')), rng.choice([1, 2, 5] if few else [i, 2 * i, 300, 1200, 70000, 100000])]
                for i in rng.sample(range(1, 200), n)]
    items = rng.sample(ITEMS, rng.randint(0, 14))
    return [[i, rng.choice([0, 1, 1, 1, 2, 2, 3, 5, 5, 10])] for i in items]


def fill(rng, o, names):
    """the arguments of a selection"""
    f = o['f']
    some = rng.sample(names, rng.randint(0, min(4, len(names))))
    many = len(names) > 50
    if many and rng.random() < 0.7:
        some = rng.sample(names, rng.randint(40, len(names)))
    if f in ('items', 'sub'):
        o['ks'] = some + (['unseen'] if rng.random() < 0.3 else []) + (some[:1] if rng.random() < 0.3 else [])
    elif f == 'freqs':
        o['ns'] = [rng.choice([0, 1, 2, 5, 7]) for _ in range(rng.randint(0, 3))]
    elif f == 'cond':
        o['c1'], o['n1'] = rng.choice(['<', '<=', '==', '>', '>=']), rng.choice([0, 1, 2, 3, 5, 10, 11])
        o['h1'] = int(rng.random() < 0.2)
    elif f == 'regex':
        o['pat'] = rand_pat(rng, names)
    elif f == 'slice':
        o['a'] = rng.choice([[0, 0], [1, 0], [1, 1], [1, 3], [1, -2], [1, 20]])
        o['b'] = rng.choice([[0, 0], [1, 0], [1, 2], [1, 4], [1, -1], [1, 30]])
        o['n1'] = rng.choice([1, 1, 1, 2, 3])
    if many and f == 'freqs':
        o['ns'] = rng.sample([300, 1200, 70000, 100000, 1, 2, 5, 88] + list(range(10, 150)), rng.randint(1, 80))
    if many and f == 'cond':
        o['n1'] = rng.choice([0, 1, 5, 90, 128, 300, 1200, 70000, 99999])
    if many and f == 'slice' and rng.random() < 0.6:
        o['a'] = rng.choice([[0, 0], [1, 33], [1, 64], [1, 101], [1, -20]])
        o['b'] = rng.choice([[0, 0], [1, 50], [1, 104], [1, 140], [1, -3], [1, 500]])


def select_history(rng):
    ps = big_source(rng)
    names = [p[0] for p in ps] or ['q']
    ops = [op('src', ps=ps), op('new')]
    n = 2
    for _ in range(rng.randint(4, 8)):
        x = 2 if rng.random() < 0.7 else rng.randint(2, n)
        f = rng.choice(['items', 'freqs', 'cond', 'cond', 'chain', 'path', 'regex', 'regex', 'word', 'slice', 'slice', 'sub',
                        'list', 'list', 'frame', 'len', 'sum', 'keys', 'values'])
        o = op(f, x=x)
        fill(rng, o, names)
        if f == 'path':
            for _ in range(rng.randint(1, 4)):
                s = op(rng.choice(['items', 'freqs', 'cond', 'cond', 'regex', 'slice']))
                fill(rng, s, names + names[:2])
                if s['f'] == 'items':
                    s['ks'] += [k for k in names if rng.random() < 0.6]
                o['ops'].append(s)
        elif f == 'chain':
            o['c1'], o['n1'] = rng.choice(['>', '>=', '==', '<']), rng.choice([0, 1, 2])
            o['c2'], o['n2'] = rng.choice(['<', '<=', '==', '>']), rng.choice([1, 2, 5, 10])
        elif f == 'word':
            o['k'] = rng.choice(names).rsplit('/', 1)[0] if rng.random() < 0.8 else rng.choice(names)
        elif f == 'list':
            o['k'], o['n1'] = rng.choice(['alpha', 'freq']), rng.randint(0, 1)
        ops.append(o)
        if f in ('items', 'freqs', 'cond', 'chain', 'path', 'regex', 'word', 'slice', 'sub'):
            n += 1
    if len(names) > 50:
        o = op('freqs', x=2)
        fill(rng, o, names)
        ops.append(o)
        ops += [op(f, x=2, **({'k': rng.choice(['alpha', 'freq']), 'n1': rng.randint(0, 1)} if f == 'list' else {}))
                for f in rng.sample(['sum', 'list', 'frame', 'len', 'keys', 'values'], 4)]
    return ops


def plan_C07(ctx):
    rng = ctx.rng
    items = []
    for h in generated(ctx, ctx.n(150, 1500), 12, ['a/N', 'b/N', 'a/V', 'ab']):
        items.append(hist_item(h, rng.choice(['dict', 'defaultdict'])))
    for _ in range(ctx.n(200, 2500)):
        items.append(hist_item(select_history(rng), rng.choice(['dict', 'dict', 'defaultdict', 'frame'])))
    specs = [{'module': 'VocabGen', 'cfg': LAWS % (2, ctx.n(3, 4)), 'what': 'selection and rank laws', 'workers': 4}]
    return {'items': items, 'specs': specs}


def plan_C08(ctx):
    rng = ctx.rng
    items = []
    for h in generated(ctx, ctx.n(260, 3000), 16, ['a/N', 'b/N', 'ab']):
        items.append(hist_item(h, rng.choice(['dict', 'defaultdict', 'defaultdict'])))
    # update heavy histories with many aliases
    for _ in range(ctx.n(120, 1500)):
        ops = [op('src', ps=big_source(rng)[:rng.choice([5, 5, 5, 200])]), op('new')]
        kinds = ['dict', 'vocab']
        for _ in range(12):
            x = rng.randint(1, len(kinds))
            k = rng.choice(['huis/N', 'z', 'ab', 'h'])
            if kinds[x - 1] == 'dict':
                f = rng.choice(['set', 'set', 'new'])
            else:
                f = rng.choice(['inc', 'inc', 'set', 'copy', 'dict', 'cond', 'sub', 'slice', 'items', 'frame', 'get', 'get', 'equal',
                                'list', 'show', 'len'])
            o = op(f, x=x, k=k)
            if f in ('inc', 'set'):
                o['n1'] = rng.choice([0, 1, 2, 3, 4, 4, 200, 1000] + ([-1, -3] if f == 'inc' else []))
            if f == 'equal':
                o['y'] = rng.choice([i + 1 for i, q in enumerate(kinds) if q == 'vocab'])
            if f == 'cond':
                o['c1'], o['n1'] = '>=', rng.randint(0, 2)
            if f in ('items', 'sub'):
                o['ks'] = ['huis/N', 'z']
            if f == 'list':
                o['k'], o['n1'] = 'freq', 1
            if f == 'slice':
                o['n1'] = 1
            ops.append(o)
            if f in ('copy', 'cond', 'sub', 'slice', 'items', 'new'):
                kinds.append('vocab')
            if f == 'dict':
                kinds.append('dict')
        items.append(hist_item(ops, rng.choice(['dict', 'defaultdict', 'frame'])))
    specs = [{'module': 'VocabGen', 'cfg': LAWS % (3, ctx.n(3, 4)), 'what': 'frame conditions of every operation', 'workers': 4}]
    return {'items': items, 'specs': specs}


LATIN = ['caf\u00e9/N', 'na\u00efve', '\u00a3/S', 'stra\u00dfe/N']
WIDE = ['a b\u3000', 'q\u2003/N', '\u4e2d\u6587/N', '\u03b1\u03b2', '\u0416/N', '\u20ac/S']
PLAIN = ['huis/N', 'a b/N', 'a  b', '"q"/P', "'s/Det", 'a/b/c', '#tag/N', '1', '1.5', 'null', 'x:y', 'a,b', 'b\\n', '%s', '{}', '</s>', '-', 'Z',
         'trail ', 'two  ']
SPACED = ['nb\u00a0', 'nb\u00a0sp/N', 'two  \u00a0']


def plan_C09(ctx):
    rng = ctx.rng
    items = []
    for _ in range(ctx.n(220, 2500)):
        ops, saved = [], {}
        for _ in range(rng.randint(2, 7)):
            if saved and rng.random() < 0.5:
                name = rng.choice(sorted(saved))
                fmt, enc = saved[name]
                ops.append({'f': 'load', 'name': name, 'fmt': fmt, 'enc': enc, 'ps': []})
                continue
            fmt = rng.choice(['json', 'plain', 'plain', 'txt'])
            enc = rng.choice(['utf-8', 'utf-8', 'latin-1', 'utf-16'])
            pool = PLAIN + SPACED + LATIN + ['n\u0085l'] + ([] if enc == 'latin-1' else WIDE + ['n\u2028l', 'a\u2029'])
            if fmt == 'json':
                pool = pool + ['', 'a\tb', 'a\nb', ' lead', 'trail ', '\u2028x'] if enc != 'latin-1' else pool + ['', 'a\tb']
            its = rng.sample(sorted(set(pool)), rng.choice([0, 1, 2, 4, 8]))
            if rng.random() < 0.03:
                its += ['w%d/N' % i for i in rng.sample(range(200), 130)] + ['lang' * 40 + '/N']
            nums = [[0, 1], [1, 1], [1, 1], [2, 1], [10, 1], [12345, 1], [-1, 1]]
            if rng.random() < 0.35:
                nums += [[1, 2], [5, 4], [1, 100000]]
            else:
                nums += [[2000000000, 1], [70000, 1]]
            ps = [[i, rng.choice(nums)] for i in its]
            name = rng.choice(['v.json', 'v.txt', 'w', 'x.freq'])
            saved[name] = (fmt, enc)
            if fmt == 'json' and rng.random() < 0.35:
                known = rng.sample(its, rng.randint(0, len(its)))
                extra = rng.sample(sorted(set(pool) - set(its)), rng.randint(0, 2))
                want = known + extra
                rng.shuffle(want)
                ops.append({'f': 'types', 'name': name, 'fmt': fmt, 'enc': enc, 'ps': ps, 'its': want, 'how': rng.choice(['', 'plain'])})
                continue
            ops.append({'f': 'save', 'name': name, 'fmt': fmt, 'enc': enc, 'ps': ps,
                        'how': rng.choice(['', 'vocab-encoding'])})
        for name in sorted(saved):
            ops.append({'f': 'load', 'name': name, 'fmt': saved[name][0], 'enc': saved[name][1], 'ps': []})
        c = {'op': 'vfile', 'ops': ops}
        items.append(Item([c], rec('file', c)))
    return {'items': items, 'specs': []}
