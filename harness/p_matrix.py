"""C10-C13: labelled matrices."""
import json

from harness.main import Item

BIG = 2 ** 33 + 1
TIMEOUT = 30.0
GEN = '''INIT InitGen
NEXT Random
CHECK_DEADLOCK FALSE
CONSTANTS Starts = %d MaxObj = %d Depth = %d Emit = TRUE Fam = {%s} Wide = TRUE
INVARIANT Out
'''
LAWS = '''INIT InitLaws
NEXT NoStep
CHECK_DEADLOCK FALSE
CONSTANTS Starts = 0 MaxObj = 2 Depth = 1 Emit = FALSE Fam = {} Wide = FALSE
INVARIANT %s
'''
READ = ['get', 'sum', 'count', 'empty_rows', 'equal', 'frame', 'colloc', 'copyout', 'show', 'todict']
FAM = {
    'C10': ['sub', 'reorder', 'transpose', 'todense', 'copy', 'drop', 'drop_empty', 'dict', 'csv'] + READ,
    'C11': ['mask', 'mult', 'sub', 'reorder', 'transpose', 'get'],
    'C12': ['merge', 'merge2', 'mergeall', 'concat', 'sub', 'transpose', 'dict'],
}
LABELS = ['a/N', 'b/N', 'B/N', 'c/V', '\u00e9\u00e9n/Num', 'x y/N', '\u4e2d/N', 'a/b/N', 'z', '0', 'a', "d'r/P", 'Z/Z', '/']
BASE = {'x': 1, 'y': 1, 'ys': [], 'hr': 0, 'nr': [], 'hc': 0, 'nc': [], 'axis': 0, 'n': 0, 'cmp': '<', 'ga': ['-'], 'gb': ['-']}


def plan(prop, ctx):
    return globals()['plan_' + prop](ctx)


def op(f, **k):
    return dict(BASE, f=f, **k)


def rec_hist(case):
    def make(obs):
        return {'_module': 'MatrixTrace', 'kind': 'hist', 'ops': case['ops'],
                'init': [{k: s[k] for k in ('rows', 'cols', 'dense', 'mask', 'cells')} for s in case['init']],
                'runs': [{'st': o['st'], 'e': o['e'], 'v': o['v'] or []} for o in obs]}
    return make


def hist_item(init, ops, rng, **k):
    init = [dict(s) for s in init]
    scale = k.pop('scale', None) or rng.choice([1, 1, 1, 1, 2, 4, -BIG])
    for s in init:
        if not s['dense'] and rng.random() < 0.25:
            s['fmt'] = 'csc'
        s['fl'] = rng.random() < 0.4
        # a matrix of whole numbers among matrices of fractions
        if scale > 1 and not s['mask'] and rng.random() < 0.4:
            s['whole'] = 1
            s['cells'] = [[i, j, v * scale] for i, j, v in s['cells']]
    c = dict({'op': 'mxhist', 'init': init, 'ops': [dict(o) for o in ops], 'scale': scale}, **k)
    return Item([c], rec_hist(c))


def generated(ctx, prop, n, depth, starts=2, maxobj=6):
    lines = ctx.generate('MatrixGen', GEN % (starts, maxobj, depth, ', '.join('"%s"' % f for f in FAM[prop])), 'HIST',
                         extra=['-simulate', 'num=%d' % n, '-depth', str(depth), '-seed', str(ctx.seed + depth)])
    seen, out = set(), []
    for x in lines:
        if x not in seen:
            seen.add(x)
            o = json.loads(x)
            if o['ops']:
                out.append(o)
    return out


def cells(rng, nr, nc, dense, density=0.5, zeros=0.2, lo=-3, hi=6):
    out = []
    for i in range(1, nr + 1):
        for j in range(1, nc + 1):
            if dense:
                out.append([i, j, rng.choice([0, rng.randint(lo, hi)])])
            elif rng.random() < density:
                out.append([i, j, 0 if rng.random() < zeros else rng.randint(lo, hi)])
    return out


MANY = LABELS + ['w%d/%s' % (i, 'NVA'[i % 3]) for i in range(30)]
HUGE = MANY + ['w%d/N' % i for i in range(30, 160)]


def plain(m):
    """labels a csv file can carry"""
    return all('/' in x and x != '/' for x in m['rows'] + m['cols'])


def rand_matrix(rng, rows=None, cols=None, dense=None, **k):
    if rng.random() < 0.07:
        rows = rows or rng.sample(MANY, rng.randint(9, 40))
        cols = cols or rng.sample(MANY, rng.randint(1, 20))
    elif rng.random() < 0.012 and not (rows or cols):
        rows, cols = rng.sample(HUGE, rng.choice([105, 131, 150])), rng.sample(MANY, rng.randint(1, 3))
        if rng.random() < 0.5:
            rows, cols = cols, rows
    dense = rng.random() < 0.3 if dense is None else dense
    rows = rows or rng.sample(LABELS, rng.choice([1, 1, 2, 3, 5, 8]))
    cols = cols or rng.sample(LABELS, rng.choice([1, 1, 2, 3, 5, 8]))
    return {'rows': list(rows), 'cols': list(cols), 'dense': dense, 'mask': False,
            'cells': cells(rng, len(rows), len(cols), dense, rng.choice([0.15, 0.5, 0.9]), rng.choice([0, 0, 0.3]), **k)}


def square(rng, labels=None):
    rows = labels or rng.sample(LABELS, rng.choice([1, 2, 3, 4]))
    n = len(rows)
    v = {}
    for i in range(n):
        for j in range(i, n):
            v[i, j] = v[j, i] = 0 if i == j else rng.randint(0, 5)
    return {'rows': list(rows), 'cols': list(rows), 'dense': True, 'mask': False,
            'cells': [[i + 1, j + 1, v[i, j]] for i in range(n) for j in range(n)]}


def symmetric_other_labels(rng):
    m = square(rng)
    m['cols'] = rng.sample(LABELS, len(m['rows']))
    return m


def arg(rng, labels):
    k = rng.random()
    if k < 0.5:
        return ['n', rng.choice(labels)]
    if k < 0.75:
        return ['i', rng.randint(1, len(labels))]
    if k < 0.9:
        a = rng.randint(1, len(labels))
        return ['s', a, rng.randint(a, len(labels))]
    return ['-']


def some(rng, labels):
    k = rng.sample(labels, rng.randint(1, len(labels)))
    if rng.random() < 0.3:
        k.insert(rng.randint(0, len(k)), 'unseen/N')
    if rng.random() < 0.08:
        k = ['unseen/N']
    return k


def one_step(rng, m, fs):
    """an operation on the first matrix; rows and cols are its labels"""
    f = rng.choice(fs)
    o = op(f)
    if f == 'sub':
        o['hr'], o['hc'] = rng.choice([(1, 0), (0, 1), (1, 1)])
        if o['hr']:
            o['nr'] = some(rng, m['rows'])
        if o['hc']:
            o['nc'] = some(rng, m['cols'])
    elif f == 'reorder':
        o['axis'] = rng.randint(0, 1)
        ls = m['rows'] if o['axis'] == 0 else m['cols']
        o['nr'] = rng.sample(ls, len(ls))
    elif f == 'sample':
        o['n'] = rng.choice([1, 25, 50, 75, 99, 100, 100 * len(m['rows'])])
        o['hc'], o['axis'] = rng.randint(0, 1), rng.randint(0, 9)
        o['hr'] = rng.choice([0, 0, 1])
    elif f in ('drop', 'drop_empty', 'count', 'sum'):
        o['axis'], o['n'] = rng.randint(0, 1), rng.randint(0, 1 if f == 'drop_empty' else 2)
        if f == 'sum':
            o['axis'] = rng.randint(0, 2)
    elif f == 'get':
        o['ga'], o['gb'] = arg(rng, m['rows']), arg(rng, m['cols'])
        o['n'] = rng.randint(0, 1)
    elif f == 'mask':
        o['cmp'], o['n'] = rng.choice(['<', '<=', '>', '>=']), rng.randint(-3, 6)
    elif f == 'csv':
        o['cmp'], o['n'] = rng.choice('\t,;'), rng.randint(0, 1)
    elif f == 'show':
        o['n'], o['axis'] = rng.randint(0, 9), rng.randint(0, 9)
    elif f == 'colloc':
        o['nr'] = [rng.choice(m['rows'])]
    elif f in ('copy', 'empty_rows'):
        o['n'] = rng.randint(0, 1)
    return o


SINGLE = ['sub', 'sub', 'reorder', 'transpose', 'copy', 'sample', 'drop', 'drop_empty', 'count', 'sum', 'get', 'get', 'frame',
          'empty_rows', 'colloc', 'copyout', 'show', 'todict', 'todense', 'dict', 'csv']


def plan_C10(ctx):
    rng = ctx.rng
    items = []
    for o in generated(ctx, 'C10', ctx.n(220, 3000), 14):
        items.append(hist_item(o['init'], o['ops'], rng))
    # single operations on all kinds and shapes of matrices, the result then
    # looked at through sums, lookups and frames
    for _ in range(ctx.n(330, 4000)):
        k = rng.random()
        m = square(rng) if k < 0.12 else symmetric_other_labels(rng) if k < 0.22 else rand_matrix(rng)
        fs = SINGLE if not m['dense'] else [f for f in SINGLE if f not in ('todense', 'dict', 'todict')]
        ops = []
        for _ in range(3):
            o = one_step(rng, m, fs if plain(m) else [f for f in fs if f != 'csv'])
            ops.append(o)
            if o['f'] in ('csv', 'sub', 'reorder', 'transpose', 'copy', 'sample', 'drop', 'drop_empty', 'todense', 'dict'):
                break
        o = ops[-1]
        if o['f'] in ('csv', 'reorder', 'transpose', 'copy', 'todense') or (o['f'] == 'sub' and not
                                                                     any('unseen/N' == x for x in o['nr'] + o['nc'])):
            for f in rng.sample(['sum', 'count', 'frame', 'show', 'copyout'], 2):
                ops.append(dict(op(f), x=2, axis=rng.randint(0, 1), n=rng.randint(0, 2)))
        items.append(hist_item([m], ops, rng))
    # masks are matrices too
    for _ in range(ctx.n(40, 400)):
        m = rand_matrix(rng)
        m = dict(m, mask=True, cells=[[i, j, 1 if v > 0 else 0] for i, j, v in m['cells'] if m['dense'] or v > 0])
        ops = [one_step(rng, m, ['sum', 'sum', 'count', 'get', 'frame', 'transpose', 'reorder', 'copy', 'sub']) for _ in range(2)]
        if ops[0]['f'] in ('transpose', 'reorder', 'copy'):
            ops[1] = dict(op('sum'), x=2, axis=rng.randint(0, 2))
        elif ops[0]['f'] == 'sub':
            ops = ops[:1]
        items.append(hist_item([m], ops, rng, scale=1))
    specs = [{'module': 'MatrixGen', 'cfg': LAWS % 'ByName Sums', 'what': 'values follow their labels, sums agree'}]
    return {'items': items, 'specs': specs}


def plan_C11(ctx):
    rng = ctx.rng
    items = []
    for o in generated(ctx, 'C11', ctx.n(200, 2500), 12, starts=1):
        items.append(hist_item(o['init'], o['ops'], rng))
    for _ in range(ctx.n(260, 3000)):
        m = rand_matrix(rng)
        vals = [c[2] for c in m['cells']] + [0]
        ops = []
        # two thresholds, then their masks applied one after the other
        for _ in range(2):
            ops.append(op('mask', cmp=rng.choice(['<', '<=', '>', '>=']),
                          n=rng.choice([rng.choice(vals), rng.choice(vals) + rng.choice([-1, 1]), 0, 100, -100])))
            ops[-1]['fl'] = rng.randint(0, 1)
        ops.append(op('mult', y=2))
        ops.append(op('mult', x=4, y=3))
        if rng.random() < 0.4:
            ops.append(op('sum', x=rng.choice([2, 3]), axis=rng.randint(0, 2)))
            ops.append(op('mask', x=5, cmp=rng.choice(['<', '<=', '>', '>=']), n=rng.randint(-2, 4)))
            ops.append(op('mult', x=5, y=6))
        items.append(hist_item([m], ops, rng))
    specs = [{'module': 'MatrixGen', 'cfg': LAWS % 'Thresholds', 'what': 'thresholds partition the recorded cells'}]
    return {'items': items, 'specs': specs}


def like(rng, labels):
    """the same labels, the same in another order, or any"""
    k = rng.random()
    return labels if k < 0.25 else rng.sample(labels, len(labels)) if k < 0.5 else None


def extended(rng, m):
    """the same cells with more labels"""
    k = dict(m, rows=list(m['rows']), cols=list(m['cols']))
    for ls in (k['rows'], k['cols']):
        new = [x for x in MANY if x not in ls]
        ls += rng.sample(new, rng.randint(0, 2))
    return k


def plan_C12(ctx):
    rng = ctx.rng
    items = []
    for o in generated(ctx, 'C12', ctx.n(200, 2500), 9, starts=3, maxobj=7):
        items.append(hist_item(o['init'], o['ops'], rng))
    for _ in range(ctx.n(300, 3500)):
        k = rng.random()
        n = rng.choice([2, 3, 4, 4, 7, 11]) if rng.random() < 0.3 else rng.choice([2, 3, 4])
        rows, cols = rng.sample(LABELS, rng.randint(1, 4)), rng.sample(LABELS, rng.randint(1, 4))
        if k < 0.35:      # merging of arbitrary labels
            ms = [rand_matrix(rng, dense=False, rows=like(rng, rows), cols=like(rng, cols)) for _ in range(n)]
            if rng.random() < 0.2:
                ms[-1] = extended(rng, ms[0])
            ops = [rng.choice([op('mergeall', ys=rng.sample(range(1, n + 1), rng.choice([rng.randint(1, n), n]))), op('merge', x=1, y=2), op('merge', x=2, y=1)])
                   for _ in range(3)]
        elif k < 0.6:     # same rows, any columns
            ms = [rand_matrix(rng, dense=False, rows=rows, cols=like(rng, cols)) for _ in range(n)]
            if rng.random() < 0.1:
                ms[-1] = rand_matrix(rng, dense=False)
            ops = [op('merge2', x=rng.randint(1, n), y=rng.randint(1, n)) for _ in range(3)]
        elif k < 0.7:     # everything the same
            d = rng.random() < 0.3
            ms = [rand_matrix(rng, dense=d, rows=rows, cols=cols) for _ in range(n)]
            ops = [op('merge2', x=1, y=2)]
            ops.append(op('mergeall', ys=list(range(1, n + 1))))
            if not d:
                ops.append(op('merge', x=1, y=2))
        else:             # concatenation, and use of the result
            d = rng.random() < 0.4
            ax = rng.randint(0, 1)
            ls = rng.sample(LABELS, 6)
            a = rand_matrix(rng, dense=d, rows=ls[:3] if ax == 0 else rows, cols=cols if ax == 0 else ls[:3])
            b = rand_matrix(rng, dense=d, rows=ls[3:] if ax == 0 else rows, cols=cols if ax == 0 else ls[3:])
            if rng.random() < 0.1:
                b = rand_matrix(rng, dense=d)
            ms = [a, b]
            ops = [op('concat', x=1, y=2, axis=ax)]
            fs = ['sub', 'get', 'sum', 'transpose'] + ([] if d else ['drop'])
            both = {'rows': a['rows'] + b['rows'] if ax == 0 else rows, 'cols': cols if ax == 0 else a['cols'] + b['cols']}
            if len(set(both['rows'])) == len(both['rows']) and len(set(both['cols'])) == len(both['cols']):
                for _ in range(2):
                    ops.append(dict(one_step(rng, both, fs), x=3))
                    if ops[-1]['f'] in ('sub', 'drop'):
                        break
        items.append(hist_item(ms, ops, rng, scale=rng.choice([None, None, 2])))
    specs = [{'module': 'MatrixGen', 'cfg': LAWS % 'MergeLaws', 'what': 'merging is commutative and associative and keeps totals'}]
    return {'items': items, 'specs': specs}


NAMES = ['my.packed.x', 'a.pac.b', 'sub/m', 'd.pac/m.wcmx', 'd.pac/x', 'pac', 'm', 'm.wcmx.freq', 'm.wcmx', 'n.npz', 'n', 'q.meta', 'q', 'x.y.z', 'p.PAC', 'sp ace', '\u00e9t\u00e9']


def plan_C13(ctx):
    rng = ctx.rng
    items = []
    for _ in range(ctx.n(320, 3500)):
        mats = [rand_matrix(rng) if rng.random() < 0.7 else square(rng) for _ in range(3)]
        scale = rng.choice([1, 1, 2, 2 ** 20, -BIG])
        if scale == 2 ** 20:
            for m in mats:
                v = {k: k * rng.randint(1, 300000000) + k for k in range(-3, 7)}
                m['cells'] = [[i, j, v[x]] for i, j, x in m['cells']]
        for m in mats:
            if not m['dense'] and rng.random() < 0.35:
                m['fmt'] = 'csc'
            m['fl'] = rng.random() < 0.4
            if rng.random() < 0.15:
                m['mask'], m['cells'] = True, [[i, j, 1 if (v or not m['dense']) else 0] for i, j, v in m['cells']]
        base = rng.sample(NAMES, rng.choice([1, 2, 3]))
        present = [b + e for b in base for e in ('.meta', '.npz', '.npy', '.txt', '') if rng.random() < 0.12]
        ops, saved = [], {}
        unp = {b for b in base if rng.random() < 0.3}
        uname = {b: rng.choice([b, b, b + '.pac']) for b in base}
        for _ in range(rng.randint(2, 7)):
            b = rng.choice(base)
            pack = 0 if (b in unp and rng.random() < 0.6) else 1
            # packed, NAME and NAME.pac are the same file; unpacked, the name is
            # the beginning of the names of the files
            name = uname[b] if not pack else b + '.pac' if rng.random() < 0.4 else b
            key = 'p:' + b if pack else 'u:' + name
            own = b + '.pac'
            stale = [name + e for e in ('.meta', '.npz', '.npy')]
            o = {'name': name, 'key': key, 'pack': pack, 'own': own, 'stale': stale, 'rel': rng.randint(0, 1)}
            others = [x for x in base if x != b and 'p:' + x in saved]
            if pack and others and rng.random() < 0.3 and own not in present:
                src = rng.choice(others)
                saved[key] = saved.pop('p:' + src)
                ops.append(dict(o, f='move', m=1, enc='', src='p:' + src, src2=src + '.pac', **{'from': src}))
            elif key in saved and rng.random() < 0.5:
                ops.append(dict(o, f='load', m=1, enc=saved[key]))
            else:
                if not pack and set(stale) & set(present):
                    present = [p for p in present if p not in stale]
                if set([own]) & set(present):
                    present = [p for p in present if p != own]
                k = rng.randint(1, 3)
                ok = all(ord(ch) < 256 for l in mats[k - 1]['rows'] + mats[k - 1]['cols'] for ch in l)
                enc = rng.choice(['', '', 'utf-8', 'latin-1' if ok else 'utf-16'])
                saved[key] = enc
                ops.append(dict(o, f='save', m=k, enc=enc))
        for key in sorted(saved):
            b = key[2:]
            ops.append({'f': 'load', 'name': b, 'key': key, 'pack': 1 if key[0] == 'p' else 0, 'own': b + '.pac',
                        'stale': [], 'rel': 1, 'm': 1, 'enc': saved[key]})
        # two different names must not be the same unpacked files
        owned = {}
        clash = False
        for o in ops:
            fs = [o['own']] if o['pack'] else [o['name'] + e for e in ('.meta', '.npz', '.npy')]
            for f in fs:
                if owned.setdefault(f, o['key']) != o['key'] or f in present:
                    clash = True
        if clash:
            continue
        c = {'op': 'mxfile', 'mats': mats, 'ops': ops, 'present': present, 'scale': scale}

        def make(obs, c=c):
            return {'_module': 'MatrixTrace', 'kind': 'file', 'ops': c['ops'], 'present': c['present'],
                    'mats': [{k: s[k] for k in ('rows', 'cols', 'dense', 'mask', 'cells')} for s in c['mats']],
                    'runs': [{'st': o['st'], 'e': o['e'], 'v': o['v'] or []} for o in obs]}
        items.append(Item([c], make))
    return {'items': items, 'specs': []}
