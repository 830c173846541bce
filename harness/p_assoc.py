"""C14-C16: calculations on matrices."""
from harness.main import Item
from harness.p_matrix import LABELS, MANY, cells, op, rand_matrix

TIMEOUT = 30.0
MEAS = ['pmi', 'ppmi', 'lik', 'llik', 'chisq', 'zscore', 'dice', 'deltap', 'deltapColl', 'logratio']
LAWS = '''INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS MaxN = %d Wide = %d
INVARIANTS %s
'''


def plan(prop, ctx):
    return globals()['plan_' + prop](ctx)


def rec(case, names):
    keys = ('rows', 'cols', 'dense', 'mask', 'cells')

    def make(obs):
        r = {k: v for k, v in case.items() if k not in ('op', 'scale', 'k', 'explicit')}
        for n in names:
            r[n] = {k: case[n][k] for k in keys}
        r['kind'] = case['op']
        r['_module'] = 'AssocTrace'
        # an absent result still has the fields that are looked at
        r['runs'] = [{'st': o['st'], 'e': o['e'], 'v': o['v'] or []} for o in obs]
        return r
    return make


def mk(case, names):
    return Item([case], rec(case, names))


def table_ok(O, R, C, N):
    return 0 <= O <= R and O <= C and N - R - C + O >= 0 and R > 0 and C > 0 and N <= 120


def defined(meas, O, R, C, N):
    if meas in ('deltap', 'logratio', 'chisq') and R == N:
        return False
    if meas in ('deltapColl', 'chisq') and C == N:
        return False
    return True


def counts(rng, nr, nc, total, density, zeros):
    grid = {}
    for i in range(1, nr + 1):
        for j in range(1, nc + 1):
            if rng.random() < density:
                grid[i, j] = 0 if rng.random() < zeros else 1
    live = [p for p in grid if grid[p]]
    for _ in range(total - len(live)):
        if live:
            grid[rng.choice(live)] += 1
    return [[i, j, v] for (i, j), v in sorted(grid.items())]


def rearr(rng, rows, cols, n, swap=None):
    """random selections, reorderings and transpositions; returns (ops, rows, cols)"""
    ops = []
    for _ in range(n):
        f = rng.choice(['sub', 'sub', 'reorder', 'transpose'])
        if f == 'transpose':
            if swap is None:
                continue
            ops.append(op('transpose'))
            rows, cols = cols, rows
        elif f == 'reorder':
            ax = rng.randint(0, 1)
            ls = list(rows if ax == 0 else cols)
            rng.shuffle(ls)
            ops.append(op('reorder', axis=ax, nr=ls))
            rows, cols = (ls, cols) if ax == 0 else (rows, ls)
        else:
            hr, hc = rng.choice([(1, 0), (0, 1), (1, 1)])
            o = op('sub', hr=hr, hc=hc)
            if hr:
                rows = o['nr'] = rng.sample(rows, rng.randint(1, len(rows)))
            if hc:
                cols = o['nc'] = rng.sample(cols, rng.randint(1, len(cols)))
            ops.append(o)
    return ops, rows, cols


def plan_C14(ctx):
    rng = ctx.rng
    items = []
    # every table of counts with a small total, one matrix per (N, measure, k-th possible count)
    tops = [2, 5, 8] if ctx.quick else list(range(1, 13)) + [30]
    for N in tops:
        for meas in MEAS:
            for t in range(N + 1 if N <= 12 else 3):
                cs = []
                for R in range(1, N + 1):
                    for C in range(1, N + 1):
                        O = max(0, R + C - N) + t
                        if table_ok(O, R, C, N) and defined(meas, O, R, C, N) and (O or meas in ('ppmi', 'lik', 'llik')):
                            cs.append([R, C, O])
                if not cs or (ctx.quick and N == 8 and t not in (0, 1, 2)):
                    continue
                rows, cols = ['r%d' % i for i in range(1, N + 1)], ['c%d' % i for i in range(1, N + 1)]
                init = {'rows': rows, 'cols': cols, 'dense': False, 'mask': False, 'cells': cs}
                # marginal lists in an order of their own
                nf = [[r, i + 1] for i, r in enumerate(rows)]
                cf = [[c, i + 1] for i, c in enumerate(cols)]
                rng.shuffle(nf)
                rng.shuffle(cf)
                items.append(mk({'op': 'assoc', 'init': init, 'pre': [], 'post': [], 'swap': False, 'fast': False,
                                 'nf': {'how': 'given', 'f': nf}, 'cf': {'how': 'given', 'f': cf}, 'n': N,
                                 'meas': meas, 'k': 1}, ['init']))
    done = 0
    while done < ctx.n(420, 5000):
        rows, cols = rng.sample(LABELS, rng.randint(1, 6)), rng.sample(LABELS, rng.randint(1, 6))
        init = {'rows': rows, 'cols': cols, 'dense': False, 'mask': False,
                'cells': counts(rng, len(rows), len(cols), rng.choice([3, 10, 40, 110]), rng.choice([0.3, 0.7, 1]), rng.choice([0, 0.2]))}
        if not any(c[2] for c in init['cells']):
            continue
        if rng.random() < 0.3:
            init['fmt'] = 'csc'
        pre, r2, c2 = rearr(rng, rows, cols, rng.choice([0, 0, 1, 2, 3]), swap=False)
        swap = sum(o['f'] == 'transpose' for o in pre) % 2 == 1
        post, _, _ = rearr(rng, r2, c2, rng.choice([0, 0, 1, 2]), swap=False)
        rs = {r: 0 for r in rows}
        cs = {c: 0 for c in cols}
        for i, j, v in init['cells']:
            rs[rows[i - 1]] += v
            cs[cols[j - 1]] += v
        a, b = (cs, rs) if swap else (rs, cs)
        tot = sum(rs.values())

        def how(d):
            if rng.random() < 0.45:
                return {'how': 'sums', 'f': []}, d
            e = {n: v + rng.choice([0, 0, 1, 3]) for n, v in d.items()}
            for n in rng.sample(MANY, 3):
                if n not in e:
                    e[n] = rng.randint(1, 12)
            f = [[n, v] for n, v in e.items()]
            rng.shuffle(f)
            return {'how': 'given', 'f': f}, e
        nf, nd = how(a)
        cf, cd = how(b)
        meas = rng.choice(MEAS)
        fast = rng.random() < 0.25
        n = 0
        if fast:
            meas = rng.choice(['pmi', 'ppmi'])
            # without given marginals the matrix's own sums are used
            from_rows = {x: 0 for x in r2}
            from_cols = {x: 0 for x in c2}
            val = {}
            for i, j, v in init['cells']:
                x, y = rows[i - 1], cols[j - 1]
                if swap:
                    x, y = y, x
                if x in from_rows and y in from_cols:
                    from_rows[x] += v
                    from_cols[y] += v
            if rng.random() < 0.3:
                nf, nd = {'how': 'none', 'f': []}, from_rows
            if rng.random() < 0.3:
                cf, cd = {'how': 'none', 'f': []}, from_cols
            N = sum(nd.values())
        elif rng.random() < 0.4:
            n = N = max(sum(nd.values()), sum(cd.values()), tot) + rng.choice([0, 5, 20])
        else:
            N = max(sum(nd.values()), sum(cd.values()))
        ok, undef = True, False
        for i, j, v in init['cells']:
            x, y = rows[i - 1], cols[j - 1]
            if swap:
                x, y = y, x
            if x in r2 and y in c2:
                if not table_ok(v, nd[x], cd[y], N):
                    ok = False
                elif not defined(meas, v, nd[x], cd[y], N):
                    undef = True
        if not ok or (undef and rng.random() < 0.8):
            continue
        done += 1
        items.append(mk({'op': 'assoc', 'init': init, 'pre': pre, 'post': post, 'swap': swap, 'fast': fast, 'nf': nf, 'cf': cf,
                         'n': n, 'meas': meas, 'k': rng.choice([1, 1, 1, 4, 10 ** 6])}, ['init']))
    specs = [{'module': 'AssocLaws', 'cfg': LAWS % (ctx.n(12, 24), 2, 'LogTable Laws'), 'what': 'laws of the measures on every table of counts'}]
    return {'items': items, 'specs': specs}


TYPES = ['a/N', 'a/V', 'b/N', 'b', 'B/N', '\u00e9\u00e9n/Num', '0/N', 'x.y/N']


def tokens(rng, n):
    out = []
    while len(out) < n:
        t = rng.choice(TYPES) + '/' + rng.choice(['f1', 'd/f1', 'f1.x', 'N', 'a']) + '/' + str(rng.randint(1, 30))
        if t not in out:
            out.append(t)
    return out


def plan_C15(ctx):
    rng = ctx.rng
    items = []
    for _ in range(ctx.n(350, 4000)):
        large = rng.random() < 0.06
        cols = rng.sample(MANY, rng.choice([20, 38])) if large else rng.sample(LABELS, rng.choice([1, 2, 3, 5, 8]))
        pos = rand_matrix(rng, rows=tokens(rng, rng.choice([20, 45, 70]) if large else rng.choice([1, 2, 4, 7])), cols=cols, dense=False)
        fmt = rng.choice(['lemma/pos', 'lemma/pos', 'lemma'])
        pool = TYPES if fmt == 'lemma/pos' else [t.split('/')[0] for t in TYPES]
        pool = sorted(set(pool))
        tcols = list(cols)
        k = rng.random()
        if k < 0.12:
            rng.shuffle(tcols)
        elif k < 0.2:
            tcols[rng.randrange(len(tcols))] = 'other/N'
        elif k < 0.25:
            tcols.append('other/N')
        elif k < 0.3 and len(tcols) > 1:
            tcols.pop()
        tw = rand_matrix(rng, rows=rng.sample(pool, rng.randint(1, len(pool))), cols=tcols, dense=False, lo=-5, hi=9)
        pos['fl'] = rng.random() < 0.3
        if rng.random() < 0.2:
            pos['fmt'] = 'csc'
        if rng.random() < 0.2:
            tw['fmt'] = 'csc'
        items.append(mk({'op': 'weight', 'via': 'mx', 'pos': pos, 'tw': tw, 'bool': rng.random() < 0.7, 'fmt': fmt,
                         'scale': rng.choice([1, 4, 16]), 'explicit': rng.random() < 0.5}, ['pos', 'tw']))
    for _ in range(ctx.n(120, 1500)):
        # by name throughout: the type is all but the last two parts of the token's name
        large = rng.random() < 0.06
        cols = rng.sample(MANY, 35) if large else rng.sample(LABELS, rng.choice([1, 2, 3, 5, 8]))
        toks = [t for t in tokens(rng, 40 if large else rng.choice([3, 5, 9])) if '/d/' not in t]
        if not toks:
            continue
        pos = rand_matrix(rng, rows=toks, cols=cols, dense=False)
        pos['cells'] = [c for c in pos['cells'] if c[2]]
        tcols = list(cols)
        rng.shuffle(tcols)
        tcols = [c if rng.random() < 0.9 else 'other%d/N' % i for i, c in enumerate(tcols)] + rng.sample(['new/N', '!/N', '~/V'], rng.randint(0, 2))
        pool = sorted({t.rsplit('/', 2)[0] for t in toks} | set(TYPES))
        tw = rand_matrix(rng, rows=rng.sample(pool, rng.randint(1, len(pool))), cols=tcols, dense=False, lo=-5, hi=9)
        pos['fl'] = rng.random() < 0.3
        items.append(mk({'op': 'weight', 'via': 'tc', 'pos': pos, 'tw': tw, 'bool': True, 'fmt': 'tail', 'scale': rng.choice([1, 4, 16])}, ['pos', 'tw']))
    for _ in range(ctx.n(400, 5000)):
        large = rng.random() < 0.06
        ctxt = rng.sample(MANY, rng.choice([12, 30])) if large else rng.sample(LABELS, rng.choice([1, 2, 3, 5, 7]))
        f = rng.choice(['addition', 'addition', 'weightedmean', 'multiplication'])
        lo, hi = rng.choice([(0, 4), (0, 9), (-4, 6)])
        if f == 'multiplication':
            lo, hi = rng.choice([(0, 3), (-2, 3)])
            ctxt = ctxt[:4]
        if large:
            lo, hi = (-1, 1) if f != 'weightedmean' else (0, 2)
            if f == 'multiplication':
                ctxt = rng.sample(MANY, 15)
        w = rand_matrix(rng, rows=tokens(rng, rng.choice([14, 25]) if large and f != 'multiplication' else rng.choice([1, 2, 4, 6])), cols=ctxt, dense=False, lo=lo, hi=hi)
        if f == 'weightedmean' and lo < 0:
            # weights that cancel out have no mean
            sums = {}
            for i, _, v in w['cells']:
                sums[i] = sums.get(i, 0) + v
            w['cells'] = [c for c in w['cells'] if sums[c[0]]]
        rows = list(ctxt)
        k = rng.random()
        if k < 0.5:
            rng.shuffle(rows)
        elif k < 0.56:
            rows.append('other/N')
        elif k < 0.6 and len(rows) > 1:
            rows.pop()
        elif k < 0.64:
            rows[rng.randrange(len(rows))] = 'other/N'
        s = rand_matrix(rng, rows=rows, dense=False, lo=lo, hi=hi)
        if rng.random() < 0.15:
            s['fmt'] = 'csc'
        for m in (w, s):
            m['fl'] = True if f != 'addition' else rng.random() < 0.5
        norms = ['l1', 'l1', 'l2', 'no'] + (['max'] if lo >= 0 else [])
        items.append(mk({'op': 'vector', 'w': w, 's': s, 'f': f, 'norm': rng.choice(norms),
                         'scale': 1 if f == 'multiplication' else rng.choice([1, 4, 16]), 'explicit': rng.random() < 0.5}, ['w', 's']))
    specs = [{'module': 'AssocLaws', 'cfg': LAWS % (1, ctx.n(3, 4), 'Normal'), 'what': 'normalised vectors have length one'}]
    return {'items': items, 'specs': specs}


def values(rng, n, sym, ties):
    v = {}
    pool = list(range(1, 3 if ties else 40))
    for i in range(n):
        for j in range(n):
            if (j, i) in v and sym:
                v[i, j] = v[j, i]
            elif i == j:
                v[i, j] = 0 if not sym or sym == 'dist' else rng.choice([40, max(pool)])
            else:
                v[i, j] = rng.choice(pool + [0])
    return [[i + 1, j + 1, v[i, j]] for i in range(n) for j in range(n)]


def plan_C16(ctx):
    rng = ctx.rng
    items = []
    for _ in range(ctx.n(280, 3500)):
        m = rand_matrix(rng, rows=rng.sample(LABELS, rng.choice([1, 2, 3, 5])), cols=rng.sample(LABELS, rng.choice([1, 2, 3, 5])))
        if rng.random() < 0.04:
            m = rand_matrix(rng, rows=rng.sample(MANY, rng.choice([13, 24])), cols=rng.sample(MANY, rng.choice([2, 14])), lo=0, hi=2)
        if rng.random() < 0.3 and len(m['rows']) > 1:    # two rows alike
            m['cells'] = [c for c in m['cells'] if c[0] != 2] + [[2, c[1], c[2]] for c in m['cells'] if c[0] == 1]
            m['cells'].sort()
        if not m['dense'] and rng.random() < 0.2:
            m['fmt'] = 'csc'
        m['fl'] = rng.random() < 0.5
        ax = rng.randint(0, 1)
        ls = m['rows'] if ax == 0 else m['cols']
        keep = rng.sample(ls, rng.randint(1, len(ls))) if rng.random() < 0.3 else []
        items.append(mk({'op': 'dist', 'init': m, 'axis': ax, 'keep': keep, 'scale': rng.choice([1, 1, 4, 16]),
                         'metric': rng.choice(['cosine', 'cosine', 'similarity', 'similarity', 'euclidean', 'cityblock', 'manhattan', 'l1', 'l2']),
                         'explicit': rng.random() < 0.5}, ['init']))
    for _ in range(ctx.n(150, 2000)):
        n = rng.choice([1, 2, 3, 4, 7]) if rng.random() < 0.94 else rng.choice([14, 26, 40])
        sym = rng.choice(['dist', 'sim', ''])
        rows = rng.sample(MANY, n)
        m = {'rows': rows, 'cols': rows, 'dense': True, 'mask': False, 'cells': values(rng, n, sym, rng.random() < 0.5)}
        items.append(mk({'op': 'rank', 'init': m, 'up': rng.random() < 0.5, 'explicit': rng.random() < 0.5,
                         'scale': rng.choice([1, 4, 1024])}, ['init']))
    for _ in range(ctx.n(250, 3000)):
        n = rng.choice([1, 2, 3, 4, 5, 6, 9]) if rng.random() < 0.92 else rng.choice([14, 26, 40])
        sym = rng.choice(['dist', 'sim', 'dist', 'sim', ''])
        rows = rng.sample(MANY, n)
        m = {'rows': rows, 'cols': rows, 'dense': True, 'mask': False, 'cells': values(rng, n, sym, rng.random() < 0.6)}
        qs = []
        for _ in range(8):
            qs.append([rng.randint(1, n), rng.choice([0, 1, 1, 2, 3, n // 2, 2 * n // 3, n - 1, n, n + 1]), sym == 'sim' if rng.random() < 0.8 else sym != 'sim'])
        qs = [q for q in qs if q[1] >= 0]
        items.append(mk({'op': 'near', 'init': m, 'queries': qs, 'scale': rng.choice([1, 4, 1024])}, ['init']))
    specs = [{'module': 'AssocLaws', 'cfg': LAWS % (1, ctx.n(3, 4), 'Neighbours Metric'), 'what': 'neighbours exist for every row, k and direction; distances are symmetric'}]
    return {'items': items, 'specs': specs}
