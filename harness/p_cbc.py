"""C19, C20, C27: clustering by committee."""
import json

from harness.main import Item

TIMEOUT = 30.0


def plan(prop, ctx):
    return globals()['plan_' + prop](ctx)


def mk(cases):
    """one record, one run per case (they differ in the schedule only)"""
    def make(obs):
        c = cases[0]
        r = {k: v for k, v in c.items() if k not in ('op', 'plan', 'cpus')}
        r['kind'] = c['op'][4:] if c['op'] != 'cbc_run' else 'cbc'
        if c['op'] == 'cbc_run':
            r['order'] = bool(c['cpus'])
        r['_module'] = 'CbcTrace'
        r['runs'] = [{'st': o['st'], 'e': o['e'], 'v': o['v'] or []} for o in obs]
        return r
    return Item(cases, make)


LAWS = '''INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Kind = "%s" N = %d Hi = %d Skip = %s Emit = FALSE
INVARIANT %s
'''
RUN = '''SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS NE = %d NP = %d NG = %d Limit = %d Store = "%s" Dedup = "%s" Empty = "%s" MaxL = %d Emit = FALSE
INVARIANTS NothingLost Covered Accounted
PROPERTY Terminates
'''
POOLCFG = '''INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS NE = %d NP = %d NG = %d Limit = 1 Store = "task" Dedup = "all" Empty = "keep" MaxL = 0 Emit = TRUE
INVARIANT NothingLost
'''


def run_specs(ctx, which):
    n, ml = ctx.n((4, 2), (4, 3))
    s = [{'module': 'CbcRun', 'cfg': RUN % (n, 2, 3, 3, 'task', 'all', 'keep', ml), 'workers': 4,
          'what': 'pool, clean-up and assignment: nothing lost, covering, accounted, terminates'}]
    bad = {'C19': ('task', 'adjacent', 'keep', 3, 'Covered', 'dropping only copies that follow directly'),
           'C20': ('task', 'all', 'lose', 2, 'Accounted', 'losing the elements when there is no committee'),
           'C27': ('process', 'all', 'keep', 2, 'NothingLost', 'storing clusters per process')}[which]
    s.append({'module': 'CbcRun', 'cfg': RUN % (3, 2, 3, 3, bad[0], bad[1], bad[2], bad[3]), 'what': bad[5], 'violates': bad[4]})
    return s


# ---------------------------------------------------------------- C19
def plan_C19(ctx):
    rng = ctx.rng
    items = []
    # every short list of clusters, every small similarity matrix
    gen = [('list', 3, 2)] + ([('list', 3, 3)] if True else []) + [('merge', 3, 2), ('merge', 4, ctx.n(1, 2))]
    if not ctx.quick:
        gen.append(('list', 4, 2))
    ngen = 0
    for kind, n, hi in gen:
        cfg = ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS Kind = "%s" N = %d Hi = %d Skip = FALSE Emit = TRUE\n'
               'INVARIANT %s\n' % (kind, n, hi, 'MergeLaw' if kind == 'merge' else 'CleanLaw'))
        out = [json.loads(s) for s in ctx.generate('CbcLaws', cfg, 'CASE')]
        if kind == 'list' and hi == 3 and ctx.quick:
            out = [x for x in out if len(x[1]) == 3]
        for x in out:
            ngen += 1
            if kind == 'list':
                items.append(mk([{'op': 'cbc_clean', 'n': n, 'l': x[1], 'as': rng.choice(['list', 'tuple', 'set'])}]))
            else:
                items.append(mk([{'op': 'cbc_merge', 'sim': x[1], 'theta': x[2], 'scale': rng.choice([1, 2, 4])}]))
    for _ in range(ctx.n(300, 4000)):
        n = rng.choice([3, 4, 5, 6, 8])
        pool = []
        for _ in range(rng.randint(1, 7)):
            pool.append(rng.sample(range(1, n + 1), rng.randint(2, min(n, 5))))
            if rng.random() < 0.4:            # nested
                pool.append(pool[-1][:rng.randint(2, len(pool[-1]))])
        hi = rng.choice([1, 2, 3, 40])
        score = {}
        same = rng.random() < 0.6             # one score per set
        l = []
        for _ in range(rng.randint(1, 12)):
            if rng.random() < 0.25:
                l.append([-4 if rng.random() < 0.8 else rng.choice([-1, 0]), [rng.randint(1, n)]])
            else:
                c = list(rng.choice(pool))
                rng.shuffle(c)
                s = score.setdefault(frozenset(c), rng.randint(1, hi)) if same else rng.randint(1, hi)
                l.append([s, c])
        items.append(mk([{'op': 'cbc_clean', 'n': n, 'l': l, 'as': rng.choice(['list', 'tuple', 'set'])}]))
    # many clusters, large clusters
    for _ in range(ctx.n(16, 150)):
        n = rng.choice([30, 75, 140])
        l = []
        for i in range(rng.choice([8, 20, 34])):
            k = rng.random()
            if k < 0.15:
                l.append([-4, [rng.randint(1, n)]])
            elif k < 0.3 and l:
                l.append(list(rng.choice(l)))
            elif k < 0.5 and [c for c in l if len(c[1]) > 2]:
                c = rng.choice([c for c in l if len(c[1]) > 2])[1]
                l.append([rng.randint(1, 40), rng.sample(c, rng.randint(2, len(c)))])
            else:
                l.append([rng.randint(1, 40), rng.sample(range(1, n + 1), rng.choice([2, 3, 14, 22, 60]) if n > 60 else rng.choice([2, 5, 25]))])
        items.append(mk([{'op': 'cbc_clean', 'n': n, 'l': l, 'as': rng.choice(['list', 'tuple', 'set'])}]))
    for _ in range(ctx.n(200, 3000)):
        n = rng.choice([1, 2, 2, 3, 4, 5, 7, 10]) if rng.random() < 0.96 else rng.choice([20, 33])
        hi = rng.choice([1, 3, 9, 50])
        sim = [[hi] * n for _ in range(n)]
        for i in range(n):
            for j in range(i):
                sim[i][j] = sim[j][i] = rng.randint(0, hi)
        items.append(mk([{'op': 'cbc_merge', 'sim': sim, 'theta': rng.randint(0, hi + 1), 'scale': rng.choice([1, 2, 8])}]))
    specs = run_specs(ctx, 'C19') + [
        {'module': 'CbcLaws', 'cfg': LAWS % ('merge', 4, ctx.n(1, 2), 'FALSE', 'MergeLaw'), 'what': 'greedy merging fulfils the clauses'},
        {'module': 'CbcLaws', 'cfg': LAWS % ('merge', 3, 2, 'TRUE', 'MergeLaw'), 'what': 'merging that skips the ends of the ranking', 'violates': 'MergeLaw'},
        {'module': 'CbcLaws', 'cfg': LAWS % ('list', 3, 3, 'FALSE', 'CleanLaw'), 'what': 'minimal sets and lonely singletons fulfil the clauses'}]
    return {'items': items, 'specs': specs, 'facts': {'generated_by_tlc': ngen}}


# ---------------------------------------------------------------- data
def distances(rng, n, hi, distinct=True):
    pairs = [(i, j) for i in range(n) for j in range(i)]
    if distinct and hi > 3 * len(pairs):
        vs = rng.sample(range(1, hi), len(pairs))
    else:
        vs = [rng.randint(1, hi) for _ in pairs]
    d = [[0] * n for _ in range(n)]
    for (i, j), v in zip(pairs, vs):
        d[i][j] = d[j][i] = v
    if n > 2 and rng.random() < 0.15:       # elements that are the same
        for i in rng.sample(range(n), rng.choice([1, 1, 2])):
            j = rng.choice([x for x in range(n) if x != i])
            for x in range(n):
                d[i][x] = d[x][i] = d[j][x]
            d[i][j] = d[j][i] = d[i][i] = 0
    return d


def thresholds(rng, hi):
    r = rng.random()
    if r < 0.25:
        return ['num', rng.randint(0, hi) * 100 + 37]
    if r < 0.45:
        return ['median', 0]
    if r < 0.6:
        return ['mean', 0]
    if r < 0.78:
        return ['percent', rng.choice([0, 25, 50, 75, 100])]
    return ['minsize', rng.choice([2, 2, 3, 4, 9])]


def params(rng, n, hi):
    return {'k': rng.choice([1, 2, 3, 4, 5, 6, 7, 100] if n <= 8 else [2, 3, 4, 5, 6, 7]), 'kp': 0, 't': thresholds(rng, hi),
            'metric': rng.choice(['without_size', 'with_size', 'with_size_sqrt']), 'highest': rng.random() < 0.25}


# ---------------------------------------------------------------- C27
def plan_C27(ctx):
    rng = ctx.rng
    items = []
    plans = {}
    for np_, ng in [(1, 1), (2, 2), (3, 3), (4, 4)] + ([] if ctx.quick else [(5, 5)]):
        cfg = POOLCFG % (ng + 1, np_, ng)
        plans[np_] = sorted({s for s in ctx.generate('CbcRun', cfg, 'POOL')})
        plans[np_] = [json.loads(s) for s in plans[np_]]
    for i in range(ctx.n(260, 3000)):
        n = rng.choice([2, 3, 4, 5, 6, 7, 8, 8])
        scale, hi = (1024, 1000) if rng.random() < 0.75 else (512, 1000)
        c = {'op': 'cbc_step1', 'd': distances(rng, n, hi, rng.random() < 0.9), 'scale': scale}
        c.update(params(rng, n, hi))
        if scale == 512 and c['t'][0] == 'minsize':
            c['t'] = ['median', 0]
        if rng.random() < 0.15:
            c['kp'] = rng.choice([25, 50, 75])
            c['k'] = c['kp'] * n // 100
        if rng.random() < 0.15:
            c['metric'] = 'func'
        els = list(range(1, n + 1))
        if rng.random() < 0.4:
            rng.shuffle(els)
        if rng.random() < 0.2:
            els = els[:rng.randint(1, n)]
        c['els'] = els
        cases = [dict(c, cpus=0, plan=[])]
        items.append(mk(cases))
    # more elements than processes and neighbours, larger neighbourhoods
    for i in range(ctx.n(12, 100)):
        n = rng.choice([14, 26, 33]) if i % 3 else rng.choice([14, 17])
        c = {'op': 'cbc_step1', 'd': distances(rng, n, 1000, False), 'scale': 1024}
        c.update(params(rng, n, 1000))
        c['k'] = rng.choice([2, 3, 4, 5]) if i % 3 else rng.choice([10, 12])
        if c['t'][0] == 'mean' and i % 3 == 0:
            c['t'] = ['median', 0]
        els = list(range(1, n + 1))
        rng.shuffle(els)
        c['els'] = els if i % 3 else els[:4]
        items.append(mk([dict(c, cpus=rng.choice([0, 0, 3, 5]) if len(els) > 5 else 0, plan=[])]))
    # every assignment of groups to processes
    for np_ in plans:
        ps = plans[np_]
        if len(ps) > ctx.n(14, 60):
            ps = rng.sample(ps, ctx.n(14, 60))
        for p in ps:
            n = rng.choice([4, 6, 8])
            c = {'op': 'cbc_step1', 'd': distances(rng, n, 1000), 'scale': 1024, 'k': rng.choice([3, 4, 5]), 'kp': 0,
                 't': thresholds(rng, 1000), 'metric': rng.choice(['without_size', 'with_size']), 'highest': rng.random() < 0.3}
            els = list(range(1, n + 1))
            rng.shuffle(els)
            c['els'] = els
            if rng.random() < 0.3:
                c['kp'] = rng.choice([25, 50, 75])
                c['k'] = c['kp'] * n // 100
            items.append(mk([dict(c, cpus=np_ + 1, plan=[x - 1 for x in p]), dict(c, cpus=rng.choice([1, 2, 4]), plan=[])]))
    specs = run_specs(ctx, 'C27') + [
        {'module': 'CbcLaws', 'cfg': LAWS % ('link', 4, ctx.n(3, 4), 'FALSE', 'LinkLaw'), 'what': 'average linkage is monotone, thresholds agree'}]
    return {'items': items, 'specs': specs, 'facts': {'assignments': {str(k): len(v) for k, v in plans.items()}}}


# ---------------------------------------------------------------- C20
def counts(rng, n, nf, hi):
    f = [[rng.choice([0, 0, 1, 2, 3, rng.randint(0, hi)]) for _ in range(nf)] for _ in range(n)]
    if rng.random() < 0.5:                    # groups of elements that look alike
        for i in range(n):
            g = i % max(1, n // 3)
            for j in range(nf):
                if j % 3 == g % 3:
                    f[i][j] += rng.randint(2, hi + 2)
    for i in range(n):
        if not any(f[i]) and rng.random() < 0.9:
            f[i][rng.randrange(nf)] = 1
    if not any(map(any, f)):
        f[0][0] = 1
    return f


def meas(rng, f):
    if rng.random() < 0.5:
        return [[min(x, 9) for x in r] for r in f]
    return [[rng.choice([0, 0, 1, 2, 3, 7]) if x else 0 for x in r] for r in f]


def plan_C20(ctx):
    rng = ctx.rng
    items = []
    for _ in range(ctx.n(250, 3000)):
        n, nf = rng.choice([1, 2, 3, 5, 6]), rng.choice([1, 2, 3, 4])
        lo = rng.choice([0, 0, -2])
        val = lambda: rng.choice([0, 0, 1, 2, 3, 4, lo, 9])
        nc = rng.choice([1, 2, 3, 4]) if rng.random() < 0.93 else rng.choice([8, 12])
        if nc > 4:
            n = rng.choice([12, 25])
        M = [[val() for _ in range(nf)] for _ in range(n)]
        V = [[val() for _ in range(nf)] for _ in range(nc)]
        if rng.random() < 0.3:
            V[rng.randrange(nc)] = list(M[rng.randrange(n)])
        els = list(range(1, n + 1))
        if rng.random() < 0.3:
            rng.shuffle(els)
        comms = [rng.sample(els, rng.randint(1, min(n, 3))) for _ in range(nc)]
        items.append(mk([{'op': 'cbc_step3', 'els': els, 'm': M, 'comms': comms, 'v': V,
                          'th': rng.choice([[0, 1], [1, 4], [1, 4], [1, 2], [3, 5], [4, 5], [9, 10], [1, 1]])}]))
    for _ in range(ctx.n(200, 2500)):
        n, nf = rng.choice([2, 3, 4, 5, 6, 7]), rng.choice([2, 3, 4, 5])
        F = counts(rng, n, nf, 5)
        els = list(range(1, n + 1))
        if rng.random() < 0.4:
            rng.shuffle(els)
        if n > 3 and rng.random() < 0.3:
            els = els[:-1]
        if not any(any(F[e - 1]) for e in els):
            F[els[0] - 1][0] = 1
        l, used = [], rng.sample(range(500, 20000, 7), 12)
        sets = {}
        for i in range(rng.randint(0, 8)):
            if rng.random() < 0.3 or len(els) < 2:
                l.append([-10000, [rng.choice(els)]])
            else:
                c = rng.sample(els, rng.randint(2, min(len(els), 3)))
                l.append([sets.setdefault(frozenset(c), used[i]), c])
        items.append(mk([{'op': 'cbc_step2', 'f': F, 'm': meas(rng, F), 'els': els, 'l': l,
                          'theta': rng.choice([0, 500, 1500, 3500, 3500, 6000, 9000, 10001])}]))
    for i in range(ctx.n(260, 3000)):
        n, nf = rng.choice([1, 2, 3, 4, 5, 6, 7, 8]), rng.choice([2, 3, 4, 5, 6])
        F = counts(rng, n, nf, 5)
        scale, hi = 1024, 1000
        D = distances(rng, n, hi)
        if rng.random() < 0.5 and n > 3:      # close within groups
            for a in range(n):
                for b in range(n):
                    if a != b and a % 3 != b % 3:
                        D[a][b] = D[b][a] = max(D[a][b], D[b][a]) // 3 + 670
        M = meas(rng, F) if rng.random() < 0.85 else []
        if rng.random() < 0.2:
            D = []
        given = list(range(1, n + 1))
        order = list(given)
        if rng.random() < 0.3:
            rng.shuffle(order)
        if rng.random() < 0.3:
            rng.shuffle(given)
        if n > 4 and rng.random() < 0.2:
            given = given[:-1]
        els = given[:rng.randint(2, len(given) - 1)] if len(given) > 3 and rng.random() < 0.15 else given
        if not D and not M and any(not any(r) for r in F):
            F = [[x + 1 for x in r] for r in F]
        c = {'op': 'cbc_run', 'f': F, 'm': M, 'd': D, 'scale': scale, 'given': given, 'els': els, 'roworder': order,
             'theta1': rng.choice([0, 1500, 3500, 3500, 6000, 10001]), 'theta2': rng.choice([0, 1500, 2500, 2500, 5000, 8000, 9500, 10001]),
             'limit': rng.choice([0, 1, 2, 3, 1000, 1000, 1000])}
        c.update(params(rng, n, hi))
        if c['t'][0] == 'num' and not D:
            c['t'] = ['median', 0]
        if rng.random() < 0.15:
            c['kp'] = rng.choice([25, 50, 75])
        if rng.random() < 0.25:
            cp = rng.choice([1, 2, 3])
            c.update(cpus=cp, plan=rng.choice([[], [0], [0, 1, 0], [1, 1, 0, 0]]))
        else:
            c.update(cpus=0, plan=[])
        items.append(mk([c]))
    specs = run_specs(ctx, 'C20') + [
        {'module': 'CbcLaws', 'cfg': LAWS % ('vec', 3, ctx.n(2, 3), 'FALSE', 'VecLaw'), 'what': 'committee vectors'}]
    return {'items': items, 'specs': specs}
