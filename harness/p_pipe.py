"""C01-C06, C26: corpus passes."""
import json

from harness.main import Item

TIMEOUT = 25.0
WORDS = ['de', 'kat', 'zit', 'op', 'mat', 'hond', 'en', 'w\u00e9l', '\u4e2d', 'x-y', "d'r", '3,5', 'a\u2028b', '\xe7\x85a', 'a\u00a0b', 'De', 'we\u0301l',
         'w\u00e9ls']
TAGS = ['N', 'V', 'Det', 'Prep()']


def word_line(rng, case, vocab):
    w, p, l = rng.choice(vocab)
    cols = {'word': w, 'pos': p, 'lemma': l, 'fid': 'f%d' % rng.randint(1, 2), 'lid': str(rng.randint(1, 9))}
    line = '\t'.join(cols[c] for c in case['cols'])
    r = rng.random()
    if r < 0.05:
        line = '  ' + line
    elif r < 0.1:
        line = line + '\t'
    elif r < 0.15:
        line = line + '\textra'
    elif r < 0.18:
        line = line + '\r'
    return line


def other_line(rng, case):
    return rng.choice(['', '<p>', 'x', 'a\tb', '\t\t', '<s id="1">', 'woord\t\tlemma', '<artikel naam="a">', '   '])


def gen_file(rng, case, vocab, maxseg=4, maxlen=7):
    """word lines in segments (some empty, some shorter than any span), with
    lines in between that are neither words nor separators"""
    lines = []
    nseg = rng.randint(0, maxseg)
    for s in range(nseg):
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 5, maxlen] if maxlen < 20 else [0, 2, 9, 13, maxlen])):
            lines.append(word_line(rng, case, vocab))
            if rng.random() < 0.12:
                lines.append(other_line(rng, case))
        if s < nseg - 1 or rng.random() < 0.6:
            lines.append(case['sep'] + rng.choice(['', '', ' ', '\tx'] if case['sep'] != '</artikel>' else ['', '', ' ']))
            if rng.random() < 0.15:
                lines.append(case['sep'])
    return lines


LAYOUTS = [
    (['word', 'pos', 'lemma'], ['lemma', 'pos'], ['lemma', 'pos'], ['word', 'pos']),
    (['word', 'pos', 'lemma'], ['word'], ['lemma'], ['word']),
    (['word', 'lemma', 'pos'], ['lemma', 'pos'], ['word', 'pos'], ['lemma', 'pos']),
    (['lemma', 'pos', 'word'], ['lemma'], ['lemma', 'pos'], ['word', 'lemma', 'pos']),
    (['lid', 'word', 'pos', 'lemma'], ['word', 'pos'], ['word'], ['lemma', 'pos']),
]
FIDS = ['a', 'b.v2', 'sub/c', 'sub/deep/d', 'e f', 'sub/a', 'v1.2/g', 'v1.3/g', 'deep/d', '.h']


def gen_case(rng, nfiles=None, spans=(0, 1, 1, 2, 3, 5), words=None, short=False, rich=None):
    cols, ty, co, to = rng.choice(LAYOUTS)
    rich = rng.random() < 0.35 if rich is None else rich
    case = {'cols': cols, 'ncol': len(cols), 'type': ty, 'colloc': co, 'token': to,
            'sep': rng.choice(['</artikel>', '</artikel>', '</s>', '==']),
            'l': rng.choice(spans), 'r': rng.choice(spans), 'workers': rng.choice([1, 1, 2, 2, 3, 4, 6])}
    wide = rng.random() < 0.14
    if wide:                # spans wider than most, and segments to match
        case['l'], case['r'] = rng.choice([(0, 9), (9, 0), (1, 15), (12, 2), (8, 8), (40, 40), (0, 14)])
    case['enc'] = rng.choice(['utf-8', 'utf-8', 'utf-8', 'latin-1', 'utf-16'])
    words = [w for w in words or WORDS if case['enc'] != 'latin-1' or max(w) < '\u0100']
    ws = rng.sample(words, rng.choice([2, 3, 4]))
    ls = rng.sample(words, 2)
    vocab = [(w, rng.choice(TAGS[:3]), rng.choice(ls + [w])) for w in ws]
    if rich:          # many different items
        vocab += [(w, rng.choice(TAGS[:3]), w) for w in rng.sample(words, rng.randint(3, 6))]
        vocab = sorted({w: (w, t, l) for w, t, l in vocab}.values())
        rng.shuffle(vocab)
    n = nfiles or rng.choice([1, 1, 2, 2, 3, 4])
    fids = rng.sample(FIDS, n)
    case['files'] = [{'fid': f, 'lines': gen_file(rng, case, vocab, maxseg=2 if short else 4, maxlen=22 if wide else 7),
                      'ext': rng.choice(['.txt', '.conll', '.txt'] + ([''] if '.' not in f.split('/')[-1] else [])), 'nl': rng.random() < 0.7} for f in fids]
    if n > 1 and rng.random() < 0.25:          # files with the same text
        for f in case['files'][1:]:
            if rng.random() < 0.7:
                f['lines'] = list(case['files'][0]['lines'])
    if not wide and rng.random() < 0.05:        # a long file, with high counts
        few = vocab[:1] if rng.random() < 0.5 else vocab
        case['l'], case['r'] = rng.choice([(2, 0), (3, 1), (0, 3), (4, 1), (1, 1), (2, 2)])
        for f in rng.sample(case['files'], rng.randint(1, min(2, n))):
            while len(f['lines']) < 130:
                f['lines'] += gen_file(rng, case, few, maxseg=6, maxlen=12) or [case['sep']]
                if rng.random() < 0.8:
                    f['lines'].append(case['sep'])
                k = len(f['lines']) % 50
                if rng.random() < 0.4 and 49 > k > 20:
                    f['lines'] += [word_line(rng, case, few)] * (49 - k) + [case['sep']]
    how = rng.choice(['list', 'list', 'file', 'all'])
    case['how'] = how
    sel = list(range(1, n + 1))
    if how != 'all':
        rng.shuffle(sel)
        sel = sel[:rng.randint(1, n)] if rng.random() < 0.3 else sel
    case['sel'] = sel
    if rng.random() < 0.2:
        case['earlier'] = [rng.sample(range(1, n + 1), rng.randint(1, n)) for _ in range(rng.choice([1, 1, 2]))]
    if rng.random() < 0.12:
        case['cpus'] = rng.choice([1, 1, 2])
    if rng.random() < 0.1:
        case['slash'] = '/'
    types = sorted({'/'.join({'word': w, 'pos': p, 'lemma': l}[c] for c in ty) for w, p, l in vocab})
    ctxs = sorted({'/'.join({'word': w, 'pos': p, 'lemma': l}[c] for c in co) for w, p, l in vocab})
    case['_types'], case['_ctxs'] = types, ctxs
    return case


def large_case(rng, shape=None):
    """beyond small sizes: many files, many items, high counts, long lines, far line numbers"""
    shape = shape or rng.choice(['files', 'types', 'counts', 'words', 'lines'])
    case = gen_case(rng, nfiles=2, spans=(1, 2, 3))
    case.pop('cpus', None)
    case.update(earlier=[], workers=rng.choice([1, 2, 3]), enc='utf-8', l=rng.choice([1, 2, 3]), r=rng.choice([0, 1, 2]))
    col = {c: None for c in case['cols']}

    def line(k, stem='w', tag='N'):
        col.update(word='%s%d' % (stem, k), pos=tag, lemma='%s%d' % (stem, k), fid='f', lid='1')
        return '\t'.join(col[c] for c in case['cols'])
    one = lambda ls: [{'fid': f, 'lines': x, 'ext': '.txt', 'nl': True} for f, x in zip(('a', 'sub/c'), ls)]
    if shape == 'files':
        n = rng.choice([34, 41, 70])
        top, stem = 5, 'w'
        case['files'] = [{'fid': 'f%02d' % i, 'lines': [line(rng.randint(1, 5)) for _ in range(rng.randint(0, 3))] + [case['sep']],
                          'ext': '.txt', 'nl': True} for i in range(n)]
    elif shape == 'types':
        top, stem = 150, 'w'
        case['files'] = one([[line(rng.randint(1, top) if k % 3 else 1) for k in range(270)], [line(k) for k in rng.sample(range(1, top + 1), 90)] + [case['sep']]])
    elif shape == 'counts':
        top, stem = 2, 'w'
        case['files'] = one([[line(1 if rng.random() < 0.97 else 2) for _ in range(1100)], [line(rng.randint(1, 2)) for _ in range(300)]])
    elif shape == 'words':
        top, stem = 4, 'verjaardag' * rng.choice([4, 8, 14])
        case['files'] = one([[line(rng.randint(1, top), stem) for _ in range(12)] for _ in (1, 2)])
    else:
        top, stem = 6, 'w'
        case['files'] = one([[line(rng.randint(1, top)) if rng.random() < 0.06 else rng.choice(['', '<p>', '<p>', case['sep']])
                              for _ in range(n)] for n in (1150, 90)])
    n = len(case['files'])
    case['how'] = rng.choice(['list', 'file', 'all'])
    case['sel'] = list(range(1, n + 1))
    if case['how'] != 'all':
        rng.shuffle(case['sel'])
    mk = lambda k, cs: '/'.join({'word': '%s%d' % (stem, k), 'lemma': '%s%d' % (stem, k), 'pos': 'N'}[c] for c in cs)
    case['_types'] = [mk(k, case['type']) for k in range(1, top + 1)]
    case['_ctxs'] = [mk(k, case['colloc']) for k in range(1, top + 1)]
    return case


SHAPES = ['files', 'types', 'counts', 'words', 'lines']


def record(kind, case):
    """the part of a trace line that describes the case"""
    idx = {c: i + 1 for i, c in enumerate(case['cols'])}
    base = {'_module': 'PipelineTrace', 'kind': kind, 'ncol': case['ncol'], 'sep': case['sep'],
            'l': case['l'], 'r': case['r'], 'sel': case['sel'],
            'files': [{'fid': f['fid'], 'lines': f['lines']} for f in case['files']],
            'ty': [idx[c] for c in case['type']], 'co': [idx[c] for c in case['colloc']],
            'to': [idx[c] for c in case['token']],
            'rows': case.get('rows', []), 'anyctx': bool(case.get('anyctx')), 'ctx': case.get('ctx', [])}

    def make(obs):
        empty = {'freq': [], 'none': False, 'nomtx': False, 'rows': [], 'cols': [], 'cells': [], 'toks': [], 'types': []}
        runs = []
        for o in obs:
            runs.append({'st': o['st'], 'e': o['e'],
                         'v': dict(empty, **{k: x for k, x in (o['v'] or {}).items() if k != 'sched'})})
        return dict(base, runs=runs)
    return make


def vocabs(rng, case, allow_any=True):
    types = case['_types']
    case['rows'] = rng.sample(types, rng.randint(1, len(types)))
    if rng.random() < 0.2:
        case['rows'].append('zz/Q' if len(case['type']) == 2 else 'zz')
    if allow_any and rng.random() < 0.5:
        case['anyctx'], case['ctx'] = True, []
    else:
        case['anyctx'] = False
        case['ctx'] = rng.sample(case['_ctxs'], rng.randint(1, len(case['_ctxs'])))
        if rng.random() < 0.3:
            case['ctx'].append('unseen')
    rng.shuffle(case['rows'])
    rng.shuffle(case['ctx'])
    case['vocab_at'] = rng.choice(['init', 'call', 'both'])
    case['grown'] = rng.choice(['', '', '', 'inc', 'set'])


POOL = '''SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS NF = %d NW = %d Mode = "%s" Collect = "%s" CheckExit = %s
Bad = %s Deaths = %d Silent = %s Emit = FALSE
INVARIANT ExactlyOnce NoDoubleWork NoSilentLoss
PROPERTY Terminates
'''


def pool_spec(nf, nw, mode, collect='all', check='TRUE', bad='{}', deaths=0, silent='{}', violates=None):
    s = {'module': 'JobPool', 'cfg': POOL % (nf, nw, mode, collect, check, bad, deaths, silent),
         'what': '%d files, %d workers, %s, collect %s, bad %s, deaths %d, silent %s' % (nf, nw, mode, collect, bad, deaths, silent)}
    if violates:
        s['violates'] = violates
        if violates == 'Terminates':
            s['cfg'] = s['cfg'].replace('INVARIANT ExactlyOnce NoDoubleWork NoSilentLoss\n', '')
        else:
            s['cfg'] = s['cfg'].replace('PROPERTY Terminates\n', '').replace('ExactlyOnce NoDoubleWork NoSilentLoss', violates)
    return s


def schedules(ctx, nf, nw):
    """all assignments of nf jobs to nw workers with all exit orders, as the
    job pool specification allows them"""
    cfg = '''INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS NF = %d NW = %d Mode = "chunk" Collect = "all" CheckExit = TRUE
Bad = {} Deaths = 0 Silent = {} Emit = TRUE
INVARIANT ExactlyOnce NoDoubleWork
''' % (nf, nw)
    seen = set()
    for line in ctx.generate('JobPool', cfg, 'SCHED'):
        h = json.loads(line)
        assign = [w for w, f in sorted((e for e in h if e[1] != 0), key=lambda e: e[1])]
        exits = [w for w, f in h if f == 0]
        seen.add((tuple(assign), tuple(exits)))
    return [{'assign': list(a), 'exit': list(e)} for a, e in sorted(seen)]


def plan(prop, ctx):
    return globals()['plan_' + prop](ctx)


def plan_C01(ctx):
    rng = ctx.rng
    items = []
    sch = {}
    for nf, nw in ((2, 2), (3, 2)) + (() if ctx.quick else ((3, 3), (4, 2))):
        sch[(nf, nw)] = schedules(ctx, nf, nw)
    facts = {'schedules': {'%d files %d workers' % k: len(v) for k, v in sch.items()}}
    # every schedule of the small pools, on differing texts
    for (nf, nw), ss in sch.items():
        pick = ss if not ctx.quick else rng.sample(ss, min(len(ss), 16))
        for p in pick:
            c = gen_case(rng, nfiles=nf)
            c.pop('cpus', None)
            c.update(op='freq', workers=nw, plan=p, sel=list(range(1, nf + 1)), how='list')
            items.append(Item([c], record('freq', c)))
    for _ in range(ctx.n(150, 1500)):
        c = gen_case(rng)
        c['op'] = 'freq'
        cs = [c]
        if rng.random() < 0.3:     # the same corpus again, other workers and order
            d = dict(c, workers=rng.choice([1, 2, 3, 5]))
            d['sel'] = rng.sample(c['sel'], len(c['sel']))
            cs.append(d)
        items.append(Item(cs, record('freq', c)))
    for k in range(ctx.n(10, 60)):
        c = large_case(rng, SHAPES[k % 5])
        c['op'] = 'freq'
        items.append(Item([c], record('freq', c)))
    specs = [pool_spec(3, 2, 'perFile', 'n'), pool_spec(2, 3, 'perFile', 'n'),
             pool_spec(3, 2, 'perFile', 'n', check='FALSE', bad='{2}', violates='Terminates')]
    if not ctx.quick:
        specs += [pool_spec(4, 3, 'perFile', 'n'), pool_spec(4, 3, 'perFile', 'all', bad='{2}', deaths=1)]
    return {'items': items, 'specs': specs, 'facts': facts}


WINDOW = '''INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS MaxLen = %d MaxSpan = %d Stop = "%s"
INVARIANT %s
'''


def plan_C02(ctx):
    rng = ctx.rng
    items = []
    for k in range(ctx.n(170, 1800)):
        c = gen_case(rng, short=k % 2 == 0)
        vocabs(rng, c)
        c['op'] = 'cofreq'
        items.append(Item([c], record('cofreq', c)))
    for k in range(ctx.n(10, 60)):
        c = large_case(rng, SHAPES[k % 5])
        vocabs(rng, c)
        if k % 10 < 5:
            c['rows'] = c['_types'][:]
            c['anyctx'], c['ctx'] = True, []
        c['op'] = 'cofreq'
        items.append(Item([c], record('cofreq', c)))
    # every segment length against every span, one file, one target
    top = ctx.n(3, 5)
    for n in range(0, top + 2):
        for l in range(0, top + 1):
            for r in range(0, top + 1):
                if ctx.quick and rng.random() < 0.4:
                    continue
                c = {'cols': ['word', 'pos', 'lemma'], 'ncol': 3, 'type': ['lemma', 'pos'], 'colloc': ['lemma', 'pos'],
                     'token': ['word', 'pos'], 'sep': '</artikel>', 'l': l, 'r': r, 'workers': 1, 'how': 'list', 'sel': [1],
                     'op': 'cofreq', 'anyctx': True, 'ctx': []}
                c['rows'] = ['l%d/N' % i for i in range(top + 2)]
                ws = ['w%d\tN\tl%d' % (i, i) for i in range(n)]
                tail = [['</artikel>'], ['</artikel>', '</artikel>'], [],
                        ['</artikel>'] + ws[:1]][rng.randint(0, 3)]
                c['files'] = [{'fid': 'a', 'lines': ws + tail}]
                items.append(Item([c], record('cofreq', c)))
    specs = [{'module': 'Window', 'cfg': WINDOW % (ctx.n(4, 6), ctx.n(2, 3), 'all', 'Correct'),
              'what': 'scanner against the text, every segment sequence'},
             {'module': 'Window', 'cfg': WINDOW % (3, 2, 'early', 'Correct'), 'violates': 'Correct',
              'what': 'the scanner as originally found (stops one node early)'}]
    return {'items': items, 'specs': specs}


def plan_C03(ctx):
    rng = ctx.rng
    items = []
    shapes = ((2, 2), (2, 3), (3, 2), (1, 3)) + (() if ctx.quick else ((3, 3), (4, 2), (2, 4)))
    facts = {}
    runs = 0
    for nf, nw in shapes:
        ss = schedules(ctx, nf, nw)
        facts['schedules %d files %d workers' % (nf, nw)] = len(ss)
        rng.shuffle(ss)
        reps = ctx.n(9, 40)
        per = 4 if ctx.quick else 8
        for k in range(reps):
            c = gen_case(rng, nfiles=nf, spans=(1, 1, 2, 3), short=k % 3 == 0, rich=k % 3 != 0)
            c.update(how='list', sel=list(range(1, nf + 1)), op='cofreq')
            vocabs(rng, c)
            some = [ss[(k * per + i) % len(ss)] for i in range(per)]
            c.pop('cpus', None)
            cs = [dict(c, workers=1)] + [dict(c, workers=nw, plan=p) for p in some]
            if rng.random() < 0.3:
                cs.append(dict(c, cpus=rng.choice([1, 2, 3])))
            if rng.random() < 0.5:
                cs.append(dict(c, workers=rng.choice([5, 7, 0, 40])))
            runs += len(cs)
            items.append(Item(cs, record('cofreq', c)))
    specs = [pool_spec(3, 2, 'chunk', silent='{2}'), pool_spec(2, 3, 'chunk', silent='{1}'),
             pool_spec(3, 2, 'chunk', 'n', violates='Terminates')]
    if not ctx.quick:
        specs += [pool_spec(4, 3, 'chunk', silent='{1,3}'), pool_spec(5, 2, 'chunk', silent='{2}')]
    return {'items': items, 'specs': specs, 'facts': facts}


def token_cases(ctx, kind, n):
    rng = ctx.rng
    items = []
    for k in range(n):
        c = gen_case(rng, short=k % 3 == 0)
        vocabs(rng, c)
        c['op'] = 'tokens'
        items.append(Item([c], record(kind, c)))
    return items


def plan_C04(ctx):
    rng = ctx.rng
    items = token_cases(ctx, 'tokens', ctx.n(130, 1500))
    for k in range(ctx.n(8, 48)):
        c = large_case(rng, ['files', 'types', 'words', 'lines'][k % 4])
        vocabs(rng, c)
        c['op'] = 'tokens'
        items.append(Item([c], record('tokens', c)))
    facts = {}
    for nf, nw in ((1, 3), (2, 2), (3, 2)) + (() if ctx.quick else ((3, 3), (2, 4), (4, 2))):
        ss = schedules(ctx, nf, nw)
        facts['schedules %d files %d workers' % (nf, nw)] = len(ss)
        for p in (ss if not ctx.quick else rng.sample(ss, min(len(ss), 14))):
            c = gen_case(rng, nfiles=nf, short=True)
            vocabs(rng, c)
            c.pop('cpus', None)
            c.update(op='tokens', workers=nw, plan=p, sel=list(range(1, nf + 1)), how='list')
            items.append(Item([c], record('tokens', c)))
    specs = [pool_spec(3, 2, 'perWorker'), pool_spec(2, 3, 'perWorker'),
             pool_spec(2, 3, 'perWorker', 'n', violates='ExactlyOnce'),
             {'module': 'Window', 'cfg': WINDOW % (ctx.n(4, 6), ctx.n(2, 3), 'all', 'Correct'), 'what': 'scanner'}]
    return {'items': items, 'specs': specs, 'facts': facts}


def plan_C05(ctx):
    rng = ctx.rng
    items = []
    faults = ['missing', 'undecodable', 'truncated', 'kill', 'raise', 'directory']
    kinds = ['freq', 'cofreq', 'tokens']
    n = ctx.n(3, 20)
    for fault in faults:
        for kind in kinds:
            for k in range(n):
                nf = rng.choice([1, 2, 3])
                c = gen_case(rng, nfiles=nf, spans=(1, 2))
                if k == n - 1:              # one bad file among many
                    c = large_case(rng, 'files')
                    nf = len(c['files'])
                c.update(sel=list(range(1, nf + 1)), how=rng.choice(['list', 'file']), workers=rng.choice([1, 2, 3, 4]))
                c.pop('earlier', None)
                vocabs(rng, c)
                bad = rng.randint(1, nf)
                f = c['files'][bad - 1]
                f['lines'] = f['lines'] or ['a\tN\tb']
                if fault == 'missing':
                    f['missing'] = True
                elif fault == 'truncated':          # ends in the middle of a character
                    if c['enc'] == 'utf-16':
                        f['raw'] = ('\n'.join(f['lines']).encode('utf-16') + b'a').hex()
                    else:
                        c['enc'] = 'utf-8'
                        f['raw'] = ('\n'.join(f['lines']).encode() + rng.choice([b'\xc3', b'\n\xe4\xb8', b'\xf0\x9f\x98'])).hex()
                elif fault == 'undecodable':
                    c['enc'] = 'utf-8'
                    good = '\n'.join(f['lines']).encode()
                    where = rng.choice([0, len(good)])
                    f['raw'] = (good[:where] + b'\xff\xfe\n' + good[where:]).hex()
                elif fault == 'directory':
                    f['fid'] = f['fid'] + '/x'
                    f['missing'] = True
                else:
                    c['fault'], c['fault_file'] = fault, bad
                c.update(op=kind, timeout=12)
                items.append(Item([c], record('fault', c)))
    # and the same passes without a fault do succeed
    for kind in kinds:
        for k in range(ctx.n(4, 30)):
            c = gen_case(rng, nfiles=2)
            vocabs(rng, c)
            c['op'] = kind
            items.append(Item([c], record(kind, c)))
    specs = [pool_spec(3, 2, m, co, bad='{2}', deaths=1) for m, co in
             (('perFile', 'n'), ('perWorker', 'all'), ('chunk', 'all'))]
    specs.append(pool_spec(3, 2, 'chunk', 'all', check='FALSE', bad='{2}', violates='NoSilentLoss'))
    specs.append(pool_spec(3, 2, 'perFile', 'n', check='FALSE', bad='{2}', violates='Terminates'))
    if not ctx.quick:
        specs += [pool_spec(4, 3, m, 'all', bad='{2}', deaths=2) for m in ('perFile', 'perWorker', 'chunk')]
    return {'items': items, 'specs': specs}


def node_case(rng, large=None):
    word = lambda: [rng.choice(['de', 'De', 'was', 'w\u00e9l']), rng.choice(['de', 'zijn', 'b', 'w\u00e9l']), rng.choice(['N', 'V', 'Det'])]
    pool = [word() for _ in range(rng.choice([1, 3, 6, 12]))]
    if large == 'span':
        pool += [[x + str(i) for x in word()] for i in range(30)]
    toks = []
    for k in range(rng.choice([1, 2, 3, 6]) if large != 'tokens' else rng.choice([35, 60])):
        ty = rng.choice(['a/N', 'b/V', 'a/V'])
        toks.append({'ty': ty, 'name': '%s/f%d/%d' % (ty, rng.randint(1, 2), k + 1),
                     'left': [rng.choice(pool) for _ in range(rng.choice([0, 1, 2, 3, 5, 11] if large != 'span' else [17, 40]))],
                     'right': [rng.choice(pool) for _ in range(rng.choice([0, 1, 2, 4, 10] if large != 'span' else [14, 33]))]})
    fmt = rng.choice(['lemma/pos', 'lemma/pos', 'lemma', 'word', 'word/pos', 'pos/lemma', 'word/lemma/pos'])
    how = rng.choice(['dict', 'list', 'read', 'read'])
    case = {'op': 'toknodes', 'toks': toks, 'fmt': fmt, 'how': how, 'l': 99, 'r': 99, 'vocab': [], 'rev': rng.random() < 0.5}
    if how == 'read':
        case.update(l=rng.choice([0, 1, 2, 3, 10] + [36] * 5 * (large == 'span')), r=rng.choice([0, 1, 2, 4, 10] + [30] * 5 * (large == 'span')))
        if rng.random() < 0.6:
            part = dict(zip(('word', 'lemma', 'pos'), range(3)))
            names = sorted({'/'.join(x[part[c]] for c in fmt.split('/')) for x in pool})
            case['vocab'] = rng.sample(names, rng.randint(1, len(names)))
    cols = [('word', 'lemma', 'pos').index(c) + 1 for c in fmt.split('/')]

    def make(obs):
        return dict({k: case[k] for k in ('toks', 'how', 'l', 'r', 'vocab')}, _module='PipelineTrace', kind='posnodes', fmt=cols,
                    runs=[{'st': o['st'], 'e': o['e'], 'v': o['v'] or {'nomtx': True, 'rows': [], 'cols': [], 'cells': []}} for o in obs])
    return Item([case], make)


def plan_C06(ctx):
    items = token_cases(ctx, 'tokpos', ctx.n(120, 1200))
    items += [node_case(ctx.rng) for _ in range(ctx.n(250, 4000))]
    items += [node_case(ctx.rng, ['span', 'tokens'][k % 2]) for k in range(ctx.n(16, 160))]
    for k in range(ctx.n(6, 36)):
        c = large_case(ctx.rng, ['types', 'words', 'lines'][k % 3])
        vocabs(ctx.rng, c)
        c['op'] = 'tokens'
        items.append(Item([c], record('tokpos', c)))
    return {'items': items, 'specs': []}


TEMP = '''INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS NH = %d Chunks = 2 CleanDefault = %s Tidy = %s Emit = %s
INVARIANT %s
'''


def plan_C26(ctx):
    rng = ctx.rng
    steps = sorted({json.dumps(json.loads(x)) for x in
                    ctx.generate('TempFiles', TEMP % (2, 'FALSE', 'TRUE', 'TRUE', 'Out'), 'STEPS')})
    steps = [json.loads(x) for x in steps]
    single = [[['con', 1], ['work', 1], ['collect', 1]]]
    items = []

    def add(st, confs):
        c = gen_case(rng, nfiles=rng.choice([2, 3, 4]), spans=(1, 2), short=False)
        c.update(op='files', how='list', sel=list(range(1, len(c['files']) + 1)), steps=st, workers=rng.choice([1, 2, 3]))
        vocabs(rng, c)
        c['rows'] = list(c['_types'])
        c['conf'] = confs
        c['present'] = [['~/notes.txt', 'n'], ['out1/result.freq', 'r'], ['out2/deep/r.freq', 'r'], ['tm1x', 'x'], ['t/other.meta', 'o']]
        # somebody else's files in the default directory, if no handler owns it
        if all(cf['tmp'] or cf['out'] for cf in confs):
            c['present'] += [['~/tmp/keep.txt', 'k'], ['~/tmp/col.freq/123/sub.0.npz', 'k']]

        def make(obs, c=c):
            return {'_module': 'TempTrace', 'conf': [{'tmp': cf['tmp'] and '/D/' + cf['tmp'], 'out': cf['out'] and '/D/' + cf['out']}
                                                     for cf in c['conf']], 'home': '/H',
                    'runs': [{'st': o['st'], 'e': o['e'], 'v': o['v'] or {'events': [], 'before': [], 'after': [], 'result': True}}
                             for o in obs]}
        items.append(Item([c], make))

    places = [('t/tm1', 'out1'), ('t/tm1', ''), ('', 'out1'), ('', '')]
    for kind in ('cofreq', 'cofreq', 'freq', 'tokens'):
        for tmp, out in places:
            for _ in range(ctx.n(2, 12)):
                add(single[0], [{'kind': kind, 'tmp': tmp, 'out': out}])
    second = [('t/tm2', 'out2'), ('t/tm2', 'out1'), ('', 'out2'), ('', ''), ('', 'out1'), ('t/tm1', 'out2')]
    for st in steps:
        for _ in range(ctx.n(3, 25)):
            a, b = rng.choice(places), rng.choice(second)
            add(st, [{'kind': 'cofreq', 'tmp': a[0], 'out': a[1]},
                     {'kind': rng.choice(['cofreq', 'cofreq', 'cofreq', 'freq', 'tokens']), 'tmp': b[0], 'out': b[1]}])
    inv = 'Complete NothingLeft OthersKept'
    specs = [{'module': 'TempFiles', 'cfg': TEMP % (ctx.n(2, 3), 'FALSE', 'TRUE', 'FALSE', inv), 'what': 'handlers with own or default directories'},
             {'module': 'TempFiles', 'cfg': TEMP % (2, 'TRUE', 'TRUE', 'FALSE', 'OthersKept'), 'violates': 'OthersKept', 'what': 'constructors empty the default directory'},
             {'module': 'TempFiles', 'cfg': TEMP % (2, 'TRUE', 'TRUE', 'FALSE', 'Complete'), 'violates': 'Complete', 'what': 'constructors empty the default directory'}]
    return {'items': items, 'specs': specs, 'facts': {'interleavings of two handlers': len(steps)}}
