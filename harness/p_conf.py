"""C21, C22, C24: settings, file selection, word queries."""
import json
import os

from harness.lib import REPO
from harness.main import Item

TIMEOUT = 30.0
GEN = '''INIT Init
NEXT Random
CHECK_DEADLOCK FALSE
CONSTANTS Variant = "right" MaxLo = 2 MaxDi = 4 MaxHa = 4 Depth = %d Emit = TRUE Small = FALSE
INVARIANT Out
'''
LAWS = '''INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Variant = "%s" MaxLo = %d MaxDi = 2 MaxHa = 1 Depth = %d Emit = FALSE Small = TRUE
INVARIANT Separate
CONSTRAINT Limit
PROPERTY Frame Layered
'''
WALK = '''INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT Variant = "%s"
INVARIANT %s
CONSTRAINT Bounded
'''
QUERY = '''INIT QInit
NEXT QNext
CHECK_DEADLOCK FALSE
CONSTANTS Variant = "%s" Corpora = {%s} Words = {"1", "2"%s} MaxFields = %d
INVARIANT %s
'''


def plan(prop, ctx):
    return globals()['plan_' + prop](ctx)


def rec(kind, case, keys):
    def make(obs):
        r = {'_module': 'ConfTrace', 'kind': kind,
             'runs': [{'st': o['st'], 'e': o['e'], 'v': o['v'] if o['v'] is not None else []} for o in obs]}
        for k in keys:
            r[k] = case[k]
        return r
    return make


# ---------------------------------------------------------------- settings
def default_doc():
    """the default configuration file, read line by line"""
    doc = []
    with open(os.path.join(REPO, 'nephosem', 'config.ini'), encoding='utf-8') as fh:
        for line in fh:
            line = line.strip()
            if not line or line[0] in '#;':
                continue
            if line[0] == '[':
                doc.append({'name': line.strip('[]'), 'opts': []})
            else:
                k, v = line.split('=', 1)
                doc[-1]['opts'].append([k.strip(), v.strip()])
    return doc


def corpora(rng):
    out = {}
    for name in ('A', 'B'):
        fs = []
        for k in range(rng.randint(1, 2)):
            lines = []
            for _ in range(rng.randint(2, 7)):
                if rng.random() < 0.2:
                    lines.append(rng.choice(['<a>', '<b>', '</artikel>', '<x>']))
                else:
                    w = rng.choice('abc')
                    lines.append('\t'.join([w, rng.choice('NV'), rng.choice([w, w.upper()])]))
            fs.append({'fid': '%s%d' % (name.lower(), k), 'lines': lines})
        out[name] = fs
    return out


OPTIONS = [['Corpus-Format', 'line-format', ['word,pos,lemma', 'lemma,word,pos', 'pos,lemma,word', 'word,lemma,pos']],
           ['Corpus-Format', 'global-columns', ['word,pos,lemma', 'pos,word,lemma']],
           ['Corpus-Format', 'type', ['lemma/pos', 'word', 'pos/lemma', 'lemma', 'word/lemma/pos', 'lemma/lemma']],
           ['Corpus-Format', 'colloc', ['lemma/pos', 'word', 'lemma', 'word/pos']],
           ['Corpus-Format', 'token', ['word/pos/fid/lid', 'lemma/fid/lid', 'word/fid/lid', 'pos/lemma/fid/lid']],
           ['Corpus-Format', 'separator-line-machine', ['<a>', '<b>', '</artikel>']],
           ['Span', 'left-span', ['0', '1', '2', '3', '10']], ['Span', 'right-span', ['0', '1', '2', '3', '10']],
           ['Span', 'left-MWUspan', ['0', '4']], ['Span', 'width', ['0', '7', '-1', '1000']],
           ['Data', 'corpus-path', ['A', 'B']], ['Data', 'output-path', ['O1', 'O2']],
           ['Encoding', 'file-encoding', ['utf-8', 'latin-1']], ['Encoding', 'outfile-encoding', ['utf-8', 'latin-1']],
           ['Special', 'Type', ['x', '100%', '%d%%', '']], ['Special', 'MyOption', ['a = b', 'x:y', '[x]', '12', 'a # b', 'a ; b', '007']],
           ['Special', 'myoption', ['b', '%(here)s', '\u00e9t\u00e9', '"q"', '']], ['My Section', 'extra', ['1', 'two words', 'None', 'True', '']]]
VALUES = {k: (s, vs) for s, k, vs in OPTIONS}
REQUIRED = ['line-format', 'type', 'token', 'separator-line-machine']


def B(f, **k):
    return dict({'f': f, 'n': 0, 'x': 0, 'k': '', 'v': '', 's': '', 'doc': []}, **k)


def rand_doc(rng, n):
    doc = {}
    for s, k, vs in rng.sample(OPTIONS, n):
        doc.setdefault(s, []).append([k, rng.choice(vs)])
    return [{'name': s, 'opts': o} for s, o in doc.items()]


LINES = ['a\tb\tc', 'de\tDET\tde', '1\t"x"\t/', '\u00e9\u00e9n\tNum\t\u4e2d', 'a b\tc d\te f']


def rand_history(rng, large=False):
    ops = [B('write', n=1, doc=rand_doc(rng, rng.randint(0, 9))), B('write', n=2, doc=rand_doc(rng, rng.randint(0, 9)))]
    lo, di, ha = [], [], []         # loaders: full?; dictionaries: full?, has corpus; handlers: kind, can run
    for _ in range(rng.randint(8, 18) if not large else 70):
        f = rng.choice(['loader', 'get', 'update', 'update', 'copy', 'set', 'set', 'set', 'del', 'handler', 'handler',
                        'line', 'line', 'run', 'write'])
        if not lo or (f == 'loader' and len(lo) < (3 if not large else 8)):
            n = rng.choice([0, 0, 1, 2])
            ops.append(B('loader', n=n))
            lo.append(n == 0)
        elif not di or (f in ('get', 'update') and len(di) < (6 if not large else 30)):
            x = rng.randrange(len(lo))
            if f == 'update':
                ops.append(B('update', x=x + 1, n=rng.choice([1, 2])))
            else:
                ops.append(B('get', x=x + 1))
            di.append({'full': lo[x], 'path': False})
        elif f == 'write':
            ops.append(B('write', n=rng.choice([1, 2]), doc=rand_doc(rng, rng.randint(0, 6))))
        elif f == 'copy' and len(di) < (6 if not large else 30):
            x = rng.randrange(len(di))
            ops.append(B('copy', x=x + 1))
            di.append(dict(di[x]))
        elif f == 'set':
            x = rng.randrange(len(di))
            k = rng.choice(sorted(VALUES))
            s, vs = VALUES[k]
            ops.append(B('set', x=x + 1, k=k, v=('#' if s == 'Span' else '=') + rng.choice(vs)))
            if k == 'corpus-path':
                di[x]['path'] = True
        elif f == 'del':
            x = rng.randrange(len(di))
            k = rng.choice(['colloc', 'colloc', 'output-path', 'global-columns', 'outfile-encoding', 'left-boundary-machine',
                            'myoption', 'extra', 'single-boundary-machine'])
            ops.append(B('del', x=x + 1, k=k))
        elif f == 'handler' and len(ha) < (4 if not large else 20):
            c = [i for i, q in enumerate(di) if q['full']]
            if not c:
                continue
            x = rng.choice(c)
            kind = rng.choice(['fmt', 'item', 'item', 'col', 'tok', 'dep', 'tv'])
            if kind != 'fmt' and not di[x]['path']:
                ops.append(B('set', x=x + 1, k='corpus-path', v='=' + rng.choice('AB')))
                di[x]['path'] = True
            ops.append(B('handler', x=x + 1, s=kind))
            ha.append(kind)
        elif f == 'line' and ha:
            ops.append(B('line', x=rng.randrange(len(ha)) + 1, s=rng.choice(LINES)))
        elif f == 'run' and ha:
            c = [i for i, k in enumerate(ha) if k in ('item', 'col')]
            if c and sum(o['f'] == 'run' for o in ops) < 2:
                ops.append(B('run', x=rng.choice(c) + 1))
    for x, q in enumerate(di):          # every dictionary is used at last
        if q['full'] and rng.random() < 0.6:
            for k in rng.sample(['line-format', 'global-columns', 'type', 'colloc', 'token'], rng.randint(0, 2)):
                ops.append(B('set', x=x + 1, k=k, v='=' + rng.choice(VALUES[k][1])))
            ops.append(B('handler', x=x + 1, s='fmt'))
            ha.append('fmt')
            ops.append(B('line', x=len(ha), s=rng.choice(LINES)))
    return ops


def hist_item(ops, rng, default):
    c = {'op': 'confhist', 'ops': ops, 'corpora': corpora(rng), 'style': rng.randint(0, 127), 'default': default}
    return Item([c], rec('hist', c, ['ops', 'corpora', 'default']))


def runnable(ops):
    """keep at most two corpus runs, only through handlers that can run one"""
    kinds, out, runs = [], [], 0
    for o in ops:
        if o['f'] == 'handler':
            kinds.append(o['s'])
        if o['f'] == 'run':
            runs += 1
            if runs > 2 or kinds[o['x'] - 1] not in ('item', 'col'):
                continue
        out.append(o)
    return out


def rand_bound(rng):
    pats = [[['lit', '</s>']], [['lit', '</art'], ['alt', 'ikel', 'icle'], ['lit', '>']], [['lit', '<'], ['plus', '>'], ['lit', '>']],
            [['lit', '<s'], ['opt', '/'], ['lit', '>'], ['end', '']], [['lit', '#'], ['star', '']], [['cls', '<['], ['lit', 's']]]
    lines = ['</s>', '</artikel>', '</article>', '<s>', '<s/>', '<s> x', '# c', '#', '', 'word', ' </s>', '[s]', '<p a="1">', '</s> tail']
    mech = rng.choice(['single', 'single', 'left-right'])
    a, b = rng.sample(pats, 2)
    return {'op': 'bound', 'mech': mech, 'single': a, 'left': a, 'right': b,
            'names': rng.choice([['separator-line-machine'], ['single-boundary-machine'],
                                 ['separator-line-machine', 'single-boundary-machine']]),
            'lines': rng.sample(lines, rng.randint(3, len(lines)))}


def plan_C21(ctx):
    rng, items = ctx.rng, []
    default = default_doc()
    seen = set()
    depth = ctx.n(14, 18)
    for x in ctx.generate('SettingsGen', GEN % depth, 'HIST',
                          extra=['-simulate', 'num=%d' % ctx.n(120, 1200), '-depth', str(depth), '-seed', str(ctx.seed)]):
        if x not in seen:
            seen.add(x)
            ops = runnable(json.loads(x))
            if any(o['f'] in ('get', 'update') for o in ops):
                items.append(hist_item(ops, rng, default))
    gen = len(items)
    for _ in range(ctx.n(150, 1500)):
        items.append(hist_item(rand_history(rng), rng, default))
    for _ in range(ctx.n(6, 60)):
        items.append(hist_item(rand_history(rng, True), rng, default))
    for _ in range(ctx.n(60, 400)):
        c = rand_bound(rng)
        items.append(Item([c], rec('bound', c, ['mech', 'single', 'left', 'right', 'lines'])))
    specs = [{'module': 'SettingsGen', 'cfg': LAWS % ('right', 1, ctx.n(6, 7)), 'what': 'settings: frame and layering', 'workers': 4}]
    for v, law in [('shared-settings', 'Separate'), ('update-in-place', 'Separate'), ('shared-handler', 'Separate'),
                   ('fills-in-caller', 'Frame'), ('only-newer', 'Layered'), ('keeps-older', 'Layered')]:
        specs.append({'module': 'SettingsGen', 'cfg': LAWS % (v, 1, 6), 'what': 'broken settings: ' + v, 'violates': law})
    if ctx.tier == 'thorough':
        specs.append({'module': 'SettingsGen', 'cfg': LAWS % ('right', 2, 6), 'what': 'two loaders', 'workers': 6})
    return {'items': items, 'specs': specs, 'facts': {'histories generated by TLC': gen}}


# ---------------------------------------------------------------- files
NAMES = ['a.txt', 'b.txt', 'a', 'b', 'a b.txt', '.hidden', 'a.txt.gz', '#x', 'x#y', '\u00e9.txt', 'c.fnames', 'A.txt', 'a.TXT', '1', 'tmp',
         '~x', '_x', 'a.txt~', 'x=y', 'b.conll', 'README.md', 'a #b.txt', 'x ;y', 'x\u0085y.txt', 'n\u2028l']
DIRS = ['d', 'e', 'd.e', '2020', 'tmp', 'a.b', '.git', 'd d', '\u00e9']


def rand_tree(rng, large=False):
    files = set()
    dirs = ['']
    for _ in range(rng.randint(0, 4)):
        base = rng.choice(dirs)
        dirs.append((base + '/' if base else '') + rng.choice(DIRS))
    if large == 'deep':
        for _ in range(rng.choice([7, 12])):
            dirs.append((dirs[-1] + '/' if dirs[-1] else '') + rng.choice(DIRS))
    if large == 'dirs':
        dirs += ['m%d' % i for i in range(rng.choice([35, 60]))]
    for _ in range(rng.randint(0, 9) if not large else rng.choice([90, 150]) if large == 'flat' else rng.choice([40, 90])):
        base = dirs[0] if large == 'flat' else rng.choice(dirs if large != 'deep' else dirs + dirs[-4:])
        files.add((base + '/' if base else '') + rng.choice(NAMES + (['f%d' % rng.randint(1, 200)] * 20 if large else [])))
    alld = {x[:i] for x in files | {d + '/' for d in dirs if d} for i in range(len(x)) if x[i] == '/'}
    files = sorted(f for f in files if f not in alld)
    return files, sorted(d for d in dirs if d)


def files_case(rng, how, via, large=False):
    tree, dirs = rand_tree(rng, large)
    outside = rng.sample(['out/z.txt', 'out/\u00e9.txt', 'other/a.txt', './here.txt', './a.txt'], rng.randint(0, 2))
    enc = rng.choice(['utf-8', 'latin-1', 'utf-16'])
    c = {'op': 'selfiles', 'tree': tree, 'emptydirs': dirs, 'outside': outside, 'enc': enc, 'how': how, 'via': via,
         'handler': rng.choice(['item', 'col', 'tok', 'dep'] if via == 'prepare' else ['item', 'item', 'col', 'tok']),
         'root': rng.choice(['plain', 'plain', 'slash', 'rel', 'dot']), 'want': [], 'lines': [], 'alias': [],
         'list': rng.choice(['sel', 'my.list', 'lists/sel', 'l.d/sel', 'a.fnames.old']), 'withext': rng.random() < 0.5,
         'relarg': rng.random() < 0.3, 'nofile': how == 'file' and rng.random() < 0.06,
         'eol': rng.choice(['\n', '\n', '\r\n']), 'lastnl': rng.random() < 0.7}
    if via != 'prepare':
        c['enc'] = enc = rng.choice(['utf-8', 'latin-1'])
    pool = [['corpus', t] for t in tree] + [['given', g] for g in outside]
    some = rng.sample(pool, rng.randint(0 if not large else min(35, len(pool)), len(pool)))
    if how == 'list':
        c['want'] = [['given', n] if k == 'given' else [k, n] for k, n in some]
    if how == 'file':
        for k, n in some:
            if k == 'corpus':
                if '/' not in n and n[0] != '#' and rng.random() < 0.6:
                    line = n
                else:
                    line = rng.choice(['@C/' + n, '@C/' + n, 'corpus/' + n])
                    c['alias'].append([line, 'corpus', n])
            else:
                line = rng.choice([n, '@D/' + n])
                if line != n:
                    c['alias'].append([line, 'given', n])
            pad = rng.random()
            c['lines'].append('  ' + line if pad < 0.1 else line + ' \t' if pad < 0.2 else line)
        if via == 'prepare' and rng.random() < 0.3:      # a bare name stands for a file of the corpus directory
            c['lines'].append('ghost.txt')
        for _ in range(rng.randint(0, 3)):
            c['lines'].insert(rng.randint(0, len(c['lines'])), rng.choice(['', '# note', '#a.txt', '   ', '  # x', '\t', '##']))
    if c['enc'] == 'latin-1' and any(ch > '\u00ff' for t in tree for ch in t):
        c['enc'] = 'utf-8'
    return c


KEYS22 = ['how', 'tree', 'want', 'lines', 'alias', 'nofile']


def plan_C22(ctx):
    rng, items = ctx.rng, []

    def add(c):
        items.append(Item([c], rec('files', c, KEYS22)))
    trees = ctx.generate('FileSel', WALK % ('right', 'Out'), 'TREE', extra=[])
    trees = sorted(set(trees))
    for k, t in enumerate(trees):
        if ctx.tier == 'thorough' or k % 4 == ctx.seed % 4:
            add({'op': 'selfiles', 'tree': json.loads(t), 'outside': [], 'enc': 'utf-8', 'how': 'all', 'via': 'prepare',
                 'handler': ['item', 'col', 'tok', 'dep'][k % 4], 'root': 'plain', 'want': [], 'lines': [], 'alias': [],
                 'nofile': False})
    gen = len(items)
    for _ in range(ctx.n(300, 4000)):
        add(files_case(rng, rng.choice(['all', 'list', 'file', 'file', 'file']), 'prepare'))
    for _ in range(ctx.n(60, 700)):
        add(files_case(rng, rng.choice(['all', 'list', 'file', 'file']), 'run'))
    for k in range(ctx.n(16, 160)):
        add(files_case(rng, ['all', 'file', 'list', 'all'][k % 4], 'run' if k % 3 == 0 else 'prepare', ['many', 'deep', 'dirs', 'flat'][k // 4 % 4]))
    specs = [{'module': 'FileSel', 'cfg': WALK % ('right', 'EachOnce NothingElse AtTheEnd'), 'what': 'walk of every small directory tree'}]
    for v, law in [('names-once', 'AtTheEnd'), ('two-levels', 'AtTheEnd'), ('again', 'EachOnce')]:
        specs.append({'module': 'FileSel', 'cfg': WALK % (v, 'EachOnce NothingElse AtTheEnd'), 'what': 'broken walk: ' + v, 'violates': law})
    return {'items': items, 'specs': specs, 'facts': {'directory trees generated by TLC': len(trees), 'of these replayed': gen}}


# ---------------------------------------------------------------- queries
CORPORA = ['LeNC', 'TwNC', 'a', 'corpus 1', '\u00e9', 'lenc']
WORDS = ['rustoord/noun', 'rust_oord/noun', 'w', 'a b/N', '\u00e9\u00e9n/Num', '#x', '1', '=', 'x,y', "d'r/P", 'n\u0085l/N', 'n\u2028l/N']


def rand_line(rng, dk, more=()):
    k = rng.random() if not more else 0.5
    if k < 0.12:
        return rng.choice(['', '  ', '\t', '# note', '#w', ' # x:y\tz:w', '#LeNC:a\tTwNC:b'])
    if k < 0.35:
        w = rng.choice([w for w in WORDS if w[0] != '#'])
        return rng.choice([w, ' ' + w, w + '  ', w + '\t', 'LeNC:' + w])
    cs = rng.sample(CORPORA, rng.randint(1, 4)) if not more else rng.sample(more, rng.choice([12, 30, 45]))
    if rng.random() < 0.45:
        cs.insert(rng.randint(0, len(cs)), dk)
    if len(cs) == 1:
        cs.append(rng.choice([c for c in CORPORA if c != cs[0]]))
    if cs[0][0] == '#':
        cs.reverse()
    fs = ['%s%s:%s%s' % (c, ' ' * (rng.random() < 0.1), ' ' * (rng.random() < 0.1), rng.choice(WORDS)) for c in cs]
    if rng.random() < 0.1:
        fs.insert(1, '')
    return '\t'.join(fs)


def query_item(lines, rng, dk=None, ask=()):
    dk = dk or rng.choice(['_DEFAULT_', '_DEFAULT_', '*', 'default'])
    enc = rng.choice(['utf-8', 'utf-8', 'latin-1'])
    if any(ch > '\u00ff' for l in lines for ch in l):
        enc = rng.choice(['utf-8', 'utf-16'])
    c = {'op': 'query', 'lines': lines, 'def': dk, 'ask': list(ask) + ['other', ''], 'enc': enc, 'eol': rng.choice(['\n', '\n', '\r\n']),
         'lastnl': rng.random() < 0.7, 'style': rng.randint(0, 7)}
    return Item([c], rec('query', c, ['lines', 'def']))


def plan_C24(ctx):
    rng, items = ctx.rng, []
    lines = ctx.generate('Queries', QUERY % ('right', '"x", "y"', ', "3"', 3, 'Out'), 'LINE', extra=[])
    lines = sorted(set(lines))
    k = 0
    while k < len(lines):
        part = [json.loads(x) for x in lines[k:k + 40]]
        k += 40
        dk = rng.choice(['_DEFAULT_', '*'])
        items.append(query_item(['\t'.join('%s:%s' % (dk if p[0] == 'D' else p[0], p[1]) for p in x) for x in part if len(x) > 1],
                                rng, dk, ['x', 'y', dk]))
    gen = len(lines)
    for _ in range(ctx.n(250, 3000)):
        dk = rng.choice(['_DEFAULT_', '_DEFAULT_', '*', 'default'])
        items.append(query_item([rand_line(rng, dk) for _ in range(rng.randint(0, 8))], rng, dk, rng.sample(CORPORA, 3) + [dk]))
    for k in range(ctx.n(12, 120)):          # long files, long lines, long words
        dk = rng.choice(['_DEFAULT_', '*'])
        if k % 2:
            ls = ['w%d/N' % i if rng.random() < 0.4 else rand_line(rng, dk) for i in range(rng.choice([45, 130, 260]))]
            items.append(query_item(ls, rng, dk, rng.sample(CORPORA, 3) + [dk]))
        else:
            more = ['corpus%d' % i for i in range(50)]
            ls = [rand_line(rng, dk, more) for _ in range(2)] + ['lang' * 60 + '/N']
            items.append(query_item(ls, rng, dk, rng.sample(more, 40) + [dk]))
    n = ctx.n(3, 4)
    specs = [{'module': 'Queries', 'cfg': QUERY % ('right', '"x", "y", "z"', '', n, 'Right Defaulted'), 'what': 'lines read field by field'}]
    for v in ('last-word', 'keeps-first'):
        specs.append({'module': 'Queries', 'cfg': QUERY % (v, '"x", "y"', '', 3, 'Right Defaulted'), 'what': 'broken reader: ' + v,
                      'violates': 'Right'})
    return {'items': items, 'specs': specs, 'facts': {'lines generated by TLC': gen}}
