"""Working files: what the handlers do to the file system."""
import hashlib
import json
import os
import sys
import tempfile
import threading

from harness.ops_pipe import base_settings, select, vocab, write_corpus

REC = None           # the active recording
TL = threading.local()
WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


class Recording(object):
    def __init__(self, d):
        self.root = os.path.realpath(d)
        self.home = os.path.realpath(os.path.expanduser('~'))
        self.log = os.open(os.path.join(d, 'events.log'), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
        self.main = os.getpid()
        self.gate = {}

    def note(self, kind, path, fd=-1):
        h = getattr(TL, 'actor', 0)
        if isinstance(fd, int) and fd >= 0 and isinstance(path, (str, bytes)):
            path = os.path.join(os.readlink('/proc/self/fd/%d' % fd), os.fsdecode(path))
        if not h or not isinstance(path, (str, bytes)):
            return
        p = os.path.realpath(os.fsdecode(path))
        if p.startswith(('/dev/', '/proc/')) or '/pymp-' in p or p == os.path.join(self.root, 'events.log'):
            return
        os.write(self.log, json.dumps([h, kind, p]).encode() + b'\n')

    def reading(self, path):
        """the main process starts reading working files: wait for our turn"""
        h = getattr(TL, 'actor', 0)
        if h and os.getpid() == self.main and h in self.gate and isinstance(path, (str, bytes)):
            g = self.gate[h]
            if any(os.path.realpath(os.fsdecode(path)).startswith(t + '/') for t in g['dirs']) and not g['passed']:
                g['passed'] = True
                g['reached'].set()
                g['go'].wait(15)


def hook(event, args):
    r = REC
    if r is None:
        return
    if event == 'open':
        if args[2] & WRITE:
            r.note('write', args[0])
        else:
            r.reading(args[0])
    elif event in ('os.remove', 'os.unlink'):
        r.note('remove', args[0], args[1])
    elif event == 'os.rename':
        r.note('remove', args[0])
        r.note('write', args[1])
    elif event == 'os.mkdir':
        r.note('mkdir', args[0], args[2])
    elif event == 'os.rmdir':
        r.note('rmdir', args[0], args[1])
    elif event == 'os.truncate':
        r.note('write', args[0])


_installed = []


def snapshot(*dirs):
    out = []
    for root in dirs:
        for p, _, fs in os.walk(root):
            for f in fs:
                q = os.path.join(p, f)
                if f in ('events.log', 'nephosem.log'):
                    continue
                out.append([q, hashlib.sha1(open(q, 'rb').read()).hexdigest()[:12]])
    return sorted(out)


def op_files(case, d):
    global REC
    from nephosem import ColFreqHandler, ItemFreqHandler, TokenHandler
    tempfile.gettempdir()      # finds the system's directory by trying it
    d = os.path.realpath(d)
    home = os.path.realpath(os.path.expanduser('~'))
    if not _installed:
        sys.addaudithook(hook)
        _installed.append(1)
    paths = write_corpus(case, d)
    for rel, txt in case['present']:
        p = os.path.join(home if rel.startswith('~/') else d, rel[2:] if rel.startswith('~/') else rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as fh:
            fh.write(txt)
    sets = []
    for cf in case['conf']:
        s = base_settings(case, d)
        for key, name in (('tmp-path', 'tmp'), ('output-path', 'out')):
            if cf[name] == '':
                s.pop(key)
            else:
                s[key] = os.path.join(d, cf[name])
                if name == 'out':
                    os.makedirs(s[key], exist_ok=True)
        sets.append(s)
    fn = select(case, d, paths)
    watch = (d, os.path.join(home, 'tmp'))
    before = snapshot(*watch)
    rec = Recording(d)
    hs, threads, res, errs = {}, {}, {}, []
    for i, cf in enumerate(case['conf']):
        t = cf['tmp'] and os.path.join(d, cf['tmp'])
        o = cf['out'] and os.path.join(d, cf['out'])
        rec.gate[i + 1] = {'dirs': [t or (o and os.path.join(o, 'tmp')) or os.path.join(home, 'tmp')],
                           'reached': threading.Event(), 'go': threading.Event(), 'passed': False}
    row, col = vocab(case['rows'], case), None if case.get('anyctx') else vocab(case['ctx'], case)

    def run(i):
        TL.actor = i
        h = hs[i]
        k = case['conf'][i - 1]['kind']
        try:
            if k == 'freq':
                r = h.build_item_freq(fn)
                res[i] = sorted(r.items())
            elif k == 'cofreq':
                r = h.build_col_freq(fn, row_vocab=row, col_vocab=col)
                res[i] = None if r is None else [list(r.row_items), list(r.col_items), r.matrix.toarray().tolist()]
            else:
                try:
                    r = h.retrieve_tokens(fn)
                    res[i] = sorted(map(str, r.row_items))
                except ValueError:
                    res[i] = 'refused'
        except Exception as e:
            errs.append(e)
        finally:
            rec.gate[i]['reached'].set()

    def construct(i):
        TL.actor = i
        k = case['conf'][i - 1]['kind']
        try:
            if k == 'freq':
                hs[i] = ItemFreqHandler(sets[i - 1], workers=case['workers'])
            elif k == 'cofreq':
                hs[i] = ColFreqHandler(sets[i - 1], workers=case['workers'])
            else:
                hs[i] = TokenHandler(row, settings=sets[i - 1], workers=case['workers'], col_vocab=col)
        finally:
            TL.actor = 0
    REC = rec
    try:
        for what, i in case['steps']:
            if what == 'con':
                construct(i)
            elif what == 'work':
                threads[i] = threading.Thread(target=run, args=(i,), daemon=True)
                threads[i].start()
                rec.gate[i]['reached'].wait(15)
            else:
                rec.gate[i]['go'].set()
                threads[i].join(15)
                if threads[i].is_alive():
                    raise RuntimeError('handler does not finish')
    finally:
        REC = None
        os.close(rec.log)
    if errs:
        raise errs[0]
    events = [json.loads(x) for x in open(os.path.join(d, 'events.log'))]
    after = snapshot(*watch)
    same = {}
    for i, cf in enumerate(case['conf']):
        same.setdefault(cf['kind'], set()).add(repr(res.get(i + 1)))
    for k in list(os.listdir(os.path.join(home, 'tmp')) if os.path.isdir(os.path.join(home, 'tmp')) else []):
        import shutil
        shutil.rmtree(os.path.join(home, 'tmp'), ignore_errors=True)
    cut = lambda p: p.replace(d, '/D').replace(home, '/H')
    return {'events': [[e[0], e[1], cut(e[2])] for e in events],
            'before': [[cut(p), x] for p, x in before], 'after': [[cut(p), x] for p, x in after],
            'result': all(len(v) == 1 for v in same.values())}


OPS = {'files': op_files}
