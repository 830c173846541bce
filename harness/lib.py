"""Machinery shared by all checks: scratch space, running real code in
isolated interpreters, running TLC, verdicts, known findings, evidence."""
import hashlib
import json
import os
import queue
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = max(2, min(8, os.cpu_count() or 2))


class Scratch:
    """One directory under /tmp that a check creates and removes."""

    def __init__(self, tag):
        self.dir = tempfile.mkdtemp(prefix='nephv-%s-' % tag, dir='/tmp')
        self.n = 0
        self.lock = threading.Lock()

    def sub(self, name):
        with self.lock:
            self.n += 1
            d = os.path.join(self.dir, '%s%d' % (name, self.n))
        os.makedirs(d)
        return d

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# --------------------------------------------------------------------------
# running the real code
# --------------------------------------------------------------------------

def _kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    try:
        p.kill()
    except Exception:
        pass
    p.wait()


class Executor:
    """Runs cases in fresh interpreters (own HOME, own scratch directory, own
    process group) that import nephosem from the current tree."""

    def __init__(self, scratch, nproc=None, timeout=20.0, budget=450, hashseed=0):
        self.scratch = scratch
        self.budget = budget
        self.nproc = nproc or NCPU
        self.timeout = timeout
        self.children = 0
        self.hashseed = hashseed

    def _spawn(self, hashseed=0):
        home = self.scratch.sub('home')
        env = {
            'PATH': os.environ.get('PATH', '/usr/bin:/bin'),
            'HOME': home, 'TMPDIR': home, 'PYTHONPATH': REPO + ':' + VERIF,
            'PYTHONDONTWRITEBYTECODE': '1', 'MPLBACKEND': 'Agg', 'LANG': 'C.UTF-8',
            'PYTHONHASHSEED': str(hashseed), 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
            'MKL_NUM_THREADS': '1', 'VERIF_SCRATCH': home, 'MPLCONFIGDIR': home,
        }
        err = open(os.path.join(self.scratch.dir, 'stderr.log'), 'ab')
        p = subprocess.Popen([PY, '-m', 'harness.worker'], cwd=home, env=env,
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=err,
                             start_new_session=True)
        err.close()
        q = queue.Queue()

        def pump():
            for line in p.stdout:
                q.put(line)
            q.put(None)
        threading.Thread(target=pump, daemon=True).start()
        p.q = q
        self.children += 1
        line = q.get(timeout=120)
        if line is None or not line.startswith(b'READY'):
            _kill(p)
            raise RuntimeError('worker did not start: see stderr: ' +
                               open(os.path.join(self.scratch.dir, 'stderr.log'), errors='replace').read()[-2000:])
        return p

    def _run_one(self, p, case, timeout):
        p.stdin.write(json.dumps(case).encode() + b'\n')
        p.stdin.flush()
        end = time.time() + timeout
        while True:
            left = end - time.time()
            if left <= 0:
                return {'st': 'hang', 'e': 'Timeout', 'v': None}, False
            try:
                line = p.q.get(timeout=left)
            except queue.Empty:
                continue
            if line is None:
                return {'st': 'exc', 'e': 'InterpreterDied', 'v': None}, False
            if line.startswith(b'@@RES '):
                return json.loads(line[6:]), True

    def run(self, cases):
        """cases: list of dicts with key 'op'.  Returns the observations, in order."""
        out = [None] * len(cases)
        work = queue.Queue()
        # long cases first would need estimates; interleave as given
        for i in range(len(cases)):
            work.put(i)
        errors = []
        retry = []
        t0 = time.time()

        def loop(h):
            p = None
            try:
                while True:
                    try:
                        i = work.get_nowait()
                    except queue.Empty:
                        break
                    if p is None:
                        p = self._spawn(h)
                    if len(retry) >= 8 or time.time() - t0 > self.budget:
                        out[i] = {'st': 'skip', 'e': '', 'v': None}
                        continue
                    t = cases[i].get('timeout', self.timeout)
                    obs, alive = self._run_one(p, cases[i], t)
                    if obs['st'] == 'hang':
                        retry.append(i)
                    obs['h'] = h        # the hash seed: the order of sets differs between interpreters
                    out[i] = obs
                    if not alive:
                        _kill(p)
                        p = None
            except Exception as e:       # machinery failure
                errors.append(e)
            finally:
                if p is not None:
                    _kill(p)
        n = min(self.nproc, max(1, len(cases)))
        ts = [threading.Thread(target=loop, args=(self.hashseed + k,)) for k in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errors:
            raise errors[0]
        # a case that seemed to hang is run again, alone, with more time; a
        # few of them are enough to decide
        for k, i in enumerate(sorted(retry)):
            if k >= 3:
                if all(out[j]['st'] == 'hang' for j in sorted(retry)[:3]):
                    break
            p = self._spawn(out[i]['h'])
            h = out[i]['h']
            try:
                out[i], _ = self._run_one(p, cases[i], 2 * cases[i].get('timeout', self.timeout))
                out[i]['h'] = h
            finally:
                _kill(p)
        return out


# --------------------------------------------------------------------------
# running TLC
# --------------------------------------------------------------------------

class TlcResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        self.transitions = int(m[-1][0]) if m else 0
        self.states = int(m[-1][1]) if m else 0
        self.ok = 'No error has been found' in out and rc == 0
        self.sim_ok = rc == 0 and 'Error:' not in out
        self.violated = re.findall(r'(?:Invariant|Temporal property|Action property|Postcondition|property) (\S+) (?:is|was) (?:violated|false)', out)

    def prints(self, tag):
        """The strings printed by PrintT("TAG ...")."""
        res = []
        pre = '"' + tag + ' '
        for line in self.out.splitlines():
            if line.startswith(pre) and line.endswith('"'):
                res.append(json.loads('"' + line[len(pre):-1] + '"') if '\\' in line
                           else line[len(pre):-1])
        return res


def tlc(scratch, module, cfg, env=None, workers=1, timeout=600, heap='2g', extra=()):
    """cfg: text of the configuration.  Returns TlcResult."""
    d = scratch.sub('tlc')
    cfgf = os.path.join(d, 'run.cfg')
    with open(cfgf, 'w') as f:
        f.write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=4', '-Xss64m', '-Xmx' + heap,
           '-Dfile.encoding=UTF-8', '-Djava.io.tmpdir=' + d, '-DTLA-Library=' + SPEC, '-cp', JARS, 'tlc2.TLC',
           '-workers', str(workers), '-metadir', os.path.join(d, 'states'), '-noGenerateSpecTE',
           '-config', cfgf] + list(extra) + [os.path.join(SPEC, module + '.tla')]
    t0 = time.time()
    p = subprocess.Popen(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        _kill(p)
        out, rc = b'TIMEOUT', 99
    shutil.rmtree(os.path.join(d, 'states'), ignore_errors=True)
    text = '\n'.join(x for x in out.decode('utf-8', 'replace').splitlines()
                     if not x.startswith(('Parsing file', 'Semantic processing', 'Linting of')))
    return TlcResult(rc, text, time.time() - t0)


def parallel(jobs, n=None):
    """jobs: list of zero-argument callables; returns results in order."""
    out = [None] * len(jobs)
    err = []
    q = queue.Queue()
    for i in range(len(jobs)):
        q.put(i)

    def loop():
        while True:
            try:
                i = q.get_nowait()
            except queue.Empty:
                return
            try:
                out[i] = jobs[i]()
            except Exception as e:
                err.append(e)
    ts = [threading.Thread(target=loop) for _ in range(min(n or NCPU, max(1, len(jobs))))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if err:
        raise err[0]
    return out


def trace_check(scratch, module, header, records, shards=None, timeout=700, env=None):
    """Validate recorded behaviours against a trace specification.

    The file starts with a header line and has one line per record.  The
    specification consumes one line per step and prints
    <<"FAIL", line, clause>> for every clause that does not hold; acceptance
    (every line consumed) is its POSTCONDITION.  Returns
    (set of (record index, clause), states, transitions, wall)."""
    if not records:
        return {}, 0, 0, 0.0
    k = shards or max(1, min(NCPU, (len(records) + 24) // 25))
    parts = [list(range(i, len(records), k)) for i in range(k)]
    d = scratch.sub('trace')

    def one(ix, part):
        f = os.path.join(d, 't%d.ndjson' % ix)
        with open(f, 'w') as fh:
            fh.write(json.dumps(header, ensure_ascii=True) + '\n')
            for i in part:
                fh.write(json.dumps(records[i], ensure_ascii=True) + '\n')
        cfg = ('INIT TraceInit\nNEXT TraceNext\nCHECK_DEADLOCK FALSE\n'
               'POSTCONDITION TraceAccepted\n')
        e = {'TRACE': f}
        e.update(env or {})
        r = tlc(scratch, module, cfg, env=e, timeout=timeout)
        return part, r

    def judged(ix, part):
        """[(records, result)]; a record whose values TLC cannot evaluate against the specification is searched for"""
        part, r = one(ix, part)
        if r.ok or r.rc == 99 or 'Parsing or semantic analysis failed' in r.out or 'OutOfMemory' in r.out:
            return [(part, r)], []
        good, bad, todo = [], [], part
        while len(todo) > 1:
            half = len(todo) // 2
            _, r1 = one(ix, todo[:half])
            if r1.ok:
                good.append((todo[:half], r1))
                todo = todo[half:]
            else:
                todo = todo[:half]
        _, r1 = one(ix, todo)
        if r1.ok or r1.rc == 99:
            return [(part, r)], []
        return good, [(todo[0], r1)]

    res = parallel([lambda ix=ix, part=part: judged(ix, part) for ix, part in enumerate(parts)])
    fails, states, trans, wall = {}, 0, 0, 0.0
    for _, bad in res:
        for i, r in bad:
            sys.stderr.write('not in the domain of %s: %s\n%s\n' % (module, json.dumps(records[i])[:1500], r.out[-1500:]))
            fails.setdefault(i, set()).add('unreadable')
    res = [x for good, _ in res for x in good]
    for part, r in res:
        if not r.ok:
            raise RuntimeError('TLC failed on %s (rc %s):\n%s' % (module, r.rc, r.out[-3500:]))
        states += r.states
        trans += r.transitions
        wall = max(wall, r.wall)
        for m in re.finditer(r'^<<"FAIL", (\d+), "([^"]*)">>$', r.out, re.M):
            fails.setdefault(part[int(m.group(1)) - 2], set()).add(m.group(2))
    return fails, states, trans, wall


def alphabet(*objs):
    """All characters of all strings in the objects, ascending."""
    chars = set()

    def walk(o):
        if isinstance(o, str):
            chars.update(o)
        elif isinstance(o, dict):
            for k, v in o.items():
                chars.update(k)
                walk(v)
        elif isinstance(o, (list, tuple)):
            for x in o:
                walk(x)
    for o in objs:
        walk(o)
    return ''.join(sorted(chars))


def digest(o):
    return hashlib.sha1(json.dumps(o, sort_keys=True).encode()).hexdigest()[:12]
