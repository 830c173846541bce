"""Deterministic schedules for the worker pool.

multiprocessing.Manager is replaced (before nephosem is imported) by a
dispatcher: without a plan it is the real thing; with a plan its queues live
in a server thread of the main process, which hands each job to the worker the
plan names and each end marker in the planned order of exit.  The workers are
still real forked processes.  Code that uses other primitives just runs
uncontrolled; a plan that cannot be followed is abandoned after a short wait
(some worker is served), never enforced."""
import multiprocessing
import os
import pickle
import select
import socket
import struct
import threading
import time
from collections import deque
from queue import Empty

_real_manager = multiprocessing.Manager
PLAN = None          # {"assign": [worker...], "exit": [worker...]} or None
LAST = None          # the server of the last planned run


def _recv(sock, n):
    buf = b''
    while len(buf) < n:
        b = sock.recv(n - len(buf))
        if not b:
            raise EOFError
        buf += b
    return buf


_conns = {}


class PlannedQueue(object):
    def __init__(self, path, qid):
        self.path, self.qid = path, qid

    def _call(self, op, payload=None, block=True, timeout=None):
        key = (os.getpid(), threading.get_ident(), self.path)
        s = _conns.get(key)
        if s is None:
            s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
            s.connect(self.path)
            _conns[key] = s
            self._send(s, ('hello', os.getpid(), multiprocessing.current_process()._identity))
        self._send(s, (op, self.qid, payload, block, timeout))
        n = struct.unpack('>Q', _recv(s, 8))[0]
        ok, val = pickle.loads(_recv(s, n))
        if not ok:
            raise Empty()
        return val

    @staticmethod
    def _send(s, obj):
        b = pickle.dumps(obj)
        s.sendall(struct.pack('>Q', len(b)) + b)

    def put(self, obj, block=True, timeout=None):
        self._call('put', pickle.dumps(obj))

    def put_nowait(self, obj):
        self.put(obj)

    def get(self, block=True, timeout=None):
        return pickle.loads(self._call('get', None, block, timeout))

    def get_nowait(self):
        return self.get(False)

    def qsize(self):
        return self._call('size')

    def empty(self):
        return self.qsize() == 0

    def full(self):
        return False

    def task_done(self):
        pass

    def join(self):
        pass


class Server(threading.Thread):
    PATIENCE = 1.5

    def __init__(self, plan, path, base):
        super(Server, self).__init__(daemon=True)
        self.plan, self.path, self.base = plan, path, base
        self.nq = 0
        self.queues = {}
        self.lsock = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.lsock.bind(path)
        self.lsock.listen(64)
        self.events = []
        self.honoured = True
        self.stopped = False
        self.start()

    def Queue(self, *a, **k):
        self.nq += 1
        self.queues[self.nq] = deque()
        return PlannedQueue(self.path, self.nq)

    def run(self):
        conns, bufs, ident, waiting = {}, {}, {}, []
        granted = {}            # jobs granted so far, per queue
        ends = 0
        exited, ending = set(), []
        last_progress = time.time()
        me = os.getpid()

        def reply(c, val, ok=True):
            b = pickle.dumps((ok, val))
            try:
                c.sendall(struct.pack('>Q', len(b)) + b)
            except OSError:
                pass

        def rank(c):
            pid, idn = ident.get(c, (me, ()))
            if pid == me or not idn:
                return None
            return idn[-1] - self.base - 1

        while not self.stopped:
            rl, _, _ = select.select([self.lsock] + list(conns), [], [], 0.05)
            for s in rl:
                if s is self.lsock:
                    c, _ = s.accept()
                    conns[c] = True
                    bufs[c] = b''
                    continue
                try:
                    data = s.recv(1 << 16)
                except OSError:
                    data = b''
                if not data:
                    r = rank(s)
                    if r is not None:
                        exited.add(r)
                        self.events.append(('exit', r))
                    conns.pop(s)
                    waiting = [w for w in waiting if w[0] is not s]
                    s.close()
                    last_progress = time.time()
                    continue
                bufs[s] += data
                while len(bufs[s]) >= 8:
                    n = struct.unpack('>Q', bufs[s][:8])[0]
                    if len(bufs[s]) < 8 + n:
                        break
                    msg = pickle.loads(bufs[s][8:8 + n])
                    bufs[s] = bufs[s][8 + n:]
                    last_progress = time.time()
                    if msg[0] == 'hello':
                        ident[s] = (msg[1], msg[2])
                    elif msg[0] == 'put':
                        self.queues[msg[1]].append(msg[2])
                        reply(s, None)
                    elif msg[0] == 'size':
                        reply(s, len(self.queues[msg[1]]))
                    elif msg[0] == 'get':
                        dl = None if msg[4] is None else time.time() + msg[4]
                        if not msg[3]:
                            dl = time.time()
                        waiting.append((s, msg[1], dl))
            # serve what can be served
            again = True
            while again:
                again = False
                for w in list(waiting):
                    s, q, dl = w
                    dq = self.queues[q]
                    r = rank(s)
                    if not dq:
                        if dl is not None and time.time() >= dl:
                            waiting.remove(w)
                            reply(s, None, ok=False)
                            again = True
                        continue
                    late = time.time() - last_progress > self.PATIENCE
                    if r is not None and self.plan:
                        isend = pickle.loads(dq[0]) is None
                        if not isend:
                            k = granted.get(q, 0)
                            want = self.plan['assign'][k] if k < len(self.plan['assign']) else r
                        else:
                            want = self.plan['exit'][ends] if ends < len(self.plan['exit']) else r
                            prev = ending[-1] if ending else None
                            if prev is not None and prev not in exited and not late:
                                continue
                        if want != r:
                            if not late:
                                continue
                            self.honoured = False
                        if isend:
                            ends += 1
                            ending.append(r)
                            self.events.append(('end', r))
                        else:
                            self.events.append(('take', r, granted.get(q, 0)))
                            granted[q] = granted.get(q, 0) + 1
                    waiting.remove(w)
                    reply(s, dq.popleft())
                    last_progress = time.time()
                    again = True
                    break
        for c in conns:
            c.close()
        self.lsock.close()

    def start(self):
        if not self._started.is_set():
            super(Server, self).start()

    def shutdown(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def __getattr__(self, name):       # anything else: the real manager
        if name.startswith('_'):
            raise AttributeError(name)
        if 'real' not in self.__dict__:
            self.__dict__['real'] = _real_manager()
        return getattr(self.__dict__['real'], name)


_count = [0]


def Manager(*a, **k):
    global LAST
    if PLAN is None:
        return _real_manager(*a, **k)
    probe = multiprocessing.Process()          # numbering of the next workers
    _count[0] += 1
    path = os.path.join(os.environ.get('VERIF_SCRATCH', '/tmp'), 'q%d-%d' % (os.getpid(), _count[0]))
    LAST = Server(PLAN, path, probe._identity[-1])
    return LAST


# ---- pools: which process runs which task, in the order of the tasks ----
_real_pool = multiprocessing.Pool
POOL = None          # None: the real pool; else the worker of each task
CPUS = 16            # the number of CPUs only bounds the worker count


class _Res(object):
    def __init__(self, pool, callback=None, error_callback=None):
        self.pool, self.done, self.ok, self.val = pool, False, None, None
        self.callback, self.error_callback = callback, error_callback

    def _set(self, ok, val):
        self.done, self.ok, self.val = True, ok, val
        cb = self.callback if ok else self.error_callback
        if cb is not None:
            cb(val)

    def wait(self, timeout=None):
        self.pool._flush()

    def get(self, timeout=None):
        self.wait()
        if not self.ok:
            raise self.val
        return self.val

    def ready(self):
        self.wait()
        return self.done

    def successful(self):
        return bool(self.ok)


class _Many(object):
    def __init__(self, parts, callback=None):
        self.parts, self.callback = parts, callback

    def wait(self, timeout=None):
        for p in self.parts:
            p.wait()

    def get(self, timeout=None):
        v = [p.get() for p in self.parts]
        if self.callback is not None:
            self.callback(v)
        return v

    def ready(self):
        return all([p.ready() for p in self.parts])

    def successful(self):
        return all(p.ok for p in self.parts)


class PlannedPool(object):
    """Tasks run one after another; each in the (forked, long-lived) process
    that the plan names."""

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        self.n = processes or CPUS
        if self.n < 1:
            raise ValueError('Number of processes must be at least 1')
        self.init, self.initargs = initializer, initargs
        self.plan = list(POOL)
        self.tasks, self.given, self.procs = [], 0, {}

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        r = _Res(self, callback, error_callback)
        pickle.dumps((func, args, kwds))           # like the real one
        self.tasks.append((func, tuple(args), dict(kwds), r))
        return r

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return _Many([self.apply_async(func, a) for a in iterable], callback)

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return _Many([self.apply_async(func, (a,)) for a in iterable], callback)

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable).get()

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable).get()

    def imap(self, func, iterable, chunksize=1):
        return iter(self.map(func, iterable))

    imap_unordered = imap

    def _flush(self):
        tasks, self.tasks = self.tasks, []
        for func, args, kwds, r in tasks:
            w = self.plan[self.given % len(self.plan)] % self.n
            self.given += 1
            if w not in self.procs:
                a, b = socket.socketpair()
                p = multiprocessing.get_context('fork').Process(target=self._serve, args=(a, b))
                p.start()
                b.close()
                self.procs[w] = (p, a)
            p, a = self.procs[w]
            PlannedQueue._send(a, (func, args, kwds))
            try:
                n = struct.unpack('>Q', _recv(a, 8))[0]
                ok, val = pickle.loads(_recv(a, n))
            except EOFError:
                raise RuntimeError('a process of the pool died')
            r._set(ok, val)

    def _serve(self, a, b):
        a.close()
        if self.init is not None:
            self.init(*self.initargs)
        while True:
            try:
                n = struct.unpack('>Q', _recv(b, 8))[0]
            except EOFError:
                os._exit(0)
            job = pickle.loads(_recv(b, n))
            if job is None:
                os._exit(0)
            func, args, kwds = job
            try:
                out = (True, func(*args, **kwds))
            except Exception as e:
                out = (False, e)
            PlannedQueue._send(b, out)

    def close(self):
        pass

    def join(self):
        self._flush()
        self.terminate()

    def terminate(self):
        for p, a in self.procs.values():
            PlannedQueue._send(a, None)        # (later processes hold copies of a)
            a.close()
            p.join()
        self.procs = {}

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


def Pool(*a, **k):
    return _real_pool(*a, **k) if POOL is None else PlannedPool(*a, **k)


class pooled(object):
    def __init__(self, cpus, plan=None):
        self.new = (cpus, plan)

    def __enter__(self):
        global CPUS, POOL
        self.old = (CPUS, POOL)
        CPUS, POOL = self.new

    def __exit__(self, *a):
        global CPUS, POOL
        CPUS, POOL = self.old


def install():
    multiprocessing.Manager = Manager
    multiprocessing.Pool = Pool
    os.cpu_count = lambda: CPUS


class planned(object):
    def __init__(self, plan):
        self.plan = plan

    def __enter__(self):
        global PLAN, LAST
        PLAN, LAST = self.plan, None
        return self

    def __exit__(self, *a):
        global PLAN
        PLAN = None
        self.events, self.honoured = [], False
        if LAST is not None:
            LAST.stopped = True
            LAST.join(2)
            self.events, self.honoured = list(LAST.events), LAST.honoured
        for k in [k for k in _conns if k[0] == os.getpid()]:
            _conns.pop(k).close()
