"""Models of an MPI communicator and of multiprocessing.

Ranks run as threads, one at a time.  Messages are copied when sent (mpi4py pickles them).  All
operations have their strictest blocking semantics: send and the wait of isend return only once
the message was received, collectives synchronise all ranks.  Which runnable rank goes next, which
matching message an any-source receive takes and which producer's item a multiprocessing queue
yields are decisions of the exploration."""
import copy
import multiprocessing as _real_mp
import multiprocessing.sharedctypes  # noqa: F401
import multiprocessing.heap  # noqa: F401
import threading

import numpy as np

from . import snp
from .loader import NS


class Deadlock(Exception):
    pass


class Mismatch(Exception):
    pass


class MpiAbort(Exception):
    pass


class _Killed(BaseException):
    pass


class Sched:
    def __init__(self, n, pick=None, limit=100000):
        self.n = n
        self.pick = pick or (lambda ready: ready[0])
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.main = threading.Semaphore(0)
        self.preds = [None] * n
        self.done = [False] * n
        self.out = [None] * n
        self.exc = None
        self.killed = False
        self.cur = 0
        self.steps = 0
        self.limit = limit

    def wait(self, rank, pred):
        """block until pred(); always a scheduling point"""
        if self.killed:
            raise _Killed()
        self.preds[rank] = pred
        self.main.release()
        self.sems[rank].acquire()
        self.preds[rank] = None
        if self.killed:
            raise _Killed()

    def _body(self, rank, fn):
        self.sems[rank].acquire()
        try:
            if not self.killed:
                with np.errstate(all='ignore'):
                    self.out[rank] = fn(rank)
        except _Killed:
            pass
        except BaseException as e:
            if self.exc is None:
                self.exc = e
        self.done[rank] = True
        self.main.release()

    def run(self, fn):
        old = threading.stack_size(128 << 20)
        ths = [threading.Thread(target=self._body, args=(r, fn), daemon=True) for r in range(self.n)]
        for t in ths:
            t.start()
        threading.stack_size(old)
        try:
            while not all(self.done) and self.exc is None:
                ready = [r for r in range(self.n) if not self.done[r] and
                         (self.preds[r] is None or self.preds[r]())]
                if not ready:
                    raise Deadlock('deadlock: ranks %s wait forever' %
                                   [r for r in range(self.n) if not self.done[r]])
                self.steps += 1
                if self.steps > self.limit:
                    raise Deadlock('step limit')
                r = self.pick(ready)
                self.cur = r
                self.sems[r].release()
                self.main.acquire()
        except BaseException as e:
            if self.exc is None:
                self.exc = e
        finally:
            self.killed = True
            for _ in range(1000):
                live = [r for r in range(self.n) if not self.done[r]]
                if not live:
                    break
                self.sems[live[0]].release()
                self.main.acquire()
            for t in ths:
                t.join(5)
        if self.exc is not None:
            raise self.exc
        return self.out


class _Req:
    def __init__(self, comm, test, get):
        self.comm, self._test, self._get, self._done = comm, test, get, False

    def wait(self, status=None):
        if not self._done:
            self.comm.s.wait(self.comm.wrank, self._test)
            self._done, self.val = True, self._get()
        return self.val

    Wait = wait

    def test(self, status=None):
        if not self._done and self._test():
            self._done, self.val = True, self._get()
        return (self._done, self.val if self._done else None)

    @staticmethod
    def waitall(reqs):
        return [r.wait() for r in reqs]


class _Group:
    def __init__(self, size):
        self.size = size
        self.coll = {}
        self.msgs = []


class Comm:
    ANY_SOURCE = -1
    ANY_TAG = -1

    def __init__(self, sched, group, rank, wrank, choose):
        self.s, self.g, self._rank, self.wrank, self.choose = sched, group, rank, wrank, choose
        self._n = 0
        self.log = []

    rank = property(lambda self: self._rank)
    size = property(lambda self: self.g.size)

    def Get_rank(self):
        return self._rank

    def Get_size(self):
        return self.g.size

    def __deepcopy__(self, memo):
        return self

    def _coll(self, name, root, data):
        k = self._n
        self._n += 1
        c = self.g.coll.setdefault(k, {})
        for r, (nm, rt, _) in c.items():
            if (nm, rt) != (name, root):
                raise Mismatch(f'rank {self._rank} calls {name}(root={root}) while rank {r} calls {nm}(root={rt})')
        c[self._rank] = (name, root, copy.deepcopy(data))
        self.s.wait(self.wrank, lambda: len(c) == self.g.size)
        return [c[r][2] for r in range(self.g.size)]

    def barrier(self):
        self._coll('barrier', 0, None)

    Barrier = barrier

    def bcast(self, obj=None, root=0):
        d = self._coll('bcast', root, obj if self._rank == root else None)
        return obj if self._rank == root else copy.deepcopy(d[root])

    def gather(self, obj, root=0):
        d = self._coll('gather', root, obj)
        return copy.deepcopy(d) if self._rank == root else None

    def allgather(self, obj):
        return copy.deepcopy(self._coll('allgather', 0, obj))

    def scatter(self, objs=None, root=0):
        if self._rank == root and len(objs) != self.g.size:
            raise ValueError('expecting %d items, got %d' % (self.g.size, len(objs)))
        d = self._coll('scatter', root, objs if self._rank == root else None)
        return copy.deepcopy(d[root][self._rank])

    def alltoall(self, objs):
        d = self._coll('alltoall', 0, objs)
        return copy.deepcopy([x[self._rank] for x in d])

    def allreduce(self, obj, op=None):
        d = copy.deepcopy(self._coll('allreduce', 0, obj))
        r = d[0]
        for x in d[1:]:
            r = r + x if op is None else op(r, x)
        return r

    def reduce(self, obj, op=None, root=0):
        d = copy.deepcopy(self._coll('reduce', root, obj))
        if self._rank != root:
            return None
        r = d[0]
        for x in d[1:]:
            r = r + x if op is None else op(r, x)
        return r

    def _post(self, obj, dest, tag):
        if not 0 <= dest < self.g.size:
            raise ValueError('invalid rank')
        m = dict(src=self._rank, dst=dest, tag=tag, data=copy.deepcopy(obj), taken=False)
        self.g.msgs.append(m)
        return m

    def _match(self, source, tag):
        seen, out = set(), []
        for m in self.g.msgs:
            if m['dst'] != self._rank or m['taken'] or (source >= 0 and m['src'] != source) or \
                    (tag >= 0 and m['tag'] != tag) or m['src'] in seen:
                continue
            seen.add(m['src'])
            out.append(m)
        return out

    def _take(self, source, tag):
        ms = self._match(source, tag)
        m = ms[0] if len(ms) == 1 else ms[self.choose(len(ms))]
        m['taken'] = True
        self.g.msgs.remove(m)
        return m['data']

    def send(self, obj, dest, tag=0):
        m = self._post(obj, dest, tag)
        self.s.wait(self.wrank, lambda: m['taken'])

    ssend = send

    def isend(self, obj, dest, tag=0):
        m = self._post(obj, dest, tag)
        return _Req(self, lambda: m['taken'], lambda: None)

    def recv(self, buf=None, source=-1, tag=-1, status=None):
        self.s.wait(self.wrank, lambda: bool(self._match(source, tag)))
        return self._take(source, tag)

    def irecv(self, buf=None, source=-1, tag=-1):
        return _Req(self, lambda: bool(self._match(source, tag)), lambda: self._take(source, tag))

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=-1, recvtag=-1, status=None):
        m = self._post(sendobj, dest, sendtag)
        r = self.recv(source=source, tag=recvtag)
        self.s.wait(self.wrank, lambda: m['taken'])
        return r

    def Split(self, color=0, key=0):
        d = self._coll('split', 0, (color, key, self._rank))
        mine = sorted((k, r) for c, k, r in d if c == color)
        k = self._n
        groups = self.g.coll[k - 1].setdefault('groups', {}) if False else self.g.__dict__.setdefault('split', {})
        g = groups.setdefault((k, color), _Group(len(mine)))
        return Comm(self.s, g, [r for _, r in mine].index(self._rank), self.wrank, self.choose)

    def Abort(self, errorcode=0):
        raise MpiAbort('MPI Abort called on rank %d' % self._rank)


def run_ranks(ctx, n, fn, sched='order', name='s'):
    """fn(comm) on every rank -> list of return values.
    sched: 'order' = one arbitrary static priority order of the ranks; 'free' = an arbitrary choice
    at every step; 'fixed' = lowest rank first."""
    cnt = [0]

    def choose(k):
        cnt[0] += 1
        return ctx.choice(f'{name}_pick{cnt[0]}', k)
    if sched == 'order':
        left, prio = list(range(n)), []
        for i in range(n - 1):
            prio.append(left.pop(ctx.choice(f'{name}_prio{i}', len(left))))
        prio += left
        pick = lambda ready: min(ready, key=prio.index)
    elif sched == 'free':
        pick = lambda ready: ready[0] if len(ready) == 1 else ready[choose(len(ready))]
    else:
        pick = None
    s = Sched(n, pick)
    g = _Group(n)
    comms = [Comm(s, g, r, r, choose) for r in range(n)]
    return s.run(lambda r: fn(comms[r]))


# ---------------------------------------------------------------- multiprocessing

class _Queue:
    def __init__(self, mp):
        self.mp = mp
        self.items = []

    def __deepcopy__(self, memo):
        return self

    def put(self, x, block=True, timeout=None):
        self.items.append((self.mp.current, copy.deepcopy(x)))

    put_nowait = put

    def _heads(self):
        seen, out = set(), []
        for k, (p, x) in enumerate(self.items):
            if p not in seen:
                seen.add(p)
                # equal plain items: which one is taken first cannot matter
                if not (isinstance(x, (int, str)) and any(self.items[o][1] is x or (
                        type(self.items[o][1]) is type(x) and self.items[o][1] == x) for o in out)):
                    out.append(k)
        return out

    def get(self, block=True, timeout=None):
        h = self._heads()
        if not h:
            raise Deadlock('deadlock: waiting for a queue item that no process will put')
        k = h[0] if len(h) == 1 or not self.mp.reorder else h[self.mp.choose(len(h))]
        return self.items.pop(k)[1]

    def empty(self):
        return not self.items

    def qsize(self):
        return len(self.items)

    def close(self):
        pass

    join_thread = cancel_join_thread = close


class _Proc:
    def __init__(self, mp, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.mp, self.target, self.args, self.kw = mp, target, args, kwargs or {}
        self.exitcode = None
        self.daemon = daemon
        self.pid = None

    def start(self):
        self.mp.nproc += 1
        self.pid = self.mp.nproc
        a, k = copy.deepcopy((self.args, self.kw))
        old, self.mp.current = self.mp.current, self.pid
        try:
            self.target(*a, **k)
            self.exitcode = 0
        finally:
            self.mp.current = old

    def join(self, timeout=None):
        pass

    def is_alive(self):
        return False

    def terminate(self):
        pass

    kill = close = terminate


def fake_mp(ctx, ncpu=8, reorder=True):
    """the multiprocessing module: children run on a copy of their arguments"""
    m = NS('multiprocessing', _real_mp)
    m.current, m.nproc, m.reorder = 0, 0, reorder
    n = [0]

    def choose(k):
        n[0] += 1
        return ctx.choice(f'mp_pick{n[0]}', k)
    m.choose = choose
    m.Queue = m.SimpleQueue = m.JoinableQueue = lambda *a: _Queue(m)
    m.Process = lambda group=None, target=None, name=None, args=(), kwargs=None, daemon=None: \
        _Proc(m, target, name, args, kwargs, daemon)
    m.cpu_count = lambda: ncpu
    m.get_context = lambda *a: m
    m.__path__ = _real_mp.__path__
    if ctx.symbolic:
        def RawArray(typecode, init):
            if isinstance(init, (int, np.integer)):
                init = np.zeros(int(init))
            a = snp.to_sarr(init).copy().astype(np.dtype(typecode))
            snp.SHARED[id(a)] = a
            return a
        m.RawArray = RawArray
        m.Array = lambda typecode, init, lock=True: RawArray(typecode, init)
    ctx.shim('multiprocessing', m)
    return m
