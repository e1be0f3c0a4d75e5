"""
Environment of the code under test: a worker pool whose schedule is chosen by the harness, and sqlite3
connections with a gate before and after every statement.

Import this module before hyperreal.
"""
import concurrent.futures as cf
import concurrent.futures._base as _base
import contextlib
import multiprocessing as mp
import os
import pickle
import random
import sqlite3
import sys

sys.dont_write_bytecode = True
# The code under test; a scratch copy only while developing the checks (tools/bug.py).
REPO = os.environ.get("VERIF_DEV_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

_real_connect = sqlite3.connect
_real_wait = _base.wait
_real_as_completed = _base.as_completed


# ---------------------------------------------------------------------------------------------------
# worker pool
# ---------------------------------------------------------------------------------------------------
class SimFuture(cf.Future):
    def __init__(self, pool):
        super().__init__()
        self._sim_pool = pool

    def result(self, timeout=None):
        self._sim_pool.drive(lambda: cf.Future.done(self))
        return super().result(0)

    def exception(self, timeout=None):
        self._sim_pool.drive(lambda: cf.Future.done(self))
        return super().exception(0)

    def done(self):
        # polling makes progress
        if not super().done():
            self._sim_pool.step()
        return super().done()


import threading


class _Worker(threading.local):
    depth = 0


IN_WORKER = _Worker()


def _interrupt():
    raise KeyboardInterrupt()


class TaskFailure(RuntimeError):
    pass


class SimPool(cf.Executor):
    """
    Tasks are pickled like for a process pool, started in submission order with at most `workers`
    running, and complete in an order picked by `choose(n)` (an index among the running ones).

    early: probability that a submission lets some running task finish.
    fail_task: number of the task (counting from 1) which fails.
    """

    def __init__(self, workers=2, rng=None, early=0.3, order=None, fail_task=None, fail_exc=TaskFailure,
                 script=None):
        self._max_workers = workers
        # a schedule of IndexRun.tla: ["S", n], ["C", n], ["F", n], ...
        self.script = [x for x in script if x[0] in "SCF"] if script is not None else None
        self.rng = rng
        self.early = early
        self.order = order          # explicit list of choices, used first
        self.queue = []
        self.count = 0
        self.started = 0
        self.fail_task = fail_task
        self.fail_exc = fail_exc
        self.log = []               # completion order (task numbers)
        self.on_task = None
        self.on_submit = None       # number of the submission which is disturbed
        self.submit_exc = _interrupt
        self.on_drain = None        # called when everything has been submitted and results are awaited
        self.dead = False

    def submit(self, fn, /, *args, **kwargs):
        if self.dead:
            raise cf.process.BrokenProcessPool("pool is broken")
        f = SimFuture(self)
        self.count += 1
        if self.on_submit == self.count:
            self.submit_exc()
        payload = pickle.dumps((fn, args, kwargs))
        self.queue.append((self.count, f, payload))
        if self.script is not None:
            s = self.script
            while s and s[0][0] != "S":
                s.pop(0)
            if s:
                s.pop(0)
            while s and s[0][0] != "S" and any(x[0] == "S" for x in s) and self.queue:
                self.step()
        elif self.rng is not None:
            while self.queue and self.rng.random() < self.early:
                self.step()
        return f

    def step(self):
        self.queue = [q for q in self.queue if not q[1].cancelled()]
        if not self.queue:
            return False
        n = min(len(self.queue), self._max_workers)
        failing = False
        if self.script and self.script[0][0] != "S":
            kind, want = self.script.pop(0)[:2]
            failing = kind == "F"
            i = next((j for j, q in enumerate(self.queue[:n]) if q[0] == want), 0)
        elif self.order:
            i = self.order.pop(0) % n
        elif self.rng is not None:
            i = self.rng.randrange(n)
        else:
            i = 0
        num, f, payload = self.queue.pop(i)
        self.log.append(num)
        if not f.set_running_or_notify_cancel():
            return True
        if self.on_task:
            self.on_task(num)
        IN_WORKER.depth += 1
        try:
            if self.fail_task == num or failing:
                raise self.fail_exc("injected task failure")
            fn, args, kwargs = pickle.loads(payload)
            res = fn(*args, **kwargs)
            res = pickle.loads(pickle.dumps(res))
        except Exception as e:
            f.set_exception(e)
        else:
            f.set_result(res)
        finally:
            IN_WORKER.depth -= 1
        return True

    def drive(self, cond):
        if self.on_drain is not None and not cond() and not (self.script and any(x[0] == "S" for x in self.script)):
            act, self.on_drain = self.on_drain, None
            act()
        while not cond():
            if not self.step():
                raise RuntimeError("waiting for a task that was never submitted or can never finish")

    def shutdown(self, wait=True, *, cancel_futures=False):
        if cancel_futures:
            for _, f, _ in self.queue:
                f.cancel()
        elif wait:
            while self.step():
                pass


def _is_sim(fs):
    return bool(fs) and all(isinstance(f, SimFuture) for f in fs)


def sim_wait(fs, timeout=None, return_when=_base.ALL_COMPLETED):
    fs = set(fs)
    if not _is_sim(fs):
        return _real_wait(fs, timeout, return_when)
    pool = next(iter(fs))._sim_pool
    isdone = cf.Future.done

    def cond():
        done = [f for f in fs if isdone(f)]
        if return_when == _base.FIRST_COMPLETED:
            return bool(done)
        if return_when == _base.FIRST_EXCEPTION and any(
                not f.cancelled() and cf.Future.exception(f, 0) for f in done):
            return True
        return len(done) == len(fs)

    pool.drive(cond)
    done = {f for f in fs if isdone(f)}
    return _base.DoneAndNotDoneFutures(done, fs - done)


def sim_as_completed(fs, timeout=None):
    fs = list(dict.fromkeys(fs))
    if not _is_sim(fs):
        yield from _real_as_completed(fs, timeout)
        return
    pool = fs[0]._sim_pool
    isdone = cf.Future.done
    pending = list(fs)
    if pool.rng is not None:
        pool.rng.shuffle(pending)
    while pending:
        done = [f for f in pending if isdone(f)]
        if not done:
            pool.drive(lambda: any(isdone(f) for f in pending))
            continue
        f = done[0]
        pending.remove(f)
        yield f


for _m in (cf, _base):
    _m.wait = sim_wait
    _m.as_completed = sim_as_completed


class FakeLock:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def acquire(self, *a, **k):
        return True

    def release(self):
        pass


class FakeManager:
    def Lock(self):
        return FakeLock()

    RLock = Lock

    def shutdown(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


_real_manager = mp.Manager


def use_fake_manager(on=True):
    """Simulated tasks run one at a time in this process, so the lock server process is not needed."""
    mp.Manager = FakeManager if on else _real_manager


# ---------------------------------------------------------------------------------------------------
# database gate
# ---------------------------------------------------------------------------------------------------
class Gate:
    """Override before/after; installed with `gated`."""

    def before(self, conn, sql):
        pass

    def after(self, conn, sql):
        pass

    def row(self, conn, sql, n):
        pass


_gate = None


@contextlib.contextmanager
def gated(g):
    global _gate
    old, _gate = _gate, g
    try:
        yield g
    finally:
        _gate = old


class GateCursor(sqlite3.Cursor):
    def execute(self, sql, *a):
        g = _gate
        if g is None:
            return super().execute(sql, *a)
        g.before(self.connection, sql)
        r = super().execute(sql, *a)
        g.after(self.connection, sql)
        return r

    def executemany(self, sql, params, *a):
        g = _gate
        if g is None:
            return super().executemany(sql, params, *a)
        g.before(self.connection, sql)
        conn = self.connection

        def rows():
            for i, p in enumerate(params):
                g.row(conn, sql, i)
                yield p

        r = super().executemany(sql, rows(), *a)
        g.after(self.connection, sql)
        return r

    def executescript(self, sql):
        g = _gate
        if g is None:
            return super().executescript(sql)
        g.before(self.connection, sql)
        r = super().executescript(sql)
        g.after(self.connection, sql)
        return r


class GateConnection(sqlite3.Connection):
    sim_path = None

    def cursor(self, factory=GateCursor):
        return super().cursor(factory)

    def execute(self, *a):
        return self.cursor().execute(*a)

    def executemany(self, *a):
        return self.cursor().executemany(*a)

    def executescript(self, *a):
        return self.cursor().executescript(*a)

    def commit(self):
        if _gate is None:
            return super().commit()
        _gate.before(self, "commit")
        r = super().commit()
        _gate.after(self, "commit")
        return r


BUSY_TIMEOUT = None


def connect(database, *a, **kw):
    kw.setdefault("factory", GateConnection)
    if BUSY_TIMEOUT is not None:
        kw["timeout"] = BUSY_TIMEOUT
    c = _real_connect(database, *a, **kw)
    c.sim_path = database
    c.sim_worker = IN_WORKER.depth > 0
    return c


sqlite3.connect = connect


def raw_connect(path, **kw):
    return _real_connect(path, **kw)


use_fake_manager(True)

import logging
import warnings

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")

import hyperreal  # noqa
from hyperreal import corpus, db_utilities, index, utilities, _index_schema  # noqa
from pyroaring import BitMap, FrozenBitMap  # noqa

assert os.path.dirname(os.path.dirname(os.path.abspath(index.__file__))) == REPO, index.__file__
