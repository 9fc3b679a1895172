"""greenlet for Jython: the C extension does not exist there, so each greenlet is a JVM thread and control is handed
over explicitly. Exactly one thread is ever runnable (the others are parked on their own lock), so the cooperative
semantics eventlet relies on (no preemption between switches) are kept.

Only what eventlet 0.8.16 uses is provided: switch, throw, parent, dead, getcurrent, GreenletExit."""
import sys
import threading
from java.util.concurrent import Semaphore

_tls = threading.local()


class GreenletExit(BaseException):
    pass


class error(Exception):
    pass


class greenlet(object):
    getcurrent = staticmethod(lambda: getcurrent())
    GreenletExit = GreenletExit
    error = error

    def __init__(self, run=None, parent=None):
        if run is not None:
            self.run = run
        self._parent = parent if parent is not None else getcurrent()
        self._sem = Semaphore(0)
        self._started = False
        self.dead = False
        self._inbox = None

    # parent -------------------------------------------------------------
    def _get_parent(self):
        return self._parent

    def _set_parent(self, new):
        p = new
        while p is not None:
            if p is self:
                raise ValueError("cyclic parent chain")
            p = p._parent
        self._parent = new

    parent = property(_get_parent, _set_parent)

    def __nonzero__(self):
        return self._started and not self.dead

    # control ------------------------------------------------------------
    def _target(self):
        t = self
        while t.dead:
            t = t._parent
        return t

    def switch(self, *args, **kwargs):
        if args and kwargs:
            v = (args, kwargs)
        elif kwargs:
            v = kwargs
        elif len(args) == 1:
            v = args[0]
        else:
            v = args
        if self.dead:
            return self._target()._enter(('value', v), args, kwargs)
        return self._enter(('value', v), args, kwargs)

    def throw(self, typ=None, val=None, tb=None):
        if typ is None:
            typ = GreenletExit
        if isinstance(typ, BaseException):
            exc = typ
        elif val is None:
            exc = typ()
        elif isinstance(val, BaseException):
            exc = val
        else:
            exc = typ(val)
        t = self
        if t.dead or not t._started:
            t.dead = True
            if isinstance(exc, GreenletExit):
                return t._target()._enter(('value', exc), (exc,), {})
            return t._target()._enter(('exc', exc), (), {})
        return t._enter(('exc', exc), (), {})

    def _enter(self, item, args, kwargs):
        me = getcurrent()
        if self is me:
            return me._deliver(item)
        self._inbox = item
        if not self._started:
            self._started = True
            th = threading.Thread(target=self._bootstrap, args=(args, kwargs))
            th.setDaemon(True)
            th.start()
        else:
            self._sem.release()
        me._sem.acquire()
        item, me._inbox = me._inbox, None
        return me._deliver(item)

    def _deliver(self, item):
        kind, v = item
        if kind == 'exc':
            raise v
        return v

    def _bootstrap(self, args, kwargs):
        _tls.current = self
        self._inbox = None
        try:
            out = ('value', self.run(*args, **kwargs))
        except GreenletExit, e:
            out = ('value', e)
        except BaseException, e:
            out = ('exc', e)
        self.dead = True
        t = self._parent._target()
        t._inbox = out
        t._sem.release()


def getcurrent():
    cur = getattr(_tls, 'current', None)
    if cur is None:
        cur = greenlet.__new__(greenlet)
        cur._parent = None
        cur._sem = Semaphore(0)
        cur._started = True
        cur.dead = False
        cur._inbox = None
        _tls.current = cur
    return cur
