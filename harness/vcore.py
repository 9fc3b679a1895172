"""Core of the monitoring harness (runs under Jython 2.7): environment set-up, the check context and verdict classification."""
import sys
import os
import traceback
import random
import hashlib
import logging

REPO = '/repo/'


class Violation(Exception):
    """the observed execution breaks the property. key names the mechanism, never a random value"""

    def __init__(self, key, msg):
        Exception.__init__(self, key, msg)
        self.key = key
        self.msg = msg


class HarnessError(Exception):
    """the harness itself is wrong or cannot decide"""


class Deliberate(Exception):
    """raised by handlers and fakes of the harness on purpose"""


class NullHandler(logging.Handler):
    """formats every record, so that broken log calls are executed, and drops the text"""
    count = 0

    def emit(self, record):
        NullHandler.count += 1
        try:
            record.getMessage()
        except Exception:
            pass


class Null(object):
    softspace = 0

    def write(self, text):
        pass

    def flush(self):
        pass


def boot(greenlets=True, verbose_logs=False):
    """prepare the interpreter so that all of the repository can be imported"""
    if not os.environ.get('VERIF_NOISE'):
        # the code under test prints tracebacks; they are no part of the verdict
        sys.stdout = sys.stderr = Null()
    root = logging.getLogger()
    root.handlers = [NullHandler()]
    root.setLevel(verbose_logs and logging.DEBUG or logging.WARNING)
    if greenlets:
        from eventlet import api

        class Plain(object):
            pass
        # every greenlet of the shim is a thread; the hub belongs to all of them
        if type(api._threadlocal).__name__ != 'Plain':
            api._threadlocal = Plain()


def case_rng(prop, seed, i):
    h = hashlib.md5('%s/%s/%s' % (prop, seed, i)).hexdigest()
    return random.Random(int(h[:15], 16))


class Context(object):
    current = None

    def __init__(self, prop, seed, tier):
        self.prop = prop
        self.seed = seed
        self.tier = tier
        self.counters = {}
        self.keys = set()
        self.samples = []
        self.evaluations = 0
        self.findings = {}      # key -> message, allowed only for listed ones
        self.known = set()
        self.case_no = None
        self.log = []           # what happened in the current case
        Context.current = self
        self.pending = None     # the first violation: the code under test may swallow the exception

    @property
    def thorough(self):
        return self.tier == 'thorough'

    # observation -----------------------------------------------------------
    def count(self, what, n=1):
        self.counters[what] = self.counters.get(what, 0) + n

    def distinct(self, *what):
        """a distinct non-trivial thing was observed"""
        self.keys.add(hashlib.md5(repr(what)).hexdigest()[:12])

    def sample(self, text, limit=3):
        if len(self.samples) < limit:
            text = str(text)
            self.samples.append('case %s: %s' % (self.case_no, text[:600]))

    def note(self, *what):
        """an event of the current case's history, printed with a violation"""
        self.log.append(what)

    # verdicts --------------------------------------------------------------
    def violate(self, key, msg):
        if key in self.known:
            self.findings[key] = msg[:300]
            self.count('known:' + key)
            return
        v = Violation(key, msg)
        if self.pending is None:
            self.pending = v
        raise v

    def check(self, cond, key, msg, *args):
        """one monitor evaluation"""
        self.evaluations += 1
        if not cond:
            try:
                text = msg % tuple(map(short, args)) if args else msg
            except Exception:
                # no message is worth a lost verdict
                text = msg + ' ' + repr(args)[:1000]
            self.violate(key, text)


def guard(fn):
    """for callbacks called from the code under test, which may swallow exceptions: a fault of the harness is not lost"""
    def guarded(*a, **kw):
        try:
            return fn(*a, **kw)
        except (Violation, Deliberate):
            raise
        except Exception, e:
            c = Context.current
            if c.pending is None and blame(sys.exc_info()[2]) != 'repo':
                c.pending = HarnessError('%s: %s at %s' % (exc_name(e), e, tb_text(sys.exc_info()[2])))
            raise
    return guarded


def short(x):
    if isinstance(x, (int, long, float)):
        return x
    r = x if isinstance(x, str) else repr(x)
    if len(r) > 400:
        r = r[:260] + '...(%d)...' % len(r) + r[-100:]
    return r


def hexs(b):
    return b.encode('hex') if b is not None else None


def blame(tb):
    """who raised: 'repo' if the innermost frame belonging to either side is the repository's"""
    who = None
    for fn, line, func, text in traceback.extract_tb(tb):
        if fn is None:
            continue
        if REPO in fn or fn.startswith('pyogp/'):
            who = 'repo'
        elif '/harness/' in fn and '/shim/' not in fn:
            who = 'harness'
    return who


def tb_text(tb, n=6):
    return ' | '.join('%s:%s %s' % (os.path.basename(fn or '?'), line, func)
                      for fn, line, func, text in traceback.extract_tb(tb)[-n:])


def attempt(fn, *args, **kw):
    """('ok', value) or ('exc', exception, traceback). Harness faults and Deliberate ones pass through."""
    try:
        return ('ok', fn(*args, **kw), None)
    except (Violation, HarnessError):
        raise
    except Exception, e:
        return ('exc', e, sys.exc_info()[2])


def exc_name(e):
    return e.__class__.__name__
