"""worker.py PROP SEED TIER SHARD NSHARDS OUT BUDGET_S [ONLY_CASE STEPS]: runs the cases of one shard under the monitors of a check."""
import sys
import os
import time
import threading
import traceback
import json

prop, seed, tier, shard, nshards, out, budget = sys.argv[1:8]
seed, shard, nshards, budget = int(seed), int(shard), int(nshards), float(budget)
only = int(sys.argv[8]) if len(sys.argv) > 8 else None
steps = int(sys.argv[9]) if len(sys.argv) > 9 else None
clock, nap = time.time, time.sleep     # checks may replace those of the module by virtual ones
start = clock()

from java.lang.management import ManagementFactory
from com.sun.management import OperatingSystemMXBean

import vcore
from vcore import Violation, HarnessError, Deliberate, blame, tb_text

progress = {'case': None, 'since': clock()}
HANG_S, HANG_CPU_S, LONG_S = 90, 40, 240
ended = threading.Lock()


def finish(result):
    ended.acquire()     # once: what other threads meet while the machine shuts down is no result
    result['wall_s'] = clock() - start
    result['cpu_s'] = cpu()
    tmp = out + '.tmp'
    f = open(tmp, 'w')
    json.dump(result, f)
    f.close()
    os.rename(tmp, out)
    os._exit(0)


ctx = vcore.Context(prop, seed, tier)
ctx.known = set(filter(None, os.environ.get('VERIF_KNOWN', '').split(',')))


def result(status, **kw):
    d = {'status': status, 'shard': shard, 'evaluations': ctx.evaluations, 'counters': ctx.counters,
         'keys': sorted(ctx.keys), 'samples': ctx.samples, 'findings': ctx.findings}
    d.update(kw)
    return d


def to_text(x):
    try:
        return str(x).decode('latin-1')
    except Exception:
        return unicode(repr(x))


def classify():
    """the exception now being handled, as a result"""
    typ, e, tb = sys.exc_info()
    hist = [to_text(vcore.short(repr(n))) for n in ctx.log[-60:]]
    if isinstance(e, Violation):
        return result('violation', case=progress['case'], key=e.key, message=to_text(e.msg), history=hist)
    where = to_text(tb_text(tb))
    name = getattr(typ, '__name__', str(typ))
    if isinstance(e, HarnessError) or isinstance(e, KeyboardInterrupt):
        return result('error', case=progress['case'], message='%s: %s at %s' % (name, to_text(e), where))
    if blame(tb) == 'repo':
        return result('violation', case=progress['case'], key='unexpected-exception',
                      message=u'%s: %s at %s' % (name, to_text(e), where), history=hist)
    return result('error', case=progress['case'], message=u'%s: %s at %s\n%s' % (name, to_text(e), where,
                  to_text(''.join(traceback.format_tb(tb)))))


def cpu():
    return ManagementFactory.getPlatformMXBean(OperatingSystemMXBean).getProcessCpuTime() / 1e9


def watchdog():
    """nothing has come to an end for long, though it was given processor time, or because it waits for what does not come"""
    since, used = None, 0
    while True:
        nap(2)
        if progress['since'] != since:
            since, used = progress['since'], cpu()
        waited, busy = clock() - since, cpu() - used
        if steps is None:
            if waited > HANG_S and not 3 < busy < HANG_CPU_S or waited > LONG_S:
                finish(result('hang', case=progress['case']))
        elif waited > HANG_S and busy < 3:
            finish(result('violation', case=progress['case'], key='stuck', message='waits for what does not come', history=[]))


class TooManySteps(BaseException):
    pass


def tracer():
    left = [steps]

    def local(frame, event, arg):
        left[0] -= 1
        if left[0] < 0:
            fn = frame.f_code.co_filename
            if vcore.REPO in fn:
                raise TooManySteps('%s:%s' % (os.path.basename(fn), frame.f_code.co_name))
        return local
    return local


try:
    t = threading.Thread(target=watchdog)
    t.setDaemon(True)
    t.start()
    progress['case'] = 'setup'
    mod = __import__('checks.' + prop, {}, {}, ['x'])
    if hasattr(mod, 'setup'):
        mod.setup(ctx)
    n = mod.CASES[tier]
    done = 0
    cases = [only] if only is not None else xrange(shard, n, nshards)
    complete = True
    for i in cases:
        if only is None and clock() - start > budget:
            complete = False
            break
        progress['case'] = i
        progress['since'] = clock()
        ctx.case_no = i
        ctx.log = []
        rng = vcore.case_rng(prop, seed, i)
        if steps is not None:
            tr = tracer()
            threading.settrace(tr)
            sys.settrace(tr)
        try:
            mod.case(ctx, i, rng)
        except TooManySteps, e:
            sys.settrace(None)
            finish(result('violation', case=i, key='endless', message='more than %d steps without an end, last in %s' % (steps, e), history=[]))
        except Exception:
            # what went wrong first says more
            if not isinstance(ctx.pending, Violation):
                raise
        if ctx.pending is not None:
            raise ctx.pending   # raised where the code under test swallows exceptions
        done += 1
    sys.settrace(None)
    if only is None and hasattr(mod, 'teardown'):
        progress['case'] = 'teardown'
        mod.teardown(ctx)
    finish(result('ok', cases=done, complete=complete))
except:
    sys.settrace(None)
    finish(classify())
