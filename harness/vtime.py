"""Virtual time: an eventlet hub whose clock jumps to the next timer, and moves a little with every turn of its loop.

time.time and time.sleep are replaced too, so install() comes before the repository is imported."""
import time
import vcore


class Clock(object):
    def __init__(self):
        self.now = 1000000000.0
        self.tick = 0.01
        self.blocked = 0.0      # time spent in time.sleep, in which no other coroutine can run

    def time(self):
        return self.now

    def sleep(self, seconds):
        self.blocked += seconds
        self.now += seconds


clock = Clock()


def install():
    from eventlet import api, timer
    from eventlet.hubs import hub
    timer._g_debug = False
    time.time, time.sleep = clock.time, clock.sleep

    class Hub(hub.BaseHub):
        def __init__(self):
            hub.BaseHub.__init__(self, clock.time)
            self.turns = 0
            self.raised = []

        def wait(self, seconds=None):
            self.turns += 1
            if seconds:
                clock.now += seconds
            clock.now += clock.tick

        def squelch_timer_exception(self, t, exc_info):
            self.raised.append(exc_info)

        def live(self):
            """timers that will run something"""
            return [x[2] for x in self.timers + self.next_timers if not x[2].called]

    api.use_hub(Hub)
    api._threadlocal.hub = Hub()
    return api._threadlocal.hub


def run(seconds):
    """let the others run for so long"""
    from eventlet import api
    api.sleep(seconds)


def quiet(ctx, hub, what):
    """nothing is left to run, and nothing ended with an exception"""
    if hub.raised:
        typ, e, tb = hub.raised.pop()
        if isinstance(e, (vcore.Violation, vcore.HarnessError)):
            raise e
        ctx.violate('coroutine-raised', '%s: a coroutine ended with %s: %s at %s' % (what, typ.__name__, e, vcore.tb_text(tb)))
    live = hub.live()
    ctx.check(not live, 'left-running', '%s: %s coroutines are still scheduled: %s', what, len(live), [repr(t)[:200] for t in live[:3]])
