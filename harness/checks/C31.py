"""C31: Wait under virtual time, among other coroutines"""
import vcore, vtime

CASES = {'quick': 700, 'thorough': 12000}


def setup(ctx):
    vcore.boot()
    ctx.hub = vtime.install()
    from eventlet import api
    from pyogp.lib.base.helpers import Wait
    ctx.api, ctx.Wait = api, Wait
    import time
    # (Jython takes a method here, but no function)
    time.time = Looked().time


class Looked(object):
    """a loop that looks at the clock without letting the others run ends, too"""
    def time(self):
        vtime.clock.now += 0.0005
        return vtime.clock.now


class Ticker(object):
    """another coroutine"""
    def __init__(self, ctx, period, cost):
        self.ctx, self.period, self.cost = ctx, period, cost
        self.times = []
        self.on = True
        ctx.api.spawn(vcore.guard(self.run))

    def run(self):
        while self.on:
            self.times.append(vtime.clock.now)
            vtime.clock.now += self.cost
            self.ctx.api.sleep(self.period)


class Waiter(object):
    def __init__(self, ctx, n, how, delay):
        self.ctx, self.n, self.how, self.delay = ctx, n, how, delay
        self.begin = self.end = self.result = None
        self.w = None
        self.stopped = None
        self.turns_at_stop = None
        if how != 'constructor':
            self.w = ctx.Wait(0)
        if how != 'main':
            ctx.api.spawn(vcore.guard(self.run))

    def run(self):
        c = self.ctx
        if self.delay:
            c.api.sleep(self.delay)
        self.begin = vtime.clock.now
        self.begin_turns = c.hub.turns
        if self.how == 'constructor':
            self.w = c.Wait(self.n)
            self.result = True
        else:
            self.w.duration = self.n
            self.result = self.w.run()
        self.end = vtime.clock.now
        self.end_turns = c.hub.turns
        c.note('ended', self.n, self.begin, self.end)


def case(ctx, i, rng):
    vtime.clock.tick = tick = rng.choice([0.005, 0.01, 0.05, 0.3])
    # some take days
    long = i % 12 == 7 and rng.choice([61, 3599, 3601, 86399, 86400, 100000, 700000]) or 0
    if long:
        vtime.clock.tick = tick = long / 150.0
        ctx.count('long waits')
    vtime.clock.blocked = 0.0
    tickers = [Ticker(ctx, rng.choice([0, 0.1, 0.25, 1, 3]), rng.choice([0, 0, 0, 0.02, 0.2])) for k in range(rng.choice([1, 2, 4]))]
    ws = []
    for k in range(rng.choice([1, 1, 2, 3])):
        n = rng.choice([0, -1, -3, 1, 1, 2, 3, 5, 10])
        if long and (k == 0 or rng.randrange(2)):
            n = long
        how = rng.choice(['constructor', 'constructor', 'run', 'run', 'run'])
        ws.append(Waiter(ctx, n, how, rng.choice([0, 0, 0.5, 2])))
        ctx.note(how, n)
    main = None
    if rng.randrange(3) == 0:
        main = Waiter(ctx, rng.choice([0, 1, 2, 5]), 'main', 0)
        main.how = rng.choice(['constructor', 'run'])
        ws.append(main)
    for w in ws:
        if w.how == 'run' and w.n > 0 and rng.randrange(2):
            at = rng.choice([0, 0.3, w.n * 0.5, w.n * 0.9]) + w.delay

            def stop(w=w, at=at):
                ctx.api.sleep(at)
                if w.begin is not None and w.end is None:
                    w.w.stop()
                    w.stopped = vtime.clock.now
                    w.turns_at_stop = ctx.hub.turns
                    ctx.note('stop', w.n, vtime.clock.now)
            ctx.api.spawn(vcore.guard(stop))
    if main:
        main.run()
    until = vtime.clock.now + 60 + 3 * long + 20 * tick
    while [w for w in ws if w.end is None] and vtime.clock.now < until:
        ctx.api.sleep(0.5)
    slow = sum([t.cost for t in tickers])
    for w in ws:
        ctx.check(w.end is not None, 'endless', 'a wait of %s seconds has not ended long after that', w.n)
        # one round of the others and of the scheduler; every wait looks at the clock at each of its turns
        slack = 3 * (tick + slow) + 0.0005 * 40
        took = w.end - w.begin
        ctx.check(w.result is True, 'result', 'a wait of %s seconds returns %s', w.n, w.result)
        if w.stopped is not None:
            ctx.check(w.end - w.stopped <= slack and w.end_turns - w.turns_at_stop <= 3, 'stop', 'a wait stopped at %s ends at %s', w.stopped, w.end)
            ctx.count('stopped')
        elif w.n <= 0:
            ctx.check(took <= 0.01 and w.end_turns == w.begin_turns, 'at-once', 'a wait of %s seconds takes %s', w.n, took)
            ctx.count('at once')
        else:
            ctx.check(took >= w.n - 0.01, 'early', 'a wait of %s seconds ends after %s', w.n, took)
            ctx.check(took <= w.n + slack, 'late', 'a wait of %s seconds ends after %s, with turns of %s', w.n, took, tick + slow)
            ctx.count('full')
            # the others went on meanwhile
            for t in tickers:
                want = w.n / (t.period + slack + slow)
                n = len([x for x in t.times if w.begin <= x <= w.end])
                ctx.check(n >= int(want) - 1 and (n > 0 or want < 1.5), 'starved', 'a coroutine that runs every %s seconds ran %s times during a wait of %s', t.period, n, w.n)
                ctx.count('turns of others', n)
            ctx.check(w.end_turns > w.begin_turns, 'starved', 'no other coroutine could run during a wait of %s', w.n)
        ctx.distinct(w.n, w.how, round(took, 1), tick, w.stopped is not None)
    ctx.check(vtime.clock.blocked == 0, 'blocking', 'waiting blocks everything for %s seconds', vtime.clock.blocked)
    # a wait that has ended can be run again, whether it was stopped or not
    for w in ws:
        if w.how == 'run' and rng.randrange(3) == 0:
            b = vtime.clock.now
            w.w.duration = 1
            r = w.w.run()
            took = vtime.clock.now - b
            ctx.check(r is True and 1 - 0.01 <= took <= 1 + slack, 'again', 'a wait of 1 second, run again, returns %s after %s', r, took)
            ctx.count('run again')
    if i % 10 == 4:
        in_loop(ctx, rng)
    for t in tickers:
        t.on = False
    ctx.api.sleep(10)
    vtime.quiet(ctx, ctx.hub, 'after all waits')
    ctx.sample('tick %s: waits %s' % (tick, [(w.n, w.how, round(w.end - w.begin, 2), w.stopped is not None) for w in ws]))


def in_loop(ctx, rng):
    """in the main loop there is no yielding, but the wait ends"""
    n = rng.choice([0, 1, 2])
    done = []

    def callback():
        b = vtime.clock.now
        ctx.Wait(n)
        done.append(vtime.clock.now - b)
    ctx.hub.schedule_call_global(0, vcore.guard(callback))
    ctx.api.sleep(n + 1)
    ctx.check(len(done) == 1 and n - 0.01 <= done[0] <= n + 0.1, 'main-loop', 'a wait of %s seconds in the main loop: %s', n, done)
    ctx.count('in the main loop')
