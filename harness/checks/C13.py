"""C13: an Event under random histories of re-entrant handlers, against a list"""
import vcore

CASES = {'quick': 8000, 'thorough': 150000}


def setup(ctx):
    vcore.boot()
    from pyogp.lib.base.events import Event
    ctx.Event = Event


class Boom(vcore.Deliberate):
    pass


class Handlers(object):
    """the handlers of a case; what they do when called is decided beforehand"""

    def __init__(self, world):
        self.world = world
        self.list = []
        for k in range(5):
            self.list.append(self.make(k))

    def make(self, k):
        w = self.world

        class Callable(object):
            def __call__(self, *a, **kw):
                w.called(k, a, kw)

            def method(self, *a, **kw):
                w.called(k, a, kw)

            def __repr__(self):
                return 'handler%d' % k

        if k % 3 == 0:
            return lambda *a, **kw: w.called(k, a, kw)
        if k % 3 == 1:
            return Callable()
        return Callable().method


class World(object):
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.event = ctx.Event()
        self.h = Handlers(self).list
        self.model = [()]       # the possible subscriber lists: tuples of (handler number, args, sorted kwargs)
        self.stack = []         # observations of the notifications in progress
        self.depth = 0
        self.ops = 0
        self.tok = 0

    def entry(self):
        rng = self.rng
        a = rng.choice([(), (), (1,), (1, 'b'), ([1],)])
        kw = rng.choice([{}, {}, {'x': 1}, {'x': 1, 'y': None}])
        return rng.randrange(5), a, kw

    def subscribe(self, n=None):
        k, a, kw = self.entry()
        if n is not None:
            a = (n,)    # so that which of them goes is never in doubt
        self.ctx.note('subscribe', k, a, kw, 'depth', self.depth)
        f = self.rng.randrange(3)
        if f == 0 and not a and not kw:
            self.event += self.h[k]
        else:
            self.event.subscribe(self.h[k], *a, **kw)
        e = (k, a, tuple(sorted(kw.items())))
        self.model = [m + (repr(e),) for m in self.model]
        self.ctx.count('subscribe')

    def unsubscribe(self):
        k, a, kw = self.entry()
        some = self.model[0]
        if some and self.rng.randrange(3):
            k, a, kw = eval(self.rng.choice(some))
            kw = dict(kw)
        self.ctx.note('unsubscribe', k, a, kw, 'depth', self.depth)
        e = repr((k, a, tuple(sorted(kw.items()))))
        r = vcore.attempt(lambda: self.event.unsubscribe(self.h[k], *a, **kw))
        known = e in some
        if known:
            self.ctx.check(r[0] == 'ok', 'unsubscribe', 'unsubscribing raises %s', r[1])
            new = set()
            for m in self.model:
                for j in range(len(m)):
                    if m[j] == e:
                        new.add(m[:j] + m[j + 1:])
            self.model = sorted(new)[:64]
            self.ctx.count('unsubscribe')
        else:
            self.ctx.check(r[0] == 'exc' and isinstance(r[1], ValueError), 'unknown', 'unsubscribing an unknown handler gives %s', r[1])
            self.ctx.count('unsubscribe unknown')
        self.count()

    def clear(self):
        self.ctx.note('clear', 'depth', self.depth)
        self.event.clearSubscribers()
        self.model = [()]
        self.ctx.count('clear')

    def count(self):
        n = len(self.model[0])
        self.ctx.check(self.event.getSubscriberCount() == n and len(self.event) == n, 'count', 'subscriber count %s instead of %s', self.event.getSubscriberCount(), n)

    def notify(self):
        self.tok += 1
        data = ('data', self.tok)
        self.ctx.note('notify', data, 'depth', self.depth)
        before = self.model
        obs = []
        self.stack.append((data, obs))
        self.depth += 1
        boom = None
        try:
            if self.rng.randrange(2):
                self.event.notify(data)
            else:
                self.event(data)
        except Boom, e:
            boom = e
        self.depth -= 1
        self.stack.pop()
        got = tuple([o[0] for o in obs])
        raised = [o for o in obs if o[1]]
        self.ctx.count('notify')
        self.ctx.count('handler calls', len(got))
        if raised:
            self.ctx.count('raising notify')
            self.ctx.check(boom is not None and boom in [o[1] for o in raised], 'swallowed', 'handler exception %s reaches the notifier as %s', raised[0][1], boom)
            # up to the first exception
            got = got[:obs.index(raised[0]) + 1]
            ok = [m for m in before if m[:len(got)] == got]
        else:
            self.ctx.check(boom is None, 'exception', 'notify raises %s', boom)
            ok = [m for m in before if m == got]
        self.ctx.check(ok, 'calls', 'notify called %s; subscribed were %s', got, before)
        if self.model is before:
            self.model = ok
        if len(got) > 1:
            self.ctx.distinct(self.depth, got)
        if boom is not None and self.depth:
            if self.rng.randrange(2):
                raise boom

    def called(self, k, a, kw):
        data, obs = self.stack[-1]
        self.ctx.check(len(a) > 0 and a[0] is data or a[:1] == (data,), 'data', 'handler called with %s instead of %s first', a, data)
        rec = [repr((k, a[1:], tuple(sorted(kw.items())))), None]
        obs.append(rec)
        r = self.rng.random()
        if self.ops > 120 or self.depth > 3:
            return
        try:
            if r < 0.10:
                self.subscribe()
            elif r < 0.22:
                self.unsubscribe()
            elif r < 0.24:
                self.clear()
            elif r < 0.30:
                self.ops += 20
                self.notify()
            elif r < 0.34:
                raise Boom(self.tok)
        except Boom, e:
            rec[1] = e
            raise

    def step(self):
        self.ops += 1
        r = self.rng.random()
        if r < 0.4:
            self.subscribe()
        elif r < 0.6:
            self.unsubscribe()
        elif r < 0.63:
            self.clear()
        else:
            self.notify()
        self.count()


def case(ctx, i, rng):
    w = World(ctx, rng)
    other = ctx.Event()     # another event is not touched
    if i % 100 == 7:
        # a crowd of subscribers
        for k in range(rng.choice([60, 300, 1100])):
            w.subscribe(1000 + k)
        ctx.count('crowds of subscribers')
    for k in range(rng.choice([5, 15, 30])):
        w.step()
        ctx.check(len(other) == 0, 'shared', 'two events share their subscribers')
    ctx.sample('%d subscriptions at the end after %d notifications' % (len(w.model[0]), w.tok))
