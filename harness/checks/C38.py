"""C38: capabilities used by several coroutines at once, over a REST client that lets the others run, each call judged as in C19"""
import vcore, vtime, gen, llsdgen
from checks.C19 import Rest, Response, one

CASES = {'quick': 260, 'thorough': 5000}


def setup(ctx):
    vcore.boot(verbose_logs=True)
    ctx.hub = vtime.install()
    from eventlet import api
    ctx.api = api
    from checks import C19
    C19.setup(ctx)


class Slow(Rest):
    """answers each coroutine what it planned, after others have run"""

    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.of = {}            # coroutine -> [plan, calls]
        self.inside = self.most = 0
        self.slow = rng.choice([0.3, 1, 1])

    def mine(self):
        return self.of.setdefault(id(self.ctx.api.getcurrent()), [None, []])

    plan = property(lambda self: self.mine()[0], lambda self, v: self.mine().__setitem__(0, v))
    calls = property(lambda self: self.mine()[1])

    def do(self, method, url, headers, payload):
        self.inside += 1
        self.most = max(self.most, self.inside)
        held = dict(headers), payload
        if self.rng.random() < self.slow:
            self.ctx.count('gave way in a request')
            vtime.run(self.rng.choice([0, 0, 0.01, 0.3, 20]))
        self.inside -= 1
        self.ctx.check((dict(headers), payload) == held, 'request-changed', 'while a %s of %s waits its headers change from %s to %s', method, url, held[0], headers)
        return Rest.do(self, method, url, headers, payload)


def ask(ctx, rng, rest, seed, url):
    names = ['Cap%d' % rng.randrange(40) for k in range(rng.choice([1, 3, 8]))]
    urls = dict([(n, 'http://example.com/%s/%d' % (n, rng.randrange(1 << 30))) for n in names])
    rest.plan = Response('application/llsd+xml', llsdgen.to_xml({'capabilities': urls}, rng).encode('utf-8'), {})
    mark = len(rest.calls)
    r = vcore.attempt(seed.get, names)
    ctx.check(r[0] == 'ok', 'exception', 'asking for %s raises %s', names, r[1])
    calls = rest.calls[mark:]
    ctx.check(len(calls) == 1 and calls[0][:2] == ('POST', url), 'seed-request', 'asking for %s made the requests %s', names, calls)
    ctx.check(llsdgen.same(ctx.llsd.parse(calls[0][3]), {'capabilities': names}), 'seed-payload', 'asking for %s posts %s', names, calls[0][3])
    got = dict([(n, r[1][n].public_url) for n in r[1]])
    ctx.check(got == urls and [n for n in r[1] if r[1][n].name == n] == list(r[1]), 'granted', 'granted were %s, got %s', urls, got)
    ctx.count('seeds asked')


def case(ctx, i, rng):
    vtime.clock.now = 1000000000.0
    vtime.clock.tick = 0.001
    rest = Slow(ctx, rng)
    st = gen.settings(LOG_VERBOSE=rng.randrange(2) == 0, ENABLE_CAPS_LOGGING=rng.randrange(2) == 0, ENABLE_CAPS_LLSD_LOGGING=rng.randrange(2) == 0)
    caps = []
    for k in range(rng.choice([1, 1, 3])):
        url = rng.choice(['http://example.com/cap/%d' % k, u'http://example.com/%d' % k])
        caps.append((rng.choice([ctx.Cap, ctx.Seed])('Name%d' % k, url, restclient=rest, settings=st), url))
    left = [0]

    def worker(n):
        mine = []       # payloads of its own, changed and posted again
        try:
            for k in range(n):
                vtime.run(rng.choice([0, 0, 0.01]))
                cap, url = rng.choice(caps)
                if isinstance(cap, ctx.Seed) and rng.randrange(3) == 0:
                    ask(ctx, rng, rest, cap, url)
                    continue
                how = rng.choice(['GET', 'POST', 'POST', 'POST_CUSTOM'])
                headers = dict([('X-%d' % rng.randrange(5), 'v%d' % rng.randrange(999)) for j in range(rng.choice([0, 1, 3]))])
                one(ctx, rng, rest, cap, url, how, headers, mine)
                ctx.count('calls')
        finally:
            left[0] -= 1
    for k in range(rng.choice([2, 3, 6])):
        left[0] += 1
        ctx.api.spawn(vcore.guard(worker), rng.choice([3, 8]))
    for k in range(1000):
        if not left[0]:
            break
        vtime.run(1)
    ctx.check(not left[0], 'stuck', '%s of the coroutines do not end', left[0])
    vtime.run(1)
    vtime.quiet(ctx, ctx.hub, 'at the end')
    ctx.count('overlapping requests', rest.most > 1)
    ctx.distinct('overlap', rest.most, len(caps))
    ctx.sample('up to %d requests at once' % rest.most)
