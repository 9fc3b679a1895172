"""C37: handlers that give way, while other coroutines receive, send, notify, subscribe and unsubscribe, against the lists of subscribers of the moment"""
import vcore, vtime, ref, gen, fakes, mgr

CASES = {'quick': 500, 'thorough': 9000}


class Boom(vcore.Deliberate):
    pass


def setup(ctx):
    ctx.S = mgr.Setup()
    ctx.S.names = [n for n in ctx.S.names if n != 'RegionHandshakeReply']
    from pyogp.lib.base.message.udpdispatcher import UDPDispatcher
    from pyogp.lib.base.events import Event
    ctx.Disp, ctx.Event = UDPDispatcher, Event


def snapshot(m):
    """what a handler can see of a message"""
    return (m.name, m.packet_id, m.send_flags, bool(m.reliable), tuple(m.acks),
            repr([(n, [[(v.name, v.data) for v in b.get_variables()] for b in m.blocks[n]]) for n in sorted(m.blocks)]))


class World(object):
    def __init__(self, ctx, rng):
        self.ctx, self.rng, self.S = ctx, rng, ctx.S
        self.st = gen.settings(ENABLE_DEFERRED_PACKET_PARSING=rng.randrange(3) > 0, HANDLE_OUTGOING_PACKETS=True, ENABLE_UDP_LOGGING=rng.randrange(2) == 0,
                               LOG_VERBOSE=rng.randrange(2) == 0)
        self.h = self.S.Handler(self.st)
        self.udp = fakes.UDP()
        self.d = ctx.Disp(self.udp, self.st, self.h)
        self.addrs = [('10.0.0.%d' % k, 13000) for k in range(1, rng.choice([2, 3, 5]))]
        self.ids = 100
        self.names = rng.sample(self.S.names, rng.choice([1, 2, 5]))
        self.events = dict([('event%d' % k, ctx.Event()) for k in range(rng.choice([1, 2]))])
        self.subs = dict([(n, []) for n in self.names + list(self.events)])
        self.registered = set()
        self.running = {}       # key of a notification -> [what is notified, expected tokens, calls, raised]
        self.tok = 0
        self.left = 0
        self.inside = 0
        self.most = 0
        self.slow = rng.choice([0.1, 0.5, 1])
        self.raising = rng.choice([0, 0, 0.05])
        self.nested = 0
        for n in self.subs:
            for k in range(rng.choice([0, 1, 2, 4])):
                self.subscribe(n)

    # subscribers
    def target(self, n):
        if n in self.events:
            return self.events[n]
        self.registered.add(n)
        return self.h.register(n)

    def subscribe(self, n):
        self.tok += 1
        t = self.tok

        def handler(data, *args):
            vcore.guard(self.called)(n, t, data, args)
        args = self.rng.choice([(), (t,)])
        self.target(n).subscribe(handler, *args)
        self.subs[n].append((t, handler, args))
        self.ctx.count('subscribed')
        self.ctx.note('subscribe', t, 'to', n)

    def unsubscribe(self, n):
        if self.subs[n]:
            e = self.rng.choice(self.subs[n])
            self.ctx.note('unsubscribe', e[0], 'from', n)
            self.call('unsubscribing', lambda: self.target(n).unsubscribe(e[1], *e[2]))
            self.subs[n].remove(e)
            self.ctx.count('unsubscribed')

    def called(self, n, t, data, args):
        c, rng = self.ctx, self.rng
        if n in self.events:
            key = data[1]
        else:
            c.check(data.name == n, 'name', 'a subscriber of %s is called with a message %s', n, data.name)
            key = self.key_of(data)
        c.check(key in self.running, 'stray', 'subscriber %s of %s is called by no notification in progress (%s)', t, n, key)
        what, want, calls, raised, check = self.running[key]
        c.check(what == n, 'crossed', 'subscriber %s of %s is called with what %s was notified of', t, n, what)
        c.check(not raised, 'after-exception', 'subscriber %s of %s is called after another raised an exception', t, n)
        calls.append(t)
        c.check(calls == want[:len(calls)], 'calls', 'the subscribers of %s were %s when %s came; called are %s', n, want, key, calls)
        if check:
            check(data)
        before = n not in self.events and snapshot(data)
        if rng.random() < self.slow:
            self.inside += 1
            self.most = max(self.most, self.inside)
            c.count('gave way in a handler')
            vtime.run(rng.choice([0, 0, 0.01, 0.2]))
            self.inside -= 1
        r = rng.random()
        if r < 0.06:
            self.subscribe(n)
        elif r < 0.14:
            self.unsubscribe(n)
        elif r < 0.18 and self.nested < 3:
            self.nested += 1
            self.something()
            self.nested -= 1
            c.count('nested')
        if before:
            c.check(snapshot(data) == before, 'changed', 'while a subscriber of %s gave way its message changed from %s to %s', n, before, snapshot(data))
        c.count('calls')
        if rng.random() < self.raising:
            raised.append(t)
            raise Boom(t)

    def key_of(self, m):
        """notifications of received messages are known by packet id, of those sent by the object"""
        for k in (('in', m.packet_id), ('out', id(m))):
            if k in self.running:
                return k
        return 'in', m.packet_id

    # what is notified
    def notification(self, key, n, f, check=None):
        want = [e[0] for e in self.subs[n]]
        rec = self.running[key] = n, want, [], [], check
        self.ctx.note('begin', key, n, want)
        r = vcore.attempt(f)
        self.ctx.note('end', key, n, rec[2], r[0])
        del self.running[key]
        c = self.ctx
        if rec[3]:
            c.check(r[0] == 'exc' and isinstance(r[1], Boom) and r[1].args == (rec[3][0],), 'swallowed', 'the exception of subscriber %s of %s arrives as %s', rec[3][0], n, r[1])
            c.count('exceptions of handlers')
        else:
            c.check(r[0] == 'ok', 'exception', '%s raises %s at %s', key, r[1], r[2] and vcore.tb_text(r[2]))
            c.check(rec[2] == want, 'calls', 'the subscribers of %s were %s when %s came; called were %s', n, want, key, rec[2])
        c.count('notifications')
        c.distinct(key[0], len(want), self.inside, bool(rec[3]))
        return r

    def receive(self):
        rng = self.rng
        n = rng.choice(self.names)
        mt = self.S.templates[n]
        for k in range(20):
            wire = gen.wire_message(rng, mt)
            body = ref.enc_body(mt, wire)
            if len(body) < 700:
                break
        self.ids += 1
        pid, flags = self.ids, rng.choice([0, 0x40])
        acks = rng.choice([None, None, [7], [7, 8, 9]])
        data = ref.datagram(body, flags | (acks and 0x10 or 0), pid, '', acks)

        def check(m):
            s = snapshot(m)
            self.ctx.check(s[1] == pid and s[3] == bool(flags) and list(s[4]) == (acks or []), 'header', 'id, reliability and acks of message %s are %s', pid, s[:5])
            d = gen.diff(mt, wire, m)
            self.ctx.check(d is None, 'content', 'message %s: %s', pid, d)
        a = rng.choice(self.addrs)
        known = n in self.registered or not self.st.ENABLE_DEFERRED_PACKET_PARSING
        r = self.notification(('in', pid), n, lambda: self.d.receive_check(self.S.Host(a), data, len(data)), check)
        if r[0] == 'ok':
            if known:
                self.ctx.check(r[1] is not None and r[1].packet_id == pid and r[1].name == n, 'returned', 'receive_check of message %s (%s) gives %s', pid, n, r[1])
                check(r[1])
            self.ctx.count('received')

    def send(self):
        rng = self.rng
        n = rng.choice(self.names)
        mt = self.S.templates[n]
        for k in range(20):
            libv, wire = gen.gen_message(rng, mt)
            body = ref.enc_body(mt, wire)
            if len(body) < 700:
                break
        m = gen.build(mt, libv)
        a = rng.choice(self.addrs)
        h = self.S.Host(a)
        mark = len(self.udp.sent)
        f = rng.choice([lambda: self.d.send_message(m, h), lambda: self.d.send_reliable(m, h, 0)])
        r = self.notification(('out', id(m)), n, f)
        if r[0] == 'ok':
            # handlers gave way, others have sent meanwhile; ours is the last
            self.ctx.check(len(self.udp.sent) > mark and self.udp.sent[-1][0] == a, 'unsent', 'a message is not sent to %s', a)
            self.ctx.check(ref.split(self.udp.sent[-1][1])[3] == body, 'sent', 'sent is %s instead of %s', vcore.hexs(self.udp.sent[-1][1]), vcore.hexs(body))
            self.ctx.count('sent')

    def notify(self):
        n = self.rng.choice(sorted(self.events))
        self.ids += 1
        key = 'event', self.ids
        data = 'data', key
        e = self.events[n]
        self.notification(key, n, self.rng.choice([lambda: e.notify(data), lambda: e(data)]))

    def something(self):
        r = self.rng.random()
        if r < 0.4:
            self.receive()
        elif r < 0.6:
            self.send()
        elif r < 0.8:
            self.notify()
        elif r < 0.9:
            self.subscribe(self.rng.choice(sorted(self.subs)))
        elif r < 0.97:
            self.unsubscribe(self.rng.choice(sorted(self.subs)))
        else:
            self.call('an ack round', self.d.process_acks)

    def call(self, what, f):
        r = vcore.attempt(f)
        self.ctx.check(r[0] == 'ok', 'exception', '%s raises %s at %s', what, r[1], r[2] and vcore.tb_text(r[2]))

    def worker(self, n):
        for k in range(n):
            vtime.run(self.rng.choice([0, 0, 0.01, 0.1]))
            self.something()

    def spawn(self, f, *a):
        self.left += 1

        def run():
            try:
                vcore.guard(f)(*a)
            finally:
                self.left -= 1
        self.S.api.spawn(run)


def case(ctx, i, rng):
    vtime.clock.now = 1000000000.0
    vtime.clock.tick = rng.choice([0.001, 0.01])
    w = World(ctx, rng)
    n = rng.choice([4, 12, 25])
    k = rng.choice([1, 2, 4, 7])
    for j in range(k):
        w.spawn(w.worker, n)
    for j in range(4000):
        if not w.left:
            break
        vtime.run(0.1)
    ctx.check(not w.left, 'stuck', '%s of the coroutines do not end', w.left)
    ctx.check(not w.running, 'unfinished', 'notifications %s have not ended', sorted(w.running))
    # afterwards the subscribers are those who should be
    w.slow = w.raising = 0
    w.nested = 3
    for x in sorted(w.events):
        ctx.check(len(w.events[x]) == len(w.subs[x]), 'count', '%s has %s subscribers instead of %s', x, len(w.events[x]), len(w.subs[x]))
    for x in range(6):
        w.receive()
        w.notify()
        w.send()
    vtime.run(1)
    vtime.quiet(ctx, w.S.hub, 'at the end')
    ctx.count('overlapping handlers', w.most > 1)
    ctx.sample('%d coroutines, %d subscriptions made, up to %d handlers suspended at once' % (k, w.tok, w.most))
