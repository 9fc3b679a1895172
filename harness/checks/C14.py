"""C14: a message handler under random registrations, subscriptions and traffic - directly and behind a dispatcher - against a table of lists"""
import vcore, ref, gen, fakes

CASES = {'quick': 500, 'thorough': 8000}


def setup(ctx):
    vcore.boot(verbose_logs=True)
    from pyogp.lib.base.message.message_handler import MessageHandler
    from pyogp.lib.base.message.udpdispatcher import UDPDispatcher
    from pyogp.lib.base.message.message import Message, Block
    from pyogp.lib.base.message.circuit import Host
    ctx.Handler, ctx.Disp, ctx.Message, ctx.Block, ctx.Host = MessageHandler, UDPDispatcher, Message, Block, Host
    ctx.templates, ctx.all = ref.builtin()
    ctx.perm = ref.permitted()
    ctx.banned = sorted(set(ctx.all) & ref.banned())


class Boom(vcore.Deliberate):
    pass


class World(object):
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.outgoing = rng.randrange(3) == 0
        self.st = gen.settings(ENABLE_DEFERRED_PACKET_PARSING=rng.randrange(3) > 0, HANDLE_OUTGOING_PACKETS=self.outgoing,
                               LOG_VERBOSE=rng.randrange(2) == 0, DISABLE_SPAMMERS=rng.randrange(2) == 0)
        self.h = ctx.Handler(self.st)
        self.other = ctx.Handler(self.st)
        self.udp = fakes.UDP()
        self.disp = ctx.Disp(self.udp, self.st, self.h)
        wire = rng.sample(ctx.perm, rng.choice([3, 6, 12]))
        if 'PacketAck' in ctx.perm and rng.randrange(2):
            wire.append('PacketAck')
        self.wire = sorted(set(wire))
        odd = ['', 'x', 'handlers', 'name', 'EstablishAgentCommunication', u'Caf\xe9', self.wire[0].lower(), self.wire[0] + '2', self.wire[0][:-1],
               self.wire[0] + ' ', 'None', '__class__']
        # neighbours of names that are in use
        n = rng.choice(self.wire)
        near = [rng.choice(['x', 'Agent', 'Message', n, '']) + s + n for s in ('.', ':', '::', '/', '_', ' ')] + [n + s + rng.choice(['x', '1', 'Reply', '']) for s in ('.', ':', '_', ',', '\n')]
        self.names = self.wire + rng.sample(odd, 4) + rng.sample(near, 3)
        self.model = {'PacketAck': []}      # the dispatcher registers it
        self.notifier = {}
        self.calls = []                     # (name, subscription, message) as they happen
        self.depth = 0
        self.ops = 0
        self.k = 0
        self.subs = 0

    # operations -------------------------------------------------------------
    def register(self, name=None):
        if name is None:
            name = self.rng.choice(self.names)
        self.ctx.note('register', name, 'depth', self.depth)
        n = self.h.register(name)
        if name in self.notifier:
            self.ctx.check(n is self.notifier[name], 'register', 'registering %s again gives another notifier', name)
            self.ctx.count('registered again')
        self.notifier[name] = n
        self.model.setdefault(name, [])
        self.ctx.check(len(n) == len(self.model[name]), 'length', 'notifier of %s has %s subscribers, not %s', name, len(n), len(self.model[name]))
        return n

    def subscribe(self, name=None):
        if name is None:
            name = self.rng.choice(self.names)
        rng = self.rng
        n = self.register(name)
        self.subs += 1
        s = Sub(self, name, self.subs, rng.choice([(), (), (1,), ('a', None)]), rng.choice([{}, {}, {'x': 2}]))
        self.ctx.note('subscribe', name, s)
        n.subscribe(s.call, *s.a, **s.kw)
        self.model[name] = self.model[name] + [s]
        self.ctx.count('subscribed')
        if rng.randrange(8) == 0:   # the same one twice
            n.subscribe(s.call, *s.a, **s.kw)
            self.model[name] = self.model[name] + [s]

    def unsubscribe(self):
        name = self.rng.choice(self.names)
        if not self.model.get(name):
            return
        s = self.rng.choice(self.model[name])
        l = list(self.model[name])
        self.ctx.note('unsubscribe', name, s)
        # of a subscriber that is there twice either one may go
        l.remove(s)
        self.h.register(name).unsubscribe(s.call, *s.a, **s.kw)
        self.model[name] = l
        if s in l:
            # make it unambiguous
            self.h.register(name).unsubscribe(s.call, *s.a, **s.kw)
            self.model[name] = [x for x in l if x is not s]
        self.ctx.count('unsubscribed')

    def handled(self):
        for n in self.names:
            if n == 'PacketAck' and n not in self.notifier:
                continue    # the dispatcher may have it registered
            r = self.h.is_message_handled(n)
            self.ctx.check(r == (n in self.model), 'handled', 'is_message_handled(%s) is %s', n, r)
            self.ctx.check(not self.other.is_message_handled(n), 'shared', 'two handlers share %s', n)

    def expect(self, name, fn, how, reached=None):
        """run fn, in which the subscribers of name must be called"""
        want = list(self.model.get(name, []))
        mark = len(self.calls)
        self.depth += 1
        boom = None
        try:
            try:
                r = fn()
            except Boom, e:
                boom, r = e, None
        finally:
            self.depth -= 1
        mine = [c for c in self.calls[mark:] if c[0] == self.depth]
        got = [c[2] for c in mine]
        for d, n, s, m, e in mine:
            if reached is not None:
                self.ctx.check(m is reached, 'message', '%s: subscriber of %s got %s instead of the message', how, name, m)
            self.ctx.check(n == name and m.name == name, 'routing', '%s of %s calls a subscriber of %s with message %s', how, name, n, m.name)
        raised = [c[4] for c in mine if c[4] is not None]
        if raised:
            self.ctx.count('raising subscribers')
            self.ctx.check(boom is raised[0], 'swallowed', '%s of %s: the exception of a subscriber reaches the caller as %s', how, name, boom)
            self.ctx.check(got == want[:len(got)], 'calls', '%s of %s called %s; subscribed were %s', how, name, got, want)
        else:
            self.ctx.check(boom is None, 'exception', '%s of %s raises %s', how, name, boom)
            self.ctx.check(got == want, 'calls', '%s of %s called %s; subscribed were %s', how, name, got, want)
        self.ctx.count('handled ' + how)
        self.ctx.count('subscriber calls', len(got))
        if name in self.model:
            self.ctx.distinct(how, name, len(want), self.depth, bool(raised))
        else:
            self.ctx.count('unregistered')
        return r, mine, boom

    def handle(self):
        name = self.rng.choice(self.names)
        m = self.ctx.Message(name, self.ctx.Block('Some', A=self.k))
        self.ctx.note('handle', name, 'depth', self.depth)
        self.k += 1
        self.finish(self.expect(name, lambda: self.h.handle(m), 'directly', m))

    def finish(self, res):
        if res[2] is not None and self.depth and self.rng.randrange(2):
            raise res[2]

    def receive(self):
        rng = self.rng
        name = rng.choice(self.wire)
        mt = self.ctx.templates[name]
        wire = gen.wire_message(rng, mt)
        data = ref.datagram(ref.enc_body(mt, wire), rng.choice([0, 0x40, 0x80, 0xc0]), gen.rand_id(rng))
        self.ctx.note('receive', name, 'depth', self.depth)
        host = self.ctx.Host(('10.0.0.1', rng.choice([13000, 13001])))
        r, mine, boom = res = self.expect(name, lambda: self.disp.receive_check(host, data, len(data)), 'received')
        for c in mine:
            self.ctx.check(gen.diff(mt, gen.pad(mt, wire), c[3]) is None or gen.diff(mt, wire, c[3]) is None, 'content', 'subscriber of %s got another content: %s', name, gen.diff(mt, wire, c[3]))
            self.ctx.check(r is None or c[3] is r, 'message', 'subscriber of %s got another message than receive_check returns', name)
        if boom is None:
            if name in self.model or not self.st.ENABLE_DEFERRED_PACKET_PARSING:
                self.ctx.check(r is not None and r.name == name, 'returned', 'receiving the handled %s returns %s', name, r)
        self.udp.take()
        self.finish(res)

    def receive_banned(self):
        if not self.ctx.banned:
            return
        name = self.rng.choice(self.ctx.banned)
        mt = self.ctx.templates[name]
        n = self.h.register(name)
        self.model.setdefault(name, [])
        data = ref.datagram(ref.enc_body(mt, gen.wire_message(self.rng, mt)), 0, 5)
        mark = len(self.calls)
        self.disp.receive_check(self.ctx.Host(('10.0.0.1', 13000)), data, len(data))
        self.ctx.check(len(self.calls) == mark, 'banned', 'receiving the banned %s calls %s', name, self.calls[mark:])
        self.ctx.count('banned')

    def send(self):
        rng = self.rng
        name = rng.choice(self.wire)
        mt = self.ctx.templates[name]
        libv, wire = gen.gen_message(rng, mt)
        m = gen.build(mt, libv)
        host = self.ctx.Host(('10.0.0.1', 13000))
        self.ctx.note('send', name, 'outgoing handled:', self.outgoing, 'depth', self.depth)
        if self.outgoing:
            res = self.expect(name, lambda: self.disp.send_message(m, host), 'sent', m)
            self.udp.take()
            self.finish(res)
        else:
            mark = len(self.calls)
            self.disp.send_message(m, host)
            self.ctx.check(len(self.calls) == mark, 'outgoing', 'sending %s calls subscribers although outgoing messages are not handled', name)
            self.udp.take()

    def nested(self, name):
        """inside a subscriber"""
        if self.ops > 60 or self.depth > 3:
            return
        rng = self.rng
        self.ops += 1
        r = rng.random()
        if r < 0.1:
            self.register()
        elif r < 0.2:
            other = [n for n in self.names if n != name]
            self.subscribe(rng.choice(other))
        elif r < 0.28:
            self.handle()
        elif r < 0.32:
            self.receive()
        elif r < 0.40:
            raise Boom(self.k)

    def step(self):
        self.ops += 1
        r = self.rng.random()
        for p, f in ((0.15, self.register), (0.40, self.subscribe), (0.50, self.unsubscribe), (0.70, self.handle), (0.90, self.receive),
                     (0.93, self.receive_banned), (1, self.send)):
            if r < p:
                f()
                break


class Sub(object):
    def __init__(self, world, name, n, a, kw):
        self.world, self.name, self.n, self.a, self.kw = world, name, n, a, kw

    def __repr__(self):
        return 's%d' % self.n

    def call(self, message, *a, **kw):
        w = self.world
        rec = [w.depth - 1, self.name, self, message, None]
        w.calls.append(rec)
        w.ctx.check(a == self.a and kw == self.kw, 'arguments', 'subscriber of %s called with %s instead of %s', self.name, (a, kw), (self.a, self.kw))
        try:
            w.nested(self.name)
        except Boom, e:
            rec[4] = e
            raise


def case(ctx, i, rng):
    w = World(ctx, rng)
    if i % 25 == 7:
        # many names, many subscribers
        more = ['Message%d' % k for k in range(rng.choice([40, 150, 400]))]
        for n in more:
            w.names.append(n)
            w.subscribe(n)
        for k in range(rng.choice([20, 150])):
            w.subscribe(rng.choice(w.wire))
        ctx.count('crowds of subscribers')
    for k in range(rng.choice([10, 25, 50])):
        w.step()
    w.handled()
    ctx.sample('names %s: %d subscriptions, %d subscriber calls' % (w.names[:4], w.subs, len(w.calls)))
