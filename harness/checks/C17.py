"""C17: messages enqueued at any moment against the datagrams a running message manager sends"""
import vcore, vtime, mgr, ref, gen, fakes

CASES = {'quick': 200, 'thorough': 3500}


def setup(ctx):
    ctx.S = mgr.Setup()
    from pyogp.lib.base.message.udpserializer import UDPMessageSerializer
    ctx.serializer = UDPMessageSerializer()


class UDP(fakes.UDP):
    """others run until it can be written to"""
    world = None

    def send_packet(self, sock, data, host):
        fakes.UDP.send_packet(self, sock, data, host)
        w = self.world
        if w.rng.random() < w.gives_way and w.left_to_give:
            w.left_to_give -= 1
            w.ctx.count('gave way in a send')
            before = w.n
            w.inside += 1
            vtime.run(w.rng.choice([0, 0, 0.05]))
            w.inside -= 1
            w.ctx.count('enqueued while a send gave way', w.n - before)


class World(object):
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.inside = 0
        self.gives_way = rng.choice([0, 0, 0.3, 1])
        self.left_to_give = 300
        self.direct = None
        self.constructed = rng.randrange(4) == 0
        vtime.clock.tick = rng.choice([0.001, 0.02])
        queue = mgr.Cap(ctx.S.api, rng, []) if rng.randrange(4) == 0 else None
        st = gen.settings(ENABLE_DEFERRED_PACKET_PARSING=rng.randrange(2) == 0, HANDLE_OUTGOING_PACKETS=rng.randrange(3) == 0, LOG_VERBOSE=rng.randrange(2) == 0,
                          ENABLE_UDP_LOGGING=rng.randrange(3) > 0)
        self.m = mgr.Manager(ctx, rng, queue, st, host=rng.choice([('10.0.0.1', 13000), ('127.0.0.9', 65535)]), constructor=self.constructed)
        self.model = []         # entries waiting
        self.current = None     # the one that is being sent as far as handlers of outgoing messages see
        self.n = 0
        self.sent = 0
        self.stopped = False
        udp = UDP()
        udp.world, udp.on_receive, udp.log = self, self.m.on_receive, self.on_sent
        self.m.udp = self.m.disp.udp_client = self.m.disp.socket = udp
        self.names = rng.sample(ctx.S.names, 6)
        self.limit = 250
        for n in self.names:
            self.m.handler.register(n).subscribe(vcore.guard(self.handler))
        self.depth = 0
        self.earlier = []

    def message(self):
        """(message, body or None if it cannot be sent)"""
        rng = self.rng
        if self.earlier and rng.random() < 0.12:
            # the same object again, waiting or sent
            self.ctx.count('enqueued again')
            k = rng.randrange(max(0, len(self.earlier) - 6), len(self.earlier))
            m, body, name = self.earlier[k]
            if body is not None and rng.randrange(2) and not [e for e in self.model if e[4] is m]:
                # sent, changed by its owner, and sent again
                mt = self.ctx.S.templates[name]
                self.earlier[k] = m, ref.enc_body(mt, gen.change(rng, mt, m)), name
                self.ctx.count('changed and enqueued again')
            return self.earlier[k]
        e = self.new_message()
        self.earlier.append(e)
        return e

    def new_message(self):
        rng = self.rng
        r = rng.random()
        if r < 0.1:
            name = rng.choice(self.ctx.S.banned)
            mt = self.ctx.S.templates[name]
            return gen.build(mt, gen.gen_message(rng, mt)[0]), None, name
        name = rng.choice(self.names)
        mt = self.ctx.S.templates[name]
        libv, wire = gen.gen_message(rng, mt)
        if r < 0.22:
            # does not fit its template
            for b in mt.blocks:
                for inst in libv[b.name]:
                    if inst and b.fields:
                        inst.pop(rng.choice(sorted(inst)))
                        return gen.build(mt, libv), None, name
        if r < 0.25:
            m = gen.build(mt, libv)
            m.name = 'NoSuchMessage'
            return m, None, m.name
        return gen.build(mt, libv), ref.enc_body(mt, wire), name

    def forwarded(self, m):
        """a received message is enqueued itself; (message, body, name)"""
        m_ = self.ctx.serializer.serialize(m)
        return m, ref.split(m_)[3], m.name

    def enqueue(self, now=None, what=None):
        rng = self.rng
        m, body, name = what or self.message()
        self.n += 1
        reliable = rng.randrange(2) == 1
        if now is None:
            now = rng.randrange(4) == 0
        e = (self.n, name, body, reliable, m)
        self.ctx.note('enqueue', self.n, name, 'reliable' if reliable else '', 'now' if now else '', 'sendable' if body is not None else 'unsendable')
        how = rng.randrange(3)
        if how == 0 and not reliable and not now:
            self.m.mm.enqueue_message(m)
        elif how == 1:
            self.m.mm.enqueue_message(m, reliable, now)
        else:
            self.m.mm.enqueue_message(m, reliable=reliable, now=now)
        if now:
            self.model.insert(0, e)
        else:
            self.model.append(e)
        self.ctx.count(now and 'enqueued with priority' or 'enqueued')
        if body is None:
            self.ctx.count('unsendable')

    def at_once(self):
        """sent past the queue, perhaps in the middle of another send"""
        m, body, name = self.new_message()
        if body is None:
            return
        reliable = self.rng.randrange(2) == 1
        self.direct = m, body, reliable
        h, self.depth = self.depth, 1
        r = vcore.attempt(lambda: self.m.mm.send_udp_message(m, reliable))
        self.depth = h
        self.ctx.check(r[0] == 'ok', 'direct-raises', 'send_udp_message raises %s at %s', r[1], r[2] and vcore.tb_text(r[2]))
        self.ctx.check(self.direct is None, 'direct-lost', 'send_udp_message sends nothing')

    def on_sent(self, x):
        addr, data = x
        d = ref.split(data)
        flags, pid, extra, body, acks = d
        if body[:4] == '\xff\xff\xff\xfb':
            self.ctx.count('acks')
            return
        c = self.ctx
        if self.direct:
            m, want, reliable = self.direct
            self.direct = None
            c.check(addr == self.m.addr and bool(flags & 0x40) == reliable and not flags & 0x20, 'direct-flags', 'a message given to send_udp_message is sent to %s with flags %02x', addr, flags)
            c.check(body[:len(want)] == want, 'direct', 'sent is %s instead of the message given to send_udp_message: %s', vcore.hexs(body), vcore.hexs(want))
            c.count('sent at once')
            return
        self.sent += 1
        c.note('sent', vcore.hexs(data)[:60])
        skipped = []
        while self.model and self.model[0][2] is None:
            skipped.append(self.model.pop(0))
        c.check(self.model, 'extra', 'a datagram is sent although nothing is waiting: %s', vcore.hexs(data))
        n, name, want, reliable, m = self.model.pop(0)
        if name == 'RegionHandshakeReply':
            body = body[:len(want)]     # something is appended to this one
        c.check(body == want, 'order', 'sent is %s where message %s (%s) is next: %s', vcore.hexs(body), n, name, vcore.hexs(want))
        c.check(addr == self.m.addr, 'host', 'message %s is sent to %s', n, addr)
        c.check(bool(flags & 0x40) == reliable, 'reliable', 'message %s, enqueued %s, is sent with flags %02x', n, reliable and 'as reliable' or 'as not reliable', flags)
        c.check(not flags & 0x20, 'resent', 'message %s is flagged as resent', n)
        if not self.stopped and self.n < self.limit and self.rng.random() < 0.08:
            # while the loop is sending
            for k in range(self.rng.choice([1, 1, 2])):
                self.enqueue(now=self.rng.randrange(3) > 0)
            c.count('enqueued in the middle of a batch')
        c.distinct(name, reliable, len(skipped), min(len(self.model), 5))

    def handler(self, m):
        """of received messages, and of sent ones if those are handled"""
        rng = self.rng
        outgoing = self.receiving is False
        if self.depth or self.stopped or rng.random() < 0.5 or self.n > self.limit - 50:
            return
        self.depth += 1
        if not outgoing and rng.randrange(2):
            self.enqueue(what=self.forwarded(m))
            self.ctx.count('forwarded')
        for k in range(rng.choice([1, 2])):
            # what is being sent is still in our model
            if outgoing:
                self.enqueue(now=False)
                self.ctx.count('enqueued while sending')
            else:
                self.enqueue()
                self.ctx.count('enqueued by a handler')
        self.depth -= 1

    receiving = False

    def inbound(self):
        rng = self.rng
        mt = self.ctx.S.templates[rng.choice(self.names)]
        wire = gen.wire_message(rng, mt)
        self.m.udp.inbox.append((self.m.addr, ref.datagram(ref.enc_body(mt, wire), rng.choice([0, 0x40]), rng.randrange(1 << 20))))


def case(ctx, i, rng):
    w = World(ctx, rng)
    # the handler tells received messages from sent ones by where the loop is
    real = w.m.disp.receive_check

    def receive_check(*a, **kw):
        w.receiving = True
        try:
            return real(*a, **kw)
        finally:
            w.receiving = False
    w.m.disp.receive_check = receive_check
    for k in range(rng.choice([0, 0, 1, 4])):
        w.enqueue()
        ctx.count('enqueued before the start')
    if not w.constructed:
        w.m.start()
    burst = i % 12 == 5 and rng.randrange(5) or None
    for k in range(rng.choice([5, 20, 40])):
        r = rng.random()
        if k == burst:
            # many at once
            for j in range(rng.choice([120, 260, 600])):
                w.enqueue()
            w.limit = w.n + 250
            ctx.count('bursts')
        elif r < 0.4:
            for j in range(rng.choice([1, 1, 2, 5])):
                w.enqueue()
        elif r < 0.55:
            w.inbound()
        elif r < 0.6:
            vtime.run(rng.choice([0.3, 2]))
        elif r < 0.66:
            w.at_once()
        else:
            w.m.turns(rng.choice([1, 1, 3]))
    w.m.turns(4)
    stop_in = rng.randrange(3)
    if stop_in == 0:
        for k in range(400 + w.n):
            if not w.m.mm.outgoing_queue and not w.m.udp.inbox:
                break
            w.m.turns(2)
            if w.inside:
                vtime.run(0.2)
        while w.model and w.model[0][2] is None:
            w.model.pop(0)
        ctx.check(not w.model, 'lost', 'messages %s were never sent', [(e[0], e[1]) for e in w.model])
        ctx.count('drained')
    else:
        # stopped with messages waiting
        for k in range(3):
            w.enqueue()
        ctx.count('stopped with messages waiting')
    w.m.stop()
    w.stopped = True
    at, sent_at = w.m.receives, w.sent
    waiting = len(w.model)
    w.m.turns(10)
    ctx.check(w.m.receives - at <= 1, 'iterations', 'the stopped loop makes %s iterations', w.m.receives - at)
    ctx.check(w.sent - sent_at <= waiting, 'sent-stopped', '%s sent after the stop', w.sent - sent_at)
    # what was taken for sending before the stop
    while w.inside:
        vtime.run(0.2)
    mark = w.sent
    m, body, name = w.message()
    w.m.mm.enqueue_message(m)
    w.m.turns(10)
    ctx.check(w.sent == mark, 'sent-stopped', 'a message enqueued after the stop is sent')
    vtime.run(60 + 12 * w.m.st.REGION_EVENT_QUEUE_POLL_INTERVAL)
    vtime.quiet(ctx, ctx.S.hub, 'after stopping')
    ctx.sample('%d enqueued, %d sent, %d waiting at the stop' % (w.n, w.sent, waiting))
