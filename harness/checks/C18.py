"""C18: a running message manager under hostile datagrams, and its start and stop around event queues"""
import struct
import vcore, vtime, mgr, ref, gen

CASES = {'quick': 240, 'thorough': 4000}


def setup(ctx):
    ctx.S = mgr.Setup()


class World(object):
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        vtime.clock.tick = rng.choice([0.001, 0.02])
        self.st = gen.settings(ENABLE_DEFERRED_PACKET_PARSING=rng.randrange(3) > 0, LOG_VERBOSE=rng.randrange(2) == 0, ENABLE_UDP_LOGGING=rng.randrange(3) > 0,
                               ENABLE_REGION_EVENT_QUEUE=rng.randrange(4) > 0, REGION_EVENT_QUEUE_POLL_INTERVAL=rng.choice([0.2, 1, 3]))
        queue = None
        if rng.randrange(2):
            queue = mgr.Cap(ctx.S.api, rng, [])
        self.constructed = rng.randrange(5) == 0
        self.m = mgr.Manager(ctx, rng, queue, self.st, constructor=self.constructed)
        self.addrs = [('10.0.0.1', 13000), ('10.0.0.1', 13001), ('10.0.0.2', 13000)]
        self.names = rng.sample(ctx.S.names, 8)
        self.expected = []      # (name, addr, wire, mt)
        self.got = []
        self.reliable = dict([(a, []) for a in self.addrs])
        for n in self.names:
            self.m.handler.register(n).subscribe(vcore.guard(self.handler))
        if rng.randrange(2):
            self.m.handler.register('PacketAck').subscribe(lambda m: None)
        for n in rng.sample(ctx.S.banned, min(2, len(ctx.S.banned))):
            self.m.handler.register(n).subscribe(vcore.guard(self.handler))
        self.acked = dict([(a, []) for a in self.addrs])
        self.m.udp.log = self.on_sent
        self.n = 0
        self.stop_at = None

    def handler(self, m):
        self.got.append(m)
        if self.stop_at is not None and len(self.got) == self.stop_at:
            self.m.stop()
            self.ctx.count('stopped by a handler')
        if self.rng.randrange(12) == 0:
            self.ctx.count('sleeping handlers')
            self.ctx.S.api.sleep(self.rng.choice([0, 0.5]))

    def on_sent(self, x):
        addr, data = x
        r = ref.decode(data)
        ids = list(r['acks'] or [])
        if r['name'] == 'PacketAck':
            ids += [b['ID'] for b in dict(r['blocks'])['Packets']]
        self.ctx.check(addr in self.acked, 'stranger', 'a datagram is sent to %s', addr)
        self.ctx.note('sent', addr, r['name'], ids, r['blocks'] if r['name'] == 'PacketAck' else '')
        self.acked[addr] += ids

    def good(self, registered=True):
        rng = self.rng
        name = rng.choice(registered and self.names or self.ctx.S.names)
        mt = self.ctx.S.templates[name]
        wire = gen.wire_message(rng, mt, raw=False)
        self.n += 1
        flags = rng.choice([0, 0x40, 0x40, 0xc0, 0x20, 0x60])
        acks = rng.choice([None, None, [1], [rng.getrandbits(32) for k in range(5)]])
        data = ref.datagram(ref.enc_body(mt, wire), flags, self.n, rng.choice(['', '', 'xyz']), acks)
        return name, mt, wire, flags, data

    def arrive(self):
        rng = self.rng
        addr = rng.choice(self.addrs)
        r = rng.random()
        inbox = self.m.udp.inbox
        if r < 0.45:
            name, mt, wire, flags, data = self.good(rng.randrange(5) > 0)
            if name in self.names:
                self.expected.append((name, addr, wire, mt))
                self.ctx.count('good datagrams')
            else:
                self.ctx.count('unregistered')
            if flags & 0x40:
                self.reliable[addr].append(self.n)
            inbox.append((addr, data))
            self.ctx.note('good', name, addr, '%02x' % flags)
            return
        # hostile ones, whose outcome only must not disturb the others
        if r < 0.55:
            data = self.good()[4]
            data = data[:rng.randrange(1, len(data))]
            what = 'truncated'
            if len(data) >= 7 and self.complete(data):
                return
        elif r < 0.65:
            data = ''.join([chr(rng.choice([0, 0, 255, 1, rng.randrange(256)])) for k in range(rng.choice([1, 2, 5, 6, 7, 8, 20, 200]))])
            what = 'random'
            if self.complete(data):
                return
        elif r < 0.75:
            self.n += 1
            num = rng.choice(['\xff\xff\xf0\x01', '\xff\xfe', '\xfe', '\xff\xff\xff\x10', '\xff\xff\xff\xff', '\xff', '\xff\xff', '\xff\xff\xff'])
            data = ref.datagram(num, rng.choice([0, 0x40, 0x80, 0x10]), self.n, acks=rng.choice([None, [], [5]]))
            what = 'unknown number'
        elif r < 0.82:
            name = rng.choice(self.ctx.S.banned)
            mt = self.ctx.S.templates[name]
            self.n += 1
            data = ref.datagram(ref.enc_body(mt, gen.wire_message(rng, mt)), rng.choice([0, 0x40]), self.n)
            what = 'banned'
        elif r < 0.88:
            what, data = 'no datagram', ''
        else:
            # ack counts, extra lengths and run lengths that lie
            data = list(self.good()[4])
            what = 'lying'
            how = rng.randrange(3)
            if how == 0:
                data[0] = chr(ord(data[0]) | 0x10)
                data[-1] = chr(rng.choice([255, 200, 100]))
            elif how == 1:
                data[5] = '\xff'
            else:
                data[0] = chr(ord(data[0]) & 0x6f | 0x80)
                data = data[:6] + list(rng.choice(['\0', '\xff\0', '\xff\xff\0', '\xff\xff\0\xff' * 20]))
            data = ''.join(data)
            if self.complete(data):
                return
        self.ctx.note(what, addr, vcore.hexs(data)[:80])
        self.ctx.count('hostile: ' + what)
        inbox.append((addr, data))

    def complete(self, data):
        """it decodes all the same to a message somebody subscribed to"""
        if len(data) < 7:
            return False
        try:
            r = ref.decode(data)
        except Exception:
            # stricter than the library on what follows the body
            return any([self.has_number(data, n) for n in self.names])
        return r['name'] in self.names

    def has_number(self, data, n):
        h = self.ctx.S.templates[n].header()
        return len(h) > 1 and h in data or len(h) == 1


def case(ctx, i, rng):
    if i % 4 == 3:
        return lifecycle(ctx, rng)
    w = World(ctx, rng)
    if not w.constructed:
        w.m.start()
    stop_at = rng.randrange(4) == 0
    if stop_at:
        w.stop_at = rng.randrange(1, 15)
    for k in range(rng.choice([10, 30, 60])):
        if w.m.mm and hasattr(w.m, 'receives_at_stop'):
            break
        if rng.random() < 0.7:
            for j in range(rng.choice([1, 2, 6])):
                w.arrive()
        else:
            w.m.turns(rng.choice([1, 2, 4]))
    for k in range(600):
        if not w.m.udp.inbox or hasattr(w.m, 'receives_at_stop'):
            break
        w.m.turns(3)
        if k > 100 and k % 10 == 9:
            # a handler may sleep longer than so many turns take
            vtime.run(0.5)
    stopped = hasattr(w.m, 'receives_at_stop')
    w.m.turns(6)
    vtime.run(1)
    if not stopped:
        ctx.check(not w.m.udp.inbox, 'dead', 'the loop stopped receiving; %s datagrams wait', len(w.m.udp.inbox))
        ctx.check(len(w.got) == len(w.expected), 'deliveries', '%s messages delivered of %s: %s instead of %s', len(w.got), len(w.expected),
                  [m.name for m in w.got], [e[0] for e in w.expected])
    else:
        ctx.check(len(w.got) <= w.stop_at + 1, 'after-stop', '%s messages delivered, stopped at %s', len(w.got), w.stop_at)
    for k, m in enumerate(w.got):
        name, addr, wire, mt = w.expected[k]
        ctx.check(m.name == name, 'order', 'message %s delivered where %s is next', m.name, name)
        d = gen.diff(mt, gen.pad(mt, wire), m)
        ctx.check(d is None or gen.diff(mt, wire, m) is None, 'content', '%s delivered with another content: %s', name, d)
        ctx.count('delivered')
        ctx.distinct(name, gen.shape(mt, m))
    if not stopped:
        for a in w.addrs:
            missing = [x for x in w.reliable[a] if x not in w.acked[a]]
            ctx.check(not missing, 'unacked', 'reliable datagrams %s of %s are not acked', missing, a)
            ctx.count('acked reliable', len(w.reliable[a]))
        w.m.stop()
    finish(ctx, w.m, rng)
    ctx.sample('%d good among %d datagrams; event queue %s' % (len(w.expected), w.m.disp.packets_in, w.m.cap is not None))


def finish(ctx, m, rng):
    """after a stop: everything comes to an end"""
    iv = m.st.REGION_EVENT_QUEUE_POLL_INTERVAL
    at = m.receives_at_stop
    posts = m.cap and len(m.cap.posts) or 0
    if rng.randrange(3) == 0:
        m.turns(rng.choice([0, 1, 3]))
        m.stop()
        ctx.count('stopped twice')
    vtime.run(30 + 13 * iv)
    ctx.check(m.receives - at <= 1, 'iterations', 'the stopped loop makes %s iterations', m.receives - at)
    if m.cap:
        more = [p for p in m.cap.posts[posts:]]
        ctx.check(len([p for p in more if not p[1].get('done')]) <= 1 and len(more) <= 2 and not m.cap.pending, 'polls-after-stop', 'after the stop the event queue posts %s', more)
    vtime.quiet(ctx, ctx.S.hub, 'after stop_monitors')


def lifecycle(ctx, rng):
    """starting and stopping in every order"""
    vtime.clock.tick = 0.01
    q = rng.choice([None, 'queue', 'queue'])
    cap = mgr.Cap(ctx.S.api, rng, [IOError('x'), {'id': 1, 'events': []}, {'id': 2, 'events': [{'message': 'x', 'body': {}}]}, {'events': 1}] * 2) if q else None
    st = gen.settings(REGION_EVENT_QUEUE_POLL_INTERVAL=rng.choice([0.1, 1, 5]), ENABLE_REGION_EVENT_QUEUE=rng.randrange(3) > 0)
    constructor = rng.randrange(3) == 0
    m = mgr.Manager(ctx, rng, cap, st, constructor=constructor)
    if rng.randrange(6) == 0 and not constructor:
        m.stop()
        ctx.count('stopped before the start')
        if rng.randrange(2) or q:
            finish(ctx, m, rng)
            return
        finish(ctx, m, rng)
    if not constructor:
        m.start()
    gap = rng.choice([None, None, 0, 0.05, 1, 4, 20])
    if gap is not None:
        vtime.run(gap)
    if cap and st.ENABLE_REGION_EVENT_QUEUE and gap >= 20:
        ctx.check(len(cap.posts) > 0, 'no-polls', 'the event queue is not polled')
    if cap and not st.ENABLE_REGION_EVENT_QUEUE:
        ctx.check(not cap.posts, 'polls', 'the event queue is polled although it is disabled')
    if gap:
        ctx.check(m.receives > 0, 'no-loop', 'nothing is received %s s after the start', gap)
    m.stop()
    finish(ctx, m, rng)
    ctx.count('life cycles')
    ctx.distinct(q, gap, constructor, st.ENABLE_REGION_EVENT_QUEUE, st.REGION_EVENT_QUEUE_POLL_INTERVAL)
    if q is None and rng.randrange(2):
        # once more, after it has come to its end
        at = m.receives
        m.start()
        vtime.run(1)
        ctx.check(m.receives > at, 'restart', 'a manager started again receives nothing')
        m.stop()
        finish(ctx, m, rng)
        ctx.count('started again')
