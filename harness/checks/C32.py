"""C32: two ends, both of the library, joined by a network that the harness plays"""
import vcore, vtime, mgr, ref, gen, fakes

CASES = {'quick': 160, 'thorough': 2600}


def setup(ctx):
    ctx.S = mgr.Setup()
    import disp
    ctx.D = disp.Setup()


FLOOD = 'CompletePingCheck'


class Bystander(object):
    """somebody who talks to ends that do not talk to it, and is owed acks"""

    def __init__(self, ctx, rng, net, me, names):
        self.ctx, self.rng, self.net, self.me, self.names = ctx, rng, net, me, names
        self.inbox = []
        self.log = None
        net.attach(me, self)
        self.n = 0
        self.reliable = {}      # address -> ids
        self.others = {}        # address -> messages for its handlers
        self.extra = {}

    def talk(self, end):
        rng = self.rng
        self.n += 1
        reliable = rng.randrange(3) > 0
        # nobody handles these
        name = rng.choice(self.ctx.S.names)
        if name in end.names:
            return
        mt = self.ctx.S.templates[name]
        data = ref.datagram(ref.enc_body(mt, gen.wire_message(rng, mt)), reliable and 0x40 or 0, self.n)
        if reliable:
            self.reliable.setdefault(end.me, []).append(self.n)
        self.log((end.me, data))
        self.ctx.count('datagrams of bystanders')

    def settle(self):
        acked = {}
        for src, data in self.inbox:
            d = ref.decode(data)
            acked.setdefault(src, []).extend(list(d['acks'] or []) + (d['name'] == 'PacketAck' and [b['ID'] for b in dict(d['blocks'])['Packets']] or []))
        for a in sorted(self.reliable):
            self.ctx.check(sorted(acked.get(a, [])) == self.reliable[a], 'bystander', '%s acks %s to %s, which sent it %s reliably', a, sorted(acked.get(a, [])), self.me, self.reliable[a])


class Net(object):
    """carries datagrams; every one is recorded"""

    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.ends = {}
        self.carried = []
        self.loss = lambda src, dst, data: False
        self.twice = 0.0

    def attach(self, addr, udp):
        self.ends[addr] = udp
        udp.log = lambda x: self.carry(addr, x[0], x[1])

    def carry(self, src, dst, data):
        self.ctx.check(dst in self.ends, 'stranger', 'a datagram is sent to %s', dst)
        lost = self.loss(src, dst, data)
        self.carried.append((src, dst, data, lost))
        self.ctx.note(src, '->', dst, lost and 'lost' or '', vcore.hexs(data)[:70])
        if lost:
            self.ctx.count('lost')
            return
        self.ends[dst].inbox.append((src, data))
        if self.twice and self.rng.random() < self.twice:
            self.ends[dst].inbox.append((src, data))
            self.ctx.count('delivered twice')


def message(ctx, rng, names):
    while True:
        name = rng.choice(names)
        mt = ctx.S.templates[name]
        libv, wire = gen.gen_message(rng, mt)
        if len(ref.enc_body(mt, wire)) < 3000:
            return gen.build(mt, libv), name, mt, wire


class End(object):
    """a manager, what it was given to send and what its handlers got"""

    def __init__(self, ctx, rng, net, me, peer, names, st):
        self.ctx, self.rng, self.me, self.peer, self.names = ctx, rng, me, peer, names
        self.m = mgr.Manager(ctx, rng, None, st, host=peer)
        net.attach(me, self.m.udp)
        self.out, self.got = [], []
        self.other = None
        self.handled = rng.sample(names, rng.randrange(len(names) // 2, len(names) + 1))
        for n in self.handled:
            self.m.handler.register(n).subscribe(vcore.guard(self.handler))
        self.answers = rng.random() < 0.4
        self.n_reliable = 0

    def enqueue(self):
        m, name, mt, wire = message(self.ctx, self.rng, self.names)
        reliable = self.rng.randrange(2) == 1
        self.m.mm.enqueue_message(m, reliable)
        self.out.append((name, mt, wire, reliable))
        self.n_reliable += reliable

    def handler(self, m):
        self.got.append(m)
        if self.answers and len(self.out) < 120 and self.rng.randrange(3) == 0:
            self.enqueue()
            self.ctx.count('answers')

    def circuit(self):
        # not find_circuit, which creates one
        return self.m.disp.circuit_manager.get_circuit(self.ctx.S.Host(self.peer))


def managers(ctx, rng):
    """over a network that loses nothing"""
    vtime.clock.tick = rng.choice([0.01, 0.05])
    net = Net(ctx, rng)
    shared = gen.settings(ENABLE_DEFERRED_PACKET_PARSING=rng.randrange(3) > 0, LOG_VERBOSE=rng.randrange(2) == 0) if rng.randrange(2) else None
    ends = []
    for k in range(rng.choice([1, 1, 2, 3])):
        a, b = ('10.0.%d.1' % k, 13000), ('10.0.%d.2' % k, rng.choice([13000, 13001]))
        if k and rng.randrange(2):
            a = (ends[0].me[0], 14000 + k)      # another port of one host
        names = rng.sample(ctx.S.names, 8)
        x, y = End(ctx, rng, net, a, b, names, shared), End(ctx, rng, net, b, a, names, shared)
        x.other, y.other = y, x
        ends += [x, y]
    others = [Bystander(ctx, rng, net, ('10.0.0.%d' % (k + 5), 13000 + k), names) for k in range(rng.choice([0, 0, 1, 2]))]
    for e in ends:
        for k in range(rng.choice([0, 0, 3])):
            e.enqueue()
    for e in rng.sample(ends, len(ends)):
        e.m.start()
        ends[0].m.turns(rng.choice([0, 1]))
    for k in range(rng.choice([5, 20, 40])):
        r = rng.random()
        for o in others:
            if rng.randrange(2):
                o.talk(rng.choice(ends))
        if r < 0.6:
            e = rng.choice(ends)
            for j in range(rng.choice([1, 2, 6])):
                e.enqueue()
        else:
            ends[0].m.turns(rng.choice([1, 1, 4]))
    for k in range(800):
        if not [e for e in ends if e.m.mm.outgoing_queue or e.m.udp.inbox]:
            break
        ends[0].m.turns(2)
    # the acks of the last ones, and what they bring about
    ends[0].m.turns(8)
    vtime.run(0.5)
    for e in ends:
        want = [x for x in e.other.out if x[0] in e.handled]
        ctx.check(len(e.got) == len(want), 'deliveries', '%s got %s of %s messages: %s instead of %s', e.me, len(e.got), len(want), [m.name for m in e.got], [x[0] for x in want])
        ids = []
        for m, (name, mt, wire, reliable) in zip(e.got, want):
            ctx.check(m.name == name, 'order', '%s got %s where %s is next', e.me, m.name, name)
            d = gen.diff(mt, wire, m)
            ctx.check(d is None or name == 'RegionHandshakeReply', 'content', '%s got another %s: %s', e.me, name, d)
            ctx.check(bool(m.reliable) == reliable, 'reliable', '%s, enqueued %s, arrived with reliable %s', name, reliable and 'as reliable' or 'as not reliable', m.reliable)
            ids.append(m.packet_id)
            ctx.count('messages delivered')
            ctx.distinct('manager', name, reliable, gen.shape(mt, m))
        ctx.check(ids == sorted(set(ids)), 'ids', '%s got the packet ids %s', e.me, ids)
        c = e.circuit()
        if c is not None:
            left = sorted(c.unacked_packets)
            ctx.check(not left and not c.unack_packet_count, 'outstanding', '%s: ids %s (count %s) of %s reliable messages are still outstanding although %s received everything', e.me, left, c.unack_packet_count, e.n_reliable, e.peer)
            ctx.check(not c.acks, 'pending', '%s owes %s acks', e.me, len(c.acks))
        ctx.count('reliable messages acked', e.n_reliable)
        known = [a for a in e.m.disp.circuit_manager.circuit_map if a not in [o.me for o in others]]
        ctx.check(known in ([], [e.peer]), 'circuits', '%s has circuits with %s', e.me, known)
    for o in others:
        o.settle()
    # silence: nothing bounces between them for good
    mark = len(net.carried)
    vtime.run(0.5)
    ctx.check(len(net.carried) == mark, 'chatter', '%s more datagrams after everything is delivered and acked', len(net.carried) - mark)
    for e in ends:
        e.m.stop()
    ends[0].m.turns(4)
    vtime.run(5)
    vtime.quiet(ctx, ctx.S.hub, 'after stopping')
    ctx.count('meshes of managers')
    ctx.sample('%d ends, %d datagrams carried' % (len(ends), len(net.carried)))


class Peer(object):
    def __init__(self, ctx, rng, net, me, st):
        self.ctx, self.me = ctx, me
        self.udp = fakes.UDP()
        self.handler = ctx.S.Handler(st)
        self.disp = ctx.D.dispatcher(self.handler, st, self.udp)
        net.attach(me, self.udp)
        self.got = {}       # (peer address, packet id) -> [messages]
        self.current = None
        self.acks = set()   # (peer, id) whose ack was delivered

    def listen(self, names, rng):
        for n in names:
            self.handler.register(n).subscribe(vcore.guard(self.on_message))

    def on_message(self, m):
        self.got.setdefault((self.current, m.packet_id), []).append(m)

    def receive(self, how_many):
        for k in range(how_many):
            if not self.udp.inbox:
                return
            src, data = self.udp.inbox.pop(0)
            self.current = src
            d = ref.decode(data)
            for a in list(d['acks'] or []) + (d['name'] == 'PacketAck' and [b['ID'] for b in dict(d['blocks'])['Packets']] or []):
                self.acks.add((src, a))
            self.disp.receive_check(self.ctx.S.Host(src), data, len(data))


def lossy(ctx, rng):
    """dispatchers over a network that loses and doubles datagrams: n retries outlast n losses"""
    net = Net(ctx, rng)
    st = gen.settings(ENABLE_DEFERRED_PACKET_PARSING=rng.randrange(2) == 0)
    addrs = [('10.0.0.%d' % k, 9000) for k in range(1, rng.choice([3, 3, 4]))]
    peers = dict([(a, Peer(ctx, rng, net, a, st)) for a in addrs])
    names = [n for n in rng.sample(ctx.S.names, 8) if n not in ('RegionHandshakeReply', FLOOD)] + [FLOOD]
    for p in peers.values():
        p.listen(names, rng)
    sent = {}       # (src, dst, id) -> [name, mt, wire, retries, copies carried, copies lost]
    p_loss = rng.choice([0.1, 0.4, 0.7])
    net.twice = rng.choice([0, 0.1])
    ack_loss = rng.choice([0, 0.2, 0.5])
    now = [None]

    def loss(src, dst, data):
        d = ref.split(data)
        if d[3][:4] == '\xff\xff\xff\xfb':
            return rng.random() < ack_loss
        k = (src, dst, d[1])
        if k not in sent:
            sent[k] = now[0] + [0, 0]
            ctx.check(now[0] is not None, 'unexpected', 'a new message with id %s goes from %s to %s', d[1], src, dst)
        r = sent[k]
        r[4] += 1
        # at most as many losses as retries
        lost = rng.random() < p_loss and (r[5] < r[3] or r[3] is None)
        r[5] += lost
        return lost
    net.loss = loss
    for k in range(rng.choice([5, 20, 40])):
        r = rng.random()
        if r < 0.5:
            a, b = rng.sample(addrs, 2)
            m, name, mt, wire = message(ctx, rng, names)
            n = rng.choice([1, 2, 3, 5])
            now[0] = [name, mt, wire, n]
            peers[a].disp.send_reliable(m, ctx.S.Host(b), n)
            now[0] = None
        elif r < 0.8:
            p = peers[rng.choice(addrs)]
            p.receive(rng.choice([1, 3, 10]))
        else:
            peers[rng.choice(addrs)].disp.process_acks()
    if rng.randrange(5) == 0:
        # many at once, and nothing else to carry their acks
        a, b = rng.sample(addrs, 2)
        name = FLOOD
        mt = ctx.S.templates[name]
        for k in range(rng.choice([250, 256, 400, 600])):
            libv, wire = gen.gen_message(rng, mt)
            now[0] = [name, mt, wire, 2]
            peers[a].disp.send_reliable(gen.build(mt, libv), ctx.S.Host(b), 2)
            now[0] = None
        ctx.count('floods')
    for k in range(8):
        for a in addrs:
            peers[a].receive(100000)
        for a in addrs:
            peers[a].disp.process_acks()
    for a in addrs:
        peers[a].receive(100000)
    for k in sorted(sent):
        src, dst, pid = k
        name, mt, wire, n, copies, lost = sent[k]
        got = peers[dst].got.get((src, pid), [])
        ctx.check(got, 'lost', '%s from %s to %s with %s retries: %s of %s copies were lost, and it never arrived', name, src, dst, n, lost, copies)
        ctx.check(copies <= n + 1, 'copies', '%s with %s retries was transmitted %s times', name, n, copies)
        ctx.check(len(got) <= 2 * copies, 'multiplied', '%s arrived %s times from %s copies', name, len(got), copies)
        for m in got:
            d = m.name != name and 'it is a ' + m.name or gen.diff(mt, wire, m)
            ctx.check(d is None, 'content', '%s arrived from %s with id %s, but %s', name, src, pid, d)
        c = peers[src].disp.circuit_manager.get_circuit(ctx.S.Host(dst))
        acked = (dst, pid) in peers[src].acks
        ctx.check((pid in c.unacked_packets) == (not acked), 'outstanding', '%s from %s with id %s is%s outstanding although its ack was%s delivered', name, src, pid, pid in c.unacked_packets and ' ' or ' not', acked and ' ' or ' not')
        ctx.count('reliable messages')
        if lost:
            ctx.count('that were lost at first')
        ctx.distinct('lossy', name, n, copies, lost)
    for dst in addrs:
        for (src, pid) in peers[dst].got:
            ctx.check((src, dst, pid) in sent, 'invented', '%s got a message with id %s from %s, which was never sent', dst, pid, src)
    ctx.count('lossy networks')
    ctx.sample('%d dispatchers, %d datagrams carried, %d lost' % (len(addrs), len(net.carried), len([1 for x in net.carried if x[3]])))


def case(ctx, i, rng):
    if i % 2:
        managers(ctx, rng)
    else:
        lossy(ctx, rng)
