"""C36: one dispatcher used by several coroutines over a transport that gives way in every send, judged by what crossed it"""
import vcore, vtime, ref, gen, fakes, mgr

CASES = {'quick': 400, 'thorough': 8000}
NAME, BLOCK, FIELD = 'CompletePingCheck', 'PingID', 'PingID'


def setup(ctx):
    ctx.S = mgr.Setup()
    from pyogp.lib.base.message.udpdispatcher import UDPDispatcher
    ctx.Disp = UDPDispatcher
    L = gen.lib()
    ctx.names = [n for n in ctx.S.names if n != 'RegionHandshakeReply']


class UDP(fakes.UDP):
    """like a coroutine socket: others run until it can be written to, or before it returns"""

    def __init__(self, world):
        fakes.UDP.__init__(self)
        self.world = world

    def send_packet(self, sock, data, host):
        w = self.world
        key = (host.ip, host.port), ref.split(data)[1]
        w.in_hand.append(key)
        if w.rng.random() < w.gives_way:
            self.give_way()
        w.in_hand.remove(key)
        w.on_wire((host.ip, host.port), data)
        if w.rng.random() < w.gives_way_after:
            w.ctx.count('gave way after a send')
            self.give_way()

    def give_way(self):
        w = self.world
        w.inside += 1
        w.ctx.count('gave way in a send')
        w.overlap = max(w.overlap, w.inside)
        vtime.run(w.rng.choice([0, 0, 0, 0.02, 0.2]))
        w.inside -= 1


class World(object):
    def __init__(self, ctx, rng):
        self.ctx, self.rng, self.S = ctx, rng, ctx.S
        self.gives_way = rng.choice([1, 1, 0.5, 0.1])
        self.gives_way_after = rng.choice([0, 0, 0.3, 1])
        self.inside = 0
        self.in_hand = []       # what is being sent
        self.overlap = 0
        self.st = gen.settings(ENABLE_DEFERRED_PACKET_PARSING=rng.randrange(2) == 0, HANDLE_OUTGOING_PACKETS=rng.randrange(3) == 0,
                               ENABLE_UDP_LOGGING=rng.randrange(2) == 0)
        self.handler = self.S.Handler(self.st)
        self.udp = UDP(self)
        self.d = ctx.Disp(self.udp, self.st, self.handler)
        self.addrs = [('10.0.0.%d' % k, 13000) for k in range(1, rng.choice([2, 3, 5]))]
        n = rng.choice([1, 2, 6])
        self.pool = [self.message() for k in range(n)]      # sent by several of them
        self.kinds = {}         # body -> kinds of sending it was given to, by address
        self.wire = dict([(a, {}) for a in self.addrs])     # id -> [body, kind flags, retransmissions]
        self.budget = {}        # (addr, body) -> retries of each reliable send of it
        self.acked = dict([(a, {}) for a in self.addrs])    # id -> retransmissions that were being sent when its ack came
        self.due = dict([(a, set()) for a in self.addrs])
        self.ever = dict([(a, set()) for a in self.addrs])
        self.listed = dict([(a, set()) for a in self.addrs])
        self.in_id = dict([(a, rng.choice([0, 700])) for a in self.addrs])
        self.left = 0
        self.acks_in = 0
        self.rounds = 0
        self.wild = rng.randrange(2)    # acks of what is being retransmitted
        if self.st.HANDLE_OUTGOING_PACKETS:
            for name in set([m[0].name for m in self.pool] + ['PacketAck']):
                self.handler.register(name).subscribe(vcore.guard(self.outgoing))

    def outgoing(self, m):
        if self.rng.randrange(4) == 0:
            vtime.run(0)

    def message(self):
        rng = self.rng
        mt = self.S.templates[rng.choice(self.ctx.names)]
        while True:
            libv, wire = gen.gen_message(rng, mt)
            body = ref.enc_body(mt, wire)
            if len(body) < 600:
                return gen.build(mt, libv), body
            mt = self.S.templates[rng.choice(self.ctx.names)]

    # the wire
    def on_wire(self, addr, data):
        c = self.ctx
        flags, pid, extra, body, acks = ref.split(data)
        c.check(addr in self.wire, 'address', 'a datagram goes to %s', addr)
        x = ref.decode(data)
        ids = list(acks or [])
        if x['name'] == 'PacketAck':
            ids += [b['ID'] for b in dict(x['blocks'])['Packets']]
        c.check(len(ids) <= 255, 'too-many', 'a datagram acknowledges %s ids', len(ids))
        for a in ids:
            c.check(a in self.ever[addr], 'invented', '%s is acknowledged id %s, which it never sent as reliable', addr, a)
            self.due[addr].discard(a)
            self.listed[addr].add(a)
        c.note('wire', addr[0], pid, '%02x' % flags, x['name'])
        old = self.wire[addr].get(pid)
        if old is None:
            self.wire[addr][pid] = [body, flags & (ref.RELIABLE | ref.RESENT), 0, x['name']]
            c.count('datagrams')
            return
        c.check(old[1] == ref.RELIABLE and flags & ref.RESENT and flags & ref.RELIABLE, 'reused', 'id %s to %s is used again, by a datagram with flags %02x', pid, addr, flags)
        c.check(body == old[0], 'body', 'id %s to %s is retransmitted as %s instead of %s', pid, addr, vcore.hexs(body), vcore.hexs(old[0]))
        old[2] += 1
        a = self.acked[addr].get(pid)
        # (it may have been on its way when the ack came, but only by the round of then)
        c.check(a is None or a > 0, 'after-ack', 'id %s to %s is retransmitted by a round after its ack came', pid, addr)
        if a is not None:
            self.acked[addr][pid] = a - 1
            c.count('retransmissions on their way when the ack came')
        c.count('retransmissions')

    # coroutines
    def sender(self, n):
        rng = self.rng
        for k in range(n):
            vtime.run(rng.choice([0, 0, 0.01, 0.3]))
            a = rng.choice(self.addrs)
            m, body = rng.choice(self.pool) if rng.randrange(3) == 0 else self.message()
            h = self.S.Host(a)
            r = rng.randrange(4)
            if r == 0:
                f, kind = (lambda: self.d.send_message(m, h)), 0
            elif r == 1:
                f, kind = (lambda: self.d.send_retry(m, h)), ref.RESENT
            else:
                retries = rng.choice([0, 1, 1, 2, 4])
                f, kind = (lambda: self.d.send_reliable(m, h, retries)), ref.RELIABLE
                self.budget.setdefault((a, body), []).append(retries)
            self.kinds.setdefault((a, body), []).append(kind)
            self.call('a send', f)
            self.ctx.count('sends')

    def receiver(self, n):
        rng = self.rng
        for k in range(n):
            vtime.run(rng.choice([0, 0, 0.01, 0.1]))
            self.receive(rng.choice(self.addrs), rng.randrange(2) and ref.RELIABLE)

    def receive(self, a, flags):
        rng = self.rng
        self.in_id[a] += 1
        pid = self.in_id[a]
        acks = []
        mine = sorted([i for i in self.wire[a] if self.wire[a][i][1] == ref.RELIABLE and i not in self.acked[a]])
        if mine and rng.randrange(3):
            acks = rng.sample(mine, min(len(mine), rng.choice([1, 1, 2, 5])))
        body = ref.enc_body(self.S.templates[NAME], {BLOCK: [{FIELD: 9}]})
        if acks and rng.randrange(3) == 0:
            body = ref.enc_body(self.S.templates['PacketAck'], {'Packets': [{'ID': i} for i in acks]})
            data = ref.datagram(body, flags, pid, '', None)
        else:
            data = ref.datagram(body, flags, pid, '', acks or None)
        if flags:
            self.ever[a].add(pid)
            self.due[a].add(pid)
        for i in acks:
            # rounds that have it in hand may still be waiting to send it
            self.acked[a][i] = self.in_hand.count((a, i))
        self.acks_in += len(acks)
        self.ctx.note('received', a[0], pid, acks, 'in sends:', self.inside)
        self.call('a receive', lambda: self.d.receive_check(self.S.Host(a), data, len(data)))
        if self.inside:
            self.ctx.count('received during a send')

    def rounder(self, n):
        for k in range(n):
            vtime.run(self.rng.choice([0, 0.05, 0.3]))
            self.call('an ack round', self.d.process_acks)
            self.rounds += 1

    def call(self, what, f):
        r = vcore.attempt(f)
        self.ctx.check(r[0] == 'ok', 'exception', '%s raises %s at %s', what, r[1], r[2] and vcore.tb_text(r[2]))

    def spawn(self, f, *a):
        self.left += 1

        def run():
            try:
                vcore.guard(f)(*a)
            finally:
                self.left -= 1
        self.S.api.spawn(run)


def case(ctx, i, rng):
    vtime.clock.now = 1000000000.0
    vtime.clock.tick = rng.choice([0.001, 0.01])
    w = World(ctx, rng)
    n = rng.choice([3, 10, 25])
    for k in range(rng.choice([1, 2, 4])):
        w.spawn(w.sender, n)
    for k in range(rng.choice([1, 1, 2])):
        w.spawn(w.receiver, n * 2)
    for k in range(rng.choice([1, 1, 2])):
        w.spawn(w.rounder, n)
    for k in range(3000):
        if not w.left:
            break
        vtime.run(0.1)
    ctx.check(not w.left, 'stuck', '%s of the coroutines do not end', w.left)
    w.gives_way = w.gives_way_after = 0
    for k in range(6):
        w.call('an ack round', w.d.process_acks)
    for a in w.addrs:
        ids = sorted(w.wire[a])
        ctx.check(ids == range(1, len(ids) + 1), 'numbering', 'the ids of the datagrams to %s are not consecutive: %s', a, [x for x, y in zip(ids, range(1, len(ids) + 1)) if x != y][:3] or ids[-3:])
        got = {}
        for j in ids:
            body, kind, again, name = w.wire[a][j]
            if name != 'PacketAck' or (a, body) in w.kinds:
                got.setdefault(body, []).append(kind)
        want = dict([(k[1], v) for k, v in w.kinds.items() if k[0] == a])
        ctx.check(sorted(got) == sorted(want), 'content', 'bodies sent to %s: %s unexpected, %s missing', a, len(set(got) - set(want)), len(set(want) - set(got)))
        for b in want:
            ctx.check(sorted(got[b]) == sorted(want[b]), 'flags', 'the message %s was sent to %s %s times with flags %s instead of %s', vcore.hexs(b), a, len(got[b]), sorted(got[b]), sorted(want[b]))
        ctx.check(not w.due[a], 'lost', 'ids %s from %s were never acknowledged', sorted(w.due[a]), a)
        c = w.d.circuit_manager.get_circuit(w.S.Host(a))
        out = set([j for j in ids if w.wire[a][j][1] == ref.RELIABLE and j not in w.acked[a]])
        if c is not None:
            have = set(c.unacked_packets) | set(c.final_retry_packets)
            ctx.check(have == out, 'outstanding', '%s: outstanding are %s, should be %s', a, sorted(have), sorted(out))
            ctx.check(c.unack_packet_count == len(c.unacked_packets), 'count', '%s: outstanding count %s for %s', a, c.unack_packet_count, len(c.unacked_packets))
        # retries: unacked ones are used up, and nothing is sent more often
        for b in want:
            most = sorted(w.budget.get((a, b), []))
            js = [j for j in ids if w.wire[a][j][0] == b and w.wire[a][j][1] == ref.RELIABLE]
            made = sorted([w.wire[a][j][2] for j in js])
            ctx.check(not [1 for x, y in zip(made, most) if x > y], 'too-often', 'a message with the retries %s was retransmitted to %s %s times', most, a, made)
            if not [j for j in js if j in w.acked[a]]:
                ctx.check(made == most, 'never', 'an unacked message with the retries %s was retransmitted to %s %s times', most, a, made)
    ctx.check(not w.d.has_unacked(), 'pending', 'acks are still pending after the last round')
    vtime.run(1)
    vtime.quiet(ctx, w.S.hub, 'at the end')
    ctx.count('overlapping sends', w.overlap > 1)
    ctx.count('acks received', w.acks_in)
    ctx.distinct(w.overlap, w.rounds, len(w.addrs), w.acks_in)
    ctx.sample('%d datagrams to %d addresses, up to %d sends at once, %d acks received' % (sum([len(w.wire[a]) for a in w.addrs]), len(w.addrs), w.overlap, w.acks_in))
