"""C33: the circuit registry and the dispatcher's counters against a model of them"""
import vcore, ref, gen, fakes, disp

CASES = {'quick': 300, 'thorough': 5000}


def setup(ctx):
    ctx.S = disp.Setup()


class Fail(vcore.Deliberate):
    pass


class Client(fakes.UDP):
    """one that fails at times"""
    failing = False
    world = None

    def send_packet(self, sock, data, host):
        if self.failing:
            raise Fail('deliberate')
        fakes.UDP.send_packet(self, sock, data, host)
        # others run while it waits
        if self.world is not None:
            vcore.guard(self.world.meanwhile)('a send')


class World(object):
    def __init__(self, ctx, rng):
        self.ctx, self.rng, self.S = ctx, rng, ctx.S
        self.st = gen.settings(ENABLE_DEFERRED_PACKET_PARSING=rng.randrange(2) == 0)
        self.udp = Client()
        self.handler = self.S.Handler(self.st)
        self.disp = self.S.dispatcher(self.handler, self.st, self.udp)
        self.cm = self.disp.circuit_manager
        self.addrs = [('10.0.0.1', 9000), ('10.0.0.1', 9001), ('10.0.0.2', 9000), ('10.0.0.12', 900)][:rng.choice([1, 2, 3, 4])]
        self.live = {}      # addr -> [last id, ids that may be acked, ids that may be resent, slack]
        self.known = {}     # addr -> circuit object
        self.n_in = self.n_out = 0
        self.pid = 0
        self.hosts = {}
        self.gone = rng.choice([0, 0, 0.05, 0.3])   # how often circuits are removed in the middle of something
        self.heard = set()
        self.udp.world = self

    def meanwhile(self, what, m=None):
        if self.rng.random() >= self.gone:
            return
        addr = self.rng.choice(self.addrs)
        self.ctx.note('remove', addr, 'during', what)
        r = vcore.attempt(self.cm.remove_circuit_data, self.host(addr))
        self.ctx.check(r[0] == 'ok', 'remove', 'removing the circuit of %s raises %s', addr, repr(r[1]))
        self.udp.sent.append((addr, None))

    def host(self, addr):
        if self.rng.randrange(2):
            return self.S.Host(addr)
        return self.hosts.setdefault(addr, self.S.Host(addr))

    def entry(self, addr):
        if addr not in self.live:
            self.live[addr] = [0, set(), set(), 0]
            self.known.pop(addr, None)
            self.ctx.count('circuits made')
        return self.live[addr]

    def outs(self, fresh_for=None):
        n = 0
        for addr, data in self.udp.take():
            if data is None:
                if self.live.pop(addr, None):
                    self.ctx.count('removed meanwhile')
                continue
            self.n_out += 1
            d = ref.decode(data)
            e = self.live.get(addr)
            self.ctx.check(e is not None, 'forgotten-sent', '%s with id %s is sent to %s, whose circuit was removed', d['name'], d['id'], addr)
            ids = list(d['acks'] or [])
            if d['name'] == 'PacketAck':
                ids += [b['ID'] for b in dict(d['blocks'])['Packets']]
            for a in ids:
                self.ctx.check(a in e[1], 'forgotten-acked', 'id %s of %s is acked, which its circuit has not received', a, addr)
            if d['flags'] & ref.RESENT and d['id'] in e[2]:
                self.ctx.count('retransmissions')
                continue
            if fresh_for is None:
                self.ctx.check(d['name'] == 'PacketAck', 'forgotten-resent', '%s with id %s is retransmitted to %s, whose circuit has not sent it', d['name'], d['id'], addr)
            ok = e[0] < d['id'] <= e[0] + 1 + e[3]
            self.ctx.check(ok, 'numbering', '%s to %s has packet id %s after %s', d['name'], addr, d['id'], e[0])
            e[0], e[3] = d['id'], 0
            n += 1
        return n

    def send(self):
        rng = self.rng
        addr = rng.choice(self.addrs)
        while True:
            mt = self.S.templates[rng.choice(self.S.names)]
            if mt.name == 'RegionHandshakeReply':
                continue
            libv, wire = gen.gen_message(rng, mt)
            if len(ref.enc_body(mt, wire)) < 1200:
                break
        m = gen.build(mt, libv)
        e = self.entry(addr)
        self.udp.failing = rng.randrange(6) == 0
        k = rng.choice(['plain', 'reliable', 'retry'])
        self.ctx.note(k, addr, mt.name, self.udp.failing and 'failing' or '')
        n = rng.choice([0, 1, 3])
        if k == 'plain':
            f = lambda: self.disp.send_message(m, self.host(addr))
        elif k == 'retry':
            f = lambda: self.disp.send_retry(m, self.host(addr))
        else:
            f = lambda: self.disp.send_reliable(m, self.host(addr), n)
        r = vcore.attempt(f)
        failed, self.udp.failing = self.udp.failing, False
        self.ctx.check(r[0] == 'ok', 'raised', 'sending through a client that %s raises %s', failed and 'fails' or 'works', repr(r[1]))
        before = e[0]
        if failed:
            self.ctx.check(not self.udp.sent, 'harness', 'nothing is sent by a failing client')
            e[3] += 1
            if k == 'reliable':
                e[2].update([before + 1 + j for j in range(e[3])])
            self.ctx.count('failed sends')
            return
        n = self.outs(addr)
        self.ctx.check(n == 1, 'sent', 'a send to %s makes %s datagrams', addr, n)
        if k == 'reliable':
            e[2].add(e[0])
        self.ctx.count('sends')

    def recv(self):
        rng = self.rng
        addr = rng.choice(self.addrs)
        e = self.entry(addr)
        k = rng.choice(['good', 'good', 'unknown', 'bad', 'banned'])
        self.pid += 1
        if k == 'good':
            mt = self.S.templates[rng.choice(self.S.names)]
        elif k == 'banned':
            mt = self.S.templates[rng.choice(self.S.banned)]
        flags = rng.choice([0, ref.RELIABLE])
        if k in ('good', 'banned'):
            data = ref.datagram(ref.enc_body(mt, gen.wire_message(rng, mt)), flags, self.pid)
        elif k == 'unknown':
            data = ref.datagram('\xff\xff\xee\xee', flags, self.pid)
        else:
            data = ''.join([chr(rng.randrange(256)) for j in range(rng.randrange(1, 7))])
        if flags:
            e[1].add(self.pid)
        self.ctx.note('receive', k, addr, self.pid)
        self.n_in += 1
        if k == 'good' and mt.name not in self.heard:
            self.heard.add(mt.name)
            self.handler.register(mt.name).subscribe(vcore.guard(lambda m: self.meanwhile('a delivery')))
        try:
            self.disp.receive_check(self.host(addr), data, len(data))
        except self.S.exc.MessageDeserializationError:
            pass
        self.outs()
        self.ctx.count('received')

    def nothing(self):
        self.disp.receive_check(self.host(self.rng.choice(self.addrs + [('10.9.9.9', 9)])), '', 0)
        self.ctx.note('receive nothing')

    def round(self):
        self.ctx.note('round')
        self.disp.process_acks()
        self.outs()

    def add(self):
        addr = self.rng.choice(self.addrs)
        if addr in self.live:
            return
        self.ctx.note('add', addr)
        c = self.cm.add_circuit(self.host(addr), self.rng.choice([-1, 0, 7]))
        self.entry(addr)
        self.ctx.check(c is self.cm.get_circuit(self.host(addr)), 'added', 'the circuit added for %s is not the one found', addr)
        self.ctx.count('added')

    def remove(self):
        addr = self.rng.choice(self.addrs + [('10.0.0.1', 9002), ('10.9.9.9', 9000)])
        self.ctx.note('remove', addr)
        r = vcore.attempt(self.cm.remove_circuit_data, self.host(addr))
        self.ctx.check(r[0] == 'ok', 'remove', 'removing the circuit of %s raises %s', addr, repr(r[1]))
        if self.live.pop(addr, None):
            self.ctx.count('removed')
        else:
            self.ctx.count('removed in vain')

    def look(self):
        for a in self.addrs + [('10.9.9.9', 9), ('10.0.0.1', 9002)]:
            h = self.host(a)
            c = self.cm.get_circuit(h)
            alive = self.cm.is_circuit_alive(h)
            self.ctx.check((c is not None) == (a in self.live), 'registry', 'a circuit for %s is%s found', a, c is None and ' not' or '')
            self.ctx.check(bool(alive) == (a in self.live), 'alive', 'the circuit of %s is reported %s', a, alive)
            if c is None:
                continue
            old = self.known.setdefault(a, c)
            self.ctx.check(old is c, 'replaced', 'the circuit of %s is another one now', a)
            self.ctx.check((c.host.ip, c.host.port) == a, 'host', 'the circuit of %s has the host %s', a, c.host)
            for b in self.live:
                if b != a:
                    self.ctx.check(self.cm.get_circuit(self.host(b)) is not c, 'shared', '%s and %s share a circuit', a, b)
            self.ctx.check(set(c.acks) <= self.live[a][1], 'acks', 'the circuit of %s owes acks %s', a, c.acks)
            self.ctx.check(set(c.unacked_packets) <= self.live[a][2], 'unacked', 'the circuit of %s has %s outstanding', a, sorted(c.unacked_packets))
        self.ctx.check(self.disp.packets_in == self.n_in, 'packets-in', '%s datagrams received are counted as %s', self.n_in, self.disp.packets_in)
        self.ctx.check(self.disp.packets_out == self.n_out, 'packets-out', '%s datagrams sent are counted as %s', self.n_out, self.disp.packets_out)
        want = bool([a for a in self.live if self.cm.get_circuit(self.S.Host(a)).acks])
        self.ctx.check(bool(self.disp.has_unacked()) == want, 'has-unacked', 'has_unacked is %s', self.disp.has_unacked())
        self.ctx.distinct(sorted([(a, e[0], len(e[1]), len(e[2])) for a, e in self.live.items()]))


def case(ctx, i, rng):
    if i % 40 == 2:
        disp.crowd(ctx, rng, rng.choice([40, 150, 400]), 1200, ('registry', 'numbering'))
        return
    w = World(ctx, rng)
    ops = [w.send] * 6 + [w.recv] * 6 + [w.round] * 2 + [w.remove] * 2 + [w.add, w.nothing]
    w.look()
    for k in range(rng.choice([10, 30, 60])):
        rng.choice(ops)()
        w.look()
    ctx.sample('%d datagrams in, %d out, circuits %s' % (w.n_in, w.n_out, sorted(w.live)))
