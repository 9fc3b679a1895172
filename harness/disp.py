"""A dispatcher under random traffic with several hosts, and the monitors of C09 to C12 over what crosses its UDP client.

Every operation is one step; the datagrams it hands to the UDP client are decoded by the independent codec and given to the monitors."""
import vcore, ref, gen, fakes


class Setup(object):
    def __init__(self):
        vcore.boot()
        from pyogp.lib.base.message.udpdispatcher import UDPDispatcher
        from pyogp.lib.base.message.message_handler import MessageHandler
        from pyogp.lib.base.message.circuit import Host
        from pyogp.lib.base import exc
        self.Dispatcher, self.Handler, self.Host, self.exc = UDPDispatcher, MessageHandler, Host, exc
        self.templates, self.all = ref.builtin()
        self.names = [n for n in ref.permitted() if n != 'PacketAck']
        self.banned = [n for n in self.all if n in ref.banned()]
        self.pool = []

    def dispatcher(self, handler, st, udp):
        return self.Dispatcher(udp, st, handler)


class Boom(vcore.Deliberate):
    pass


class World(object):
    def __init__(self, ctx, rng, monitors, weights, retries=(0,)):
        self.ctx, self.rng, self.S = ctx, rng, ctx.S
        self.st = gen.settings(ENABLE_DEFERRED_PACKET_PARSING=rng.randrange(3) > 0, HANDLE_PACKETS=rng.randrange(5) > 0,
                               HANDLE_OUTGOING_PACKETS=rng.randrange(5) == 0)
        if rng.randrange(4) == 0:
            self.st.ENABLE_UDP_LOGGING = False
        self.handler = self.S.Handler(self.st)
        self.hosts = {}
        self.other = None
        self.recent = []
        self.receiving = None     # what is being received, until its handlers run
        self.in_handler = False
        self.lively = rng.randrange(3) == 0
        self.udp = fakes.UDP()
        self.disp = self.S.dispatcher(self.handler, self.st, self.udp)
        ips = ['10.0.0.%d' % k for k in range(1, 4)]
        addrs = [(ip, port) for ip in ips for port in (9000, 9001)]
        rng.shuffle(addrs)
        self.addrs = addrs[:rng.choice([1, 2, 3, 3, 4, 6])]
        self.registered = rng.sample(self.S.names, 12)
        for n in self.registered:
            self.handler.register(n)
            if rng.randrange(2):
                self.handler.register(n).subscribe(vcore.guard(self.on_message))
        self.weights = weights
        self.retries = retries
        self.m = [x(self) for x in monitors]
        self.in_ids = dict([(a, rng.choice([0, 1, 500, (1 << 32) - 40])) for a in self.addrs])
        self.old = []
        self.reused = []
        self.passing = []
        self.sent_ids = dict([(a, []) for a in self.addrs])    # reliable ids this side sent
        self.all_ids = dict([(a, []) for a in self.addrs])

    def host(self, addr):
        # the same object again, or an equal one
        k = self.rng.randrange(5)
        if k == 0:
            # one that its owner uses for another address afterwards
            h = self.S.Host(addr)
            self.passing.append(h)
            return h
        if k < 3:
            return self.S.Host(addr)
        if addr not in self.hosts:
            self.hosts[addr] = self.S.Host(addr)
        return self.hosts[addr]

    def step(self):
        ops = []
        for k in self.weights:
            ops += [k] * self.weights[k]
        op = self.rng.choice(ops)
        getattr(self, 'op_' + op)()
        for h in self.passing:
            h.ip, h.port = self.rng.choice(self.addrs + [('10.9.9.9', 9)])
        del self.passing[:]
        self.ctx.count('op ' + op)

    def event(self, what, **kw):
        outs = []
        for addr, data in self.udp.take():
            try:
                d = ref.decode(data)
            except ref.Bad, e:
                self.ctx.violate('bad-datagram', 'datagram %s to %s is not well-formed: %s' % (vcore.hexs(data), addr, e))
                continue
            d['addr'], d['data'] = addr, data
            outs.append(d)
        self.ctx.note(what, [(k, vcore.short(kw[k])) for k in sorted(kw)], 'out', [(d['addr'], d['name'], d['id'], '%02x' % d['flags'], d['acks']) for d in outs])
        self.ctx.count('datagrams out', len(outs))
        for m in self.m:
            getattr(m, what)(outs=outs, **kw)
        for m in self.m:
            m.always()

    # sends ----------------------------------------------------------------
    def small(self):
        rng = self.rng
        k = rng.randrange(10)
        if self.old and k == 0:
            i = rng.randrange(len(self.old))
            if rng.randrange(2):
                # its owner has changed it meanwhile
                m, mt = self.old[i][0], self.S.templates[self.old[i][0].name]
                self.old[i] = (m, ref.enc_body(mt, gen.change(rng, mt, m)))
                self.ctx.count('messages changed and sent again')
            return self.old[i]
        while True:
            mt = self.S.templates[rng.choice(self.S.names)]
            if mt.name == 'RegionHandshakeReply':
                continue
            libv, wire = gen.gen_message(rng, mt)
            body = ref.enc_body(mt, wire)
            if len(body) < 1200:
                break
        m = gen.build(mt, libv)
        self.old = (self.old + [(m, body)])[-5:]
        return m, body

    def op_send(self):
        self.send('plain')

    def op_reliable(self):
        self.send('reliable', self.rng.choice(self.retries))

    def op_retry(self):
        self.send('retry')

    def send(self, kind, n=0):
        addr = self.rng.choice(self.addrs)
        m, body = self.small()
        arg = m
        if self.rng.randrange(8) == 0:
            arg = lambda: m
        h = self.host(addr)
        if kind == 'plain':
            self.disp.send_message(arg, h)
        elif kind == 'retry':
            self.disp.send_retry(arg, h)
        else:
            self.disp.send_reliable(arg, h, n)
        self.event('sent', kind=kind, addr=addr, body=body, retries=n, message=m)

    def op_unusable(self):
        m, body = self.small()
        bad = self.rng.choice([(None, 9000), ('10.0.0.1', None), (None, None), (0, 9000), ('10.0.0.1', 0)])
        h = self.host(bad)
        f = self.rng.choice([self.disp.send_message, self.disp.send_retry, lambda a, b: self.disp.send_reliable(a, b, self.rng.choice(self.retries))])
        f(m, h)
        self.event('unusable', addr=bad)

    def op_other(self):
        """another dispatcher talks to the same hosts: nothing of it shows here"""
        if self.other is None:
            self.other_udp = fakes.UDP()
            self.other = self.S.dispatcher(self.S.Handler(self.st), self.st, self.other_udp)
            self.other_last = dict([(a, 0) for a in self.addrs])
        addr = self.rng.choice(self.addrs)
        h = self.host(addr)
        if self.rng.randrange(3) == 0:
            mt = self.S.templates['CompletePingCheck']
            data = ref.datagram(ref.enc_body(mt, {'PingID': [{'PingID': 3}]}), ref.RELIABLE, self.rng.randrange(1 << 20))
            self.other.receive_check(h, data, len(data))
        else:
            m, body = self.small()
            if self.rng.randrange(2):
                self.other.send_reliable(m, h, 0)
            else:
                self.other.send_message(m, h)
        for a, data in self.other_udp.take():
            pid = ref.split(data)[1]
            self.ctx.check(a == addr and pid == self.other_last[addr] + 1, 'other-dispatcher', 'another dispatcher sends packet id %s to %s after %s to %s', pid, a, self.other_last[addr], addr)
            self.other_last[addr] = pid
        self.event('nothing')

    def op_misfit(self):
        """a message that cannot be encoded"""
        addr = self.rng.choice(self.addrs)
        m = gen.lib().Message('NoSuchMessage')
        if self.rng.randrange(2):
            m = gen.lib().Message(self.rng.choice(self.S.banned))
        self.disp.send_message(m, self.host(addr))
        self.event('misfit', addr=addr)

    # receives -------------------------------------------------------------
    def op_recv(self):
        rng = self.rng
        addr = rng.choice(self.addrs)
        k = rng.choice(['registered', 'registered', 'skipped', 'skipped', 'banned', 'unknown', 'empty'] + ['PacketAck'] * 3)
        flags = rng.choice([0, ref.RELIABLE, ref.RELIABLE, ref.RELIABLE | ref.RESENT, ref.RESENT]) | rng.choice([0, 0, ref.ZERO])
        self.in_ids[addr] = (self.in_ids[addr] + 1) % (1 << 32)
        pid = self.in_ids[addr]
        if rng.randrange(6) == 0:
            pid = gen.rand_id(rng)
        acks = None
        if rng.randrange(2):
            acks = self.some_ids(addr, rng.choice([1, 1, 2, 5]))
        again = [r for r in self.recent if r[0] == addr]
        if again and rng.randrange(6) == 0:
            # sent again by the other end, with the acks it has by now
            addr, k, pid, body, packed, flags = rng.choice(again)
            flags |= ref.RELIABLE | rng.choice([0, ref.RESENT, ref.RESENT])
            self.receive(addr, k, pid, body, packed, flags, acks)
            self.ctx.count('received again')
            return
        packed = []
        if k == 'unknown':
            body = '\xff\xff\xee' + chr(rng.randrange(256)) + 'xyz'
        elif k == 'PacketAck':
            packed = self.some_ids(addr, rng.choice([1, 1, 2, 3, 20]))
            body = ref.enc_body(self.S.templates['PacketAck'], {'Packets': [{'ID': a} for a in packed]})
        else:
            if k == 'registered':
                n = rng.choice(self.registered)
            elif k == 'banned':
                n = rng.choice(self.S.banned)
            else:
                n = rng.choice(self.S.names)
            mt = self.S.templates[n]
            body = ref.enc_body(mt, gen.wire_message(rng, mt))
        if k == 'empty':
            self.disp.receive_check(self.host(addr), '', 0)
            self.event('received', addr=addr, kind=k, pid=None, reliable=False, acks=[])
            return
        if flags & ref.RELIABLE:
            self.recent = (self.recent + [(addr, k, pid, body, packed, flags)])[-6:]
        self.receive(addr, k, pid, body, packed, flags, acks)

    def receive(self, addr, k, pid, body, packed, flags, acks):
        data = ref.datagram(body, flags, pid, self.rng.choice(['', '', '', 'ex', '\0' * 3, 'x' * 200]), acks)
        self.receiving = dict(addr=addr, kind=k, pid=pid, reliable=bool(flags & ref.RELIABLE), acks=(acks or []) + packed)
        try:
            self.disp.receive_check(self.host(addr), data, len(data))
        except Boom:
            self.ctx.count('handlers that raise')
        self.received()

    def received(self):
        kw, self.receiving = self.receiving, None
        if kw:
            self.event('received', **kw)
        else:
            self.event('handled')

    def on_message(self, m):
        """a handler that sends messages, or fails"""
        if self.in_handler or not self.lively or self.receiving is None:
            return
        self.in_handler = True
        try:
            if self.rng.randrange(2):
                self.received()
                for k in range(self.rng.choice([1, 1, 2])):
                    self.send(self.rng.choice(['plain', 'reliable', 'retry']), self.rng.choice(self.retries))
                    self.ctx.count('sent by handlers')
        finally:
            self.in_handler = False
        if self.rng.randrange(3) == 0:
            raise Boom('deliberate')

    def op_burst(self):
        """many reliable datagrams at once"""
        rng = self.rng
        addr = rng.choice(self.addrs)
        mt = self.S.templates['CompletePingCheck']
        for k in range(rng.choice([3, 20, 250, 251, 252, 255, 256, 300, 502, 600])):
            self.in_ids[addr] = (self.in_ids[addr] + 1) % (1 << 32)
            data = ref.datagram(ref.enc_body(mt, {'PingID': [{'PingID': 3}]}), ref.RELIABLE, self.in_ids[addr])
            self.disp.receive_check(self.host(addr), data, len(data))
            self.event('received', addr=addr, kind='burst', pid=self.in_ids[addr], reliable=True, acks=[])

    def op_malformed(self):
        """one that ends in the middle (no acks in it); the ack of it is optional"""
        rng = self.rng
        addr = rng.choice(self.addrs)
        mt = self.S.templates[rng.choice(self.registered)]
        data = ref.datagram(ref.enc_body(mt, gen.wire_message(rng, mt)), rng.choice([0, ref.RELIABLE]), gen.rand_id(rng))
        data = data[:rng.randrange(7, len(data) + 1)]
        try:
            self.disp.receive_check(self.host(addr), data, len(data))
        except self.S.exc.MessageDeserializationError:
            pass
        self.event('received', addr=addr, kind='malformed', pid=ref.struct.unpack('>I', data[1:5])[0], reliable=bool(ord(data[0]) & ref.RELIABLE), acks=[])

    def some_ids(self, addr, n):
        """ids to ack: outstanding, old, foreign, unknown, repeated"""
        rng = self.rng
        out = []
        for k in range(n):
            c = rng.choice(['mine', 'mine', 'mine', 'any', 'foreign', 'unknown', 'twice'])
            if c == 'mine' and self.sent_ids[addr]:
                out.append(rng.choice(self.sent_ids[addr][-8:]))
            elif c == 'any' and self.all_ids[addr]:
                out.append(rng.choice(self.all_ids[addr]))
            elif c == 'foreign':
                other = rng.choice(self.addrs)
                if self.sent_ids[other]:
                    out.append(rng.choice(self.sent_ids[other][-8:]))
            elif c == 'twice' and out:
                out.append(out[-1])
            elif c == 'unknown':
                out.append(rng.choice([0, 99999, (1 << 32) - 1]))
        return out or [0]

    def op_round(self):
        self.disp.process_acks()
        self.event('round')


class Monitor(object):
    def __init__(self, w):
        self.w, self.ctx = w, w.ctx
        self.init()

    def init(self):
        pass

    def ignore(self, **kw):
        pass

    sent = received = round = unusable = misfit = ignore

    def handled(self, outs):
        self.ctx.check(outs == [], 'echo', 'receiving sends %s', [(d['name'], d['addr']) for d in outs])

    def nothing(self, outs):
        self.ctx.check(outs == [], 'other-sends', 'another dispatcher sends through this one: %s', [(d['name'], d['addr']) for d in outs])

    def always(self):
        pass


class Track(Monitor):
    """keeps what generators need, and that is all"""

    def sent(self, outs, kind, addr, **kw):
        for d in outs:
            if d['addr'] in self.w.all_ids:
                self.w.all_ids[d['addr']].append(d['id'])
                if kind == 'reliable' and d['addr'] == addr:
                    self.w.sent_ids[addr].append(d['id'])


class Numbering(Monitor):
    """C09"""

    def init(self):
        self.last = dict([(a, 0) for a in self.w.addrs])
        self.slack = dict([(a, 0) for a in self.w.addrs])
        self.circuits = {}

    def new(self, d, addr, how):
        ctx = self.ctx
        ctx.check(d['addr'] == addr, 'address', '%s for %s went to %s', how, addr, d['addr'])
        ok = self.last[addr] < d['id'] <= self.last[addr] + 1 + self.slack[addr]
        ctx.check(ok, 'numbering', '%s to %s has packet id %s after %s', how, addr, d['id'], self.last[addr])
        self.last[addr], self.slack[addr] = d['id'], 0

    def sent(self, outs, kind, addr, body, **kw):
        ctx = self.ctx
        ctx.check(len(outs) == 1, 'datagrams', '%s send to %s makes %s datagrams', kind, addr, len(outs))
        d = outs[0]
        self.new(d, addr, kind + ' send')
        want = {'plain': 0, 'reliable': ref.RELIABLE, 'retry': ref.RESENT}[kind]
        ctx.check(d['flags'] & (ref.RELIABLE | ref.RESENT) == want, 'flags', '%s send to %s has flags %s', kind, addr, hex(d['flags']))
        got = ref.split(d['data'])[3]
        ctx.check(got == body, 'body', '%s send to %s has body %s instead of %s', kind, addr, vcore.hexs(got), vcore.hexs(body))
        ctx.distinct(kind, len(self.w.addrs), self.last[addr], d['name'])

    def round(self, outs):
        for d in outs:
            self.ctx.check(d['addr'] in self.last, 'stranger', 'an ack round sends to %s', d['addr'])
            if d['id'] <= self.last[d['addr']]:
                # a retransmission names a message sent earlier
                self.ctx.check(d['flags'] & ref.RESENT, 'reused', 'an ack round sends %s to %s with the used id %s', d['name'], d['addr'], d['id'])
                self.ctx.count('retransmissions')
            else:
                self.new(d, d['addr'], 'ack round ' + d['name'])

    def received(self, outs, addr, **kw):
        self.ctx.check(outs == [], 'echo', 'receiving from %s sends %s', addr, [d['name'] for d in outs])

    def unusable(self, outs, addr):
        self.ctx.check(outs == [], 'unusable', 'sending to %s transmits %s datagrams', addr, len(outs))

    def misfit(self, outs, addr):
        self.slack[addr] += 1

    def always(self):
        cm = self.w.disp.circuit_manager
        for a in self.w.addrs:
            c1, c2 = cm.get_circuit(self.w.host(a)), cm.get_circuit(self.w.host(a))
            self.ctx.check(c1 is c2, 'circuit', 'two hosts %s have different circuits', a)
            if a in self.circuits:
                self.ctx.check(self.circuits[a] is c1, 'circuit-replaced', 'the circuit of %s was replaced', a)
            elif c1 is not None:
                for b in self.circuits:
                    self.ctx.check(self.circuits[b] is not c1, 'circuit-shared', '%s and %s share a circuit', a, b)
                self.circuits[a] = c1


class Acking(Monitor):
    """C10"""

    def init(self):
        self.due = dict([(a, set()) for a in self.w.addrs])
        self.ever = dict([(a, set()) for a in self.w.addrs])

    def outs(self, outs):
        n = 0
        for d in outs:
            ids = list(d['acks'] or [])
            if d['name'] == 'PacketAck':
                ids += [b['ID'] for b in dict(d['blocks'])['Packets']]
            self.ctx.check(len(ids) <= 255, 'too-many', 'a datagram to %s acknowledges %s ids', d['addr'], len(ids))
            for a in ids:
                self.ctx.check(a in self.ever.get(d['addr'], ()), 'invented', '%s is acknowledged id %s, which it never sent as reliable', d['addr'], a)
                self.due[d['addr']].discard(a)
            n += len(ids)
            self.ctx.count('acks out', len(ids))
        return n

    def sent(self, outs, **kw):
        self.outs(outs)

    def misfit(self, outs, addr):
        self.outs(outs)

    def unusable(self, outs, addr):
        self.outs(outs)

    def received(self, outs, addr, kind, pid, reliable, acks):
        self.outs(outs)
        if reliable:
            self.ever[addr].add(pid)
            if kind not in ('unknown', 'malformed'):
                self.due[addr].add(pid)
                self.ctx.count('due: ' + kind)
                self.ctx.distinct(kind, pid, len(self.due[addr]))

    def round(self, outs):
        self.outs(outs)
        for a in self.due:
            self.ctx.check(not self.due[a], 'lost', '%s: after an ack round ids %s are not acknowledged', a, sorted(self.due[a]))
        self.ctx.check(not self.w.disp.has_unacked(), 'pending', 'after an ack round acks are still pending')
        self.w.disp.process_acks()
        # a retransmitted datagram is the same as before, with the acks it had
        outs = [ref_of(x) for x in self.w.udp.take()]
        self.outs([d for d in outs if d['flags'] & ref.RESENT])
        n = self.outs([d for d in outs if not d['flags'] & ref.RESENT])
        self.ctx.check(n == 0, 'again', 'another ack round sends %s acks', n)
        self.ctx.count('rounds')


def ref_of(x):
    d = ref.decode(x[1])
    d['addr'], d['data'] = x
    return d


class Outstanding(Monitor):
    """C11"""

    def init(self):
        self.out = dict([(a, set()) for a in self.w.addrs])

    def sent(self, outs, kind, addr, **kw):
        if kind == 'reliable':
            for d in outs:
                self.out[addr].add(d['id'])
                self.ctx.count('reliable sent')

    def received(self, outs, addr, kind, acks, **kw):
        hit = [a for a in acks if a in self.out[addr]]
        for a in acks:
            self.out[addr].discard(a)
        if acks:
            self.ctx.count('acks in: ' + kind, len(acks))
            self.ctx.count('acks that hit', len(hit))
            self.ctx.distinct(kind, len(hit), len(acks), len(self.out[addr]))

    def always(self):
        cm = self.w.disp.circuit_manager
        for a in self.w.addrs:
            c = cm.get_circuit(self.w.host(a))
            if c is None:
                self.ctx.check(not self.out[a], 'no-circuit', 'no circuit for %s', a)
                continue
            have = set(c.unacked_packets) | set(c.final_retry_packets)
            self.ctx.check(have == self.out[a], 'outstanding', '%s: outstanding %s, should be %s', a, sorted(have), sorted(self.out[a]))
            self.ctx.check(c.unack_packet_count == len(c.unacked_packets) and c.final_packet_count == len(c.final_retry_packets), 'count',
                           '%s: counts %s and %s for %s and %s outstanding packets', a, c.unack_packet_count, c.final_packet_count, len(c.unacked_packets), len(c.final_retry_packets))


class Resending(Monitor):
    """C12"""

    def init(self):
        self.sent_by = {}     # (addr, id) -> [kind, body, retries left, acked, extra]
        self.settling = False

    def sent(self, outs, kind, addr, body, retries, **kw):
        for d in outs:
            self.sent_by[(d['addr'], d['id'])] = [kind, ref.split(d['data'])[3], retries, False]

    def received(self, outs, addr, acks, **kw):
        for d in outs:
            self.ctx.check((d['addr'], d['id']) not in self.sent_by, 'untimely', 'receiving retransmits id %s to %s', d['id'], d['addr'])
        for a in acks:
            r = self.sent_by.get((addr, a))
            if r:
                if not r[3] and r[2]:
                    self.ctx.count('acked with retries left')
                r[3] = True

    def round(self, outs):
        ctx = self.ctx
        seen = set()
        for d in outs:
            k = (d['addr'], d['id'])
            r = self.sent_by.get(k)
            if r is None:
                ctx.check(d['name'] == 'PacketAck', 'strange', 'an ack round sends a %s with the new id %s to %s', d['name'], d['id'], d['addr'])
                self.sent_by[k] = ['plain', None, 0, False]
                continue
            ctx.check(r[0] == 'reliable', 'not-reliable', 'a %s send (%s, id %s) is retransmitted', r[0], d['addr'], d['id'])
            ctx.check(not r[3], 'after-ack', 'id %s to %s is retransmitted after its ack', d['id'], d['addr'])
            ctx.check(r[2] > 0, 'too-often', 'id %s to %s is retransmitted more often than its retries allow', d['id'], d['addr'])
            ctx.check(k not in seen, 'twice', 'id %s to %s is retransmitted twice in a round', d['id'], d['addr'])
            ctx.check(d['flags'] & ref.RESENT, 'flag', 'the retransmission of id %s to %s has flags %s', d['id'], d['addr'], hex(d['flags']))
            got = ref.split(d['data'])[3]
            ctx.check(got == r[1], 'body', 'id %s to %s is retransmitted as %s instead of %s', d['id'], d['addr'], vcore.hexs(got), vcore.hexs(r[1]))
            seen.add(k)
            r[2] -= 1
            ctx.count('retransmissions')
            ctx.distinct(d['name'], r[2], len(self.sent_by))
        if self.settling:
            return
        ctx.count('rounds')

    def settle(self, most):
        """no more acks come: every retry is used up"""
        self.settling = True
        for k in range(most + 1):
            self.w.op_round()
        for k in sorted(self.sent_by):
            kind, body, left, acked = self.sent_by[k]
            self.ctx.check(acked or kind != 'reliable' or left == 0, 'never', 'unacked id %s to %s was not retransmitted: %s retries unused', k[1], k[0], left)
        self.settling = False


def crowd(ctx, rng, n, steps, watch, weights=(3, 3, 4, 2, 0.02)):
    """steps of traffic with n addresses, and what it must have come to; watch: the properties to look at"""
    st = gen.settings(ENABLE_DEFERRED_PACKET_PARSING=rng.randrange(2) == 0, ENABLE_UDP_LOGGING=False)
    udp = fakes.UDP()
    d = ctx.S.dispatcher(ctx.S.Handler(st), st, udp)
    L = gen.lib()
    mt = ctx.S.templates['CompletePingCheck']
    body = ref.enc_body(mt, {'PingID': [{'PingID': 7}]})
    addrs = ['10.%d.%d.%d' % (rng.randrange(3), rng.randrange(4), rng.randrange(256)) for k in range((n + 1) // 2)]
    addrs = sorted(set([(ip, port) for ip in addrs for port in (13000, 13001 + rng.randrange(3))]))[:n]
    last = dict([(a, 0) for a in addrs])
    due = dict([(a, set()) for a in addrs])
    out = dict([(a, set()) for a in addrs])
    pids = dict([(a, 0) for a in addrs])
    met = set()
    total = float(sum(weights))
    cm = d.circuit_manager

    def sent():
        for addr, data in udp.take():
            x = ref.decode(data)
            if 'numbering' in watch:
                ctx.check(x['id'] == last[addr] + 1, 'numbering', 'among %s addresses %s to %s has packet id %s after %s', len(addrs), x['name'], addr, x['id'], last[addr])
            last[addr] = x['id']
            for a in list(x['acks'] or []) + (x['name'] == 'PacketAck' and [b['ID'] for b in dict(x['blocks'])['Packets']] or []):
                due[addr].discard(a)

    def settle():
        d.process_acks()
        sent()
        if 'acks' in watch:
            left = dict([(a, sorted(due[a])[:5]) for a in addrs if due[a]])
            ctx.check(not left, 'lost', 'among %s addresses ids of %s are not acknowledged after an ack round: %s', len(addrs), len(left), sorted(left.items())[:3])
            ctx.check(not d.has_unacked(), 'pending', 'among %s addresses acks are still pending after an ack round', len(addrs))
        for a in addrs:
            due[a].clear()

    def receive(a, flags, acks):
        pids[a] += 1
        data = ref.datagram(body, flags, pids[a], '', acks or None)
        d.receive_check(ctx.S.Host(a), data, len(data))
        met.add(a)

    for k in range(steps):
        a = rng.choice(addrs)
        r = rng.random() * total
        if r < weights[0]:
            d.send_message(L.Message('CompletePingCheck', L.Block('PingID', PingID=k % 256)), ctx.S.Host(a))
            met.add(a)
        elif r < sum(weights[:2]):
            d.send_reliable(L.Message('CompletePingCheck', L.Block('PingID', PingID=k % 256)), ctx.S.Host(a), 0)
            out[a].add(last[a] + 1)
            met.add(a)
        elif r < sum(weights[:3]):
            receive(a, ref.RELIABLE, None)
            due[a].add(pids[a])
        elif r < sum(weights[:4]):
            mine = sorted(out[a])
            acks = rng.sample(mine, min(len(mine), rng.choice([1, 1, 20, 200])))
            other = rng.choice(addrs)
            some = other != a and [x for x in sorted(out[other])[:2] if x not in out[a]] or []
            receive(a, 0, acks + some)
            out[a] -= set(acks)
        else:
            settle()
        sent()
    settle()
    for a in addrs:
        c = cm.get_circuit(ctx.S.Host(a))
        if 'registry' in watch:
            ctx.check((c is not None) == (a in met) and bool(cm.is_circuit_alive(ctx.S.Host(a))) == (a in met), 'registry', 'among %s addresses the circuit of %s, %s, is %s', len(addrs), a, a in met and 'which has been met' or 'which has not been met', c)
        if 'outstanding' in watch and c is not None:
            have = set(c.unacked_packets) | set(c.final_retry_packets)
            ctx.check(have == out[a], 'outstanding', '%s: %s are outstanding instead of %s; wrong are %s', a, len(have), len(out[a]), sorted(have ^ out[a])[:5])
            ctx.check(c.unack_packet_count == len(c.unacked_packets), 'count', '%s: outstanding count %s for %s outstanding packets', a, c.unack_packet_count, len(c.unacked_packets))
    # each goes on where it was
    for a in addrs:
        d.send_message(L.Message('CompletePingCheck', L.Block('PingID', PingID=1)), ctx.S.Host(a))
        sent()
    ctx.count('crowds')
    ctx.count('steps of crowds', steps)
    return out
