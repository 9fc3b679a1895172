"""C06: flags, extra header and appended acks, incoming and outgoing"""
import vcore, ref, gen, fakes

CASES = {'quick': 3500, 'thorough': 50000}


def setup(ctx):
    vcore.boot()
    from pyogp.lib.base.message.udpserializer import UDPMessageSerializer
    from pyogp.lib.base.message.udpdeserializer import UDPMessageDeserializer
    from pyogp.lib.base.message.udpdispatcher import UDPDispatcher
    from pyogp.lib.base.message.message_handler import MessageHandler
    from pyogp.lib.base.message.circuit import Host
    ctx.Host = Host
    ctx.templates, order = ref.builtin()
    ctx.names = ref.permitted()
    st = gen.settings(ENABLE_DEFERRED_PACKET_PARSING=False)
    ctx.de = UDPMessageDeserializer(settings=st)
    ctx.ser = UDPMessageSerializer()
    ctx.udp = fakes.UDP()
    ctx.disp = UDPDispatcher(ctx.udp, st, MessageHandler(st))
    ctx.hosts = 0


def rand_acks(rng):
    n = rng.choice([0, 1, 1, 2, 3, 5, 9, 16, 63, 64, 127, 128, 254, 255, rng.randrange(256)])
    return [gen.rand_id(rng) for k in range(n)]


def case(ctx, i, rng):
    name = i % 4 == 3 and ref.featured(rng) or ctx.names[rng.randrange(len(ctx.names))]
    mt = ctx.templates[name]
    wire = gen.wire_message(rng, mt)
    flags = rng.choice([0, ref.RELIABLE]) | rng.choice([0, ref.RESENT]) | rng.choice([0, ref.ZERO]) | rng.choice([0, 0, 0, rng.randrange(16)])
    acks = rng.randrange(2) and rand_acks(rng) or None
    if rng.randrange(30) == 0:
        acks = []
    extra = gen.rand_bytes(rng, rng.choice([0, 0, 1, 2, 3, 4, 7, 40, 127, 128, 200, 254, 255]))
    pid = gen.rand_id(rng)
    data = ref.datagram(ref.enc_body(mt, wire), flags, pid, extra, acks)
    want_flags = flags | (acks is not None and ref.ACK or 0)
    ctx.note(name, 'flags %02x id %d extra %d acks %r' % (want_flags, pid, len(extra), acks))
    if rng.randrange(3):
        msg = ctx.de.deserialize(data)
    else:
        msg = ctx.disp.receive_check(ctx.Host(('10.9.9.%d' % rng.randrange(9), 5)), data, len(data))
        ctx.count('through the dispatcher')
    about = '%s flags %02x extra %d acks %s' % (name, want_flags, len(extra), acks and len(acks))
    ctx.check(msg is not None, 'refused', '%s not decoded: %s', about, vcore.hexs(data))
    ctx.check(msg.packet_id == pid, 'id', '%s: id %s decoded as %s', about, pid, msg.packet_id)
    ctx.check(msg.send_flags == want_flags, 'flags', '%s: flags decoded as %02x' % (about, msg.send_flags))
    ctx.check(bool(msg.reliable) == bool(flags & ref.RELIABLE), 'reliable', '%s: reliable is %s', about, msg.reliable)
    ctx.check(list(msg.acks) == (acks or []), 'acks', '%s: acks %s decoded as %s', about, acks, msg.acks)
    ctx.check(gen.diff(mt, wire, msg) is None, 'body', '%s: %s; datagram %s', about, gen.diff(mt, wire, msg), vcore.hexs(data))
    ctx.count('decoded')
    if acks:
        ctx.count('acks decoded', len(acks))
    ctx.distinct(name, want_flags, len(extra), acks and len(acks))

    # outgoing, from the serializer
    libv, wire = gen.gen_message(rng, mt)
    m = gen.build(mt, libv)
    out_acks = rand_acks(rng) if rng.randrange(2) else []
    m.packet_id = pid
    m.send_flags = flags & 0x60
    if out_acks:
        m.send_flags |= ref.ACK
        for a in out_acks:
            m.add_ack(a)
    buf = ctx.ser.serialize(m)
    out_ok(ctx, buf, mt, wire, m.send_flags, pid, out_acks, about)

    # outgoing, by a circuit that has acks to give
    ctx.hosts += 1
    host = ctx.Host(('10.2.%d.%d' % (ctx.hosts // 250 % 250, ctx.hosts % 250), 7000))
    due = [gen.rand_id(rng) for k in range(rng.choice([0, 0, 1, 2, 5, 254, 255, 256, 300]))]
    for a in due:
        d = ref.datagram(ref.enc_body(ctx.templates['PingPongReply'], {}) if 'PingPongReply' in ctx.templates and not ctx.templates['PingPongReply'].blocks
                         else ref.enc_body(ctx.templates['CompletePingCheck'], {'PingID': [{'PingID': 1}]}), ref.RELIABLE, a)
        ctx.disp.receive_check(host, d, len(d))
    ctx.udp.take()
    m = gen.build(mt, libv)
    rel = rng.randrange(2)
    if rel:
        ctx.disp.send_reliable(m, host, 0)
    else:
        ctx.disp.send_message(m, host)
    out = ctx.udp.take()
    ctx.check(len(out) == 1, 'datagrams', 'sending %s makes %s datagrams', name, len(out))
    r = ref.split(out[0][1])
    got = r[4]
    ctx.check(bool(r[0] & ref.ACK) == bool(got), 'ack-flag', 'datagram %s: ack flag and acks %s disagree', vcore.hexs(out[0][1]), got)
    left = list(due)
    for a in got or []:
        ctx.check(a in left, 'ack-invented', 'datagram %s acks %s; due were %s', vcore.hexs(out[0][1]), a, due)
        left.remove(a)
    out_ok(ctx, out[0][1], mt, wire, r[0], r[1], got or [], about)
    ctx.count('sent')
    if got:
        ctx.count('acks sent', len(got))
    if ctx.hosts % 300 == 0:
        ctx.disp.circuit_manager.circuit_map.clear()
    ctx.sample(about)


def out_ok(ctx, buf, mt, wire, flags, pid, acks, about):
    tail = mt.name == 'RegionHandshakeReply' and '\0\0\0\0' or ''
    body = ref.enc_body(mt, wire) + tail
    want = ref.datagram(body, flags & ~ref.ACK, pid, '', flags & ref.ACK and acks or None)
    ctx.check(buf == want, 'outgoing', '%s (acks %s) serialised as %s instead of %s', about, acks, vcore.hexs(buf), vcore.hexs(want))
