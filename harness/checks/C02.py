"""C02: what the deserializer makes of datagrams of the independent encoder, and of what the serializer wrote"""
import vcore, ref, gen

CASES = {'quick': 5000, 'thorough': 80000}


def setup(ctx):
    vcore.boot()
    from pyogp.lib.base.message.udpserializer import UDPMessageSerializer
    from pyogp.lib.base.message.udpdeserializer import UDPMessageDeserializer
    ctx.templates, order = ref.builtin()
    ctx.names = ref.permitted()
    if len(ctx.names) < 300:
        raise vcore.HarnessError('template not read')
    ctx.ser = UDPMessageSerializer()
    ctx.de = UDPMessageDeserializer(settings=gen.settings(ENABLE_DEFERRED_PACKET_PARSING=False))


def case(ctx, i, rng):
    name = i % 4 == 3 and ref.featured(rng) or ctx.names[(i - i // 4) % len(ctx.names)]
    mt = ctx.templates[name]
    flags = rng.choice([0, ref.RELIABLE, ref.RESENT, ref.RELIABLE | ref.RESENT])
    pid = gen.rand_id(rng)
    wire = gen.wire_message(rng, mt, many=rng.randrange(6) == 0, big=rng.randrange(5) == 0)
    data = ref.datagram(ref.enc_body(mt, wire), flags, pid)
    ctx.note('datagram', name, flags, pid, vcore.hexs(data))
    msg = ctx.de.deserialize(data)
    ctx.check(msg is not None, 'refused', '%s not decoded: %s', name, vcore.hexs(data))
    ctx.check(gen.diff(mt, wire, msg) is None, 'content', '%s: %s; datagram %s', name, gen.diff(mt, wire, msg), vcore.hexs(data))
    ctx.check(msg.packet_id == pid and msg.send_flags == flags, 'header', '%s: id %s flags %s decoded as %s %s', name, pid, flags, msg.packet_id, msg.send_flags)
    ctx.check(not msg.acks, 'acks', '%s: acks %s out of nothing', name, msg.acks)
    if name == 'PacketAck':
        ctx.count('PacketAck')

    # what was decoded, sent again
    fits = True
    for b in mt.blocks:
        for f in b.fields:
            if f.type == 'Variable' and [1 for x in wire[b.name] if len(x[f.name]) + 1 >= 1 << (8 * f.size)]:
                fits = False
    if fits:
        again = ctx.ser.serialize(msg)
        r = ref.decode(again)
        ok = r['name'] == name and r['id'] == pid and r['flags'] == flags and same(mt, wire, dict(r['blocks'])) and not r['rest'].strip('\0')
        ctx.check(ok, 'reserialise', '%s: %s re-serialised as %s', name, vcore.hexs(data), vcore.hexs(again))
        ctx.count('reserialised')

    # what the library serialises, it decodes
    libv, wire2 = gen.gen_message(rng, mt, big=rng.randrange(5) == 0)
    m = gen.build(mt, libv, rng)
    m.packet_id, m.send_flags = pid, flags
    buf = ctx.ser.serialize(m)
    back = ctx.de.deserialize(buf)
    ctx.check(back is not None, 'own-refused', 'the library does not decode its own %s: %s', name, vcore.hexs(buf))
    ctx.check(gen.diff(mt, wire2, back) is None, 'own-content', '%s round trip: %s', name, gen.diff(mt, wire2, back))
    ctx.check(back.packet_id == pid and back.send_flags == flags, 'own-header', '%s round trip: id %s flags %s', name, back.packet_id, back.send_flags)
    ctx.count('decoded', 2)
    for b in mt.blocks:
        for f in b.fields:
            if wire[b.name]:
                ctx.count('type:%s%s' % (f.type, f.size if f.type == 'Variable' else ''))
    ctx.distinct(name, [(b.name, len(wire[b.name])) for b in mt.blocks], len(data))
    ctx.sample('%s id=%d flags=%02x %s -> %s' % (name, pid, flags, vcore.hexs(data)[:80], vcore.short(repr(gen.content(msg)))))


def same(mt, a, b):
    a, b = gen.pad(mt, a), gen.pad(mt, b)
    for bl in mt.blocks:
        if len(a[bl.name]) != len(b[bl.name]):
            return False
        for x, y in zip(a[bl.name], b[bl.name]):
            for f in bl.fields:
                if f.type == 'LLQuaternion':
                    # the same rotation
                    if tuple(x[f.name]) != tuple(y[f.name]):
                        return False
                elif x[f.name] != y[f.name]:
                    return False
    return True
