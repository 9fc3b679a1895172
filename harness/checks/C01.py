"""C01: UDPMessageSerializer.serialize against the independent wire format"""
import vcore, ref, gen

CASES = {'quick': 4000, 'thorough': 60000}


def setup(ctx):
    vcore.boot()
    from pyogp.lib.base.message.udpserializer import UDPMessageSerializer
    ctx.templates, order = ref.builtin()
    ctx.names = ref.permitted()
    if len(ctx.names) < 300:
        raise vcore.HarnessError('template not read')
    ctx.ser = UDPMessageSerializer()
    ctx.make = UDPMessageSerializer


def snapshot(msg):
    out = [msg.name, msg.send_flags, msg.packet_id, list(msg.acks), msg.reliable, msg.retries]
    for n in sorted(msg.blocks):
        for b in msg.blocks[n]:
            out.append((n, [(v, id(b.get_variable(v).data), repr(b.get_variable(v).data)) for v in b.var_list]))
    return out


def allowed(name, buf, body, pid, flags):
    want = ref.datagram(body, flags, pid)
    # RegionHandshakeReply is padded on purpose
    return buf == want or (name == 'RegionHandshakeReply' and buf == want + '\0\0\0\0'), want


def case(ctx, i, rng):
    name = i % 4 == 3 and ref.featured(rng) or ctx.names[(i - i // 4) % len(ctx.names)]
    mt = ctx.templates[name]
    many = rng.randrange(6) == 0
    libv, wire = gen.gen_message(rng, mt, many=many, big=rng.randrange(4) == 0, nonempty=False)
    body = ref.enc_body(mt, wire)
    pid = rng.choice([0, 1, 255, 256, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, rng.getrandbits(32)])
    flags = rng.choice([0, ref.RELIABLE, ref.RESENT, ref.RELIABLE | ref.RESENT])
    ctx.note('message', name, 'flags', flags, 'id', pid, dict([(b, len(x)) for b, x in wire.items()]))

    msg = gen.build(mt, libv)
    msg.packet_id, msg.send_flags = pid, flags
    before = snapshot(msg)
    ser = ctx.make() if i % 500 == 3 else ctx.ser
    buf = ser.serialize(msg)
    ok, want = allowed(name, buf, body, pid, flags)
    ctx.check(ok, 'bytes', '%s serialises to %s instead of %s', name, vcore.hexs(buf), vcore.hexs(want))
    ctx.check(snapshot(msg) == before, 'mutated', 'serialising changed the message %s: %s, before %s', name, snapshot(msg), before)
    again = ser.serialize(msg)
    ctx.check(again == buf, 'unstable', 'serialising %s again gives %s instead of %s', name, vcore.hexs(again), vcore.hexs(buf))

    # the same content, supplied in another order; instances of one block keep their order
    msg2 = gen.build(mt, libv, rng)
    msg2.packet_id, msg2.send_flags = pid, flags
    buf2 = ser.serialize(msg2)
    ctx.check(buf2 == buf, 'order', '%s supplied in another order serialises to %s instead of %s', name, vcore.hexs(buf2), vcore.hexs(buf))

    ctx.count('serialised', 3)
    ctx.count('bytes', len(buf))
    for b in mt.blocks:
        for f in b.fields:
            if wire[b.name]:
                ctx.count('type:%s%s' % (f.type, f.size if f.type == 'Variable' else ''))
    if body.strip('\0'):
        ctx.distinct(name, [(b.name, len(wire[b.name])) for b in mt.blocks], len(buf))
    ctx.sample('%s id=%d flags=%02x -> %d bytes %s' % (name, pid, flags, len(buf), vcore.hexs(buf)[:80]))
