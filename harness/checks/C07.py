"""C07: one codec instance through long histories, against other instances with another history"""
import vcore, ref, gen

CASES = {'quick': 200, 'thorough': 2500}


def setup(ctx):
    vcore.boot()
    from pyogp.lib.base.message.udpserializer import UDPMessageSerializer
    from pyogp.lib.base.message.udpdeserializer import UDPMessageDeserializer
    from pyogp.lib.base.message.message_handler import MessageHandler
    from pyogp.lib.base import exc
    ctx.exc = exc
    ctx.Ser, ctx.De, ctx.Handler = UDPMessageSerializer, UDPMessageDeserializer, MessageHandler
    ctx.templates, ctx.all = ref.builtin()
    ctx.names = ref.permitted()
    ctx.banned = [n for n in ctx.all if n in ref.banned()]
    ctx.off = gen.settings(ENABLE_DEFERRED_PACKET_PARSING=False)
    ctx.de = ctx.De(settings=ctx.off)
    ctx.ser = ctx.Ser()
    ctx.kept = []       # (message, its snapshot when it was returned)


def inputs(ctx, rng):
    """(kind, name, wire, bytes)"""
    import checks.C04 as c4
    k = rng.choice(['good', 'good', 'good', 'twin', 'bad', 'bad', 'banned', 'unknown', 'empty'])
    name = rng.choice(ctx.names)
    if k == 'banned':
        name = rng.choice(ctx.banned)
    mt = ctx.templates[name]
    wire = gen.wire_message(rng, mt)
    data = ref.datagram(ref.enc_body(mt, wire), rng.choice([0, 0x40, 0x80, 0xc0, 0x20]), gen.rand_id(rng), rng.choice(['', '', 'ab\0']),
                        rng.choice([None, None, [1], [2, 3]]))
    if k == 'bad':
        mt2 = ctx.templates[rng.choice(ctx.names)]
        kind, data = c4.mutate(rng, data, ref.datagram(ref.enc_body(mt2, gen.wire_message(rng, mt2)), 0, 1))
    elif k == 'unknown':
        data = ref.datagram('\xff\xff\xee\xee' + 'abc', rng.choice([0, 0x40]), 9)
    elif k == 'empty':
        data = data[:rng.randrange(8)]
    return k, name, wire, data


def result(ctx, de, data):
    try:
        m = de.deserialize(data)
    except ctx.exc.MessageDeserializationError:
        return 'error', None
    return (m is None and 'nothing' or gen.freeze(m)), m


def spoil(rng, m):
    m.name = 'Changed'
    m.packet_id += 1
    m.send_flags = 0x55
    m.acks.append(77)
    m.reliable = not m.reliable
    for n in m.blocks.keys():
        k = rng.randrange(3)
        if k == 0:
            del m.blocks[n]
        elif k == 1:
            m.blocks[n].append(m.blocks[n][0])
        else:
            for b in m.blocks[n]:
                for v in b.get_variables():
                    v.data = 'changed'


def case(ctx, i, rng):
    items = [inputs(ctx, rng) for k in range(14)]
    # registration state of the deferring pair
    st = gen.settings()
    h1, h2 = ctx.Handler(st), ctx.Handler(st)
    reg = set([it[1] for it in items if rng.randrange(2)])
    for n in reg:
        h1.register(n)
        h2.register(n)
    fresh = ctx.De(settings=ctx.off)
    lazy1, lazy2 = ctx.De(h1, st), ctx.De(h2, st)
    order = range(len(items))
    rng.shuffle(order)
    res = {}
    for k in order:
        res[k] = result(ctx, fresh, items[k][3]), result(ctx, lazy2, items[k][3])
    seen = []
    for k, (kind, name, wire, data) in enumerate(items):
        ctx.note(kind, name, vcore.hexs(data))
        (a, m), (b, m2) = result(ctx, ctx.de, data), result(ctx, lazy1, data)
        (fa, x), (fb, y) = res[k]
        ctx.check(a == fa, 'history', '%s %s gives %s on a used deserializer, %s on another', kind, vcore.hexs(data), a, fa)
        ctx.check(b == fb, 'history-deferred', '%s %s gives %s on one deferring deserializer, %s on another', kind, vcore.hexs(data), b, fb)
        if isinstance(a, tuple):
            if a[0] in reg:
                ctx.check(a == b, 'deferred', 'registered %s: complete parsing %s, deferred %s', a[0], a, b)
                ctx.count('registered decoded')
            else:
                ctx.check(b == 'nothing', 'not-skipped', 'nobody registered %s and it yields %s', a[0], b)
                ctx.count('skipped')
        if m is not None and rng.randrange(3) == 0:
            # what a caller does to a result does not show in the next one
            for de, f in ((ctx.de, a), (lazy1, b)):
                z = result(ctx, de, data)[1]
                if z is not None:
                    spoil(rng, z)
                    f2, z = result(ctx, de, data)
                    ctx.check(f2 == f, 'spoiled', 'after its first message was changed %s gives %s instead of %s', vcore.hexs(data), f2, f)
                    ctx.count('decoded after a change')
        if kind == 'good' or kind == 'twin':
            ctx.check(m is not None and gen.diff(ctx.templates[name], wire, m) is None, 'content', '%s: %s', name, m and gen.diff(ctx.templates[name], wire, m))
        for z, fz in ((m, a), (m2, b), (x, fa), (y, fb)):
            if z is not None:
                seen.append((z, fz))
        ctx.count('decoded twice')
        ctx.count('input ' + kind)
        ctx.distinct(kind, name, a == 'error', a == 'nothing')
    # registering later
    for k, (kind, name, wire, data) in enumerate(items):
        if kind in ('good', 'twin') and name not in reg:
            h1.register(name)
            b, m2 = result(ctx, lazy1, data)
            ctx.check(b == res[k][0][0], 'late', '%s registered later gives %s instead of %s', name, b, res[k][0][0])
            seen.append((m2, b))
            ctx.count('registered later')
    # messages returned earlier do not change
    for z, fz in seen + ctx.kept:
        ctx.check(gen.freeze(z) == fz, 'changed', 'a message returned earlier changed from %s to %s', fz, gen.freeze(z))
        ctx.count('kept messages')
    ctx.kept = (ctx.kept + rng.sample(seen, min(2, len(seen))))[-40:]

    # the serializer: the same messages, shared instance and fresh one in another order, errors in between
    msgs = []
    for k in range(8):
        mt = ctx.templates[rng.choice(ctx.all)]
        libv, wire = gen.gen_message(rng, mt)
        bad = rng.randrange(3) == 0 and mt.blocks
        if bad:
            b = rng.choice(mt.blocks)
            libv[b.name] = libv[b.name] * 2 + [{}]
        m = gen.build(mt, libv)
        m.packet_id = rng.getrandbits(32)
        if rng.randrange(6) == 0:
            m.name = 'Nonesuch'
        msgs.append((mt, wire, m, bad or m.name == 'Nonesuch' or mt.name in ctx.banned))
    again = []
    ser2 = ctx.Ser()
    order = range(len(msgs))
    rng.shuffle(order)
    out = {}
    for k in order:
        out[k] = enc(ser2, msgs[k][2])
    for k, (mt, wire, m, bad) in enumerate(msgs):
        got = enc(ctx.ser, m)
        ctx.check(got == out[k], 'ser-history', '%s gives %s on a used serializer, %s on another', m.name, got, out[k])
        if not bad:
            want = ref.datagram(ref.enc_body(mt, wire), 0, m.packet_id)
            ctx.check(got in (want, want + '\0\0\0\0'), 'ser-content', '%s gives %s', m.name, got)
        ctx.count('serialised twice')
        if not bad and rng.randrange(2):
            # its owner changes it, and it is serialised again at once or later
            again.append((mt, gen.change(rng, mt, m), m))
            m.packet_id = rng.getrandbits(32)
            if rng.randrange(2):
                changed(ctx, *again.pop())
    for x in again:
        changed(ctx, *x)
    ctx.sample('%d datagrams: %s' % (len(items), [it[0] for it in items]))


def changed(ctx, mt, wire, m):
    want = ref.datagram(ref.enc_body(mt, wire), 0, m.packet_id)
    got = enc(ctx.ser, m)
    ctx.check(got in (want, want + '\0\0\0\0'), 'ser-changed', '%s gives %s after it was changed, %s is its content', m.name, got, want)
    ctx.count('changed and serialised')


def enc(ser, m):
    r = vcore.attempt(ser.serialize, m)
    return r[0] == 'ok' and r[1] or r[0] == 'ok' and 'nothing' or 'refused'
