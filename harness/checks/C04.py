"""C04: hostile datagrams through the deserializer and the dispatcher"""
import vcore, ref, gen, fakes

CASES = {'quick': 1600, 'thorough': 25000}


def setup(ctx):
    vcore.boot()
    from pyogp.lib.base.message.udpdeserializer import UDPMessageDeserializer
    from pyogp.lib.base.message.udpdispatcher import UDPDispatcher
    from pyogp.lib.base.message.message_handler import MessageHandler
    from pyogp.lib.base.message.circuit import Host
    from pyogp.lib.base import exc
    ctx.exc, ctx.Host = exc, Host
    ctx.templates, order = ref.builtin()
    ctx.names = ref.permitted()
    ctx.all = order
    st = gen.settings(ENABLE_DEFERRED_PACKET_PARSING=False)
    ctx.de = UDPMessageDeserializer(settings=st)
    ctx.deferred = UDPMessageDeserializer(message_handler=MessageHandler(), settings=gen.settings())
    ctx.udp = fakes.UDP()
    ctx.disp = UDPDispatcher(ctx.udp, st, MessageHandler(st))
    ctx.hosts = 0


def mutate(rng, data, other):
    """(kind, bytes)"""
    k = rng.choice(['flip', 'flip', 'flip', 'byte', 'byte', 'cut', 'cut', 'grow', 'splice', 'flags', 'flags', 'random', 'tiny', 'zero', 'zero', 'count', 'number', 'insert', 'delete'])
    b = list(data)
    if len(b) < 10:
        k = rng.choice(['grow', 'random', 'tiny', 'splice', 'cut']) if b else 'tiny'
    if k == 'flip':
        for j in range(rng.choice([1, 1, 2, 4, 9])):
            p = rng.randrange(len(b))
            b[p] = chr(ord(b[p]) ^ (1 << rng.randrange(8)))
    elif k == 'byte':
        for j in range(rng.choice([1, 1, 2, 3])):
            b[rng.randrange(len(b))] = rng.choice('\0\x01\x7f\x80\xfe\xff')
    elif k == 'cut':
        b = b[:rng.randrange(len(b))]
    elif k == 'grow':
        b += [chr(rng.choice([0, 255, rng.randrange(256)])) for j in range(rng.choice([1, 2, 4, 5, 40]))]
    elif k == 'splice':
        b = b[:rng.randrange(len(b))] + list(other[rng.randrange(len(other)):])
    elif k == 'flags':
        b[0] = chr(rng.choice([0x10, 0x80, 0x90, 0xff, 0x50, 0xd0, rng.randrange(256)]))
        b[-1] = chr(rng.choice([0, 1, 2, 5, 60, 255, (len(b) - 8) // 4 % 256, (len(b) - 8) // 4 % 256 + 1 & 255]))
    elif k == 'random':
        b = [chr(rng.randrange(256)) for j in range(rng.choice([7, 8, 10, 20, 60, 200]))]
    elif k == 'tiny':
        b = [chr(rng.choice([0, 1, 0x40, 0x80, 0x10, 0xff])) for j in range(rng.randrange(0, 12))]
    elif k == 'zero':
        b[0] = chr(ord(b[0]) | 0x80)
        if rng.randrange(2):
            p = rng.randrange(6, len(b) + 1)
            b[p:p] = rng.choice(['\0\0', '\0\xff', '\0', '\0\xff\0\xff\0\xff'])
        if rng.randrange(3) == 0:
            b += ['\0']
    elif k == 'count':
        p = min(len(b) - 1, rng.randrange(6, 14))
        b[p] = rng.choice('\xff\xfe\x80\x10')
    elif k == 'number':
        b[5] = chr(rng.choice([0, 1, 2, 7, 255, len(b) & 255]))
        b[6:10] = list(rng.choice(['\xff\xff\xff\xff', '\xff\xff\xff\x00', '\xff\xff\xff\xfb', '\xff\xff\x00\x00', '\xff\xff\xfe\xff', '\xff\x00', '\xff\xfe', '\0\0\0\0', '\x63abc']))
    elif k == 'insert':
        p = rng.randrange(len(b))
        b[p:p] = [chr(rng.randrange(256))] * rng.choice([1, 2, 3])
    else:
        p = rng.randrange(len(b))
        del b[p:p + rng.choice([1, 1, 2, 4])]
    return k, ''.join(b)


def good(ctx, rng, name=None):
    mt = ctx.templates[name or rng.choice(ctx.names)]
    wire = gen.wire_message(rng, mt)
    extra = rng.choice(['', '', '', 'abc'])
    acks = rng.choice([None, None, None, [3], [1, 2, 70000]])
    flags = rng.choice([0, 0, ref.RELIABLE, ref.ZERO, ref.RESENT])
    return mt, wire, ref.datagram(ref.enc_body(mt, wire), flags, rng.getrandbits(32), extra, acks)


def outcome(ctx, fn, data):
    """'nothing', 'error' or the message; anything else is a violation"""
    try:
        m = fn(data)
    except ctx.exc.MessageDeserializationError:
        return 'error'
    except Exception, e:
        import sys
        ctx.violate('crash', '%s on %s: %s at %s' % (vcore.exc_name(e), vcore.hexs(data), repr(e.args), vcore.tb_text(sys.exc_info()[2])))
        return 'error'
    ctx.evaluations += 1
    if m is None:
        return 'nothing'
    return m


def case(ctx, i, rng):
    name = ctx.names[i % len(ctx.names)]
    mt, wire, data = good(ctx, rng, name)
    for j in range(8):
        omt, owire, other = good(ctx, rng)
        if j == 7:
            # one of a banned message
            bmt = ctx.templates[rng.choice(ctx.all)]
            other = ref.datagram(ref.enc_body(bmt, gen.wire_message(rng, bmt)), 0, 1)
        kind, bad = mutate(rng, data, other)
        if rng.randrange(5) == 0:
            k2, bad = mutate(rng, bad, other)
        ctx.note(kind, vcore.hexs(bad))
        m = outcome(ctx, ctx.de.deserialize, bad)
        ctx.count('hostile datagrams')
        if isinstance(m, str):
            ctx.count('outcome ' + m)
            ctx.distinct(kind, m, len(bad))
        else:
            ctx.count('outcome message')
            t = ctx.templates.get(m.name)
            ctx.check(t is not None, 'name', 'damaged datagram %s decodes to %r', vcore.hexs(bad), m.name)
            ctx.check(gen.shape(t, m) is None, 'shape', 'damaged datagram %s decodes to %s with %s', vcore.hexs(bad), m.name, gen.shape(t, m))
            ctx.distinct(kind, 'message', m.name)
        # the same through a dispatcher, and with deferred parsing
        if j < 3:
            ctx.hosts += 1
            host = ctx.Host(('10.0.%d.%d' % (ctx.hosts // 200 % 200, ctx.hosts % 200), 9000))
            outcome(ctx, lambda d: ctx.disp.receive_check(host, d, len(d)), bad)
            o = outcome(ctx, ctx.deferred.deserialize, bad)
            ctx.check(isinstance(o, str), 'skipped', 'unregistered %s delivered', o)
        if j == 4:
            probe(ctx, rng)
    probe(ctx, rng)
    # strict prefixes
    body = ref.enc_body(mt, wire)
    whole = ref.datagram(body, rng.choice([0, ref.RELIABLE]), 7, rng.choice(['', 'xyz']))
    cuts = range(len(whole))
    if len(cuts) > 24:
        cuts = rng.sample(cuts[:-3], 20) + cuts[-3:]
    for n in cuts:
        m = outcome(ctx, ctx.de.deserialize, whole[:n])
        ctx.check(isinstance(m, str), 'prefix', 'the first %s bytes of %s (%s) give a message', n, vcore.hexs(whole), name)
        ctx.count('prefixes')
    if i % 7 == 0 and len(ctx.disp.circuit_manager.circuit_map) > 400:
        ctx.disp.circuit_manager.circuit_map.clear()
    ctx.sample('%s: last hostile %s (%s)' % (name, vcore.hexs(bad)[:100], kind))


def probe(ctx, rng):
    """a good datagram after bad ones"""
    mt, wire, data = good(ctx, rng)
    for fn in (ctx.de.deserialize, lambda d: ctx.disp.receive_check(ctx.Host(('10.9.9.9', 1)), d, len(d))):
        m = fn(data)
        ctx.check(m is not None and gen.diff(mt, wire, m) is None, 'after', 'after malformed datagrams %s decodes to %s', vcore.hexs(data), m and gen.diff(mt, wire, m))
        ctx.count('probes')
