"""C03: messages that do not fit the template, at the serializer and the dispatcher, between good ones"""
import uuid
import vcore, ref, gen, fakes

CASES = {'quick': 3500, 'thorough': 50000}


def setup(ctx):
    vcore.boot()
    from pyogp.lib.base.message.udpserializer import UDPMessageSerializer
    from pyogp.lib.base.message.udpdispatcher import UDPDispatcher
    from pyogp.lib.base.message.message_handler import MessageHandler
    from pyogp.lib.base.message.message import Message, Block
    from pyogp.lib.base.message.circuit import Host
    ctx.Message, ctx.Block, ctx.Host = Message, Block, Host
    ctx.templates, order = ref.builtin()
    ctx.names = ref.permitted()
    ctx.withblocks = [n for n in ctx.names if ctx.templates[n].blocks]
    ctx.ser = UDPMessageSerializer()
    ctx.udp = fakes.UDP()
    st = gen.settings()
    ctx.disp = UDPDispatcher(ctx.udp, st, MessageHandler(st))
    ctx.next_id = {}
    ctx.hosts = 0




def positions(mt, libv, test=None):
    out = []
    for b in mt.blocks:
        for k in range(len(libv[b.name])):
            for f in b.fields:
                if test is None or test(f):
                    out.append((b, k, f))
    return out


def spoil(rng, mt, libv, first=None):
    """turn the fitting content into one that does not fit; returns the defect's description and the message name, or None"""
    kinds = ['unknown', 'noblock', 'nofield', 'count', 'count', 'toomany', 'toolong', 'toolong', 'size', 'size', 'size']
    rng.shuffle(kinds)
    if first:
        kinds.insert(0, first)
    for k in kinds:
        if k == 'unknown':
            return k, mt.name + rng.choice(['X', '2', '_']) if rng.randrange(2) else rng.choice(['NoSuchMessage', mt.name.lower(), mt.name.upper(), ''])
        if k == 'noblock':
            c = [b for b in mt.blocks if b.kind != 'Variable' and b.fields]
            if c:
                b = rng.choice(c)
                libv[b.name] = []
                return 'no %s block %s' % (b.kind, b.name), mt.name
        if k == 'nofield':
            c = positions(mt, libv)
            if c:
                b, n, f = rng.choice(c)
                del libv[b.name][n][f.name]
                return 'no field %s in %s[%d]' % (f.name, b.name, n), mt.name
        if k == 'count':
            c = [b for b in mt.blocks if b.kind != 'Variable' and libv[b.name]]
            c += [b for b in c if b.kind == 'Multiple'] * 3
            if c:
                b = rng.choice(c)
                have = libv[b.name]
                if b.kind == 'Multiple' and b.number > 1 and rng.randrange(2):
                    del have[rng.randrange(len(have))]
                else:
                    for j in range(rng.choice([1, 1, 2, 255, 256, b.number or 1, b.number or 1, 2 * (b.number or 1)])):
                        have.append(dict(have[0]))
                return '%d instances of %s block %s' % (len(have), b.kind, b.name), mt.name
        if k == 'toomany':
            c = [b for b in mt.blocks if b.kind == 'Variable' and libv[b.name]]
            if c:
                b = rng.choice(c)
                n = rng.choice([256, 257, 300, 512, 513])
                libv[b.name] = [dict(libv[b.name][j % len(libv[b.name])]) for j in range(n)]
                return '%d instances of Variable block %s' % (n, b.name), mt.name
        if k == 'toolong':
            c = positions(mt, libv, lambda f: f.type == 'Variable' and f.size in (1, 2))
            if c:
                b, n, f = rng.choice(c)
                top = (1 << (8 * f.size)) - 1
                size = rng.choice([top, top + 1, top + 2, top + 17, 2 * top])
                v = 'x' * size
                if rng.randrange(4) == 0:
                    v = unicode(v)
                elif rng.randrange(4) == 0:
                    v = u'\xe9' * ((size + 1) // 2)
                libv[b.name][n][f.name] = v
                return '%d bytes in Variable %d field %s.%s' % (size, f.size, b.name, f.name), mt.name
        if k == 'size':
            c = positions(mt, libv, lambda f: f.type in ('Fixed', 'IPADDR', 'LLVector3', 'LLVector3d', 'LLVector4'))
            if c:
                b, n, f = rng.choice(c)
                if f.type in ('Fixed', 'IPADDR'):
                    v = gen.rand_bytes(rng, rng.choice([f.size - 1, f.size + 1, 0, f.size * 2, f.size + 4]))
                else:
                    m = {'LLVector3': 3, 'LLVector3d': 3, 'LLVector4': 4}[f.type]
                    v = tuple([1.5] * rng.choice([m - 1, m + 1, 2 * m, 1]))
                libv[b.name][n][f.name] = v
                return '%r in %s field %s.%s' % (v, f.type, b.name, f.name), mt.name
    return None


def case(ctx, i, rng):
    mt = ctx.templates[ctx.withblocks[i % len(ctx.withblocks)]]
    first = None
    if i % 8 == 7:
        # few messages have blocks of a fixed number
        mt = ctx.templates[rng.choice([n for n in ctx.withblocks if [b for b in ctx.templates[n].blocks if b.kind == 'Multiple']])]
        first = 'count'
    libv, wire = gen.gen_message(rng, mt)
    what = spoil(rng, mt, libv, first)
    if what is None:
        ctx.count('not spoilt')
        return
    what, name = what
    msg = gen.build(mt, libv)
    msg.name = name
    ctx.note(mt.name, what)
    r = vcore.attempt(ctx.ser.serialize, msg)
    ctx.check(r[0] == 'exc' or r[1] is None, 'encoded', '%s with %s is serialised to %s', mt.name, what, r[0] == 'ok' and vcore.hexs(r[1]))
    ctx.count(r[0] == 'exc' and 'refused by ' + vcore.exc_name(r[1]) or 'refused with no buffer')
    # nothing of it remains in the serializer
    good(ctx, rng, i)

    # the same through the dispatcher
    ctx.hosts += 1
    host = ctx.Host(('10.1.%d.%d' % (ctx.hosts // 250 % 250, ctx.hosts % 250), 7000))
    ctx.udp.take()
    how = rng.choice(['plain', 'reliable', 'retry'])
    if how == 'plain':
        vcore.attempt(ctx.disp.send_message, msg, host)
    elif how == 'reliable':
        vcore.attempt(ctx.disp.send_reliable, msg, host, 0)
    else:
        vcore.attempt(ctx.disp.send_retry, msg, host)
    out = ctx.udp.take()
    ctx.check(out == [], 'sent', '%s with %s is sent: %s', mt.name, what, out and vcore.hexs(out[0][1]))
    # and the next one is sent
    mt2 = ctx.templates[rng.choice(ctx.names)]
    libv2, wire2 = gen.gen_message(rng, mt2)
    ctx.disp.send_message(gen.build(mt2, libv2), host)
    out = ctx.udp.take()
    ctx.check(len(out) == 1 and out[0][0] == (host.ip, host.port), 'next-lost', 'after a refused %s (%s), %s gives %s datagrams', mt.name, what, mt2.name, len(out))
    r = ref.decode(out[0][1])
    ctx.check(out[0][1] == ref.datagram(ref.enc_body(mt2, wire2), r['flags'], r['id']) + (mt2.name == 'RegionHandshakeReply' and '\0' * 4 or ''),
              'next-wrong', 'after a refused %s, %s is sent as %s', mt.name, mt2.name, vcore.hexs(out[0][1]))
    if ctx.hosts % 500 == 0:
        ctx.disp.circuit_manager.circuit_map.clear()
    ctx.count('misfits')
    ctx.distinct(mt.name, what)
    ctx.sample('%s with %s: refused' % (mt.name, what))


def good(ctx, rng, i):
    mt = ctx.templates[rng.choice(ctx.names)]
    libv, wire = gen.gen_message(rng, mt)
    m = gen.build(mt, libv)
    m.packet_id = i
    buf = ctx.ser.serialize(m)
    want = ref.datagram(ref.enc_body(mt, wire), 0, i)
    ctx.check(buf == want or (mt.name == 'RegionHandshakeReply' and buf == want + '\0\0\0\0'), 'after', 'after a refused message %s is %s instead of %s', mt.name, vcore.hexs(buf), vcore.hexs(want))
