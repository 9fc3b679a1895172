"""C05: a zero-coded datagram and its plain form decode alike"""
import vcore, ref, gen

CASES = {'quick': 5000, 'thorough': 80000}


def setup(ctx):
    vcore.boot()
    from pyogp.lib.base.message.udpdeserializer import UDPMessageDeserializer
    ctx.templates, order = ref.builtin()
    ctx.names = ref.permitted()
    ctx.de = UDPMessageDeserializer(settings=gen.settings(ENABLE_DEFERRED_PACKET_PARSING=False))


def case(ctx, i, rng):
    name = i % 4 == 3 and ref.featured(rng) or ctx.names[(i - i // 4) % len(ctx.names)]
    mt = ctx.templates[name]
    huge = rng.randrange(40) == 0
    wire = gen.wire_message(rng, mt, many=rng.randrange(8) == 0, big=huge)
    # zeros, in runs of many lengths
    for b in mt.blocks:
        for inst in wire[b.name]:
            for f in b.fields:
                if f.type == 'Variable' and rng.randrange(2):
                    top = 255 if f.size == 1 else huge and 20000 or 1100
                    v = '\0' * min(top, rng.choice(huge and [255, 2047, 4096, 8192, 10000] or [0, 1, 2, 3, 100, 252, 253, 254, 255, 256, 257, 300, 509, 510, 511, 600, 765, 766]))
                    if rng.randrange(2):
                        v = (v + rng.choice(['\x01', '\xff', 'a\0b', '\0\x02\0']))[-top:]
                    inst[f.name] = v
                elif f.type in gen.INTS and rng.randrange(3) == 0:
                    inst[f.name] = 0
                elif f.type in ('LLUUID', 'Fixed', 'IPADDR') and rng.randrange(2):
                    inst[f.name] = '\0' * f.size
    body = ref.enc_body(mt, wire)
    flags = rng.choice([0, ref.RELIABLE, ref.RESENT])
    pid = gen.rand_id(rng)
    extra = rng.choice(['', '', '\0', '\0\0\0', 'x\0\0y', '\x01' * 5, '\0' * 255, '\0\x01' * 100])
    acks = rng.choice([None, None, [], [0], [1, 0, 256, 1 << 24], [0] * 9, [0] * 255, range(1, 150)])

    def runs(n):
        out = []
        while n > 255:
            k = rng.choice([255, 255, 1, 2, 100, 254])
            out.append(k)
            n -= k
        return out + [n]
    plain = ref.datagram(body, flags, pid, extra, acks)
    coded = ref.datagram(body, flags | ref.ZERO, pid, extra, acks, rng.randrange(2) and runs or None)
    ctx.note(name, 'plain', vcore.hexs(plain), 'coded', vcore.hexs(coded))
    a = ctx.de.deserialize(plain)
    b = ctx.de.deserialize(coded)
    ctx.check(a is not None and gen.diff(mt, wire, a) is None, 'plain', '%s plain: %s', name, a and gen.diff(mt, wire, a))
    ctx.check(b is not None and gen.diff(mt, wire, b) is None, 'coded', '%s zero-coded %s: %s', name, vcore.hexs(coded), b and gen.diff(mt, wire, b))
    fa, fb = gen.freeze(a), gen.freeze(b)
    ctx.check(fa[0] == fb[0] and fa[1] | ref.ZERO == fb[1] and fa[2:] == fb[2:], 'differ', '%s: plain %s, zero-coded %s', name, fa[:5], fb[:5])
    ctx.check(list(b.acks) == (acks or []), 'acks', '%s: acks %s decoded as %s', name, acks, b.acks)
    ctx.count('pairs')
    if len(plain) > 2048:
        ctx.count('longer than 2048')
    n = body.count('\0')
    if n:
        ctx.count('with zeros')
        longest = max([len(r) for r in ''.join([c == '\0' and '0' or ' ' for c in body]).split()])
        ctx.count('longest run %s' % (longest > 255 and '>255' or longest > 15 and '16-255' or '1-15'))
        ctx.distinct(name, longest, len(body), len(extra), acks and len(acks))
    ctx.sample('%s plain %s coded %s' % (name, vcore.hexs(plain)[:100], vcore.hexs(coded)[:100]))
