"""C34: the packer and the unpacker of single values against struct, in every byte order and at any offset"""
import struct, math
import vcore, ref, gen

CASES = {'quick': 250, 'thorough': 4000}
NETWORK = ('S8', 'U8', 'BOOL', 'IPPORT')
CODES = {'U8': 'B', 'U16': 'H', 'U32': 'I', 'U64': 'Q', 'S8': 'b', 'S16': 'h', 'S32': 'i', 'S64': 'q', 'F32': 'f', 'F64': 'd', 'BOOL': 'B', 'IPPORT': 'H'}
TUPLES = {'LLVector3': '3f', 'LLVector3d': '3d', 'LLVector4': '4f', 'LLQuaternion': '3f'}
NAMES = {'IPADDR': 'MVT_IP_ADDR', 'IPPORT': 'MVT_IP_PORT', 'Fixed': 'MVT_FIXED', 'Variable': 'MVT_VARIABLE'}


def setup(ctx):
    vcore.boot()
    from pyogp.lib.base.message.data_packer import DataPacker
    from pyogp.lib.base.message.data_unpacker import DataUnpacker
    from pyogp.lib.base.message.msgtypes import MsgType, EndianType, sizeof
    from pyogp.lib.base import exc
    ctx.P, ctx.U, ctx.T, ctx.E, ctx.sizeof, ctx.exc = DataPacker, DataUnpacker, MsgType, EndianType, sizeof, exc
    ctx.pair = ctx.P(), ctx.U()
    ctx.types = sorted(CODES) + sorted(TUPLES) + ['LLUUID', 'IPADDR', 'Fixed', 'Variable']
    ctx.tags = dict([(t, getattr(MsgType, NAMES.get(t, 'MVT_' + t))) for t in ctx.types])
    if len(set(ctx.tags.values())) != 20:
        ctx.violate('types', 'the type tags are not distinct: %s' % sorted(ctx.tags.items()))


def expected(t, v, order):
    """the bytes of the neutral value"""
    o = order or (t in NETWORK and '>' or '<')
    if t in CODES:
        return struct.pack(o + CODES[t], v)
    if t in TUPLES:
        return struct.pack(o + TUPLES[t], *v)
    if t == 'Variable':
        return v
    return v


def same(t, got, v):
    """what was unpacked is the neutral value"""
    if t == 'LLVector3':
        return tuple(got()) == tuple(v)
    if t == 'LLQuaternion':
        q = got()
        s = 1.0 - sum([c * c for c in v])
        return tuple(q[:3]) == tuple(v) and abs(q[3] - (s > 0 and math.sqrt(s) or 0)) < 1e-6
    if t == 'LLUUID':
        return got.get_bytes() == v
    if t in TUPLES:
        return tuple(got) == tuple(v)
    return got == v


def case(ctx, i, rng):
    if rng.randrange(2):
        ctx.pair = ctx.P(), ctx.U()
    p, u = ctx.pair     # it may have packed much before
    orders = [ctx.E.NONE, ctx.E.NONE, ctx.E.LITTLE, ctx.E.BIG, ctx.E.NETWORK]
    for k in range(30):
        t = rng.choice(ctx.types)
        f = ref.Field('F', t, t == 'Fixed' and rng.choice([1, 2, 16, 100]) or ref.SIZES.get(t, 2))
        v, wire = gen.gen_value(rng, f)
        if t in ('F32', 'F64') and rng.randrange(4) == 0:
            v = wire = rng.choice([0.0, -0.0, 1, 1.0, True])
            ctx.count('equal values')
        order = rng.choice(orders)
        tag = ctx.tags[t]
        ctx.note(t, repr(order), repr(v)[:100])
        want = expected(t, wire, order)
        args = order and (v, tag, order) or (v, tag)
        got = p.pack_data(*args)
        ctx.check(got == want, 'packed', '%s %s in byte order %s packs to %s instead of %s', t, v, repr(order), vcore.hexs(got), vcore.hexs(want))
        if t not in ('Fixed', 'Variable'):
            ctx.check(len(want) == ctx.sizeof(tag), 'size', '%s has the size %s and packs to %s bytes', t, ctx.sizeof(tag), len(want))
        ctx.count('packed ' + t)
        if t in ('LLVector3', 'LLQuaternion') and hasattr(v, 'X'):
            # its owner changes it and packs it again
            c, x = rng.choice('XYZ'), rng.choice([0.0, -1.0, 0.5, 0.25])
            setattr(v, c, x)
            s = -1.0 if t == 'LLQuaternion' and v.W < 0 else 1.0
            wire = tuple([gen.f32(s * y) for y in (v.X, v.Y, v.Z)])
            args = (v,) + args[1:]
            want = expected(t, wire, order)
            got = p.pack_data(*args)
            ctx.check(got == want, 'packed-changed', '%s, which was packed before it was changed to %s, packs to %s instead of %s', t, v, vcore.hexs(got), vcore.hexs(want))
            ctx.count('changed and packed')
        # back: alone, and somewhere in a buffer
        kw = order and {'endian_type': order} or {}
        ways = [('alone', want, {})]
        pre, post = gen.rand_bytes(rng, rng.choice([0, 1, 3, 50])), gen.rand_bytes(rng, rng.choice([0, 1, 40]))
        if t not in ('Fixed', 'Variable'):
            ways.append(('at an offset', pre + want + post, {'start_index': len(pre)}))
        ways.append(('at an offset with its size', pre + want + post, {'start_index': len(pre), 'var_size': len(want)}))
        for what, buf, more in ways:
            d = dict(kw)
            d.update(more)
            r = vcore.attempt(lambda: u.unpack_data(buf, tag, **d))
            ctx.check(r[0] == 'ok', 'unpack', '%s unpacked %s in byte order %s raises %s', t, what, repr(order), repr(r[1]))
            ctx.check(same(t, r[1], wire), 'unpacked', '%s %s unpacked %s in byte order %s gives %s: %s', t, wire, what, repr(order), r[1], vcore.hexs(want))
            ctx.count('unpacked')
            if hasattr(r[1], 'X') or hasattr(r[1], 'uuid'):
                # its owner changes it
                if hasattr(r[1], 'X'):
                    r[1].X = 77.25
                else:
                    r[1].unpack_from_bytes('\xaa' * 16, 0)
                again = u.unpack_data(buf, tag, **d)
                ctx.check(same(t, again, wire), 'unpacked', '%s %s unpacked %s again gives %s', t, wire, what, again)
        ctx.distinct(t, order, want, len(pre))
        # too few bytes
        if t not in ('Fixed', 'Variable', 'IPADDR', 'LLUUID'):
            n = rng.randrange(len(want))
            for buf, d in ((want[:n], {}), (pre + want[:n], {'start_index': len(pre)})):
                d.update(kw)
                r = vcore.attempt(lambda: u.unpack_data(buf, tag, **d))
                ctx.check(r[0] == 'exc', 'short', '%s of the %s bytes of a %s unpacks to %s', n, len(want), t, repr(r[1]))
                ctx.check(isinstance(r[1], ctx.exc.DataUnpackingError), 'short-error', '%s of the %s bytes of a %s raise %s', n, len(want), t, repr(r[1]))
                ctx.count('too short')
    ctx.sample('30 values')
