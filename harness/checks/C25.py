"""C25: byte and number helpers against exact arithmetic and the decoders of the standard library"""
import struct, math, binascii
from fractions import Fraction
import vcore, gen

CASES = {'quick': 30000, 'thorough': 900000}


def setup(ctx):
    vcore.boot()
    from pyogp.lib.base.helpers import Helpers
    from pyogp.lib.base.datatypes import Vector3, Quaternion
    from pyogp.lib.base.exc import DataParsingError
    ctx.H, ctx.V, ctx.Q, ctx.Bad = Helpers, Vector3, Quaternion, DataParsingError


def renderings(ctx, rng):
    H = ctx.H
    b = gen.rand_bytes(rng, rng.choice([0, 1, 2, 3, 4, 15, 44, 45, 46, 57, 58, 200, 1500]))
    h = H.bytes_to_hex(b)
    ctx.check(h == ' '.join(['%02X' % ord(x) for x in b]), 'hex', 'hex of %s is %s', vcore.hexs(b), h)
    digits = h.replace(' ', '')
    for d in (digits, digits.lower()):
        r = H.hex_to_ascii(d)
        ctx.check(type(r) is str and r == b, 'unhex', 'the bytes of hex %s are %s', d, vcore.hexs(r))
    s = H.bytes_to_base64(b)
    ctx.check(type(s) is str and s.strip('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=\n') == '' and binascii.a2b_base64(s) == b, 'base64', 'base64 of %s is %s', vcore.hexs(b), s)
    if len(b) <= 45:
        s = H.bytes_to_ascii(b)
        ctx.check(binascii.a2b_uu(s) == b and not [c for c in s if ord(c) > 127], 'ascii', 'ASCII of %s is %s', vcore.hexs(b), repr(s))
    bad = rng.choice([digits + 'A', digits[:-1] if digits else 'F', digits[:2] + 'G' + digits[3:] if len(digits) > 2 else 'GG', digits + ' 1', 'xyz', '0x12', '1 ', ' 12 3', h if len(b) % 2 == 0 and len(b) > 1 else '1-', '\xff\xff', '\0\0'])
    try:
        binascii.unhexlify(bad)
        isbad = False
    except TypeError:
        isbad = True
    if isbad:
        r = vcore.attempt(H.hex_to_ascii, bad)
        ctx.check(r[0] == 'exc' and isinstance(r[1], ctx.Bad), 'bad-hex', 'the bytes of %s are %s', repr(bad), r[1])
        ctx.check(vcore.attempt(str, r[1])[0] == 'ok', 'bad-hex', 'the error has no text')
        ctx.count('bad hex')
    ctx.count('renderings')
    ctx.distinct(len(b), b[:8])


def integers(ctx, rng):
    for k in range(4):
        n = rng.choice([0, 1, -1, 255, 256, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 24, rng.getrandbits(32), rng.getrandbits(32), rng.getrandbits(16), -rng.getrandbits(31), 0x01020304, long(rng.getrandbits(8))])
        b = ctx.H.int_to_bytes(n)
        ctx.check(b == struct.pack('<I', n % (1 << 32)), 'integer', 'integer %s is packed to %s', n, vcore.hexs(b))
        ctx.distinct('i', n)
    ctx.count('integers')


RANGES = [(-1.0, 1.0), (0.0, 1.0), (-256.0, 256.0), (-0.5 * 256, 1.5 * 256), (-256.0, 4096.0), (-64.0, 64.0), (0, 255), (-1, 1), (5.0, 10.0), (-10.0, -5.0), (0.0, 100.0), (-100.0, 0.0), (0.1, 0.3), (-1e-3, 1e3), (-128, 127)]


def packed(ctx, rng):
    lower, upper = rng.choice(RANGES)
    if rng.randrange(3) == 0:
        lower = rng.uniform(-1e3, 1e3)
        upper = lower + rng.choice([1e-3, 1.0, rng.uniform(0.01, 1e4)])
    bits = rng.choice([8, 16])
    top = (1 << bits) - 1
    zero = -lower * top / float(upper - lower)
    fn = bits == 8 and ctx.H.packed_u8_to_float or ctx.H.packed_u16_to_float
    step = Fraction(upper) - Fraction(lower)
    step /= top
    last = None
    for u in sorted(set([0, top, 1, top - 1, rng.randrange(top + 1), rng.randrange(top + 1)] + [min(top, max(0, int(zero) + d)) for d in (-2, -1, 0, 1, 2)])):
        raw = struct.pack(bits == 8 and '<B' or '<H', u)
        before, after = gen.rand_bytes(rng, rng.choice([0, 0, 1, 5])), gen.rand_bytes(rng, rng.choice([0, 0, 1, 5]))
        v = fn(before + raw + after, len(before), lower, upper)
        exact = Fraction(lower) + step * u
        tol = 1e-12 * (abs(lower) + abs(upper))
        close = abs(Fraction(v) - exact) <= tol
        a = abs(exact)
        if a < step * Fraction(999999, 1000000) - Fraction(tol):
            ctx.check(v == 0, 'near-zero', '%s packed in %s bits of %s..%s is %s', u, bits, lower, upper, v)
            ctx.count('near zero')
        elif a > step * Fraction(1000001, 1000000) + Fraction(tol):
            ctx.check(close, 'value', '%s packed in %s bits of %s..%s is %s instead of %s', u, bits, lower, upper, v, float(exact))
            if u in (0, top):
                end = u and upper or lower
                ctx.check(abs(v - end) <= 1e-15 * (abs(lower) + abs(upper)), 'end', 'the end %s of %s..%s becomes %s', u, lower, upper, v)
        else:
            ctx.check(close or v == 0, 'value', '%s packed in %s bits of %s..%s is %s', u, bits, lower, upper, v)
        ctx.check(last is None or v >= last, 'monotonic', '%s packed in %s bits of %s..%s is less than its predecessor: %s', u, bits, lower, upper, v)
        last = v
        ctx.distinct(bits, lower, upper, u)
    ctx.count('packed ranges')


def quaternions(ctx, rng):
    q = [rng.gauss(0, 1) for k in range(4)]
    r = rng.randrange(8)
    if r == 0:
        q[3] = rng.choice([0.0, 1e-9, -1e-9])
    elif r == 1:
        q[rng.randrange(4)] = 0.0
    elif r == 2:
        q = rng.choice([[0, 0, 0, 1.0], [0, 0, 0, -1.0], [1.0, 0, 0, 0], [0, -1.0, 0, 0], [0.5, 0.5, 0.5, 0.5], [0.5, 0.5, 0.5, -0.5], [0, 0, 0.6, -0.8]])
    m = math.sqrt(sum([x * x for x in q])) or 1.0
    q = tuple([x / m for x in q])
    p = ctx.H.pack_quaternion_to_vector3(q)
    ctx.check(len(p) == 3, 'pack', 'quaternion %s is packed to %s', q, p)
    back = ctx.Q(ctx.V(X=p[0], Y=p[1], Z=p[2]).get_bytes(), 0)
    b = back()
    ctx.check(back.W >= 0 and abs(back.W ** 2 - q[3] ** 2) < 2e-6, 'w', 'quaternion %s comes back as %s', q, b)
    sign = q[3] < 0 and -1 or 1
    signs = abs(q[3]) < 1e-6 and (1, -1) or (sign,)
    ctx.check([s for s in signs if not [1 for k in range(3) if abs(b[k] - s * q[k]) > 1e-6]], 'rotation', 'quaternion %s comes back as %s', q, b)
    # the same rotation of a vector
    v = [rng.gauss(0, 1) for k in range(3)]
    x, y = rotate(q, v), rotate(b, v)
    ctx.check(max([abs(x[k] - y[k]) for k in range(3)]) < 1e-2 * max([1] + [abs(c) for c in v]), 'rotation', 'quaternion %s turns %s to %s, its unpacked form %s to %s', q, v, x, b, y)
    ctx.count('quaternions')
    ctx.distinct('q', q)


def rotate(q, v):
    x, y, z, w = q
    # v + 2 w (q x v) + 2 q x (q x v)
    cx, cy, cz = y * v[2] - z * v[1], z * v[0] - x * v[2], x * v[1] - y * v[0]
    dx, dy, dz = y * cz - z * cy, z * cx - x * cz, x * cy - y * cx
    return [v[0] + 2 * (w * cx + dx), v[1] + 2 * (w * cy + dy), v[2] + 2 * (w * cz + dz)]


def case(ctx, i, rng):
    (renderings, integers, packed, quaternions)[i % 4](ctx, rng)
    if i < 3:
        ctx.sample('case %d' % i)
