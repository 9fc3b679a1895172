"""C24: conversions of vectors, quaternions and UUIDs against struct, uuid and arithmetic"""
import struct, uuid, math, copy
import vcore, gen

CASES = {'quick': 40000, 'thorough': 1200000}


def setup(ctx):
    vcore.boot()
    from pyogp.lib.base.datatypes import Vector3, Quaternion, UUID
    ctx.V, ctx.Q, ctx.U = Vector3, Quaternion, UUID


def junk(rng, n):
    return ''.join([chr(rng.randrange(256)) for k in range(n)])


def near(a, b, rel=1e-11):
    if a != a or b != b:
        return a != a and b != b
    return a == b or abs(a - b) <= rel * max(abs(a), abs(b))


def comps(v, names):
    return tuple([getattr(v, n) for n in names])


def same(a, b):
    """equal floats, a NaN equal to itself"""
    return len(a) == len(b) and not [1 for x, y in zip(a, b) if not (x == y or (x != x and y != y))]


def number(rng):
    r = rng.randrange(4)
    if r == 0:
        return rng.choice([0, 1, -1, 128, 256, 2 ** 24, True, -(2 ** 31), 10 ** 6])
    if r == 1:
        return gen.f32(rng.uniform(-1e3, 1e3))
    return gen.rand_f32(rng)


def tuples(ctx, rng, cls, names, what):
    n = len(names)
    vals = [number(rng) for k in range(n)]
    given = rng.randrange(1, 1 << n) if rng.randrange(4) == 0 else (1 << n) - 1
    kw = dict([(names[k], vals[k]) for k in range(n) if given >> k & 1])
    want = tuple([float(vals[k]) if given >> k & 1 else 0.0 for k in range(n)])
    v = cls(**kw)
    ctx.check(same(comps(v, names), want) and not [1 for x in names if type(getattr(v, x)) is not float], 'components', '%s(**%s) has components %s', what, kw, comps(v, names))
    ctx.check(same(v(), want) and same(v.data(), want), 'tuple', '%s %s as tuples is %s and %s', what, want, v(), v.data())
    b = v.get_bytes()
    ctx.check(b == struct.pack('<%df' % n, *want), 'bytes', '%s %s as bytes is %s', what, want, vcore.hexs(b))
    before, after = junk(rng, rng.choice([0, 0, 1, 3, 16, 40])), junk(rng, rng.choice([0, 0, 1, 4, 20]))
    off = len(before)
    w = cls(before + b + after, off) if off or rng.randrange(2) else cls(b + after)
    f = tuple([gen.f32(x) for x in want])
    ctx.check(same(comps(w, names), f), 'unpack', '%s from bytes at %s is %s instead of %s', what, off, comps(w, names), f)
    ctx.check(w.get_bytes() == b, 'unpack', '%s from bytes %s gives the bytes %s', what, vcore.hexs(b), vcore.hexs(w.get_bytes()))
    c = v.copy()
    ctx.check(type(c) is type(v) and c is not v and same(comps(c, names), want), 'copy', 'a copy of %s %s is %s', what, want, c)
    d = rng.choice(names)
    setattr(c, d, getattr(c, d) + 1.5)
    ctx.check(same(comps(v, names), want), 'copy', 'changing a copy changes the %s', what)
    c2 = v.copy()
    setattr(v, d, 77.25)
    ctx.check(same(comps(c2, names), want) and getattr(v, d) == 77.25, 'copy', 'changing a %s changes its copy', what)
    now = tuple([getattr(v, x) for x in names])
    ctx.check(same(v(), now) and same(v.data(), now) and v.get_bytes() == struct.pack('<%df' % n, *now) and same(comps(v.copy(), names), now) and '77.25' in repr(v), 'changed',
              '%s changed from %s to %s is %s, %s, %s, its copy %s', what, want, now, v(), repr(v), vcore.hexs(v.get_bytes()), v.copy())
    v.unpack_from_bytes(before + b + after, off)
    ctx.check(same(comps(v, names), f) and v.get_bytes() == b and same(v(), f), 'changed', '%s unpacked from %s into one in use is %s, %s', what, vcore.hexs(b), v(), vcore.hexs(v.get_bytes()))
    fresh = cls()
    ctx.check(comps(fresh, names) == (0.0,) * n, 'shared', 'a new %s is %s', what, comps(fresh, names))
    ctx.count(what + 's')
    ctx.distinct(what, b, off)
    return want, cls(**kw)


def vector(ctx, rng):
    want, v = tuples(ctx, rng, ctx.V, 'XYZ', 'vector')
    t = repr(v)
    p = ctx.V.parse(t)
    ctx.check(not [1 for a, b in zip(p(), want) if not near(a, b)], 'text', 'vector %s as text %s is parsed as %s', want, t, p())
    forms = ['%r, %r, %r', '<%r,%r,%r>', ' < %r , %r,   %r > ', '%r,%r,%r']
    vals = [float(number(rng)) for k in range(3)]
    s = rng.choice(forms) % tuple(vals)
    if not [x for x in vals if x != x or abs(x) == float('inf')]:
        p = ctx.V.parse(s)
        ctx.check(same(p(), tuple(vals)), 'parse', '%s is parsed as %s', s, p())
        other = ctx.V(X=vals[0], Y=vals[1], Z=vals[2])
        if not [x for x in want if x != x or abs(x) > 1e15] and not [x for x in vals if abs(x) > 1e15]:
            d = ctx.V.dist_squared(v, other)
            e = sum([(a - b) ** 2 for a, b in zip(want, vals)])
            ctx.check(near(d, e, 1e-9), 'distance', 'squared distance of %s and %s is %s', want, vals, d)
            ctx.check(ctx.V.dist_squared(other, v) == d and ctx.V.dist_squared(v, v) == 0, 'distance', 'squared distance of %s and %s is not symmetric', want, vals)
    bad = rng.choice(['', '<>', '1,2', '1,2,3,4', '<1,2,x>', 'a,b,c', '1 2 3', '<,,>', '1,,3'])
    r = vcore.attempt(ctx.V.parse, bad)
    ctx.check(r[0] == 'exc' and isinstance(r[1], ValueError), 'parse-bad', 'parsing %s gives %s', bad, r[1])


def quaternion(ctx, rng):
    want, q = tuples(ctx, rng, ctx.Q, 'XYZW', 'quaternion')
    t = eval(repr(q), {'nan': float('nan'), 'inf': float('inf')})
    ctx.check(not [1 for a, b in zip(t, want) if not near(a, b)], 'text', 'quaternion %s as text is %s', want, repr(q))
    # three components
    scale = rng.choice([1.0, 1.0, 1.0, 0.1, 0.0, 1.5])
    x = [rng.gauss(0, 1) for k in range(4)]
    if rng.randrange(5) == 0:
        x[rng.randrange(4)] = 0.0
    m = math.sqrt(sum([a * a for a in x])) or 1.0
    x = [gen.f32(a / m * scale) for a in x[:3]]
    if rng.randrange(6) == 0:
        x = rng.choice([[1.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.6, 0.8, 0.0], [2.0, 0.0, 0.0], [0.5, 0.5, 0.5]])
        x = [gen.f32(a) for a in x]
    before = junk(rng, rng.choice([0, 0, 1, 8, 33]))
    data = before + struct.pack('<3f', *x) + junk(rng, rng.choice([0, 0, 0, 1, 3]))
    q = ctx.Q(data, len(before))
    s = 1.0 - sum([a * a for a in x])
    w = s > 0 and math.sqrt(s) or 0.0
    ctx.check((q.X, q.Y, q.Z) == tuple(x), 'three', 'components %s are read as %s', x, (q.X, q.Y, q.Z))
    ctx.check(q.W >= 0 and abs(q.W - w) <= 1e-6 + 1e-6 * w or abs(q.W * q.W - max(s, 0)) < 1e-9 and q.W >= 0, 'normalise', 'components %s get W %s instead of %s', x, q.W, w)
    ctx.check(len(q.get_bytes()) == 16 and same(struct.unpack('<4f', q.get_bytes()), tuple(x) + (gen.f32(q.W),)), 'three-bytes', 'components %s as bytes are %s', x, vcore.hexs(q.get_bytes()))
    ctx.count('three components' + (s <= 0 and ', no W' or ''))


def rand_uuid(rng):
    return uuid.UUID(int=rng.choice([0, 1, (1 << 128) - 1, 1 << 127, rng.getrandbits(128), rng.getrandbits(128), rng.getrandbits(128), rng.getrandbits(64)]))


def uuids(ctx, rng):
    U = ctx.U
    a, b = rand_uuid(rng), rand_uuid(rng)
    if rng.randrange(4) == 0:
        b = uuid.UUID(int=a.int)
    elif rng.randrange(4) == 0:
        b = uuid.UUID(int=a.int ^ (1 << rng.randrange(128)))
    before, after = junk(rng, rng.choice([0, 0, 1, 7, 30])), junk(rng, rng.choice([0, 0, 1, 16]))
    forms = [lambda x: U(str(x)), lambda x: U(string=str(x).upper()), lambda x: U(string=x.hex), lambda x: U(string='{%s}' % x), lambda x: U(string=x.urn), lambda x: U(string=unicode(x)),
             lambda x: U(bytes=x.bytes), lambda x: U(bytes=before + x.bytes + after, offset=len(before)), lambda x: U(str(x)).copy()]
    x, y = rng.choice(forms)(a), rng.choice(forms)(b)
    for u, v in ((x, a), (y, b)):
        ctx.check(str(u) == str(v) and repr(u) == str(v), 'text', 'UUID %s as text is %s', v, str(u))
        ctx.check(u.get_bytes() == v.bytes, 'bytes', 'UUID %s as bytes is %s', v, vcore.hexs(u.get_bytes()))
        ctx.check(u.data() == v and u() == v and u.uuid == v, 'data', 'UUID %s is %s', v, u.data())
        ctx.check(U(str(u)) == u and U(bytes=u.get_bytes()) == u and u.copy() == u, 'round trip', 'UUID %s is not kept', v)
    eq = a == b
    ctx.check((x == y) == eq and (y == x) == eq and (x != y) == (not eq), 'equality', '%s and %s are equal: %s, unequal: %s', a, b, x == y, x != y)
    if eq:
        ctx.check(hash(x) == hash(y), 'hash', 'equal UUIDs %s have different hashes', a)
    ctx.check((y in {x: 1}) == eq and len(set([x, y])) == (2 - eq) and (y in [x]) == eq, 'hash', '%s and %s as keys', a, b)
    ctx.check(not x == None and not x == 5 and x != None and x != str(a), 'equality', 'UUID %s is equal to something else', a)
    z = x ^ y
    ctx.check(z.uuid.int == a.int ^ b.int and isinstance(z, U), 'xor', '%s ^ %s is %s', a, b, z)
    ctx.check(x.uuid == a and y.uuid == b and (z ^ y) == x, 'xor', 'xor of %s and %s', a, b)
    c = x.copy()
    ctx.check(c is not x and type(c) is U, 'copy', 'a copy of a UUID is itself')
    # random
    c.random()
    if a.int:
        ctx.check(c.uuid == a, 'random', 'random replaces %s by %s', a, c)
    else:
        ctx.check(c.uuid.int != 0, 'random', 'random gives %s', c)
        got = c.uuid
        ctx.check(str(c) == str(got) and repr(c) == str(got) and c.get_bytes() == got.bytes and c == U(str(got)) and c in set([U(str(got))]) and c.copy() == c and c.data() == got, 'changed', 'a random UUID %s is %s, %s', got, c, vcore.hexs(c.get_bytes()))
        c.random()
        ctx.check(c.uuid == got, 'random', 'random replaces a random one')
        ctx.check(got not in ctx.randoms, 'random', 'the same random UUID twice')
        ctx.randoms.add(got)
        ctx.count('random UUIDs')
        n = U()
        r = n.random()
        ctx.check(n.uuid.int != 0 and r == n.uuid, 'random', 'random gives %s and returns %s', n, r)
    ctx.check(x.uuid == a and U().uuid.int == 0, 'shared', 'a copy changed the original, or a new UUID is %s', U())
    y.unpack_from_bytes(before + a.bytes + after, len(before))
    ctx.check(y == x and not y != x and hash(y) == hash(x) and str(y) == str(a) and repr(y) == str(a) and y.get_bytes() == a.bytes and y.copy() == x and y() == a and y.data() == a, 'changed',
              'a UUID %s unpacked into one in use is %s, %s', a, y, vcore.hexs(y.get_bytes()))
    bad = rng.choice(['', 'x', str(a)[:-1], str(a) + '0', 'g' + str(a)[1:]])
    r = vcore.attempt(U, bad)
    ctx.check(r[0] == 'exc' and isinstance(r[1], ValueError), 'bad', 'UUID of %s is %s', bad, r[1])
    ctx.count('UUIDs')
    ctx.distinct('u', a.int, b.int, len(before))


def case(ctx, i, rng):
    if not hasattr(ctx, 'randoms'):
        ctx.randoms = set()
    (vector, quaternion, uuids)[i % 3](ctx, rng)
    if i < 3:
        ctx.sample('one of each kind')
