"""Random message contents, the library's form of them and comparison with what the library decodes."""
import struct
import math
import uuid
import ref


def f32(x):
    return struct.unpack('<f', struct.pack('<f', x))[0]


def rand_f32(rng):
    k = rng.randrange(8)
    if k == 0:
        return rng.choice([0.0, -0.0, -0.0, 1.0, -1.0, 0.5, 128.0, 255.5])
    if k == 1:
        return f32(rng.choice([3.4e38, -3.4e38, 1.2e-38, -1.2e-38, 1e-45, 16777217.0]))
    if k == 2:
        return f32(rng.uniform(-1, 1))
    while True:
        v = struct.unpack('<f', struct.pack('<I', rng.getrandbits(32)))[0]
        if v == v and v not in (float('inf'), float('-inf')):
            return v


def rand_f64(rng):
    k = rng.randrange(5)
    if k == 0:
        return rng.choice([0.0, -0.0, -0.0, 1.0, -1.0, 1e300, -1e-300, 256000.25])
    if k == 1:
        return rng.uniform(-1e6, 1e6)
    while True:
        v = struct.unpack('<d', struct.pack('<Q', rng.getrandbits(64)))[0]
        if v == v and v not in (float('inf'), float('-inf')):
            return v


INTS = {'U8': (0, 8), 'U16': (0, 16), 'U32': (0, 32), 'U64': (0, 64), 'S8': (1, 8), 'S16': (1, 16), 'S32': (1, 32), 'S64': (1, 64), 'IPPORT': (0, 16)}


def rand_int(rng, signed, bits):
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    k = rng.randrange(6)
    if k == 0:
        return rng.choice([lo, hi, 0, 1, hi - 1, lo + 1])
    if k == 1:
        return min(hi, rng.choice([1, 127, 128, 255, 256, 257, 65535, 65536, 1 << 24, (1 << 31) - 1, 1 << 31, 0x01020304, 0x0102030405060708]) & hi)
    return lo + rng.getrandbits(bits)


def rand_bytes(rng, n):
    k = rng.randrange(4)
    if k == 0:
        return ''.join([rng.choice('\0\0\0\x01\xff') for i in xrange(n)])
    if n > 400:
        seedb = ''.join([chr(rng.randrange(256)) for i in xrange(97)])
        return (seedb * (n // 97 + 1))[:n]
    return ''.join([chr(rng.randrange(256)) for i in xrange(n)])


TEXTS = [u'', u'a', u'Ren\xe9', u'\u20ac\u4e2d', u'line\nbreak', u'x' * 40, u'\U0001f600']


class Lib(object):
    """the library's classes, imported late"""
    def __init__(self):
        from pyogp.lib.base.datatypes import UUID, Vector3, Quaternion
        from pyogp.lib.base.message.message import Message, Block
        self.UUID, self.Vector3, self.Quaternion, self.Message, self.Block = UUID, Vector3, Quaternion, Message, Block


_lib = []


def lib():
    if not _lib:
        _lib.append(Lib())
    return _lib[0]


def gen_value(rng, f, big=False):
    """(value for the library, neutral wire value, expected decoded value or None for 'the neutral one')"""
    L = lib()
    t = f.type
    if t in INTS:
        v = rand_int(rng, *INTS[t])
        return v, v
    if t == 'BOOL':
        v = rng.randrange(2)
        return (bool(v) if rng.randrange(2) else v), v
    if t == 'F32':
        v = rand_f32(rng)
        return v, v
    if t == 'F64':
        v = rand_f64(rng)
        return v, v
    if t == 'LLVector3':
        v = (rand_f32(rng), rand_f32(rng), rand_f32(rng))
        return (L.Vector3(X=v[0], Y=v[1], Z=v[2]) if rng.randrange(2) else v), v
    if t == 'LLVector3d':
        v = (rand_f64(rng), rand_f64(rng), rand_f64(rng))
        return v, v
    if t == 'LLVector4':
        v = (rand_f32(rng), rand_f32(rng), rand_f32(rng), rand_f32(rng))
        return v, v
    if t == 'LLQuaternion':
        while True:
            q = [rng.uniform(-1, 1) for i in range(4)]
            n = math.sqrt(sum([c * c for c in q]))
            if n > 0.01:
                break
        q = [c / n for c in q]
        if rng.randrange(8) == 0:
            q = [0.0, 0.0, 0.0, 1.0]
        s = -1.0 if q[3] < 0 else 1.0
        wire = tuple([f32(s * c) for c in q[:3]])
        return (L.Quaternion(X=q[0], Y=q[1], Z=q[2], W=q[3]) if rng.randrange(2) else tuple(q)), wire
    if t == 'LLUUID':
        b = rand_bytes(rng, 16)
        return (L.UUID(bytes=b, offset=0) if rng.randrange(2) else uuid.UUID(bytes=b)), b
    if t == 'IPADDR':
        b = rand_bytes(rng, 4)
        return b, b
    if t == 'Fixed':
        b = rand_bytes(rng, f.size)
        return b, b
    if t == 'Variable':
        top = {1: 254, 2: 65534, 4: 70000}[f.size]
        k = rng.randrange(10)
        if k < 2:
            u = rng.choice(TEXTS)
            return u, u.encode('utf-8') + '\0'
        if k == 2:
            n = 0
        elif k == 3 and f.size == 1:
            n = rng.choice([254, 253, 200])
        elif k == 3 and big:
            n = rng.choice([255, 256, 257, 1000, 4000, top])
        else:
            n = rng.randrange(1, 24)
        b = rand_bytes(rng, n)
        return b, b + '\0'
    raise ValueError(t)


def counts(rng, b, many=False):
    if b.kind == 'Single':
        return 1
    if b.kind == 'Multiple':
        return b.number
    k = rng.randrange(12)
    if k == 0:
        return 0
    if many and k == 1:
        return rng.choice([255, 254, 128, 100])
    return rng.choice([1, 1, 2, 2, 3, 4, 5])


def gen_message(rng, mt, many=False, big=False, nonempty=True):
    """(library values, neutral values): both {block: [ {field: value} ]}"""
    while True:
        libv, wire = {}, {}
        total = 0
        for b in mt.blocks:
            n = counts(rng, b, many)
            total += n
            libv[b.name], wire[b.name] = [], []
            for k in range(n):
                a, w = {}, {}
                for f in b.fields:
                    a[f.name], w[f.name] = gen_value(rng, f, big and n < 4)
                libv[b.name].append(a)
                wire[b.name].append(w)
        if total or not mt.blocks or not nonempty:
            return libv, wire


def build(mt, libv, rng=None):
    """a Message of the library. With rng, blocks and fields are supplied in random order and grouping"""
    L = lib()
    order = []
    for b in mt.blocks:
        order += [b.name] * len(libv.get(b.name, ()))
    nxt = {}
    if rng is not None:
        rng.shuffle(order)
    args = []
    for name in order:
        k = nxt.get(name, 0)
        nxt[name] = k + 1
        vals = libv[name][k]
        if rng is None:
            blk = L.Block(name, **vals)
        else:
            blk = L.Block(name)
            from pyogp.lib.base.message.message import Variable
            names = vals.keys()
            rng.shuffle(names)
            for fn in names:
                blk.add_variable(Variable(fn, vals[fn]))
        args.append(blk)
    if rng is not None and rng.randrange(2) and args:
        # the same blocks, some of them in lists
        grouped = []
        i = 0
        while i < len(args):
            k = rng.randrange(1, 4)
            grouped.append(args[i:i + k] if k > 1 else args[i])
            i += k
        args = grouped
    return L.Message(mt.name, *args)


def change(rng, mt, m):
    """the owner of a message gives it another content, in one of the ways there are; returns the content"""
    libv, wire = gen_message(rng, mt)
    other = build(mt, libv)
    for b in mt.blocks:
        mine, new = m.blocks.get(b.name, []), other.blocks.get(b.name, [])
        if len(mine) == len(new) and rng.randrange(3):
            way = rng.randrange(3)
            for x, y in zip(mine, new):
                for f in b.fields:
                    old, v = x.vars[f.name], y.vars[f.name]
                    if way == 0:
                        old.data = v.data
                    elif way == 1:
                        x.vars[f.name] = v
                    elif type(old.data) is type(v.data) and hasattr(v.data, 'X'):
                        # the same value object, changed
                        for c in 'XYZW':
                            if hasattr(v.data, c):
                                setattr(old.data, c, getattr(v.data, c))
                    else:
                        old.data = v.data
        elif b.name in m.blocks and rng.randrange(2):
            m.blocks[b.name][:] = new
        else:
            m.blocks.pop(b.name, None)
            for x in new:
                m.add_block(x)
    return wire


def same_num(a, b):
    if a == b:
        return True
    return isinstance(a, float) and isinstance(b, float) and abs(a - b) <= 1e-6 * max(abs(a), abs(b))


def comps(v):
    """components of a vector-like value of the library"""
    if hasattr(v, 'X'):
        c = [v.X, v.Y, v.Z]
        if hasattr(v, 'W'):
            c.append(v.W)
        return tuple(c)
    return tuple(v)


def value_ok(f, wire, got):
    """does the decoded value got stand for the neutral wire value?"""
    t = f.type
    try:
        if t == 'Variable':
            if isinstance(got, unicode):
                got = got.encode('utf-8')
            if not isinstance(got, str):
                return False
            return got == (wire if f.name == 'Data' else wire.rstrip('\0'))
        if t in ('Fixed', 'IPADDR'):
            return isinstance(got, str) and got == wire
        if t == 'LLUUID':
            b = got.get_bytes() if hasattr(got, 'get_bytes') else got.bytes
            return str(b) == wire
        if t == 'LLQuaternion':
            c = comps(got)
            if c[:3] != tuple(wire):
                return False
            if len(c) > 3:
                t2 = 1.0 - sum([x * x for x in wire])
                w = math.sqrt(t2) if t2 > 0 else 0.0
                return abs(c[3] - w) < 1e-9
            return True
        if t in ref.TUPLES:
            return comps(got) == tuple(wire)
        if isinstance(got, (str, unicode)):
            return False
        return got == wire
    except (TypeError, AttributeError, IndexError, ValueError):
        return False


def content(msg):
    """the library message's content as {block: [ {field: value} ]}, through its public containers"""
    out = {}
    for name in msg.blocks:
        out[name] = [dict([(v.name, v.data) for v in b.get_variables()]) for b in msg.blocks[name]]
    return out


def diff(mt, wire, msg):
    """None if the decoded message holds exactly the wire values, else a description"""
    if msg.name != mt.name:
        return 'name %r instead of %r' % (msg.name, mt.name)
    got = content(msg)
    names = [b.name for b in mt.blocks]
    for n in got:
        if n not in names and got[n]:
            return 'extra block %s' % n
    for b in mt.blocks:
        want = wire.get(b.name, [])
        have = got.get(b.name, [])
        if len(have) != len(want):
            return 'block %s: %d instances instead of %d' % (b.name, len(have), len(want))
        for k, w in enumerate(want):
            if sorted(have[k].keys()) != sorted([f.name for f in b.fields]):
                return 'block %s[%d]: fields %r' % (b.name, k, sorted(have[k].keys()))
            for f in b.fields:
                if not value_ok(f, w[f.name], have[k][f.name]):
                    return '%s[%d].%s (%s): decoded %r, on the wire %r' % (b.name, k, f.name, f.type, have[k][f.name], w[f.name])
    return None


def freeze(msg):
    """a comparable snapshot of everything observable of a decoded message"""
    if msg is None:
        return None
    c = content(msg)
    out = []
    for n in sorted(c):
        out.append((n, [sorted([(k, fval(v)) for k, v in inst.items()]) for inst in c[n]]))
    return (msg.name, msg.send_flags, msg.packet_id, bool(msg.reliable), list(msg.acks), out)


def fval(v):
    if hasattr(v, 'X') or hasattr(v, 'get_bytes'):
        return (v.__class__.__name__, v.get_bytes())
    if isinstance(v, (int, long)):
        return ('i', int(v))
    return (v.__class__.__name__, repr(v))


def shape(mt, msg):
    """None if the message's blocks and fields are of the template and its values of the declared size"""
    if msg.name != mt.name:
        return 'name %r' % (msg.name,)
    got = content(msg)
    names = dict([(b.name, b) for b in mt.blocks])
    for n in got:
        if n not in names:
            return 'block %s is not of %s' % (n, mt.name)
    for b in mt.blocks:
        have = got.get(b.name, [])
        if b.kind == 'Single' and len(have) != 1 or b.kind == 'Multiple' and len(have) != b.number or len(have) > 255:
            return '%d instances of %s block %s' % (len(have), b.kind, b.name)
        for inst in have:
            if sorted(inst.keys()) != sorted([f.name for f in b.fields]):
                return 'fields %r in block %s' % (sorted(inst.keys()), b.name)
            for f in b.fields:
                if not value_fits(f, inst[f.name]):
                    return '%s.%s (%s %s) holds %r' % (b.name, f.name, f.type, f.size, inst[f.name])
    return None


def value_fits(f, v):
    t = f.type
    try:
        if t in INTS:
            lo, hi = INTS[t]
            lo, hi = (-(1 << (hi - 1)), (1 << (hi - 1)) - 1) if lo else (0, (1 << hi) - 1)
            return isinstance(v, (int, long)) and lo <= v <= hi
        if t == 'BOOL':
            return v in (True, False) or (isinstance(v, (int, long)) and 0 <= v < 256)
        if t in ('F32', 'F64'):
            return isinstance(v, float)
        if t == 'LLUUID':
            return len(str(v.get_bytes() if hasattr(v, 'get_bytes') else v.bytes)) == 16
        if t in ref.TUPLES:
            c = comps(v)
            n = {'LLVector3': (3,), 'LLVector3d': (3,), 'LLVector4': (4,), 'LLQuaternion': (3, 4)}[t]
            return len(c) in n and not [x for x in c if not isinstance(x, (int, float))]
        if t in ('Fixed', 'IPADDR'):
            return isinstance(v, str) and len(v) == f.size
        return isinstance(v, (str, unicode)) and len(v) < 1 << (8 * f.size)
    except (TypeError, AttributeError):
        return False


def settings(**kw):
    from pyogp.lib.base.settings import Settings
    s = Settings()
    for k in kw:
        setattr(s, k, kw[k])
    return s


def wire_message(rng, mt, many=False, big=False, raw=True):
    """neutral values only, with at least one instance. raw: variable fields need no terminator"""
    libv, wire = gen_message(rng, mt, many, big)
    if raw:
        for b in mt.blocks:
            for inst in wire[b.name]:
                for f in b.fields:
                    if f.type == 'Variable' and rng.randrange(4) == 0:
                        inst[f.name] = inst[f.name][:-1]
    return wire


def pad(mt, wire):
    """the wire values up to trailing NULs of variable fields"""
    out = {}
    for b in mt.blocks:
        out[b.name] = []
        for inst in wire.get(b.name, ()):
            d = {}
            for f in b.fields:
                v = inst[f.name]
                d[f.name] = v.rstrip('\0') if f.type == 'Variable' else v
            out[b.name].append(d)
    return out


def rand_id(rng):
    return rng.choice([0, 1, 127, 128, 255, 256, 65535, 65536, 1 << 24, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, rng.getrandbits(32), rng.getrandbits(32)])
