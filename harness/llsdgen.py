"""Random LLSD values, an independent LLSD XML writer and strict equality"""
import uuid
import datetime
import base64
import struct

TEXTS = [u'', u'a', u'hello world', u'<&>"\'', u'Ren\xe9', u'\u20ac \u4e2d\u6587', u' lead', u'trail ', u'two\nlines', u'tab\tbed', u']]>', u'&amp;', u'0', u'x' * 300,
         u'http://example.com/cap?a=1&b=2', u'<llsd></llsd>', u'</llsd>']
KEYS = [u'a', u'b', u'key with space', u'id', u'events', u'k&<>', u'\xfc', u'body', u'0']


def modules():
    from llbase import llsd
    return llsd


def value(rng, depth=3, top=False):
    llsd = modules()
    kinds = ['list', 'dict'] if top else ['none', 'bool', 'int', 'int', 'real', 'str', 'str', 'uni', 'uuid', 'date', 'bin', 'uri'] + (depth > 0 and ['list', 'dict'] * 3 or [])
    k = rng.choice(kinds)
    if k == 'none':
        return None
    if k == 'bool':
        return rng.randrange(2) == 1
    if k == 'int':
        return rng.choice([0, 1, -1, 255, (1 << 31) - 1, -(1 << 31), rng.randrange(-10 ** 6, 10 ** 6)])
    if k == 'real':
        return rng.choice([0.0, 1.5, -2.25, 1e300, 1e-300, 0.1, rng.uniform(-1e6, 1e6), float(rng.randrange(1000))])
    if k == 'str':
        return rng.choice(['', 'abc', 'x y', '<tag>', 'a&b', 'true', '1', 'long ' * 40])
    if k == 'uni':
        return rng.choice(TEXTS)
    if k == 'uuid':
        return uuid.UUID(int=rng.choice([0, 1, rng.getrandbits(128)]))
    if k == 'date':
        return datetime.datetime(rng.randrange(1971, 2037), rng.randrange(1, 13), rng.randrange(1, 28), rng.randrange(24), rng.randrange(60), rng.randrange(60))
    if k == 'bin':
        return llsd.binary(''.join([chr(rng.randrange(256)) for i in range(rng.choice([0, 1, 2, 3, 57, 58, 100]))]))
    if k == 'uri':
        return llsd.uri(rng.choice(['', 'http://example.com/', 'http://example.com/?a=b&c=d']))
    n = rng.choice([0, 0, 1, 2, 3, 5])
    if k == 'list':
        return [value(rng, depth - 1) for i in range(n)]
    return dict([(rng.choice(KEYS) if rng.randrange(2) else 'key%d' % rng.randrange(50), value(rng, depth - 1)) for i in range(n)])


def large(rng):
    """a value whose document is long, broad or deep"""
    llsd = modules()
    k = rng.randrange(6)
    if k == 0:
        return [rng.randrange(1000) for j in range(rng.choice([300, 1100, 3000]))]
    if k == 1:
        return {u'long': rng.choice([u'abc ', u'Ren\xe9 <&>', u'0123456789']) * rng.choice([500, 1700, 9000])}
    if k == 2:
        return [llsd.binary(''.join([chr(rng.randrange(256)) for j in range(1000)]) * rng.choice([5, 33, 70]))]
    if k == 3:
        return dict([(u'key%d' % j, value(rng, 0)) for j in range(rng.choice([150, 600, 1500]))])
    if k == 4:
        v = [value(rng, 0)]
        for j in range(rng.choice([10, 25, 60])):
            v = rng.choice([lambda: [v], lambda: {u'in': v}, lambda: [j, v], lambda: {u'in': v, u'no': j}])()
        return v
    return [{u'message': u'm%d' % j, u'body': {u'a': j, u'b': [value(rng, 0)]}} for j in range(rng.choice([80, 300]))]


def esc(s):
    if isinstance(s, str):
        s = s.decode('utf-8')
    return s.replace(u'&', u'&amp;').replace(u'<', u'&lt;').replace(u'>', u'&gt;')


def to_xml(v, rng=None):
    """an LLSD document as unicode text"""
    ws = (lambda: rng.choice([u'', u'', u' ', u'\n  ', u'\t'])) if rng else (lambda: u'')
    llsd = modules()

    def elt(v):
        short = rng and rng.randrange(2)
        if v is None:
            return u'<undef/>'
        if v is True or v is False:
            if rng and rng.randrange(2):
                return v and u'<boolean>1</boolean>' or rng.choice([u'<boolean/>', u'<boolean>0</boolean>'])
            return u'<boolean>%s</boolean>' % (v and u'true' or u'false')
        if isinstance(v, (int, long)):
            return u'<integer/>' if v == 0 and short else u'<integer>%d</integer>' % v
        if isinstance(v, float):
            return u'<real/>' if v == 0 and short else u'<real>%r</real>' % v
        if isinstance(v, uuid.UUID):
            return u'<uuid/>' if v.int == 0 and short else u'<uuid>%s</uuid>' % v
        if isinstance(v, datetime.datetime):
            return u'<date>%s</date>' % v.strftime('%Y-%m-%dT%H:%M:%SZ')
        if isinstance(v, llsd.binary):
            return u'<binary/>' if not v and short else u'<binary>%s</binary>' % base64.b64encode(str(v))
        if isinstance(v, llsd.uri):
            return u'<uri/>' if not v and short else u'<uri>%s</uri>' % esc(str(v))
        if isinstance(v, (str, unicode)):
            return u'<string/>' if not v and short else u'<string>%s</string>' % esc(v)
        if isinstance(v, list):
            if not v and short:
                return u'<array/>'
            return u'<array>' + ws() + u''.join([elt(x) + ws() for x in v]) + u'</array>'
        if not v and short:
            return u'<map/>'
        return u'<map>' + ws() + u''.join([u'<key>%s</key>%s%s%s' % (esc(k), ws(), elt(v[k]), ws()) for k in v]) + u'</map>'
    return u'<?xml version="1.0" ?><llsd>' + ws() + elt(v) + ws() + u'</llsd>'


def to_binary(v, rng):
    """an LLSD binary document (of values without dates and binaries, which llbase renders by local time and as strings)"""
    llsd = modules()

    def sized(s):
        return struct.pack('>i', len(s)) + s

    def raw(s):
        return s.encode('utf-8') if isinstance(s, unicode) else s

    def elt(v):
        if v is None:
            return '!'
        if v is True or v is False:
            return v and '1' or '0'
        if isinstance(v, (int, long)):
            return 'i' + struct.pack('>i', v)
        if isinstance(v, float):
            return 'r' + struct.pack('>d', v)
        if isinstance(v, uuid.UUID):
            return 'u' + v.bytes
        if isinstance(v, llsd.uri):
            return 'l' + sized(raw(v))
        if isinstance(v, (str, unicode)):
            return 's' + sized(raw(v))
        if isinstance(v, list):
            return '[' + struct.pack('>i', len(v)) + ''.join([elt(x) for x in v]) + ']'
        return '{' + struct.pack('>i', len(v)) + ''.join(['k' + sized(raw(k)) + elt(v[k]) for k in v]) + '}'
    return '<?llsd/binary?>\n' + elt(v)


def to_notation(v, rng):
    """an LLSD notation document"""
    llsd = modules()
    ws = lambda: ''     # llbase takes none in notation

    def quoted(s, delim=None):
        s = s.encode('utf-8') if isinstance(s, unicode) else str(s)
        if delim is None and rng.randrange(3) == 0:
            return 's(%d)"%s"' % (len(s), s)
        d = delim or rng.choice(['"', "'"])
        return d + s.replace('\\', '\\\\').replace(d, '\\' + d) + d

    def elt(v):
        if v is None:
            return '!'
        if v is True or v is False:
            return rng.choice(v and ['1', 'true', 't', 'T', 'TRUE'] or ['0', 'false', 'f', 'F', 'FALSE'])
        if isinstance(v, (int, long)):
            return 'i%d' % v
        if isinstance(v, float):
            return 'r%r' % v
        if isinstance(v, uuid.UUID):
            return 'u%s' % v
        if isinstance(v, llsd.uri):
            return 'l' + quoted(v, '"')
        if isinstance(v, (str, unicode)):
            return quoted(v)
        if isinstance(v, list):
            return '[' + ws() + (ws() + ',' + ws()).join([elt(x) for x in v]) + ws() + ']'
        return '{' + ws() + (ws() + ',' + ws()).join([quoted(k, "'") + ':' + ws() + elt(v[k]) for k in v]) + ws() + '}'
    return elt(v)


def plain(v):
    """free of dates and binaries"""
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return dict([(k, plain(v[k])) for k in v])
    return None if kind(v) == 'bin' or isinstance(v, datetime.datetime) else v


def kind(v):
    llsd = modules()
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, (int, long)):
        return 'int'
    if isinstance(v, llsd.binary):
        return 'bin'
    if isinstance(v, (str, unicode)):
        return 'str'
    return type(v).__name__


def text(v):
    return v.decode('utf-8') if isinstance(v, str) else v


def same(a, b):
    if kind(a) != kind(b):
        return False
    if isinstance(a, dict):
        ka = dict([(text(k), a[k]) for k in a])
        kb = dict([(text(k), b[k]) for k in b])
        return set(ka) == set(kb) and not [k for k in ka if not same(ka[k], kb[k])]
    if isinstance(a, list):
        return len(a) == len(b) and not [1 for x, y in zip(a, b) if not same(x, y)]
    if kind(a) == 'str':
        return text(a) == text(b)
    return a == b
