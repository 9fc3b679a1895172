"""Independent reference: the message template grammar and the UDP wire format, written from the protocol, not from the repository.

A message spec: ('Name', [(block, [ {field: value, ...}, ...]), ...]) in template order. Values are neutral Python values:
ints, floats, tuples of floats, byte strings (variable fields: the bytes on the wire, terminator included)."""
import struct
import os

TEMPLATE = '/repo/pyogp/lib/base/message/data/message_template.msg'
XML = '/repo/pyogp/lib/base/message/data/message.xml'

ZERO, RELIABLE, RESENT, ACK = 0x80, 0x40, 0x20, 0x10

SIZES = {'U8': 1, 'U16': 2, 'U32': 4, 'U64': 8, 'S8': 1, 'S16': 2, 'S32': 4, 'S64': 8, 'F32': 4, 'F64': 8,
         'LLVector3': 12, 'LLVector3d': 24, 'LLVector4': 16, 'LLQuaternion': 12, 'LLUUID': 16, 'BOOL': 1,
         'IPADDR': 4, 'IPPORT': 2}
SCALAR = {'U8': 'B', 'U16': '<H', 'U32': '<I', 'U64': '<Q', 'S8': 'b', 'S16': '<h', 'S32': '<i', 'S64': '<q',
          'F32': '<f', 'F64': '<d', 'BOOL': 'B', 'IPPORT': '>H'}
TUPLES = {'LLVector3': '<3f', 'LLVector3d': '<3d', 'LLVector4': '<4f', 'LLQuaternion': '<3f'}


class Field(object):
    def __init__(self, name, type, size):
        self.name, self.type, self.size = name, type, size


class BlockT(object):
    def __init__(self, name, kind, number):
        self.name, self.kind, self.number, self.fields = name, kind, number, []


class MsgT(object):
    def __init__(self, name, freq, number, trust, encoding, deprecation):
        self.name, self.freq, self.number = name, freq, number
        self.trust, self.encoding, self.deprecation = trust, encoding, deprecation
        self.blocks = []

    def header(self):
        if self.freq == 'High':
            return chr(self.number)
        if self.freq == 'Medium':
            return '\xff' + chr(self.number)
        if self.freq == 'Low':
            return '\xff\xff' + struct.pack('>H', self.number)
        return struct.pack('>I', self.number)


def parse_template(text):
    """(version, [MsgT]) of a template text"""
    tokens = []
    version = None
    for line in text.splitlines():
        line = line.split('//')[0].strip()
        if line.startswith('version') and version is None:
            version = float(line.split()[1])
            continue
        tokens += line.replace('{', ' { ').replace('}', ' } ').split()
    pos = [0]

    def tok():
        pos[0] += 1
        return tokens[pos[0] - 1]

    def peek():
        return tokens[pos[0]] if pos[0] < len(tokens) else None

    def expect(t):
        if tok() != t:
            raise ValueError('expected %s at token %d' % (t, pos[0]))
    msgs = []
    while peek() is not None:
        expect('{')
        name, freq, num, trust, enc = tok(), tok(), tok(), tok(), tok()
        dep = 'NotDeprecated'
        if peek() not in '{}':
            dep = tok()
        m = MsgT(name, freq, int(num, 0), trust, enc, dep)
        while peek() == '{':
            tok()
            bname, kind, n = tok(), tok(), 0
            if peek() not in '{}':
                n = int(tok())
            b = BlockT(bname, kind, n)
            while peek() == '{':
                tok()
                fname, ftype, size = tok(), tok(), None
                if peek() != '}':
                    size = int(tok())
                expect('}')
                b.fields.append(Field(fname, ftype, size if ftype in ('Fixed', 'Variable') else SIZES[ftype]))
            expect('}')
            m.blocks.append(b)
        expect('}')
        msgs.append(m)
    return version, msgs


def load_template(path=TEMPLATE):
    f = open(path)
    try:
        return parse_template(f.read())
    finally:
        f.close()


_builtin = []


def builtin():
    """the shipped template: name -> MsgT"""
    if not _builtin:
        msgs = load_template()[1]
        d = {}
        for m in msgs:
            d[m.name] = m
        _builtin.append((d, [m.name for m in msgs]))
    return _builtin[0]


_banned = []


def banned():
    """names that the shipped message.xml keeps off UDP (independent scan of the XML text)"""
    if not _banned:
        import re
        f = open(XML)
        text = f.read()
        f.close()
        names = set()
        text = re.sub(r'(?s)<!--.*?-->', '', text)
        for name, flavor in re.findall(r'(?s)<key>\s*(\w+)\s*</key>\s*<map>\s*<key>\s*flavor\s*</key>\s*<string>\s*(\w+)\s*</string>', text):
            if flavor != 'template':
                names.add(name)
        _banned.append(names)
    return _banned[0]


def permitted():
    d, order = builtin()
    return [n for n in order if n not in banned()]


_features = {}


def features():
    """what a message may have (field types with their sizes, kinds of blocks): the permitted messages that have it"""
    if not _features:
        d, order = builtin()
        for n in permitted():
            for b in d[n].blocks:
                _features.setdefault((b.kind, b.kind == 'Multiple' and b.number), set()).add(n)
                for f in b.fields:
                    _features.setdefault((f.type, f.type == 'Variable' and f.size), set()).add(n)
                    _features.setdefault((f.type, b.kind), set()).add(n)
        for k in _features:
            _features[k] = sorted(_features[k])
    return _features


def featured(rng):
    """a permitted message that has a feature, all of them being as likely as each other"""
    f = features()
    return rng.choice(f[rng.choice(sorted(f))])


# wire ----------------------------------------------------------------------

def enc_field(f, v):
    t = f.type
    if t in SCALAR:
        return struct.pack(SCALAR[t], v)
    if t in TUPLES:
        return struct.pack(TUPLES[t], *v)
    if t == 'Variable':
        return struct.pack({1: 'B', 2: '<H', 4: '<I'}[f.size], len(v)) + v
    return v


def enc_body(mt, blocks):
    """blocks: {name: [ {field: value} ]}"""
    out = [mt.header()]
    for b in mt.blocks:
        insts = blocks.get(b.name, [])
        if b.kind == 'Variable':
            out.append(chr(len(insts)))
        for inst in insts:
            for f in b.fields:
                out.append(enc_field(f, inst[f.name]))
    return ''.join(out)


def zero_code(data, runs=None):
    """zero-code data; runs(n) may split a run of n zeros into pieces of 1..255"""
    out = []
    i = 0
    while i < len(data):
        if data[i] != '\0':
            j = i
            while j < len(data) and data[j] != '\0':
                j += 1
            out.append(data[i:j])
            i = j
            continue
        j = i
        while j < len(data) and data[j] == '\0':
            j += 1
        n = j - i
        pieces = runs(n) if runs else [255] * (n // 255) + ([n % 255] if n % 255 else [])
        for p in pieces:
            out.append('\0' + chr(p))
        i = j
    return ''.join(out)


def ack_tail(acks):
    return ''.join([struct.pack('>I', a) for a in acks]) + chr(len(acks))


def datagram(body, flags=0, packet_id=1, extra='', acks=None, runs=None):
    """acks: None means no ack flag"""
    if acks is not None:
        flags |= ACK
    if flags & ZERO:
        body = zero_code(body, runs)
    out = chr(flags) + struct.pack('>I', packet_id) + chr(len(extra)) + extra + body
    if acks is not None:
        out += ack_tail(acks)
    return out


class Bad(Exception):
    pass


def expand(data):
    out = []
    i = 0
    while i < len(data):
        if data[i] == '\0':
            if i + 1 >= len(data):
                raise Bad('truncated zero run')
            out.append('\0' * ord(data[i + 1]))
            i += 2
        else:
            out.append(data[i])
            i += 1
    return ''.join(out)


def split(data):
    """a datagram's (flags, id, extra, body, acks or None), strictly"""
    if len(data) < 7:
        raise Bad('short')
    flags = ord(data[0])
    pid = struct.unpack('>I', data[1:5])[0]
    acks = None
    if flags & ACK:
        n = ord(data[-1])
        end = len(data) - 1 - 4 * n
        if end < 7:
            raise Bad('acks')
        acks = list(struct.unpack('>%dI' % n, data[end:-1])) if n else []
        data = data[:end]
    x = ord(data[5])
    extra, body = data[6:6 + x], data[6 + x:]
    if len(extra) < x:
        raise Bad('extra')
    if flags & ZERO:
        body = expand(body)
    return flags, pid, extra, body, acks


def find(body, templates):
    """MsgT and header length. templates: {name: MsgT}"""
    idx = {}
    for m in templates.values():
        idx[m.header()] = m
    return find_idx(body, idx)


def find_idx(body, idx):
    if body[:3] == '\xff\xff\xff':
        h = body[:4]
    elif body[:2] == '\xff\xff':
        h = body[:4]
    elif body[:1] == '\xff':
        h = body[:2]
    else:
        h = body[:1]
    if h not in idx:
        raise Bad('unknown message %r' % h)
    return idx[h], len(h)


def dec_body(mt, body, pos):
    """[(block name, [instances])] and the end position"""
    out = []

    def take(n):
        if pos[0] + n > len(body):
            raise Bad('truncated body')
        pos[0] += n
        return body[pos[0] - n:pos[0]]
    pos = [pos]
    for b in mt.blocks:
        n = {'Single': 1, 'Multiple': b.number}.get(b.kind)
        if n is None:
            n = ord(take(1))
        insts = []
        for k in range(n):
            inst = {}
            for f in b.fields:
                t = f.type
                if t in SCALAR:
                    v = struct.unpack(SCALAR[t], take(SIZES[t]))[0]
                elif t in TUPLES:
                    v = struct.unpack(TUPLES[t], take(SIZES[t]))
                elif t == 'Variable':
                    v = take(struct.unpack({1: 'B', 2: '<H', 4: '<I'}[f.size], take(f.size))[0])
                elif t == 'Fixed':
                    v = take(f.size)
                else:
                    v = take(SIZES[t])
                inst[f.name] = v
            insts.append(inst)
        out.append((b.name, insts))
    return out, pos[0]


_idx = []


def decode(data, idx=None):
    """dict(name, flags, id, acks, extra, blocks, rest)"""
    if idx is None:
        if not _idx:
            _idx.append(dict([(m.header(), m) for m in builtin()[0].values()]))
        idx = _idx[0]
    flags, pid, extra, body, acks = split(data)
    mt, hl = find_idx(body, idx)
    blocks, end = dec_body(mt, body, hl)
    return {'name': mt.name, 'flags': flags, 'id': pid, 'acks': acks, 'extra': extra, 'blocks': blocks, 'rest': body[end:]}
