"""Random message templates: the definitions and a text of them in the line layout of the shipped template."""
import ref

WORDS = ['Agent', 'Object', 'Parcel', 'Region', 'Chat', 'Data', 'Info', 'Update', 'Reply', 'Request', 'Low', 'Single', 'Variable', 'U8', 'Fixed', 'Test', 'Sim', 'Trusted', 'version', 'x', 'A1', 'Block']
TYPES = sorted(ref.SIZES) + ['Fixed', 'Variable', 'Variable']
SAFE_FIXED = [0xFB, 0xFC, 0xFD, 0xFE, 0xFF, 0, 1, 0x7f, 0x80]


def name(rng, taken):
    while True:
        n = ''.join([rng.choice(WORDS) for k in range(rng.choice([1, 2, 2, 3]))])
        if rng.randrange(3) == 0:
            n += rng.choice(['_', '', '2', '_x', 'ID'])
        if rng.randrange(60) == 0:
            n *= rng.choice([5, 9, 20])
        if n not in taken and n[0].isalpha():
            taken.add(n)
            return n


def number(rng, freq, taken):
    while True:
        if freq == 'Low':
            v = rng.choice([0, 1, 2, 255, 256, 0xFEFF, 0x7fff, 0x8000, rng.randrange(0xFF00), rng.randrange(500)])
        elif freq == 'Fixed':
            v = 0xFFFFFF00 + rng.choice(SAFE_FIXED + [rng.randrange(256)])
        else:
            v = rng.choice([0, 1, 254, 127, 128, rng.randrange(255)])
        if (freq, v) not in taken:
            taken.add((freq, v))
            return v


def model(rng, n, forbidden=(), small=False):
    """n message definitions"""
    out = []
    names, numbers = set(forbidden), set()
    for k in range(n):
        freq = rng.choice(['Low', 'Low', 'Medium', 'High', 'Fixed'])
        if freq == 'Fixed' and len([x for x in numbers if x[0] == 'Fixed']) > 100:
            freq = 'Low'
        m = ref.MsgT(name(rng, names), freq, number(rng, freq, numbers), rng.choice(['Trusted', 'NotTrusted']), rng.choice(['Unencoded', 'Zerocoded']),
                     rng.choice(['NotDeprecated', 'NotDeprecated', 'Deprecated', 'UDPDeprecated', 'UDPBlackListed']))
        bt = set()
        for j in range(rng.choice([0, 1, 1, 2, 2, 3, 5]) if rng.randrange(40) else rng.choice([12, 25])):
            kind = rng.choice(['Single', 'Single', 'Multiple', 'Variable', 'Variable'])
            b = ref.BlockT(name(rng, bt), kind, rng.choice([1, 2, 4, 9, 30] if small else [1, 2, 4, 9, 30, 99, 100, 255, 256, 1000, 12345]) if kind == 'Multiple' else 0)
            ft = set()
            for i in range(rng.choice([1, 1, 2, 3, 4, 8]) if rng.randrange(50) else rng.choice([17, 40])):
                t = rng.choice(TYPES)
                size = ref.SIZES.get(t)
                if t == 'Variable':
                    size = rng.choice([1, 2] if small else [1, 2, 4])
                elif t == 'Fixed':
                    size = rng.choice([1, 2, 8, 15, 32, 64, 200] if small else [1, 2, 8, 15, 32, 64, 99, 100, 200, 255, 256, 1000, 1024, 10000, 65536])
                b.fields.append(ref.Field(name(rng, ft), t, size))
            m.blocks.append(b)
        out.append(m)
    return out


COMMENTS = ['', ' ', ' a comment', ' TestMessage Low 7 NotTrusted Unencoded Deprecated', ' { brace', ' brace }', ' { X U8 }', ' {\t{ {', '/ more // and more', ' AgentData Variable', ' F Fixed 3', ' version 9.9', 'glued', ' } }', ' long' * 1000]


def text(rng, msgs, version):
    eol = rng.choice(['\n', '\n', '\r\n'])
    out = []

    def ws():
        return rng.choice(['', '\t', '    ', '\t\t', ' ', '  \t'])

    def gap():
        return rng.choice([' ', ' ', '\t', '   ', ' \t '])

    def noise():
        k = rng.randrange(7)
        if k == 0:
            out.append(ws())
        elif k == 1:
            out.append(ws() + '//' + rng.choice(COMMENTS))

    def line(*words):
        s = ws() + gap().join(words)
        k = rng.randrange(6)
        if k == 0:
            s += rng.choice(['', ' ', '\t']) + '//' + rng.choice(COMMENTS)
        elif k == 1:
            s += rng.choice([' ', '\t', '   '])
        out.append(s)
        noise()

    def opening(*words):
        # the header follows on the next line or on that of the brace
        if rng.randrange(4) == 0:
            line('{', *words)
        else:
            line('{')
            line(*words)

    for k in range(rng.randrange(3)):
        noise()
    out.append(ws() + 'version' + rng.choice([' ', '\t']) + rng.choice(['', ' ']) + version + rng.choice(['', ' ', ' // format 3.5']))
    noise()
    for m in msgs:
        n = rng.choice(['%d', '0x%x', '0x%X', '0X%x', '0x%08X']) % m.number if m.freq != 'Fixed' else rng.choice(['0x%08X', '0x%x', '0X%X', '%d']) % m.number
        words = [m.name, m.freq, n, m.trust, m.encoding]
        if m.deprecation != 'NotDeprecated' or rng.randrange(4) == 0:
            words.append(m.deprecation)
        opening(*words)
        for b in m.blocks:
            words = [b.name, b.kind]
            if b.kind == 'Multiple':
                words.append(str(b.number))
            opening(*words)
            for f in b.fields:
                words = [f.name, f.type]
                if f.type in ('Fixed', 'Variable'):
                    words.append(str(f.size))
                if rng.randrange(8) == 0:
                    opening(*words)
                    line('}')
                else:
                    line(rng.choice(['{', '{\t', '{ ']), *(words + [rng.choice(['}', '\t}'])]))
            line('}')
        line('}')
    s = eol.join(out)
    return s + rng.choice(['', eol, eol + eol + '// the end'])


def generate(rng, n, forbidden=(), small=False):
    """(definitions, version text, template text)"""
    msgs = model(rng, n, forbidden, small)
    version = rng.choice(['2.0', '1.0', '2.5', '10.25', '3'])
    t = text(rng, msgs, version)
    got = ref.parse_template(t)
    import vcore
    if got[0] != float(version) or [flat(m) for m in got[1]] != [flat(m) for m in msgs]:
        raise vcore.HarnessError('the reference parser misreads %r' % t)
    return msgs, version, t


def flat(m):
    return (m.name, m.freq, m.number, m.trust, m.encoding, m.deprecation, [(b.name, b.kind, b.number, [(f.name, f.type, f.size) for f in b.fields]) for b in m.blocks])


MVT = {'Fixed': 'MVT_FIXED', 'Variable': 'MVT_VARIABLE', 'IPADDR': 'MVT_IP_ADDR', 'IPPORT': 'MVT_IP_PORT'}


def parsed(t):
    """what a MessageTemplate of the library says through its accessors"""
    return (t.get_name(), t.get_frequency_as_string(), t.get_message_number(), t.get_message_hex_num(), t.get_message_trust_as_string(), t.get_message_encoding_as_string(), t.get_deprecation_as_string(),
            [(b.get_name(), b.get_block_type_as_string(), b.get_block_number(), [(v.get_name(), v.get_type_as_string(), v.size) for v in b.get_variables()]) for b in t.get_blocks()])


def wanted(m):
    return (m.name, m.freq.lower(), m.number if m.freq != 'Fixed' else m.number & 0xff, ''.join(['%02X' % ord(c) for c in m.header()]), m.trust, m.encoding, m.deprecation,
            [(b.name, b.kind, b.number, [(f.name, MVT.get(f.type, 'MVT_' + f.type), f.size) for f in b.fields]) for b in m.blocks])


def write(text, path=None):
    """a real file object, read-only, with the text; the caller removes its name"""
    import os, tempfile
    if path:
        f = open(path, 'wb')
        f.write(text)
        f.close()
        return open(path), path
    fd, path = tempfile.mkstemp('.msg')
    os.write(fd, text)
    os.close(fd)
    return open(path), path
