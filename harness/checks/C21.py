"""C21: the LLSD (de)serialisers against an independent writer and damaged documents"""
import re
import copy
import vcore, llsdgen

CASES = {'quick': 6000, 'thorough': 100000}


def setup(ctx):
    vcore.boot()
    from pyogp.lib.base.helpers import ListLLSDSerializer, DictLLSDSerializer, LLSDDeserializer
    from pyogp.lib.base import exc
    ctx.exc = exc
    ctx.L, ctx.D, ctx.De = ListLLSDSerializer, DictLLSDSerializer, LLSDDeserializer
    ctx.de = LLSDDeserializer()


class File(object):
    def __init__(self, data):
        self.data = data

    def read(self):
        d, self.data = self.data, ''
        return d


def parse(ctx, rng, data):
    k = rng.randrange(3)
    if k == 0:
        return ctx.de.deserialize(data)
    if k == 1:
        return ctx.de.deserialize_string(data)
    return ctx.de.deserialize_file(File(data))


def refused(ctx, rng, data, why):
    try:
        v = parse(ctx, rng, data)
    except ctx.exc.DeserializationFailed, e:
        ctx.check(e.payload == data, 'payload', '%s: %s is reported with the payload %s', why, data, e.payload)
        str(e)
        ctx.count('refused: ' + why)
        return
    except Exception, e:
        ctx.violate('other-exception', '%s: %s raises %s: %s' % (why, vcore.short(data), vcore.exc_name(e), repr(e.args)))
        return
    ctx.check(False, 'accepted', '%s: %s gives %s', why, data, repr(v))


def spoil(rng, v):
    inner = isinstance(v, dict) and sorted(v.values(), key=repr) or list(v)
    inner = [x for x in inner if isinstance(x, (dict, list))]
    if inner and rng.randrange(2):
        spoil(rng, rng.choice(inner))
    elif isinstance(v, dict):
        v['changed'] = 1
    else:
        v.append('changed')


def spoil_as(u, w):
    """u, the same object, gets the content of w"""
    w = copy.deepcopy(w)
    if isinstance(u, list):
        u[:] = w
    else:
        u.clear()
        u.update(w)


def case(ctx, i, rng):
    # there and back
    v = llsdgen.value(rng, rng.choice([1, 2, 3]), top=True)
    if i % 120 == 60:
        v = llsdgen.large(rng)
        ctx.count('large')
    ser = (isinstance(v, list) and ctx.L or ctx.D)(v)
    data = ser.serialize()
    ctx.note('value', v, 'serialised', data)
    ctx.check(isinstance(data, str), 'no-text', '%s serialises to %s', repr(v), repr(data))
    ctx.check(ser.content_type == 'application/llsd+xml', 'content-type', 'content type %s', ser.content_type)
    back = parse(ctx, rng, data)
    ctx.check(llsdgen.same(v, back), 'round-trip', '%s comes back as %s (%s)', repr(v), repr(back), data)
    ctx.check(ser.serialize() == data, 'again', 'serialising again gives other text')
    if rng.randrange(3) == 0:
        # the caller changes its value, and serialises it again
        w = copy.deepcopy(v)
        spoil(rng, w)
        u = copy.deepcopy(v)
        (isinstance(u, list) and ctx.L or ctx.D)(u).serialize()
        spoil_as(u, w)
        d = (isinstance(u, list) and ctx.L or ctx.D)(u).serialize()
        spoil_as(u, v)
        e = (isinstance(u, list) and ctx.L or ctx.D)(u).serialize()
        ctx.check(llsdgen.same(w, parse(ctx, rng, d)) and llsdgen.same(v, parse(ctx, rng, e)), 'changed', '%s changed to %s and back is serialised as %s and %s', v, w, d, e)
        ctx.count('changed and serialised')
    # the value is the caller's own
    spoil(rng, back)
    back = parse(ctx, rng, data)
    ctx.check(llsdgen.same(v, back), 'spoiled', 'after its first value was changed %s deserialises to %s', data, repr(back))
    ctx.count('round trips')
    if v:
        ctx.distinct(llsdgen.kind(v), len(data))

    # a document written by somebody else, whose value may be falsy
    v = llsdgen.value(rng, rng.choice([0, 0, 1, 2]))
    if i % 120 == 70:
        v = llsdgen.large(rng)
    doc = llsdgen.to_xml(v, rng).encode('utf-8')
    if rng.randrange(4) == 0:
        doc = rng.choice(['\n', ' ', '\n\n']) + doc.replace('<?xml version="1.0" ?>', '', 1)
    if rng.randrange(4) == 0:
        doc += rng.choice(['\n', ' ', '\n\n'])
    ctx.note('document', doc)
    got = parse(ctx, rng, doc)
    ctx.check(llsdgen.same(v, got), 'document', '%s deserialises to %s instead of %s', doc, repr(got), repr(v))
    ctx.count('documents')
    if not v:
        ctx.count('falsy documents')
        ctx.distinct('falsy', doc)

    # in the other two notations
    v = llsdgen.plain(llsdgen.large(rng) if i % 120 == 80 else llsdgen.value(rng, rng.choice([0, 1, 2])))
    for what, write in ('binary', llsdgen.to_binary), ('notation', llsdgen.to_notation):
        doc = write(v, rng)
        ctx.note(what, doc)
        got = parse(ctx, rng, doc)
        ctx.check(llsdgen.same(v, got), what, '%s deserialises to %s instead of %s', repr(doc), repr(got), repr(v))
        ctx.count(what + ' documents')

    # not LLSD
    full = llsdgen.to_xml(llsdgen.large(rng) if i % 120 == 90 else llsdgen.value(rng, 2, True), rng).encode('utf-8')
    for k in range(3):
        n = rng.choice([0, 1, 5, 21, 27, len(full) - 1, len(full) - 7, rng.randrange(len(full))])
        ctx.note('prefix', full[:n])
        refused(ctx, rng, full[:n], 'prefix')
    refused(ctx, rng, rng.choice(['', ' ', '\n', '\t \n']), 'blank')
    junk = rng.choice(['mumpitz', 'xyz', 'q', '@', '#', '*', '%', 'Not LLSD', 'zzz 1', '&', ')', ']', '}', '(', '<', '<>', '<llsd>', '</llsd>', '<html><body>404</body></html>', '\xff\xfe\xfd', '\x01\x02\x03',
                       '<?xml version="1.0" ?>', '<?xml version="1.0" ?><llsd><nonsense/></llsd>', '<?xml version="1.0" ?><llsd><integer>abc</integer></llsd>',
                       '<?xml version="1.0" ?><llsd><real>x</real></llsd>', '<?xml version="1.0" ?><llsd><uuid>123</uuid></llsd>', '<?xml version="1.0" ?><llsd><date>yesterday</date></llsd>',
                       '<?xml version="1.0" ?><llsd><map><key>a</key></map></llsd>', '<?xml version="1.0" ?><llsd><map><key>a</key><integer>1</integer></array></llsd>',
                       '<?xml version="1.0" ?><llsd><string>a & b</string></llsd>', '<llsd><string>a</string>', '<llsd></llsd><llsd></llsd>', '{', '[', "{'a':", '[i1', "'open", 'u123', 'iabc', 'rabc', '<?llsd/binary?>\nx'])
    ctx.note('junk', junk)
    refused(ctx, rng, junk, 'junk')
    # damage in the middle: an end tag is lost or bytes are invalid
    j = full.rfind('</', 0, len(full) - 7)
    if j > 0:
        e = full.index('>', j) + 1
        bad = full[:j] + full[e:]
        ctx.note('lost end tag', bad)
        refused(ctx, rng, bad, 'lost end tag')
    p = rng.randrange(27, len(full))
    byte = rng.choice(['\x00', '\x01', '\xff', '<', '&'])
    if byte == '&' and re.match('#?\w+;', full[p:]):
        byte = '<'      # it would be an entity
    bad = full[:p] + byte + full[p:]
    ctx.note('bad byte', bad)
    refused(ctx, rng, bad, 'bad byte')
    ctx.sample('%s -> %s' % (repr(v)[:100], doc[:120]))
