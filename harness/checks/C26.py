"""C26: messages built by random histories against plain lists, and all renderings of built and decoded messages"""
import vcore, ref, gen, llsdgen

CASES = {'quick': 5000, 'thorough': 90000}


def setup(ctx):
    vcore.boot()
    from pyogp.lib.base.message.message import Message, Block, Variable
    from pyogp.lib.base.message.udpdeserializer import UDPMessageDeserializer
    from pyogp.lib.base.message.message_handler import MessageHandler
    from pyogp.lib.base.event_queue import EventQueueClient
    from pyogp.lib.base.helpers import Helpers
    from pyogp.lib.base.message.circuit import Host
    ctx.Message, ctx.Block, ctx.Variable, ctx.H = Message, Block, Variable, Helpers
    st = gen.settings(ENABLE_DEFERRED_PACKET_PARSING=False)
    ctx.De = UDPMessageDeserializer(MessageHandler(st), st)
    ctx.eq = EventQueueClient(host=Host(('10.0.0.1', 1)))
    ctx.templates, ctx.all = ref.builtin()
    ctx.names = ref.permitted()


class Odd(object):
    pass


def value(rng):
    L = gen.lib()
    return rng.choice([0, 1, -5, 1 << 40, 2.5, True, False, None, '', 'text', u'', u'Ren\xe9', u'\u20ac', '\xff\xfe\0', 'nul\0', 'Ren\xc3\xa9', [], [1, u'\xe9'], {}, {'a': u'\xe9'}, (1, 2),
                       L.UUID('12345678-1234-1234-1234-123456789abc'), L.Vector3(X=1, Y=2, Z=3), L.Quaternion(W=1), gen.rand_bytes(rng, rng.randrange(30)), Odd(), 'x' * 500, float('nan'), '%s', '%'])


BLOCKS = ['AgentData', 'Data', 'ParcelData', 'x', 'blocks', 'name', 'B 1', '', 'Data2', '%s', 'Z', u'Uni', u'Caf\xe9', 'Caf\xc3\xa9']
FIELDS = ['ID', 'AgentID', 'Name', 'vars', 'x', 'data', '', 'Flags', '%d', u'Uni', u'\xfcber', 'size', '\xff']


def safe(s):
    """as a keyword"""
    return isinstance(s, str) and s not in ('', 'name', 'self') and s.isalnum()


class World(object):
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.msgs = []      # [message, name, {block name: [ {field: value} ]}, acks]
        self.kept = []

    def block(self):
        """(block, model)"""
        rng = self.rng
        name = rng.choice(BLOCKS[:7] if rng.randrange(3) else BLOCKS)
        model = {}
        fs = rng.sample(FIELDS, rng.choice([0, 1, 2, 4, 8]))
        kw = {}
        for f in fs:
            if safe(f) and rng.randrange(2):
                kw[f] = model[f] = value(rng)
        b = self.ctx.Block(name, **kw)
        for f in fs:
            if f not in kw or rng.randrange(6) == 0:
                v = value(rng)
                b.add_variable(self.ctx.Variable(f, v, *rng.choice([(), (-1,)])))
                model[f] = v
        return b, name, model

    def again(self):
        """a block that is in a message already, this or another"""
        x = self.rng.choice(self.msgs)
        if self.rng.randrange(6) or not x[2]:
            return None
        n = self.rng.choice(sorted(x[2], key=repr))
        b, m = self.rng.choice([x[2][n][-1], self.rng.choice(x[2][n])])
        self.ctx.count('blocks added again')
        return b, n, m

    def new(self):
        rng = self.rng
        name = rng.choice(['TestMessage', 'PacketAck', rng.choice(self.ctx.all), '', u'Caf\xe9', 'x'])
        args, model = [], {}
        for k in range(rng.choice([0, 0, 1, 2, 4])):
            if rng.randrange(2):
                l = [self.block() for j in range(rng.choice([0, 1, 2, 5]))]
                args.append([x[0] for x in l])
            else:
                l = [self.block()]
                args.append(l[0][0])
            for b, n, m in l:
                model.setdefault(n, []).append((b, m))
        m = self.ctx.Message(name, *args)
        self.msgs.append([m, name, model, []])
        self.ctx.note('message', name, [(n, len(model[n])) for n in model])
        self.ctx.count('messages')

    def add(self):
        x = self.rng.choice(self.msgs)
        for k in range(self.rng.choice([1] * 12 + [3] * 6 + [12] * 6 + [300])):
            b, n, m = self.again() or self.block()
            x[0].add_block(b)
            x[2].setdefault(n, []).append((b, m))
            self.ctx.note('add', x[1], n, sorted(m, key=repr))
            self.ctx.count('blocks added')

    def variable(self):
        """a field of a block that is in a message already"""
        x = self.rng.choice(self.msgs)
        if not x[2]:
            return
        n = self.rng.choice(sorted(x[2], key=repr))
        b, m = self.rng.choice(x[2][n])
        f, v = self.rng.choice(FIELDS), value(self.rng)
        b.add_variable(self.ctx.Variable(f, v))
        m[f] = v
        self.ctx.note('field', n, f)
        self.ctx.count('fields added')

    def ack(self):
        x = self.rng.choice(self.msgs)
        i = self.rng.getrandbits(32)
        x[0].add_ack(i)
        x[3].append(i)
        self.ctx.count('acks')

    def snapshot(self):
        x = self.rng.choice(self.msgs)
        d = x[0].to_dict()
        self.kept.append((d, plain(x[2]), x[1]))

    def compare(self):
        c = self.ctx
        for m, name, model, acks in self.msgs:
            verify(c, m, name, model)
            c.check(m.acks == acks and m.num_acks == len(acks), 'acks', 'message %s has the acks %s instead of %s', name, m.acks, acks)
        for d, body, name in self.kept:
            c.check(d['message'] == name and same_body(d['body'], body), 'snapshot', 'an earlier dict of %s became %s', name, d)


def plain(model):
    return dict([(n, [dict(m) for b, m in model[n]]) for n in model])


def ident(a, b):
    return a is b or (type(a) is type(b) and isinstance(a, (int, long, float, str, unicode, bool)) and a == b)


def same_keys(a, b):
    # (Jython's sets do not compare equal with some byte strings)
    return len(a) == len(b) and not [k for k in a if k not in b]


def same_inst(a, b):
    return same_keys(a, b) and not [k for k in a if not ident(a[k], b[k])]


def same_body(a, b):
    return same_keys(a, b) and not [n for n in a if len(a[n]) != len(b[n]) or [1 for x, y in zip(a[n], b[n]) if not same_inst(x, y)]]


def verify(c, m, name, model):
    c.check(m.name == name, 'name', 'message %s is called %s', name, m.name)
    c.check(same_keys(m.blocks, model), 'blocks', 'message %s has the blocks %s instead of %s', name, sorted(m.blocks, key=repr), sorted(model, key=repr))
    for n in model:
        got, want = m[n], model[n]
        c.check(len(got) == len(want) and not [1 for g, w in zip(got, want) if g is not w[0]], 'instances', 'block %s of %s holds %s instances, in another order or others than the %s added', n, name, len(got), len(want))
        c.check(m.get_block(n) is got or list(m.get_block(n)) == list(got), 'get_block', 'get_block(%s) differs from [%s]', n, n)
        for k, (b, fields) in enumerate(want):
            c.check(b.name == n, 'block-name', 'block %s is called %s', n, b.name)
            c.check(same_inst(dict([(v.name, v.data) for v in b.get_variables()]), fields), 'fields', 'instance %s of block %s holds %s instead of %s', k, n, [(v.name, v.data) for v in b.get_variables()], fields)
            for f in fields:
                c.check(ident(b[f], fields[f]) and ident(b.get_variable(f).data, fields[f]) and ident(b.get_variable(f)(), fields[f]) and b.get_variable(f).name == f, 'field', 'field %s of block %s is %s instead of %s', f, n, b[f], fields[f])
                if k == 0:
                    v = m.get_var(n, f)
                    c.check(ident(v.data, fields[f]), 'get_var', 'get_var(%s, %s) is %s instead of %s', n, f, v.data, fields[f])
            r = vcore.attempt(lambda: b['NoSuchField'])
            c.check(r[0] == 'exc' and isinstance(r[1], KeyError), 'missing', 'a field that does not exist is %s', r[1])
    r = vcore.attempt(lambda: m['NoSuchBlock'])
    c.check(r[0] == 'exc' and isinstance(r[1], KeyError), 'missing', 'a block that does not exist is %s', r[1])
    d = m.to_dict()
    c.check(isinstance(d, dict) and d['message'] == name and same_body(d['body'], plain(model)), 'dict', 'the dict of message %s with %s instances is %s', name, dict([(n, len(model[n])) for n in model]), d)
    d['body']['Mine'] = [1]
    for n in model:
        d['body'][n].append({})
    c.check('Mine' not in m.blocks and not [n for n in model if len(m[n]) != len(model[n])], 'dict-shared', 'changing the dict of %s changes the message', name)


def render(c, m, what):
    for how, fn in (('data()', m.data), ('repr', lambda: repr(m)), ('str', lambda: str(m)), ('% s', lambda: 'message %s' % m), ('% r', lambda: 'message %r' % m), ('log_packet', lambda: c.H.log_packet(m, None)),
                    ('log_event_queue_data', lambda: c.H.log_event_queue_data(m, None))):
        r = vcore.attempt(fn)
        c.check(r[0] == 'ok', 'rendering', '%s of %s %s raises %s at %s', how, what, m.name, r[1], r[2] and vcore.tb_text(r[2]))
        if how == 'data()':
            c.check(isinstance(r[1], (str, unicode)), 'rendering', 'data() is %s', r[1])
    for n in m.blocks:
        for b in m.blocks[n]:
            for v in b.get_variables():
                for fn in (str, repr, lambda v: v.get_data_as_string()):
                    r = vcore.attempt(fn, v)
                    c.check(r[0] == 'ok', 'rendering', 'a field %s of value %s of %s %s cannot be rendered: %s', v.name, v.data, what, m.name, r[1])
    c.count('rendered ' + what)


def as_llsd(c, m, name, body):
    """the LLSD document of a message whose values are all LLSD"""
    from llbase import llsd
    for k in range(2):
        r = vcore.attempt(m.to_llsd)
        c.check(r[0] == 'ok', 'llsd', 'message %s with %s cannot be rendered as LLSD: %s at %s', name, body, r[1], r[2] and vcore.tb_text(r[2]))
        got = llsd.parse(r[1])
        c.check(llsdgen.same(got, {'message': name, 'body': body}), 'llsd', 'the LLSD form of message %s with %s is %s', name, body, got)
    c.count('as LLSD')


def case(ctx, i, rng):
    if i % 5 == 4:
        # decoded ones
        mt = ctx.templates[rng.choice(ctx.names)]
        wire = gen.wire_message(rng, mt)
        m = ctx.De.deserialize(ref.datagram(ref.enc_body(mt, wire), 0, 5, '', rng.choice([None, [1, 2]])))
        render(ctx, m, 'a received')
        d = m.to_dict()
        want = dict([(b.name, len(wire[b.name])) for b in mt.blocks if wire[b.name]])
        ctx.check(dict([(n, len(d['body'][n])) for n in d['body']]) == want, 'dict', 'the dict of a received %s has %s', m.name, d)
        for b in mt.blocks:
            for k in range(len(wire[b.name])):
                for f in b.fields:
                    ctx.check(gen.value_ok(f, wire[b.name][k][f.name], d['body'][b.name][k][f.name]) or gen.value_ok(f, gen.pad(mt, wire)[b.name][k][f.name], d['body'][b.name][k][f.name]), 'dict', 'field %s of the dict of a received %s is %s', f.name, m.name, d['body'][b.name][k][f.name])
        ctx.distinct(m.name)
        return
    if i % 5 == 3:
        name = rng.choice(['X', u'ChatterBoxInvitation', u'Caf\xe9', rng.choice(ctx.all)])
        body = {}
        for k in range(rng.choice([1, 2])):
            body[rng.choice(llsdgen.KEYS)] = [dict([(rng.choice(llsdgen.KEYS), llsdgen.value(rng, 2)) for j in range(3)]) for n in range(rng.choice([1, 2]))]
        for m in ctx.eq._decode_eq_result({'id': 1, 'events': [{'message': name, 'body': body}]}):
            render(ctx, m, 'an event queue')
            as_llsd(ctx, m, name, m.to_dict()['body'])
        m = ctx.Message(name)
        for b in body:
            for inst in body[b]:
                block = ctx.Block(b)
                for f in inst:
                    block.add_variable(ctx.Variable(f, inst[f]))
                m.add_block(block)
        as_llsd(ctx, m, name, body)
        return
    w = World(ctx, rng)
    for k in range(rng.choice([2, 3])):
        w.new()
    for k in range(rng.choice([3, 10, 20])):
        rng.choice([w.new, w.add, w.add, w.add, w.variable, w.ack, w.snapshot])()
        if len(w.msgs) > 6:
            break
    if rng.randrange(2):
        w.kept = []
    w.compare()
    m = rng.choice(w.msgs)
    render(ctx, m[0], 'a built')
    w.compare()
    ctx.distinct([(x[1], sorted([(n, len(x[2][n])) for n in x[2]], key=repr)) for x in w.msgs])
    ctx.sample('%d messages, blocks %s' % (len(w.msgs), [dict([(n, len(x[2][n])) for n in x[2]]) for x in w.msgs][:2]))
