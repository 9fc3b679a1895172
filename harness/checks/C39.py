"""C39: components of one process do not influence each other.

Each component follows a plan. Its trace - what it sends, delivers, returns and raises - is recorded once with nobody else about,
and then among others whose steps run between its own and inside its handlers, transports and REST client; they share
the objects that are only read (hosts, settings, message.xml, template definitions, handed-over payloads). The traces are equal."""
import copy, logging, random
import vcore, vtime, mgr, ref, gen, fakes, llsdgen, tmplgen
import checks.C30 as c30

CASES = {'quick': 110, 'thorough': 2600}
DEPTH = 4
ADDRS = c30.ADDRS


def setup(ctx):
    c30.setup(ctx)
    from pyogp.lib.base.message.udpserializer import UDPMessageSerializer
    from pyogp.lib.base.message.udpdeserializer import UDPMessageDeserializer
    from pyogp.lib.base.message.message_dot_xml import MessageDotXML
    from pyogp.lib.base.message.template_dict import TemplateDictionary
    from pyogp.lib.base.message.template_parser import MessageTemplateParser
    from pyogp.lib.base.message.llsd_builder import LLSDMessageBuilder
    from pyogp.lib.base.message.data_packer import DataPacker
    from pyogp.lib.base.message.data_unpacker import DataUnpacker
    from pyogp.lib.base.message.msgtypes import MsgType, EndianType
    from pyogp.lib.base.event_queue import EventQueueClient
    from pyogp.lib.base.events import Event
    from pyogp.lib.base import helpers, exc, datatypes
    from pyogp.lib.base.message_manager import MessageManager
    ctx.Ser, ctx.De, ctx.XML, ctx.Dict, ctx.Parser = UDPMessageSerializer, UDPMessageDeserializer, MessageDotXML, TemplateDictionary, MessageTemplateParser
    ctx.Builder, ctx.Packer, ctx.Unpacker, ctx.T, ctx.E = LLSDMessageBuilder, DataPacker, DataUnpacker, MsgType, EndianType
    ctx.EQ, ctx.Event, ctx.helpers, ctx.exc, ctx.dt, ctx.MM = EventQueueClient, Event, helpers, exc, datatypes, MessageManager
    ctx.templates_ack = ctx.S.templates['PacketAck']
    ctx.old, ctx.messages, ctx.datagrams = [], [], []


# configurations --------------------------------------------------------------

class Config(object):
    """the templates, message.xml and settings of a component"""

    def __init__(self, ctx, rng):
        self.text = self.xml = None
        self.templates = ctx.S.templates
        self.banned = ref.banned()
        self.names = ctx.S.names
        if rng.randrange(2):
            # the names and numbers of this template mean other things elsewhere
            msgs = tmplgen.model(rng, rng.choice([3, 8, 20]), ('PacketAck',), small=True)
            if rng.randrange(2):
                known = [ctx.S.templates[n] for n in rng.sample(ctx.S.names, min(len(msgs), 6))]
                for m, t in zip(msgs, known):
                    m.name = t.name
                    if t.header() not in [x.header() for x in msgs]:
                        m.freq, m.number = t.freq, t.number
            ack = ctx.S.templates['PacketAck']
            msgs = [m for m in msgs if m.header() != ack.header()] + [ack]
            self.text = tmplgen.text(rng, msgs, '2.0')
            self.templates = dict([(m.name, m) for m in msgs])
            self.names = [m.name for m in msgs if m.name != 'PacketAck' and (m.name not in self.banned)]
        if rng.randrange(3) == 0:
            import checks.C08 as c08
            self.xml, self.banned = c08.table(rng, sorted(self.templates))
            self.names = [n for n in self.templates if n not in self.banned and n != 'PacketAck']
        self.banned_names = sorted([n for n in self.templates if n in self.banned])
        if not self.names:
            self.__init__(ctx, rng)
            return
        self.names = rng.sample(sorted(self.names), min(len(self.names), 6))
        self.st = dict(ENABLE_DEFERRED_PACKET_PARSING=rng.randrange(3) == 0, HANDLE_OUTGOING_PACKETS=rng.randrange(3) == 0, HANDLE_PACKETS=rng.randrange(8) > 0)
        for s in rng.sample(c30.SWITCHES, 3):
            self.st[s] = rng.randrange(2) == 0

    def message(self, ctx, rng):
        """how to build one, of this template or another"""
        if ctx.messages and rng.randrange(8) == 0:
            return rng.choice(ctx.messages)
        m = self.own_message(rng)
        ctx.messages = (ctx.messages + [m])[-40:]
        return m

    def datagram(self, ctx, rng, n):
        if ctx.datagrams and rng.randrange(8) == 0:
            return rng.choice(ctx.datagrams)
        d = self.own_datagram(ctx, rng, n)
        ctx.datagrams = (ctx.datagrams + [d])[-40:]
        return d

    def own_message(self, rng):
        if rng.randrange(8) == 0:
            n = rng.choice(['NoSuchMessage', 'StartPingCheck', u'Caf\xe9'] + self.banned_names[:3])
            return lambda: gen.lib().Message(n)
        for k in range(50):
            mt = self.templates[rng.choice(self.names)]
            libv, wire = gen.gen_message(rng, mt)
            if len(ref.enc_body(mt, wire)) < 2000:
                break
        if rng.randrange(10) == 0 and mt.blocks:
            # one that does not fit
            return lambda: gen.lib().Message(mt.name)
        return lambda: gen.build(mt, libv)

    def own_datagram(self, ctx, rng, n):
        k = rng.randrange(12)
        name = rng.choice(self.names) if k else rng.choice(sorted(self.templates))
        mt = self.templates[name]
        for j in range(50):
            wire = gen.wire_message(rng, mt)
            body = ref.enc_body(mt, wire)
            if len(body) < 2000:
                break
        d = ref.datagram(body, rng.choice([0, 0x40, 0x80, 0xc0, 0x60]), n, rng.choice(['', '', 'ex']), rng.choice([None, None, [1], [1, 2, 3]]))
        if k == 1:
            d = d[:rng.randrange(len(d))]
        elif k == 2:
            d = gen.rand_bytes(rng, rng.choice([1, 6, 7, 40]))
        elif k == 3 and self.banned_names:
            b = self.templates[rng.choice(self.banned_names)]
            d = ref.datagram(ref.enc_body(b, gen.wire_message(rng, b)), 0x40, n)
        elif k == 4:
            d = ref.datagram('\xff\xff\xf0\x01', 0x40, n)
        elif k == 5:
            d = ref.datagram(ref.enc_body(ctx.templates_ack, {'Packets': [{'ID': j} for j in (1, 2, 9)]}), rng.choice([0, 0x40]), n)
        return d


class World(object):
    """where components live: alone, or with others whose steps run inside theirs"""

    def __init__(self, ctx, rng=None):
        self.ctx, self.rng = ctx, rng
        self.shared = {}
        self.alone = rng is None
        self.actors = []
        self.stack = []
        self.interleaved = 0

    def get(self, key, make):
        """an object its user only reads: everybody's, or its own"""
        if self.alone:
            return make()
        if key not in self.shared:
            self.shared[key] = make()
        elif self.shared[key] is not None:
            self.ctx.count('shared ' + key[0])
        return self.shared[key]

    def host(self, addr):
        return self.get(('host', addr), lambda: self.ctx.S.Host(addr))

    def settings(self, st):
        return self.get(('settings', tuple(sorted(st.items()))), lambda: gen.settings(**st))

    def xml(self, text):
        return text and self.get(('message.xml', text), lambda: self.ctx.XML(message_xml=text))

    def turn(self):
        """let others make steps now"""
        if self.alone or len(self.stack) >= DEPTH:
            return
        while self.rng.randrange(3) == 0:
            if not self.step():
                return
            self.ctx.count('steps inside others')

    def step(self):
        ready = [a for a in self.actors if not a.done and a not in self.stack]
        if not ready:
            return False
        a = self.rng.choice(ready)
        self.stack.append(a)
        try:
            a.step()
        finally:
            self.stack.pop()
        return True


class Actor(object):
    def __init__(self, w, plan):
        self.w, self.plan = w, plan
        self.trace = []
        self.kept = []          # (what was returned, how to look at it)
        self.done = False
        self.steps = plan.run(self, w)

    def step(self):
        try:
            next(self.steps)
        except StopIteration:
            self.end()

    def end(self):
        self.done = True
        for x, look in self.kept:
            self.trace.append(('in the end', look(x)))

    def keep(self, x, look):
        self.kept.append((x, look))

    def tried(self, what, r, look=repr):
        self.trace.append((what, r[0], look(r[1]) if r[0] == 'ok' else r[1].__class__.__name__))


def template_file(cfg):
    if not cfg.text:
        return None, None
    return tmplgen.write(cfg.text)


def remove(f, path):
    import os
    if f:
        f.close()
        os.remove(path)


# plans ---------------------------------------------------------------------------

class Dispatcher(object):
    kind = 'dispatcher'

    def __init__(self, ctx, rng):
        self.cfg = Config(ctx, rng)
        self.manager = rng.randrange(3) == 0
        self.handled = rng.sample(self.cfg.names, rng.randrange(1, len(self.cfg.names) + 1)) + rng.choice([[], ['PacketAck']])
        self.raises = rng.choice([None, None, rng.choice(self.handled)])
        self.ops = []
        for n in range(rng.choice([4, 12, 25])):
            k = rng.randrange(12)
            if k < 5:
                self.ops.append(('recv', rng.choice(ADDRS), self.cfg.datagram(ctx, rng, rng.choice([n, n, n, 1]))))
            elif k < 9:
                self.ops.append(('send', rng.choice(ADDRS * 3 + [(None, None)]), self.cfg.message(ctx, rng), rng.randrange(3), rng.randrange(3)))
            elif k < 11:
                self.ops.append(('acks',))
            else:
                self.ops.append(('remove', rng.choice(ADDRS)))

    def run(self, a, w):
        ctx, cfg = w.ctx, self.cfg
        st = w.settings(cfg.st)
        h = ctx.S.Handler(st)

        def handler(m, n):
            a.trace.append(('handler', n, gen.freeze(m) if m.packet_id is not None else m.name))
            w.turn()
            if m.packet_id is not None:
                a.trace.append(('still', n, gen.freeze(m)))
            if n == self.raises:
                raise mgr.Boom('deliberately')
        for n in self.handled:
            h.register(n).subscribe(vcore.guard(handler), n)
        f, path = template_file(cfg)
        udp = fakes.UDP()
        if self.manager:
            xml = None
            if cfg.xml:
                xml, xpath = tmplgen.write(cfg.xml)
            mm = ctx.MM(w.host(('10.9.9.9', 9)), message_handler=h, settings=st, message_template=f, message_xml=xml)
            if xml:
                remove(xml, xpath)
            d = mm.udp_dispatcher
            d.socket.close()
            d.udp_client, d.socket = udp, udp
        else:
            d = ctx.Disp(udp, st, h, message_template=f, message_xml=w.xml(cfg.xml))
        remove(f, path)

        def sent(x):
            a.trace.append(('sent', x[0], x[1]))
            w.turn()
        udp.log = sent
        yield
        for op in self.ops:
            if op[0] == 'recv':
                r = vcore.attempt(d.receive_check, w.host(op[1]), op[2], len(op[2]))
                a.tried('received', r, gen.freeze)
                if r[0] == 'ok' and r[1] is not None:
                    a.keep(r[1], gen.freeze)
            elif op[0] == 'send':
                fn = [d.send_message, d.send_retry, lambda m, x: d.send_reliable(m, x, op[4])][op[3]]
                a.tried('send', vcore.attempt(fn, op[2](), w.host(op[1])))
            elif op[0] == 'acks':
                a.tried('acks', vcore.attempt(d.process_acks))
            else:
                a.tried('remove', vcore.attempt(d.circuit_manager.remove_circuit_data, w.host(op[1])))
            for x in ADDRS:
                c = d.circuit_manager.get_circuit(w.host(x))
                a.trace.append(('circuit', c and (c.last_packet_out_id, sorted(c.unacked_packets), list(c.acks), c.unack_packet_count)))
            a.trace.append(('counters', d.packets_in, d.packets_out))
            yield


class Codec(object):
    kind = 'codec'

    def __init__(self, ctx, rng):
        self.cfg = Config(ctx, rng)
        self.handled = rng.sample(self.cfg.names, rng.randrange(len(self.cfg.names) + 1))
        self.ops = []
        for n in range(rng.choice([4, 12, 25])):
            if rng.randrange(2):
                self.ops.append(('ser', self.cfg.message(ctx, rng)))
            else:
                self.ops.append(('de', self.cfg.datagram(ctx, rng, n), rng.randrange(3) == 0))

    def run(self, a, w):
        ctx, cfg = w.ctx, self.cfg
        st = w.settings(cfg.st)
        h = ctx.S.Handler(st)
        for n in self.handled:
            h.register(n)
        f, path = template_file(cfg)
        ser = ctx.Ser(message_template=f, message_xml=w.xml(cfg.xml))
        remove(f, path)
        yield
        f, path = template_file(cfg)
        de = ctx.De(h, st, message_template=f, message_xml=w.xml(cfg.xml))
        remove(f, path)
        yield
        for op in self.ops:
            if op[0] == 'ser':
                a.tried('serialized', vcore.attempt(ser.serialize, op[1]()))
            else:
                r = vcore.attempt(de.deserialize, op[1])
                a.tried('deserialized', r, gen.freeze)
                if r[0] == 'ok' and r[1] is not None:
                    if op[2]:
                        spoil(r[1])
                    else:
                        a.keep(r[1], gen.freeze)
            yield


def spoil(m):
    """a caller changes its own message"""
    for n in m.blocks:
        for b in m.blocks[n]:
            for v in b.get_variables():
                v.data = 'spoiled'
    m.acks.append(99)
    m.blocks.clear()


class Handlers(object):
    kind = 'handlers'
    NAMES = ['AgentUpdate', 'PacketAck', 'Odd', 'x', u'Caf\xe9']

    def __init__(self, ctx, rng):
        self.ops = [(rng.choice(['sub', 'sub', 'unsub', 'handle', 'handle', 'notify', 'clear', 'event-sub', 'event-unsub', 'count']), rng.choice(self.NAMES), rng.randrange(4), rng.randrange(3)) for k in range(rng.choice([10, 30]))]
        self.st = dict(HANDLE_PACKETS=True)

    def run(self, a, w):
        ctx = w.ctx
        h = ctx.S.Handler(w.settings(self.st))
        e = ctx.Event()

        def maker(k):
            def called(x, *args, **kw):
                a.trace.append(('called', k, getattr(x, 'name', x), args, sorted(kw.items())))
                w.turn()
            return vcore.guard(called)
        fs = [maker(k) for k in range(4)]
        yield
        for op, n, k, arg in self.ops:
            ev = op.startswith('event') or op in ('notify', 'clear') and k % 2
            target = e if ev else None
            if op in ('sub', 'event-sub'):
                target = target or h.register(n)
                target.subscribe(fs[k], *[arg] * arg)
            elif op in ('unsub', 'event-unsub'):
                target = target or h.register(n)
                a.tried(op, vcore.attempt(target.unsubscribe, fs[k], *[arg] * arg), lambda x: '')
            elif op == 'handle':
                m = gen.lib().Message(n)
                a.tried(op, vcore.attempt(h.handle, m), lambda x: '')
            elif op == 'notify':
                if ev:
                    e.notify('data')
            elif op == 'clear' and arg == 0:
                e.clearSubscribers()
            a.trace.append(('state', n, bool(h.is_message_handled(n)), e.getSubscriberCount()))
            yield


class Queue(object):
    kind = 'event queue'

    def __init__(self, ctx, rng):
        self.names = rng.sample(ctx.S.names, 3)
        self.answers = []
        for k in range(rng.choice([1, 3, 6])):
            if rng.randrange(4) == 0:
                self.answers.append(None)
            else:
                self.answers.append({'id': rng.choice([k, k + 1, 7]), 'events': [c30.event(ctx, rng, self.names) for j in range(rng.choice([0, 1, 3]))]})
        self.addr = rng.choice(ADDRS)
        self.st = dict(REGION_EVENT_QUEUE_POLL_INTERVAL=rng.choice([0.5, 1]), ENABLE_HOST_LOGGING=rng.randrange(2) == 0)

    def run(self, a, w):
        ctx = w.ctx
        st = w.settings(self.st)
        h = ctx.S.Handler(st)

        def handler(m, n):
            a.trace.append(('event', n, m.name, m.event_queue_id, (m.host.ip, m.host.port), repr(sorted(c30.body_of(m).items()))))
            w.turn()
            a.trace.append(('still', n, m.event_queue_id, repr(sorted(c30.body_of(m).items()))))
            a.keep(m, lambda x: repr(sorted(c30.body_of(x).items())))
        for n in self.names + ['Odd', u'Caf\xe9']:
            h.register(n).subscribe(vcore.guard(handler), n)
        answers = list(self.answers)
        box = []

        class Cap(object):
            name = 'EventQueueGet'

            def POST(self, data, *args, **kw):
                a.trace.append(('poll', sorted(data.items())))
                before = repr(sorted(data.items()))
                w.turn()
                a.trace.append(('polled', repr(sorted(data.items())) == before))
                if len(answers) <= 1:
                    box[0].stop()
                r = answers.pop(0) if answers else None
                if r is None:
                    raise IOError('no')
                return copy.deepcopy(r)
        eq = ctx.EQ(Cap(), st, h, w.host(self.addr))
        box.append(eq)
        yield
        a.tried('ended', vcore.attempt(eq.start))
        a.trace.append(('state', eq._running, eq.stopped))
        yield


class Caps(object):
    kind = 'capabilities'

    def __init__(self, ctx, rng):
        self.url, self.name, self.calls = c30.caps_plan(ctx, rng)
        self.st = dict(ENABLE_CAPS_LOGGING=rng.randrange(2) == 0, ENABLE_CAPS_LLSD_LOGGING=rng.randrange(2) == 0)
        self.spoils = rng.randrange(2) == 0

    def run(self, a, w):
        ctx = w.ctx
        st = w.settings(self.st)

        class Rest(c30.Rest):
            def do(self, *args):
                # what was asked for when the response comes
                n = len(self.trace)
                w.turn()
                return c30.Rest.do(self, *args)
        rest = Rest(a.trace, [c[3] for c in self.calls])
        cap, seed = ctx.Cap(self.name, self.url, restclient=rest, settings=st), ctx.Seed(self.name, self.url, restclient=rest, settings=st)
        yield
        for how, payload, headers, answer in self.calls:
            shared = w.get(('payload', repr(payload)), lambda: copy.deepcopy(payload))
            if how == 'seed':
                r = vcore.attempt(seed.get, shared)
                look = lambda r: sorted([(repr(n), repr(c.name), c.public_url, c.restclient is rest, c.settings is st) for n, c in r.items()])
            elif how == 'GET':
                r, look = vcore.attempt(cap.GET, headers), c30.plainly
            else:
                r, look = vcore.attempt(getattr(cap, how), shared, headers), c30.plainly
            if r[0] == 'ok':
                a.trace.append(('result', look(r[1])))
                if self.spoils and how != 'seed':
                    if isinstance(r[1], list):
                        r[1].append('spoiled')
                    elif isinstance(r[1], dict):
                        r[1]['spoiled'] = 1
                else:
                    a.keep(r[1], look)
            else:
                a.trace.append(('exception', r[1].__class__.__name__, sorted([(k, repr(v)[:200]) for k, v in vars(r[1]).items()]) if hasattr(r[1], '__dict__') else ''))
            yield


class Builder(object):
    kind = 'builder'

    def __init__(self, ctx, rng):
        self.ops = [('new', 'A')]
        for k in range(rng.choice([8, 30])):
            self.ops.append(rng.choice([('new', rng.choice('AB'))] + [('block', rng.choice(['AgentData', 'Data', 'x']))] * 3 + [('data', rng.choice(['ID', 'Name', 'x']), k)] * 4 + [('build', rng.randrange(2))] * 2))

    def run(self, a, w):
        b = w.ctx.Builder()
        yield
        look = lambda r: (sorted([(n, [sorted(x.items()) for x in r[0][n]]) for n in r[0]]), r[1])
        for op in self.ops:
            if op[0] == 'new':
                b.new_message(op[1])
                block = False
            elif op[0] == 'block':
                b.next_block(op[1])
                block = True
            elif op[0] == 'data':
                if block:
                    b.add_data(op[1], op[2], None)
            else:
                r = b.build_message()
                a.trace.append(('built', look(r)))
                if op[1]:
                    a.keep(r, look)
                else:
                    r[0]['spoiled'] = []
            a.trace.append(('is_built', bool(b.is_built())))
            yield


class Containers(object):
    kind = 'messages'

    def __init__(self, ctx, rng):
        self.ops = [rng.choice([('block', rng.choice(['A', 'B', 'Data'])), ('var', rng.choice(['x', 'y']), k), ('ack', k), ('look',), ('fresh',)]) for k in range(rng.choice([8, 30]))]

    def run(self, a, w):
        lib = gen.lib()
        ms = [lib.Message('Mine')]
        block = None
        yield
        for op in self.ops:
            m = ms[-1]
            if op[0] == 'fresh':
                ms.append(lib.Message('Mine', lib.Block('A', x=1)))
                block = None
            elif op[0] == 'block':
                block = lib.Block(op[1])
                m.add_block(block)
            elif op[0] == 'var' and block is not None:
                from pyogp.lib.base.message.message import Variable
                block.add_variable(Variable(op[1], op[2]))
            elif op[0] == 'ack':
                m.add_ack(op[1])
            for x in ms[-3:]:
                a.trace.append(('message', repr(x), repr(sorted(x.to_dict()['body'].items())), list(x.acks), x.num_acks))
            yield


class Dictionary(object):
    kind = 'dictionary'

    def __init__(self, ctx, rng):
        self.cfg = Config(ctx, rng)
        self.look = rng.sample(sorted(self.cfg.templates), min(8, len(self.cfg.templates))) + rng.sample(ctx.S.all, 3) + ['Nothing']
        self.share = rng.randrange(2) == 0

    def run(self, a, w):
        ctx = w.ctx

        def parse():
            f, path = template_file(self.cfg)
            try:
                if f:
                    return ctx.Parser(f).message_templates
                return ctx.Dict().template_list
            finally:
                remove(f, path)
        if self.share:
            d = ctx.Dict(template_list=w.get(('templates', self.cfg.text), parse))
        else:
            d = ctx.Dict(template_list=parse())
        yield
        for n in self.look:
            t = d.get_template(n)
            a.trace.append(('by name', n, t and tmplgen.parsed(t)))
            if n in self.cfg.templates:
                m = self.cfg.templates[n]
                p = d.get_template_by_pair(m.freq, m.number & 0xff if m.freq == 'Fixed' else m.number)
                a.trace.append(('by number', n, p is t))
            a.trace.append(('listing', len(d.get_template_list())))
            yield


class Values(object):
    kind = 'values'

    def __init__(self, ctx, rng):
        self.ops = []
        types = ['U8', 'U16', 'U32', 'U64', 'S8', 'S16', 'S32', 'S64', 'F32', 'F64', 'LLVector3', 'LLVector3d', 'LLVector4', 'LLQuaternion', 'LLUUID', 'BOOL']
        for k in range(rng.choice([8, 25])):
            t = rng.choice(types)
            v, wire = gen.gen_value(rng, ref.Field('F', t, ref.SIZES[t]))
            self.ops.append((t, v, wire, rng.randrange(3)))
        self.llsd = [llsdgen.value(rng, 2, top=True) for k in range(3)]

    def run(self, a, w):
        ctx = w.ctx
        p, u = ctx.Packer(), ctx.Unpacker()
        sers = []
        yield
        for v in self.llsd:
            v = w.get(('llsd', repr(v)), lambda: copy.deepcopy(v))
            s = (ctx.helpers.ListLLSDSerializer if isinstance(v, list) else ctx.helpers.DictLLSDSerializer)(v)
            sers.append(s)
            yield
        for s in sers:
            x = s.serialize()
            a.trace.append(('llsd', x))
            r = vcore.attempt(ctx.helpers.LLSDDeserializer().deserialize, x)
            a.tried('from llsd', r, c30.plainly)
            if r[0] == 'ok':
                a.keep(r[1], c30.plainly)
            yield
        orders = [ctx.E.NONE, ctx.E.LITTLE, ctx.E.BIG]
        for t, v, wire, o in self.ops:
            tag = getattr(ctx.T, 'MVT_' + t)
            r = vcore.attempt(p.pack_data, v, tag, orders[o])
            a.tried('packed', r)
            if r[0] == 'ok':
                r = vcore.attempt(u.unpack_data, r[1], tag, endian_type=orders[o])
                a.tried('unpacked', r, gen.fval)
                if r[0] == 'ok':
                    a.keep(r[1], gen.fval)
                    if isinstance(r[1], ctx.dt.Vector3):
                        r[1].X = 5.0
            yield


class SettingsUser(object):
    kind = 'settings'

    def __init__(self, ctx, rng):
        self.ops = [(rng.randrange(2) == 0, rng.randrange(2) == 0, rng.randrange(2) == 0) for k in range(rng.choice([2, 5]))]

    def run(self, a, w):
        ctx = w.ctx
        for q, s, t in self.ops:
            st = ctx.Settings(q, s, t)
            a.trace.append(('new', sorted([(k, repr(v)) for k, v in vars(st).items()])))
            yield
            for k in list(vars(st)):
                v = getattr(st, k)
                if isinstance(v, bool):
                    setattr(st, k, not v)
                elif isinstance(v, list):
                    v.append('Mine')
            a.trace.append(('changed', sorted([(k, repr(v)) for k, v in vars(st).items()])))
            a.keep(st, lambda st: sorted([(k, repr(v)) for k, v in vars(st).items()]))
            yield


KINDS = [Dispatcher, Dispatcher, Dispatcher, Codec, Codec, Handlers, Queue, Queue, Caps, Caps, Builder, Containers, Dictionary, Values, SettingsUser]


def alone(ctx, plan):
    w = World(ctx)
    a = Actor(w, plan)
    while not a.done:
        a.step()
    vtime.run(30)
    return a.trace


def case(ctx, i, rng):
    vtime.clock.tick = 0.01
    few = rng.randrange(3) == 0
    kinds = rng.sample(KINDS, 2) if few else KINDS
    plans = [(rng.choice(kinds))(ctx, rng) for k in range(rng.choice([2, 4, 8]))]
    if few and rng.randrange(2):
        # twins: the same plan twice
        plans.append(plans[0])
    late = [p for p in plans if rng.randrange(4) == 0]
    base = {}
    for p in plans:
        if p not in late and p not in base:
            base[p] = alone(ctx, p)
    # some recorded long ago
    for p, t in rng.sample(ctx.old, min(2, len(ctx.old))):
        plans.append(p)
        base[p] = t
        ctx.count('recorded earlier')
    w = World(ctx, random.Random(rng.getrandbits(60)))
    w.actors = [Actor(w, p) for p in plans]
    for a in w.actors:
        ctx.note('a', a.plan.kind)
    while w.step():
        pass
    vtime.run(30)
    vtime.quiet(ctx, ctx.S.hub, 'after all have ended')
    for p in late:
        # and some recorded afterwards only
        if p not in base:
            base[p] = alone(ctx, p)
            ctx.count('recorded afterwards')
    for a in w.actors:
        same(ctx, a, base[a.plan], sorted(set([x.plan.kind for x in w.actors if x is not a])))
        ctx.count('compared: ' + a.plan.kind)
        ctx.count('trace entries', len(a.trace))
        for t in a.trace:
            ctx.count('seen ' + t[0])
        ctx.distinct(a.plan.kind, repr(a.trace)[:4000])
    fresh = [p for p in set(plans) if p in base]
    fresh.sort(key=lambda p: p.kind)
    ctx.old = (ctx.old + [(p, base[p]) for p in rng.sample(fresh, 1)])[-24:]
    ctx.sample('%d components (%s)' % (len(plans), ', '.join([p.kind for p in plans])))


def same(ctx, a, base, others):
    for k in range(max(len(base), len(a.trace))):
        x = base[k] if k < len(base) else 'nothing'
        y = a.trace[k] if k < len(a.trace) else 'nothing'
        ctx.check(c30.equal(x, y), 'influence-' + a.plan.kind.replace(' ', '-'), 'a %s among %s: step %s gives %s, alone it gives %s', a.plan.kind, others, k, repr(y), repr(x))
