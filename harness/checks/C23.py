"""C23: template dictionaries against the definitions, and custom templates at every entry point"""
import os, tempfile
from StringIO import StringIO
import vcore, ref, gen, fakes, tmplgen

CASES = {'quick': 160, 'thorough': 3000}
FREQS = ['Low', 'Medium', 'High', 'Fixed']


def setup(ctx):
    vcore.boot()
    fd, ctx.path = tempfile.mkstemp('.msg')
    os.close(fd)
    from pyogp.lib.base.message.template_dict import TemplateDictionary
    from pyogp.lib.base.message.template_parser import MessageTemplateParser
    from pyogp.lib.base.message.udpserializer import UDPMessageSerializer
    from pyogp.lib.base.message.udpdeserializer import UDPMessageDeserializer
    from pyogp.lib.base.message.udpdispatcher import UDPDispatcher
    from pyogp.lib.base.message.message_handler import MessageHandler
    from pyogp.lib.base.message_manager import MessageManager
    from pyogp.lib.base.message.circuit import Host
    ctx.Host, ctx.MM, ctx.Dict, ctx.P = Host, MessageManager, TemplateDictionary, MessageTemplateParser
    ctx.Ser, ctx.De, ctx.Disp, ctx.Handler = UDPMessageSerializer, UDPMessageDeserializer, UDPDispatcher, MessageHandler
    ctx.templates, ctx.all = ref.builtin()
    ctx.banned = ref.banned()
    ctx.names = [n for n in ref.permitted() if n not in ('RegionHandshakeReply', 'PacketAck')]


def teardown(ctx):
    os.remove(ctx.path)


def key(m):
    return m.freq, m.number & 0xff if m.freq == 'Fixed' else m.number


def lookups(ctx, rng, d, msgs, what):
    ctx.check(list(d.get_template_list()) == [m.name for m in msgs], 'list', '%s: the listing is %s', what, d.get_template_list()[:30])
    by_key = dict([(key(m), m) for m in msgs])
    hexes = {}
    for m in msgs:
        t = d.get_template(m.name)
        ctx.check(t is not None and tmplgen.parsed(t) == tmplgen.wanted(m), 'by-name', '%s: %s is found as %s', what, m.name, t and tmplgen.parsed(t))
        ctx.check(d[m.name] is t, 'index', '%s: [%s] differs from get_template', what, m.name)
        p = d.get_template_by_pair(*key(m))
        ctx.check(p is t, 'by-number', '%s: number %s %s finds %s instead of %s', what, m.freq, m.number, p and p.get_name(), m.name)
        h = t.get_message_hex_num()
        ctx.check(h == m.header().encode('hex').upper(), 'wire-number', '%s: the wire number of %s is %s', what, m.name, h)
        ctx.check(hexes.setdefault(h, m.name) == m.name, 'injective', '%s: %s and %s share the wire number %s', what, m.name, hexes[h], h)
        ctx.count('found')
    names = set([m.name for m in msgs])
    near = [f + '_' for f in list(names)[:5]] + [n.lower() for n in names] + [n[:-1] for n in names] + ['', None, ' ', 'NoSuchMessage', u'x'] + [n + ' ' for n in list(names)[:3]] + ctx.all[:200:7]
    for n in near:
        if n not in names:
            t = d.get_template(n)
            ctx.check(t is None, 'unknown-name', '%s: %s finds %s', what, n, t and t.get_name())
            ctx.count('absent')
    nums = set([k[1] for k in by_key])
    nums.update([n + 1 for n in list(nums)])
    nums.update([0, 1, 255, 256, 65535, -1])
    for f in FREQS + ['low', '', None]:
        for n in nums:
            if (f, n) not in by_key:
                t = d.get_template_by_pair(f, n)
                ctx.check(t is None, 'unknown-number', '%s: %s %s finds %s', what, f, n, t and t.get_name())
                ctx.count('absent')


def custom(rng, ctx):
    """definitions with some of the shipped names, and a PacketAck"""
    msgs = tmplgen.model(rng, rng.choice([2, 5, 15, 30]) if rng.randrange(40) else rng.choice([90, 300]), set(ctx.banned) | set(ctx.all), small=True)
    taken = set([key(m) for m in msgs])
    for m in rng.sample(msgs, len(msgs) // 2):
        n = rng.choice(ctx.names)
        if n not in [x.name for x in msgs]:
            m.name = n
    if rng.randrange(3):
        # a shipped number for another message
        mt = ctx.templates[rng.choice(ctx.names)]
        if key(mt) not in taken:
            m = rng.choice(msgs)
            taken.discard(key(m))
            m.freq, m.number = mt.freq, mt.number
            taken.add(key(m))
    a = ref.MsgT('PacketAck', 'Fixed', 0xFFFFFFFB, 'NotTrusted', 'Unencoded', 'NotDeprecated')
    if key(a) in taken:
        a.freq, a.number = 'Low', tmplgen.number(rng, 'Low', set([('Low', k[1]) for k in taken if k[0] == 'Low']))
    b = ref.BlockT('Packets', 'Variable', 0)
    b.fields.append(ref.Field('ID', 'U32', 4))
    a.blocks.append(b)
    msgs.insert(rng.randrange(len(msgs) + 1), a)
    return msgs


def codec(ctx, rng, msgs, ser, de, what):
    """what is sent and understood is the given template's"""
    idx = dict([(m.header(), m) for m in msgs])
    names = set([m.name for m in msgs])
    for m in msgs:
        if m.name == 'PacketAck':
            continue
        libv, wire = gen.gen_message(rng, m)
        body = ref.enc_body(m, wire)
        pid = gen.rand_id(rng)
        ctx.note(what, m.name, m.freq, m.number)
        if ser is not None:
            msg = gen.build(m, libv, rng)
            msg.packet_id = pid
            buf = ser.serialize(msg)
            want = ref.datagram(body, 0, pid)
            ctx.check(buf == want, 'encode', '%s: %s serialises to %s instead of %s', what, m.name, vcore.hexs(buf), vcore.hexs(want))
        if de is not None:
            if not body[len(m.header()):] and m.blocks:
                continue
            got = de.deserialize(ref.datagram(body, rng.choice([0, 0x80, 0x40]), pid))
            ctx.check(got is not None, 'refused', '%s: a datagram of %s is not decoded', what, m.name)
            d = gen.diff(m, wire, got)
            ctx.check(d is None, 'decode', '%s: %s: %s', what, m.name, d)
        ctx.count('messages coded')
        ctx.distinct(what, m.freq, [(b.kind, [f.type for f in b.fields]) for b in m.blocks])
    for n in rng.sample(ctx.names, 8):
        mt = ctx.templates[n]
        libv, wire = gen.gen_message(rng, mt)
        if ser is not None and n not in names:
            r = vcore.attempt(ser.serialize, gen.build(mt, libv))
            ctx.check(r[0] == 'exc' or r[1] is None, 'builtin-encoded', '%s: %s, not of this template, serialises to %s', what, n, r[1] and vcore.hexs(r[1]))
            ctx.count('built-in ones refused')
        if de is not None and mt.header() not in idx:
            r = vcore.attempt(de.deserialize, ref.datagram(ref.enc_body(mt, wire), 0, 5))
            ctx.check(r[0] == 'exc' or r[1] is None or r[1].name != n, 'builtin-decoded', '%s: a datagram of %s, not of this template, is decoded', what, n)
            ctx.count('built-in ones refused')


def endpoint(ctx, rng, msgs, f, manager):
    st = gen.settings(ENABLE_DEFERRED_PACKET_PARSING=False, LOG_VERBOSE=rng.randrange(2) == 0)
    handler = ctx.Handler(st)
    udp = fakes.UDP()
    host = ctx.Host(('10.0.0.1', 77))
    if manager:
        mm = ctx.MM(host, message_handler=handler, settings=st, message_template=f)
        disp = mm.udp_dispatcher
        disp.socket.close()
        disp.udp_client, disp.socket = udp, udp
    else:
        disp = ctx.Disp(udp, st, handler, message_template=f)
    what = manager and 'a message manager' or 'a dispatcher'
    idx = dict([(m.header(), m) for m in msgs])
    codec(ctx, rng, msgs, disp.udp_serializer, disp.udp_deserializer, what)
    pid = 0
    got = []
    for m in msgs:
        if m.name == 'PacketAck':
            continue
        handler.register(m.name).subscribe(got.append)
        libv, wire = gen.gen_message(rng, m)
        body = ref.enc_body(m, wire)
        if len(body) < 6000:
            msg = gen.build(m, libv)
            if manager:
                mm.send_udp_message(msg, False)
            else:
                disp.send_message(msg, host)
            out = udp.take()
            ctx.check(len(out) == 1 and ref.split(out[0][1])[3] == body, 'sent', '%s sends %s as %s instead of %s', what, m.name, [vcore.hexs(x[1]) for x in out], vcore.hexs(body))
        del got[:]
        data = ref.datagram(body, ref.RELIABLE, 1000 + pid)
        pid += 1
        r = disp.receive_check(host, data, len(data))
        ctx.check(len(got) == 1 and got[0] is r and gen.diff(m, wire, r) is None, 'received', '%s: handlers of %s received %s: %s', what, m.name, got, r and gen.diff(m, wire, r))
    # the acks are of the given template's PacketAck
    udp.take()
    disp.process_acks()
    ids = []
    for addr, d in udp.take():
        fl, i, extra, body, acks = ref.split(d)
        m, hl = ref.find_idx(body, idx)
        ctx.check(m.name == 'PacketAck', 'ack-message', '%s acknowledges by %s', what, m.name)
        blocks, end = ref.dec_body(m, body, hl)
        ids += [x['ID'] for x in blocks[0][1]] + (acks or [])
    ctx.check(sorted(ids) == [1000 + k for k in range(pid)], 'acks', '%s: %s acknowledged of %s', what, sorted(ids), pid)
    ctx.count(manager and 'managers' or 'dispatchers')


def case(ctx, i, rng):
    k = i % 8
    if i == 3 or k == 7 and i % 40 == 7:
        d = ctx.Dict()
        lookups(ctx, rng, d, [ctx.templates[n] for n in ctx.all], 'the shipped template')
        ctx.count('shipped')
        return
    msgs = custom(rng, ctx)
    text = tmplgen.text(rng, msgs, '2.0')
    ctx.note('template', text[:2000])
    # at times under the name of the template before
    f, path = tmplgen.write(text, rng.randrange(2) and ctx.path or None)
    try:
        if k < 3:
            d = ctx.Dict(message_template=f)
            lookups(ctx, rng, d, msgs, 'a generated template')
            d = ctx.Dict(ctx.P(StringIO(text)).message_templates)
            lookups(ctx, rng, d, msgs, 'a list of templates')
            lookups(ctx, rng, ctx.Dict([]), [], 'an empty list of templates')
            if i % 5 == 1:
                # another dictionary in the meantime
                lookups(ctx, rng, ctx.Dict(), [ctx.templates[n] for n in ctx.all], 'the shipped template after it')
                lookups(ctx, rng, d, msgs, 'an earlier list of templates')
        elif k < 5:
            st = gen.settings(ENABLE_DEFERRED_PACKET_PARSING=False)
            codec(ctx, rng, msgs, ctx.Ser(message_template=f), None, 'a serializer')
            codec(ctx, rng, msgs, None, ctx.De(ctx.Handler(st), st, message_template=f), 'a deserializer')
        else:
            endpoint(ctx, rng, msgs, f, k == 6)
    finally:
        f.close()
        if path != ctx.path:
            os.remove(path)
    ctx.sample('%d messages: %s' % (len(msgs), [(m.name, m.freq, m.number) for m in msgs][:5]))
