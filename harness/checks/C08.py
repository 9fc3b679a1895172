"""C08: message.xml's bans at every entry point, with the shipped and with generated tables"""
import os, tempfile
import vcore, ref, gen, fakes

CASES = {'quick': 120, 'thorough': 1500}


def setup(ctx):
    vcore.boot()
    from pyogp.lib.base.message.udpserializer import UDPMessageSerializer
    from pyogp.lib.base.message.udpdeserializer import UDPMessageDeserializer
    from pyogp.lib.base.message.udpdispatcher import UDPDispatcher
    from pyogp.lib.base.message.message_handler import MessageHandler
    from pyogp.lib.base.message.message_dot_xml import MessageDotXML
    from pyogp.lib.base.message_manager import MessageManager
    from pyogp.lib.base.message.circuit import Host
    ctx.Host, ctx.XML, ctx.MM = Host, MessageDotXML, MessageManager
    ctx.Ser, ctx.De, ctx.Disp, ctx.Handler = UDPMessageSerializer, UDPMessageDeserializer, UDPDispatcher, MessageHandler
    ctx.templates, ctx.all = ref.builtin()
    if len(ref.banned()) < 5 or not ref.banned() & set(ctx.all):
        raise vcore.HarnessError('message.xml not read')


def table(rng, names):
    """(xml text, the names banned by it)"""
    dens = rng.choice([0.02, 0.2, 0.8])
    banned, rows = set(), []
    extra = ['NotInTemplate%d' % k for k in range(3)]
    # a table may be empty
    share = rng.choice([0, 0.05, 0.6, 0.6, 0.6, 0.6, 0.6, 0.6])
    for n in names + extra:
        if rng.random() < share:
            if rng.randrange(12) == 0:
                # no flavor, as some of the shipped table: the default is 'template'
                rows.append('<key>%s</key><map><key>service_name</key><string>x</string><key>builder</key><string>%s</string></map>' % (n, rng.choice(['llsd', 'template'])))
                continue
            if rng.random() < dens:
                flavor = rng.choice(['llsd', 'llsd', 'xml', 'Template', 'templates', ''])
                banned.add(n)
            else:
                flavor = 'template'
            rows.append('<key>%s</key><map><key>flavor</key><string>%s</string><key>trusted-sender</key><boolean>%s</boolean></map>' % (n, flavor, rng.choice(['true', 'false'])))
    text = ('<?xml version="1.0"?>\n<llsd><map><key>serverDefaults</key><map><key>simulator</key><string>template</string></map>'
            '<key>messages</key><map>%s</map><key>capBans</key><map><key>MapLayer</key><boolean>true</boolean></map>'
            '<key>messageBans</key><map><key>trusted</key><map/><key>untrusted</key><map/></map>'
            '<key>maxQueuedEvents</key><integer>1000</integer></map></llsd>' % '\n'.join(rows))
    return text, banned


def case(ctx, i, rng):
    custom = i % 4 != 0
    path = None
    manager = i % 3 == 1
    st = gen.settings(ENABLE_DEFERRED_PACKET_PARSING=False)
    handler = ctx.Handler(st)
    udp = fakes.UDP()
    if custom:
        text, banned = table(rng, ctx.all)
        xml = ctx.XML(message_xml=text)
    else:
        text, banned, xml = None, ref.banned(), None
    host = ctx.Host(('10.0.0.1', 77))
    if manager:
        kw = {}
        if custom:
            fd, path = tempfile.mkstemp('.xml')
            os.write(fd, text)
            os.close(fd)
            kw['message_xml'] = open(path)
        mm = ctx.MM(host, message_handler=handler, settings=st, **kw)
        if path:
            kw['message_xml'].close()
            os.remove(path)
        disp = mm.udp_dispatcher
        disp.socket.close()
        disp.udp_client, disp.socket = udp, udp
        ser, de = disp.udp_serializer, disp.udp_deserializer
        ctx.count('managers')
    else:
        disp = ctx.Disp(udp, st, handler, message_xml=xml)
        ser, de = ctx.Ser(message_xml=xml), ctx.De(handler, st, message_xml=xml)
    names = rng.sample(ctx.all, 60) + rng.sample(sorted(set(ctx.all) & banned), min(15, len(set(ctx.all) & banned)))
    got = []
    for n in set(names):
        handler.register(n).subscribe(lambda m: got.append(m.name))
    nb = 0
    for n in names:
        mt = ctx.templates[n]
        ban = n in banned
        nb += ban
        libv, wire = gen.gen_message(rng, mt)
        body = ref.enc_body(mt, wire)
        data = ref.datagram(body, rng.choice([0, 0x40, 0x80]), 5)
        ctx.note(n, ban and 'banned' or 'permitted', custom and 'custom' or 'built-in', manager)
        where = '%s (%s by the %s table)' % (n, ban and 'banned' or 'permitted', custom and 'given' or 'built-in')
        if ser is not None:
            buf = ser.serialize(gen.build(mt, libv))
            ctx.check((buf is None) == ban, 'serialize', '%s serialises to %s', where, vcore.hexs(buf))
        m = de.deserialize(data)
        ctx.check((m is None) == ban, 'deserialize', '%s decodes to %s', where, m)
        udp.take()
        msg = gen.build(mt, libv)
        if manager:
            r = mm.send_udp_message(msg, rng.randrange(2) == 1)
        else:
            r = rng.choice([disp.send_message, disp.send_retry, lambda a, b: disp.send_reliable(a, b, 2)])(msg, host)
        out = udp.take()
        ctx.check(bool(out) != ban, 'send', '%s: sending gives %s', where, [vcore.hexs(x[1]) for x in out])
        if out:
            ctx.check(len(out) == 1 and ref.split(out[0][1])[3].startswith(body), 'sent-bytes', '%s sent as %s', where, vcore.hexs(out[0][1]))
        del got[:]
        m = disp.receive_check(host, data, len(data))
        ctx.check((m is None) == ban and got == (not ban and [n] or []), 'receive', '%s: received %s, handlers saw %s', where, m, got)
        ctx.count(ban and 'banned tried' or 'permitted tried')
        ctx.distinct(n, ban, custom, manager)
    # nothing of a banned message goes out later either
    udp.take()
    disp.process_acks()
    for addr, d in udp.take():
        r = ref.decode(d)
        ctx.check(r['name'] not in banned, 'late', 'an ack round sends the banned %s', r['name'])
    ctx.count(custom and 'given tables' or 'built-in table')
    ctx.sample('%s table, %s, %d of %d names banned' % (custom and 'given' or 'built-in', manager and 'manager' or 'dispatcher', nb, len(names)))
