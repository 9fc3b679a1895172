"""C09: the Numbering monitor (see disp.py) over random dispatcher traffic, and over a session long enough for any 16-bit count to wrap"""
import struct
import disp, fakes, gen

CASES = {'quick': 400, 'thorough': 6000}
WEIGHTS = {'send': 6, 'reliable': 4, 'retry': 2, 'recv': 6, 'round': 3, 'unusable': 1, 'misfit': 1, 'malformed': 1, 'other': 1}


def setup(ctx):
    ctx.S = disp.Setup()
    from pyogp.lib.base.message.message import Message, Block
    ctx.Message, ctx.Block = Message, Block


def long_session(ctx, rng):
    udp = fakes.UDP()
    st = gen.settings(ENABLE_UDP_LOGGING=False)
    d = ctx.S.dispatcher(ctx.S.Handler(st), st, udp)
    Message, Block = ctx.Message, ctx.Block
    busy, other = ctx.S.Host(('10.0.0.1', 9000)), ctx.S.Host(('10.0.0.1', 9001))
    n = {9000: 0, 9001: 0}
    for k in range(rng.choice([66000, 67000])):
        host = k % 300 and busy or other
        d.send_message(Message('CompletePingCheck', Block('PingID', PingID=k % 256)), host)
        n[host.port] += 1
        out = udp.take()
        ctx.check(len(out) == 1, 'sends', 'message %s of a long session is sent %s times', k, len(out))
        (ip, port), data = out[0]
        pid = struct.unpack('>I', data[1:5])[0]
        ctx.check(port == host.port and pid == n[port], 'id', 'datagram %s to port %s of a long session goes to port %s with id %s', n[host.port], host.port, port, pid)
    ctx.count('datagrams of long sessions', k + 1)


def case(ctx, i, rng):
    if i % 3000 == 1:
        return long_session(ctx, rng)
    if i % 40 == 2:
        disp.crowd(ctx, rng, rng.choice([40, 150, 400]), 1200, ('numbering',))
        return
    w = disp.World(ctx, rng, [disp.Track, disp.Numbering], WEIGHTS, (0, 1, 2))
    if i % 3 == 0:
        w.weights = dict(WEIGHTS, misfit=0)
    for k in range(rng.choice([10, 40, 80])):
        w.step()
    ctx.sample('%d hosts, last ids %s' % (len(w.addrs), sorted(w.m[1].last.values())))
