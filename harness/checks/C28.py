"""C28: NetUDPClient over loopback sockets"""
import socket
from java.net import DatagramSocket, DatagramPacket, InetAddress, SocketTimeoutException
from java.io import IOException
from jarray import zeros
import vcore, gen

CASES = {'quick': 400, 'thorough': 8000}
LIMIT = 65507       # of UDP over IPv4


def setup(ctx):
    vcore.boot()
    from pyogp.lib.base.network.net import NetUDPClient
    from pyogp.lib.base.message.circuit import Host
    ctx.C, ctx.Host = NetUDPClient, Host


class JavaSocket(object):
    """a loopback socket with Python's interface (those of Jython cut datagrams at 2048 bytes)"""
    def __init__(self):
        self.s = DatagramSocket(0, InetAddress.getByName('127.0.0.1'))

    def getsockname(self):
        return '127.0.0.1', self.s.getLocalPort()

    def settimeout(self, secs):
        self.s.setSoTimeout(int(secs * 1000))

    def sendto(self, data, *a):
        ip, port = a[-1]
        self.s.send(DatagramPacket(data, len(data), InetAddress.getByName(ip), port))
        return len(data)

    def recvfrom(self, n, *a):
        p = DatagramPacket(zeros(n, 'b'), n)
        try:
            self.s.receive(p)
        except SocketTimeoutException:
            raise socket.timeout('timed out')
        except IOException, e:
            raise socket.error(9, str(e))
        return p.getData()[:p.getLength()].tostring(), (p.getAddress().getHostAddress(), p.getPort())

    def close(self):
        self.s.close()


class Broken(object):
    """a socket whose receive fails"""
    def __init__(self, e):
        self.e = e
        self.sent = []

    def recvfrom(self, n, *a):
        raise self.e

    def sendto(self, data, *a):
        self.sent.append(data)
        return len(data)


class Node(object):
    def __init__(self, ctx, k, own):
        self.k = k
        self.client = ctx.C()
        self.sock = self.client.start_udp_connection()
        if own:
            self.sock.bind(('127.0.0.1', 0))
        else:
            self.sock.close()
            self.sock = JavaSocket()
        self.sock.settimeout(5)
        self.addr = self.sock.getsockname()[:2]
        self.queue = []     # (sender's address, data) on the way to it
        self.kept = []      # (sender object, address)


def payload(rng, own):
    if own:
        return gen.rand_bytes(rng, rng.choice([1, 7, 255, 256, 1200, 1472, 2048, rng.randrange(1, 400)]))
    k = rng.randrange(8)
    if k == 0:
        n = rng.choice([1, 2, 6, 7, 255, 256, 1400, 1500, 4096, 8192, 9000, 10000, 10001, 32768, 65000, LIMIT - 1, LIMIT])
    elif k == 1:
        n = rng.randrange(1, rng.choice([10000, LIMIT + 1]))
    else:
        n = rng.randrange(1, 300)
    return gen.rand_bytes(rng, n)


def case(ctx, i, rng):
    own = i % 3 == 0        # the sockets the client makes
    nodes = [Node(ctx, k, own) for k in range(rng.choice([2, 3, 4]))]
    raw = JavaSocket()
    raw.settimeout(5)
    try:
        play(ctx, rng, nodes, raw, own)
    finally:
        for n in nodes:
            n.sock.close()
        raw.close()


def play(ctx, rng, nodes, raw, own):
    raddr = raw.getsockname()[:2]
    n_sent = 0
    for k in range(rng.choice([10, 30])):
        a = rng.choice(nodes)
        what = rng.choice(['send', 'send', 'send', 'raw', 'out', 'receive', 'receive', 'none', 'fail', 'silence'])
        if what == 'send':
            for j in range(rng.choice([1, 1, 3])):
                b = rng.choice(nodes)
                if sum([len(d) for x, d in b.queue]) > 60000:
                    continue
                d = payload(rng, own)
                a.client.send_packet(a.sock, d, ctx.Host(b.addr))
                b.queue.append((a.addr, d))
                ctx.note('send', a.k, b.k, len(d))
                n_sent += 1
        elif what == 'raw':
            if sum([len(d) for x, d in a.queue]) < 60000:
                d = payload(rng, own)
                raw.sendto(d, a.addr)
                a.queue.append((raddr, d))
                ctx.note('raw to', a.k, len(d))
        elif what == 'out':
            d = payload(rng, own)
            a.client.send_packet(a.sock, d, ctx.Host(raddr))
            got, frm = raw.recvfrom(65536)
            ctx.check(got == d, 'sent-bytes', 'sent %s arrives as %s', vcore.hexs(d), vcore.hexs(got))
            ctx.check(frm[:2] == a.addr, 'sent-from', 'sent from %s instead of %s', frm, a.addr)
            ctx.count('sent')
        elif what == 'receive' and a.queue:
            receive(ctx, a, rng.randrange(2))
        elif what == 'none':
            r = vcore.attempt(a.client.send_packet, a.sock, None, ctx.Host(rng.choice([raddr, rng.choice(nodes).addr])))
            ctx.check(r[0] == 'exc', 'none-sent', 'sending no buffer is not refused')
            ctx.count('refused')
        elif what == 'fail':
            e = rng.choice([socket.error(104, 'reset'), socket.timeout('timed out'), IOError('x'), Exception('any'), ValueError('closed')])
            r = vcore.attempt(a.client.receive_packet, Broken(e))
            ctx.check(r[0] == 'ok' and tuple(r[1]) == ('', 0), 'failed-receive', 'a receive that fails with %s gives %s', repr(e), r[1])
            s = Broken(e)
            r = vcore.attempt(a.client.send_packet, s, None, ctx.Host(raddr))
            ctx.check(r[0] == 'exc' and not s.sent, 'none-sent', 'sending no buffer transmits %s', s.sent)
            ctx.count('failed receives')
        elif what == 'silence' and not a.queue and rng.randrange(3) == 0:
            a.sock.settimeout(0.02)
            r = vcore.attempt(a.client.receive_packet, a.sock)
            a.sock.settimeout(5)
            ctx.check(r[0] == 'ok' and tuple(r[1]) == ('', 0), 'timeout', 'a receive that times out gives %s', r[1])
            ctx.count('timeouts')
        verify(ctx, nodes)
    for a in nodes:
        while a.queue:
            receive(ctx, a, 0)
            verify(ctx, nodes)
    # a socket closed meanwhile
    a = rng.choice(nodes)
    a.sock.close()
    r = vcore.attempt(a.client.receive_packet, a.sock)
    ctx.check(r[0] == 'ok' and tuple(r[1]) == ('', 0), 'closed', 'a receive on a closed socket gives %s', r[1])
    ctx.distinct([(n.addr, len(n.kept)) for n in nodes], n_sent)
    ctx.count(own and 'histories on the client\'s sockets' or 'histories on other sockets')
    ctx.sample('%d peers, %d sent between them' % (len(nodes), n_sent))


def receive(ctx, a, more):
    frm, want = a.queue.pop(0)
    r = vcore.attempt(a.client.receive_packet, a.sock)
    ctx.check(r[0] == 'ok', 'receive', 'receiving raises %s', r[1])
    data, n = r[1]
    ctx.note('receive', a.k, n)
    ctx.check(data == want, 'bytes', 'a datagram of %s bytes %s is received as %s', len(want), vcore.hexs(want), vcore.hexs(data))
    ctx.check(n == len(want), 'length', 'a datagram of %s bytes is said to have %s', len(want), n)
    s = a.client.get_sender()
    ctx.check((s.ip, s.port) == frm, 'sender', 'the sender of a datagram from %s is %s', frm, s)
    a.kept.append((s, frm))
    ctx.count('received')
    if len(want) > 4000:
        ctx.count('received large')


def verify(ctx, nodes):
    for a in nodes:
        for s, frm in a.kept:
            ctx.check((s.ip, s.port) == frm, 'earlier-sender', 'a sender obtained earlier named %s, now %s', frm, s)
        if a.kept:
            s = a.client.get_sender()
            ctx.check((s.ip, s.port) == a.kept[-1][1], 'current-sender', 'the last sender was %s, not %s', a.kept[-1][1], s)
