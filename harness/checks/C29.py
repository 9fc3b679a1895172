"""C29: StdLibClient against a scripted loopback HTTP server"""
import threading
from java.net import ServerSocket, InetAddress
from java.io import IOException
import vcore, gen

CASES = {'quick': 700, 'thorough': 12000}


class Server(object):
    """answers every request with the scripted bytes and records it"""

    def __init__(self):
        self.s = ServerSocket(0, 50, InetAddress.getByName('127.0.0.1'))
        self.port = self.s.getLocalPort()
        self.requests = []
        self.answer = None
        self.error = None
        t = threading.Thread(target=self.loop)
        t.setDaemon(True)
        t.start()

    def loop(self):
        while True:
            c = self.s.accept()
            c.setTcpNoDelay(True)
            c.setSoTimeout(20000)
            try:
                try:
                    self.serve(c)
                except IOException, e:
                    self.error = str(e)
                except Exception, e:
                    self.error = repr(e)
            finally:
                c.close()

    def serve(self, c):
        ins, data = c.getInputStream(), []
        from jarray import zeros
        buf = zeros(65536, 'b')

        def more():
            n = ins.read(buf)
            if n < 0:
                raise IOException('request cut off')
            data.append(buf[:n].tostring())
        while '\r\n\r\n' not in ''.join(data):
            more()
        head, body = ''.join(data).split('\r\n\r\n', 1)
        lines = head.split('\r\n')
        headers = [tuple(l.split(': ', 1)) if ': ' in l else (l.rstrip(':'), '') for l in lines[1:]]
        need = int(dict([(k.lower(), v) for k, v in headers]).get('content-length', 0))
        while len(body) < need:
            n = ins.read(buf)
            if n < 0:
                break
            body += buf[:n].tostring()
        self.requests.append((lines[0], headers, body))
        out = c.getOutputStream()
        out.write(self.answer)
        out.flush()
        c.shutdownOutput()

    def take(self):
        out, self.requests[:] = self.requests[:], []
        return out


def setup(ctx):
    vcore.boot()
    from pyogp.lib.base.network.stdlib_client import StdLibClient
    from pyogp.lib.base.exc import HTTPError
    ctx.client, ctx.make, ctx.HTTPError = StdLibClient(), StdLibClient, HTTPError
    ctx.server = Server()


OK = [(200, 'OK'), (200, 'OK'), (200, 'Fine with me'), (201, 'Created'), (202, 'Accepted'), (203, 'Other'), (206, 'Partial Content'), (299, 'Odd')]
BAD = [(400, 'Bad Request'), (401, 'Unauthorized'), (402, 'Pay'), (403, 'Forbidden'), (404, 'Not Found'), (405, 'Method Not Allowed'), (409, 'Conflict'), (410, 'Gone'), (415, 'Unsupported'),
       (418, "I'm a teapot"), (429, 'Too Many'), (499, 'Custom 499'), (500, 'Internal Server Error'), (501, 'No'), (502, 'Upstream error'), (503, 'Service Unavailable'), (504, 'Timeout'), (599, 'Last')]
HEADERS = ['X-Test', 'x-lower', 'X-Secondlife-Shard', 'ETag', 'Server', 'Cache-Control', 'X-Empty-Ish', 'Location', 'Retry-After']
REQ = ['X-Test', 'X-Lower', 'Accept', 'User-Agent', 'X-Secret', 'Content-Type', 'Authorization', 'Cookie']


def hvalue(rng):
    return rng.choice(['1', 'text/plain', 'a, b; c="d e"', 'no-cache', 'x' * 500, 'W/"abc"', 'http://example.com/x?y=z', 'tab and: colon', '0', 'application/llsd+xml'])


def body(rng):
    k = rng.randrange(8)
    if k == 0:
        return ''
    if k == 1:
        return '<?xml version="1.0" ?><llsd><map /></llsd>'
    if k == 2:
        return gen.rand_bytes(rng, rng.choice([1000, 5000, 70000]))
    if k == 3:
        return rng.choice(['\r\n', '\n\n', '\0', 'a=b&c=d', 'Ren\xc3\xa9', '\xff\xfe', '0\r\n\r\n', 'HTTP/1.1 200 OK\r\n\r\n', ' ', '%41', '+'])
    return gen.rand_bytes(rng, rng.randrange(1, 200))


def case(ctx, i, rng):
    cl = ctx.client if rng.randrange(3) else ctx.make()
    kept, mapping = [], {}
    for k in range(rng.choice([1, 3, 5])):
        exchange(ctx, rng, cl, kept, mapping)
    # what was answered earlier
    for p, code, rbody, rh in kept:
        ctx.check(p.status_int == code and p.body == rbody and not [n for n, v in rh if p.headers.get(n) != v], 'kept', 'a response %s with %s and %s reads %s, %s, %s after later requests', code, vcore.hexs(rbody), rh, p.status,
                  vcore.hexs(p.body), [(n, p.headers.get(n)) for n, v in rh])
        ctx.count('kept responses')


def exchange(ctx, rng, cl, kept, mapping):
    s = ctx.server
    bad = rng.randrange(3) == 0
    code, reason = rng.choice(BAD if bad else OK)
    rbody = body(rng)
    rh = []
    for n in rng.sample(HEADERS, rng.randrange(5)):
        rh.append((n, hvalue(rng)))
    if rng.randrange(4):
        rh.append(('Content-Type', rng.choice(['text/html', 'application/llsd+xml', 'application/llsd+xml; charset=utf-8', 'text/plain; charset=iso-8859-1', 'application/octet-stream'])))
    framing = rng.choice(['length', 'length', 'close'])
    if framing == 'length':
        rh.append(('Content-Length', str(len(rbody))))
    rng.shuffle(rh)
    s.answer = 'HTTP/1.%d %d %s\r\n' % (rng.choice([0, 1, 1]), code, reason) + ''.join(['%s: %s\r\n' % h for h in rh]) + '\r\n' + rbody
    s.take()
    s.error = None
    path = rng.choice(['/', '/cap/12345678-1234-1234-1234-123456789abc', '/a/b/c?x=1&y=2', '/p%20q?z=%2F', '/cap//double', '/?', '/' + 'l' * 300, '/~user/;p=1'])
    url = 'http://127.0.0.1:%d%s' % (s.port, path)
    method = rng.choice(['GET', 'POST', 'POST'])
    qh = None
    if rng.randrange(4):
        qh = dict([(n, hvalue(rng)) for n in rng.sample(REQ, rng.randrange(1, 5))])
    data = body(rng)
    ctx.note(method, path, qh, len(data), code, reason, rh, len(rbody))
    given = qh is not None and dict(qh)
    if given and rng.randrange(2):
        # the mapping of an earlier request, changed
        mapping.clear()
        mapping.update(qh)
        given = mapping
        ctx.count('headers used again')
    args = [url] + (method == 'POST' and [data] or []) + (qh is not None and [given] or [])
    r = vcore.attempt(getattr(cl, method), *args)
    if r[0] == 'exc' and s.error:
        raise vcore.HarnessError('the server failed: %s' % s.error)
    what = '%s %s' % (method, path)
    # the request
    seen = s.take()
    ctx.check(len(seen) == 1, 'requests', '%s: the server saw %s requests; %s', what, len(seen), r[1])
    line, headers, got = seen[0]
    ctx.check(line.split(' ')[0] == method, 'method', '%s arrives as %s', what, line)
    want = path if path != '/?' else line.split(' ')[1]
    ctx.check(line.split(' ')[1] == want, 'path', '%s arrives as %s', what, line)
    ctx.check(got == (method == 'POST' and data or ''), 'request-body', '%s: the body %s arrives as %s', what, vcore.hexs(data), vcore.hexs(got))
    h = {}
    for n, v in headers:
        h.setdefault(n.lower(), []).append(v)
    for n in qh or {}:
        ctx.check(h.get(n.lower()) == [qh[n]], 'request-header', '%s: the header %s: %s arrives as %s', what, n, qh[n], h.get(n.lower()))
    for n in h:
        ctx.check(n in [x.lower() for x in qh or {}] or not n.startswith('x-') and n not in ('authorization', 'cookie'), 'extra-header', '%s: the header %s was not given', what, n)
    ctx.check(qh is None or args[-1] == qh, 'arguments', '%s changed the headers of its caller: %s', what, args[-1])
    # the response
    if bad:
        ctx.check(r[0] == 'exc', 'error-lost', '%s: status %s gives %s', what, code, r[1])
        e = r[1]
        ctx.check(isinstance(e, ctx.HTTPError), 'error-type', '%s: status %s raises %s', what, code, repr(e))
        ctx.check(e.code == code, 'error-code', '%s: status %s raises an error with code %s', what, code, e.code)
        ctx.check(e.msg == reason, 'error-message', '%s: status %s %s raises an error with message %s', what, code, reason, e.msg)
        b = vcore.attempt(e.fp.read)
        ctx.check(b[0] == 'ok' and b[1] == rbody, 'error-body', '%s: status %s with body %s, read as %s', what, code, vcore.hexs(rbody), b[1])
        ctx.count('errors')
        ctx.count('status %d' % code)
    else:
        ctx.check(r[0] == 'ok', 'failed', '%s: status %s raises %s at %s', what, code, r[1], r[2] and vcore.tb_text(r[2]))
        p = r[1]
        ctx.check(p.status_int == code and p.status == '%d %s' % (code, reason), 'status', '%s: status %s %s becomes %s', what, code, reason, p.status)
        ctx.check(p.body == rbody, 'response-body', '%s: the body %s becomes %s', what, vcore.hexs(rbody), vcore.hexs(p.body))
        for n, v in rh:
            ctx.check(p.headers.get(n) == v, 'response-header', '%s: the header %s: %s becomes %s', what, n, v, p.headers.get(n))
        extra = [n for n in p.headers.keys() if n.lower() not in [x[0].lower() for x in rh] + ['content-length']]
        ctx.check(not extra, 'response-extra', '%s: the response has the headers %s that the server did not send', what, extra)
        kept.append((p, code, rbody, rh))
        ctx.count('responses')
    ctx.count(method)
    ctx.distinct(method, path, code, len(rbody), len(data), sorted(qh or {}), [x[0] for x in rh])
    ctx.sample('%s %s, %d bytes -> %d %s, %d bytes, %s' % (method, path, len(data), code, reason, len(rbody), rh))
