"""C19: capability requests against a recording REST client that answers by plan"""
import copy, datetime, uuid
import StringIO
import vcore, gen, llsdgen

CASES = {'quick': 1500, 'thorough': 30000}


def setup(ctx):
    vcore.boot(verbose_logs=True)
    from pyogp.lib.base.caps import Capability, SeedCapability
    from pyogp.lib.base import exc
    from pyogp.lib.base.network.stdlib_client import HTTPError
    from llbase import llsd
    ctx.Cap, ctx.Seed, ctx.exc, ctx.HTTPError, ctx.llsd = Capability, SeedCapability, exc, HTTPError, llsd


class Response(object):
    def __init__(self, ctype, body, headers, status=200):
        self.status = status
        self.body = body
        self.headers = dict(headers)
        if ctype is not None:
            self.headers['Content-Type'] = ctype


class Rest(object):
    """the REST client"""

    def __init__(self):
        self.calls = []
        self.plan = None

    def GET(self, url, headers={}):
        return self.do('GET', url, headers, None)

    def POST(self, url, payload, headers={}):
        return self.do('POST', url, headers, payload)

    def do(self, method, url, headers, payload):
        self.calls.append((method, url, dict(headers), payload))
        if isinstance(self.plan, Exception):
            raise self.plan
        return self.plan


CODES = [400, 401, 403, 405, 410, 499, 500, 502, 503]
GOOD = ['application/llsd+xml', 'application/llsd+xml; charset=utf-8', 'application/llsd+xml;charset=UTF-8', 'application/llsd+xml; charset="utf-8"; x=y', 'application/llsd+xml;', 'application/llsd+xml ; charset=utf-8', 'application/llsd+xml\t;charset="ISO-8859-1"']
POSTS = ['application/xml', 'application/xml; charset=utf-8', 'application/xml;charset=iso-8859-1', 'application/xml ; charset=utf-8']
BAD = [None, 'text/plain', 'text/plain ; charset=utf-8', 'application/json', 'text/html', 'text/html; charset=utf-8', 'application/llsd', 'application/llsd+json', 'llsd+xml', '', 'application/octet-stream',
       'text/xml', 'application/llsd+xmlx', 'xapplication/llsd+xml', 'application/llsd+binary; x=application/llsd+xml', 'multipart/form-data']


def case(ctx, i, rng):
    rest = Rest()
    st = gen.settings(LOG_VERBOSE=rng.randrange(2) == 0, ENABLE_CAPS_LOGGING=rng.randrange(2) == 0, ENABLE_CAPS_LLSD_LOGGING=rng.randrange(2) == 0)
    caps = []
    for k in range(3):
        url = rng.choice(['http://example.com/cap/%d' % k, 'https://host:12043/cap/%d?a=b&c=d' % k, u'http://example.com/%d' % k])
        caps.append((rng.choice([ctx.Cap, ctx.Cap, ctx.Seed])(rng.choice(['Name%d' % k, 'EventQueueGet', u'Caf\xe9']), url, restclient=rest, settings=st), url))
    hist = []
    mine = {'payloads': [], 'headers': []}
    for k in range(rng.choice([2, 5, 10])):
        cap, url = rng.choice(caps)
        how = rng.choice(['GET', 'POST', 'POST', 'POST', 'POST_CUSTOM', 'POST_CUSTOM'])
        headers = dict([(rng.choice(['X-Thing', 'Accept', 'X-%d' % rng.randrange(9), 'Cookie', 'Content-Length2']), rng.choice(['a', 'text/plain', '', 'v%d' % rng.randrange(99)])) for j in range(rng.choice([0, 0, 1, 3]))])
        if rng.randrange(8) == 0:
            headers['Content-type'] = 'application/vnd.custom+xml'
        if mine['headers'] and rng.randrange(4) == 0:
            # the caller uses its mapping again, changed
            old = rng.choice(mine['headers'])
            if rng.randrange(2):
                old.clear()
            old.update(headers)
            headers = old
            ctx.count('headers used again')
        mine['headers'].append(headers)
        one(ctx, rng, rest, cap, url, how, headers, mine['payloads'])
        hist.append(how)
    ctx.sample('calls %s' % hist)


def again(ctx, rng, v):
    """a caller changes its payload, here or deep inside"""
    inner = [x for x in (isinstance(v, dict) and v.values() or v) if isinstance(x, (list, dict))]
    if inner and rng.randrange(2):
        again(ctx, rng, rng.choice(inner))
    elif isinstance(v, dict):
        k = rng.choice(v.keys() + ['new'])
        if k in v and rng.randrange(2):
            del v[k]
        else:
            v[k] = llsdgen.value(rng, 1)
    elif v and rng.randrange(2):
        if rng.randrange(2):
            v.pop(rng.randrange(len(v)))
        else:
            v[rng.randrange(len(v))] = llsdgen.value(rng, 1)
    else:
        v.append(llsdgen.value(rng, 1))


def one(ctx, rng, rest, cap, url, how, headers, mine):
    # what is sent
    payload = None
    sendable = True
    if how == 'POST':
        if rng.randrange(10) == 0:
            payload = rng.choice([None, 'text', u'text', 5, 1.5, True, (1, 2), set([1]), object(), uuid.UUID(int=5), datetime.datetime(2009, 1, 1)])
            sendable = False
        else:
            payload = llsdgen.value(rng, 3, top=True)
            if mine and rng.randrange(4) == 0:
                payload = rng.choice(mine)
                if rng.randrange(4):
                    again(ctx, rng, payload)
                ctx.count('payloads used again')
            mine.append(payload)
    elif how == 'POST_CUSTOM':
        payload = rng.choice(['', 'x', 'raw \0\xff bytes', '<llsd/>', 'integer x;\ndefault { }\n' * 50, {'a': 1}, None, u'\u20ac'])
    # what comes back
    kind = rng.choice(['good', 'good', 'good', 'type', 'http', 'http', '404', 'malformed', 'other'])
    value = llsdgen.value(rng, 3)
    body = llsdgen.to_xml(value, rng).encode('utf-8')
    pool = list(GOOD)
    if how != 'GET':
        pool += POSTS
    ctype = rng.choice(pool)
    extra = rng.choice([{}, {'Server': 'x'}, {'Content-Length': str(len(body))}])
    code, msg, ebody = rng.choice(CODES), rng.choice(['No', 'Internal Error', '']), rng.choice(['', 'the body', '<html>\xff\0</html>', 'x' * 3000])
    other = None
    if kind == 'good':
        if how != 'GET' and rng.randrange(6) == 0:
            ctype = rng.choice(['text/html', 'text/html; charset=utf-8', 'text/html ;charset=utf-8'])
            value = llsdgen.value(rng, 2, top=True)
            body = llsdgen.to_xml(value).encode('utf-8')
            if '\n' in body:
                return
            ctx.count('llsd as text/html')
        rest.plan = Response(ctype, body, extra, rng.choice([200, 200, 200, 201, 202, 203, 206]))
    elif kind == 'type':
        ctype = rng.choice(BAD + (how == 'GET' and POSTS or []))
        if how != 'GET' and ctype and ctype.startswith('text/html'):
            body = rng.choice(['', '<html></html>', 'x' + body, '<llsd>', '<?xml version="1.0"?><html></html>'])
        rest.plan = Response(ctype, body, extra)
    elif kind == 'http':
        rest.plan = ctx.HTTPError(code, msg, StringIO.StringIO(ebody), 'details')
    elif kind == '404':
        rest.plan = ctx.HTTPError(404, msg, StringIO.StringIO(ebody))
    elif kind == 'malformed':
        body = rng.choice(['', ' ', 'not llsd', '<llsd>', '<html></html>', body[:len(body) // 2], '<llsd><map><key>a</key></llsd>', '\xff\xfe'])
        rest.plan = Response(rng.choice(GOOD), body, extra)
    else:
        other = rest.plan = rng.choice([IOError('refused'), ValueError('bad'), vcore.Deliberate('rest')])
    ctx.note(how, url, sorted(headers.items()), repr(payload)[:80], kind, ctype, code)
    sent_headers, sent_payload = dict(headers), copy.deepcopy(payload) if not type(payload) is object else payload
    no_headers = not headers and rng.randrange(2)
    mark = len(rest.calls)

    def call():
        try:
            if how == 'GET':
                return 'ok', cap.GET() if no_headers else cap.GET(headers)
            if how == 'POST':
                return 'ok', cap.POST(payload) if no_headers else cap.POST(payload, headers)
            return 'ok', cap.POST_CUSTOM(headers, payload)
        except Exception, e:
            return 'exc', e
    res = call()
    calls = rest.calls[mark:]
    ctx.check(headers == sent_headers, 'caller-headers', "%s changed the caller's headers: %s instead of %s", how, headers, sent_headers)
    ctx.check(type(payload) is object or repr(payload) == repr(sent_payload) or isinstance(payload, set), 'caller-payload', "%s changed the caller's payload", how)
    ctx.count(how + ' ' + (sendable and kind or 'unsendable'))
    ctx.distinct(how, kind, ctype, sorted(headers), code if kind == 'http' else 0, type(payload).__name__)
    if not sendable:
        ctx.check(not calls, 'unsendable', 'a payload of %s is sent: %s', type(payload), calls)
        ctx.check(isinstance(res[1], ctx.exc.DeserializerNotFound) and res[0] == 'exc', 'unsendable', 'a payload of %s gives %s', type(payload), res)
        return
    # the request
    ctx.check(len(calls) == 1, 'requests', '%s made %s requests', how, len(calls))
    method, u, h, p = calls[0]
    ctx.check(method == how.split('_')[0] and u == url, 'request', '%s of %s made a %s of %s', how, url, method, u)
    if how == 'GET' or how == 'POST_CUSTOM':
        ctx.check(h == sent_headers, 'headers', '%s with headers %s sent %s', how, sent_headers, h)
    else:
        want = {'Content-type': 'application/llsd+xml'}
        have = dict([(k.lower() == 'content-type' and 'Content-type' or k, h[k]) for k in h])
        want.update(sent_headers)
        ctx.check(have == want, 'headers', 'POST with headers %s sent %s', sent_headers, h)
        back = vcore.attempt(ctx.llsd.parse, p)
        ctx.check(isinstance(p, str) and back[0] == 'ok' and llsdgen.same(back[1], sent_payload) and p.lstrip().startswith('<'), 'payload', 'POST of %s sent %s', sent_payload, p)
    if how == 'POST_CUSTOM':
        ctx.check(type(p) is type(sent_payload) and p == sent_payload, 'payload', 'POST_CUSTOM of %s sent %s', sent_payload, p)
    # the result
    E = ctx.exc
    if kind == 'good':
        ctx.check(res[0] == 'ok', 'result', '%s with an answer of type %s raises %s', how, ctype, res[1])
        ctx.check(llsdgen.same(res[1], value), 'result', '%s returns %s instead of %s', how, res[1], value)
        return
    ctx.check(res[0] == 'exc', 'no-error', '%s with %s returns %s', how, (kind, ctype, code), res[1])
    e = res[1]
    if kind == '404':
        ctx.check(e.__class__ is E.ResourceNotFound and e.url == url, 'not-found', 'HTTP 404 of %s gives %s for %s', url, e.__class__, getattr(e, 'url', None))
    elif kind == 'http':
        ctx.check(e.__class__ is E.ResourceError, 'error', 'HTTP %s gives %s', code, e.__class__)
        got = tuple([getattr(e, a, '(none)') for a in ('url', 'code', 'message', 'body', 'method')])
        want = (url, code, msg, ebody, method)
        ctx.check(got == want, 'error', 'HTTP error gives %s instead of %s', got, want)
    elif kind == 'type':
        ctx.check(e.__class__ is E.DeserializerNotFound, 'type', 'an answer of type %s gives %s', ctype, e.__class__)
    elif kind == 'malformed':
        ctx.check(e.__class__ is E.DeserializationFailed and e.payload == body, 'malformed', 'malformed answer %s gives %s: %s', body, e.__class__, e)
    else:
        ctx.check(e is other, 'other', 'the error %s of the REST client becomes %s', other, e)
    if kind in ('404', 'http', 'type'):
        t = vcore.attempt(str, e)
        ctx.check(t[0] == 'ok', 'text', 'the error has no text: %s', t[1])

