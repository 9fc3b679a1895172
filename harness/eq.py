"""Event queue clients polling scripted capabilities under virtual time, and the monitors of C15 and C16 over the recorded history"""
import copy
import vcore, vtime, ref, gen, llsdgen

OTHER = ['EstablishAgentCommunication', 'ChatterBoxInvitation', 'ParcelProperties2', 'OpenRegionInfo', u'Caf\xe9', 'BulkUpdate', 'x']
FIELDS = ['ID', 'Name', 'AgentID', 'X', 'Y', 'data', 'events', 'body', 'message', u'\xfcber', 'Flags']


class Setup(object):
    def __init__(self):
        vcore.boot(verbose_logs=True)
        self.hub = vtime.install()
        from eventlet import api
        from pyogp.lib.base.event_queue import EventQueueClient
        from pyogp.lib.base.message.message_handler import MessageHandler
        from pyogp.lib.base.caps import Capability
        from pyogp.lib.base.message.circuit import Host
        from pyogp.lib.base.network.stdlib_client import HTTPError
        from pyogp.lib.base.helpers import LLSDDeserializer
        from llbase import llsd
        self.api, self.Client, self.Handler, self.Cap, self.Host, self.HTTPError, self.llsd = \
            api, EventQueueClient, MessageHandler, Capability, Host, HTTPError, llsd
        self.templates, self.all = ref.builtin()


class Boom(vcore.Deliberate):
    pass


class FakeResponse(object):
    def __init__(self, body):
        self.body = body
        self.status = 200
        self.headers = {'Content-Type': 'application/llsd+xml'}


class Queue(object):
    """one client and the capability behind it"""

    def __init__(self, world, n, name='EventQueueGet'):
        w = self.w = world
        rng = w.rng
        self.n = n
        self.host = w.S.Host(('10.0.0.%d' % n, 9000 + n))
        self.name = name
        self.url = 'http://10.0.0.%d/cap' % n
        self.script = []            # answers still to give; afterwards drawn at random
        self.log = []
        self.interval = w.st.REGION_EVENT_QUEUE_POLL_INTERVAL
        self.real = rng.randrange(2)
        cap = w.S.Cap(name, self.url, restclient=self, settings=w.st) if self.real else self
        self.client = w.S.Client(cap, settings=w.st, message_handler=w.handler, host=self.host)
        self.next_id = rng.choice([0, 1, 5, -40, 2000000000, rng.randrange(1 << 30)])
        self.returned = []
        self.posts = 0
        self.pending = 0
        self.stopped_at = None
        self.stopping_in = None
        self.last_latency = 0
        self.begun = False
        self.streak = 0

    def add(self, what, **kw):
        kw['t'] = vtime.clock.now
        self.log.append((what, kw))
        if what != 'deliver':
            self.w.ctx.note('queue', self.n, what, sorted(kw.items()))

    # the capability, or its REST client
    def POST(self, *a, **kw):
        kind, value = vcore.guard(self.post)(*a, **kw)
        if kind == 'raise':
            raise value
        return value

    def post(self, *a, **kw):
        w = self.w
        if self.real:
            url, payload = a[0], len(a) > 1 and a[1] or kw.get('payload')
            w.ctx.check(url == self.url, 'url', 'polled %s instead of %s', url, self.url)
            data = w.S.llsd.parse(payload)
        else:
            data = copy.deepcopy(a[0])
        self.pending += 1
        self.posts += 1
        w.ctx.check(self.pending == 1, 'overlap', 'two polls of a queue at the same time')
        self.add('post', data=data)
        done = isinstance(data, dict) and data.get('done')
        lat = self.last_latency = w.latency()
        if lat:
            w.S.api.sleep(lat)
        kind, value = w.final(self) if done else (self.script and self.script.pop(0) or w.answer(self))
        self.add('answer', kind=kind, value=value, done=done)
        self.pending -= 1
        if self.stopping_in == self.posts:
            w.stop(self)
        if kind == 'raise':
            return kind, value
        if self.real:
            if kind == 'text':
                return kind, FakeResponse(value)
            return kind, FakeResponse(llsdgen.to_xml(value).encode('utf-8'))
        if kind == 'text':
            return 'raise', IOError('bad answer')
        return kind, copy.deepcopy(value)


class World(object):
    def __init__(self, ctx, rng, failures=True):
        self.ctx, self.rng, self.S = ctx, rng, ctx.S
        self.st = gen.settings(REGION_EVENT_QUEUE_POLL_INTERVAL=rng.choice([1, 1, 0.5, 0.1, 3, 10]), LOG_VERBOSE=rng.randrange(2) == 0)
        vtime.clock.tick = rng.choice([0.0001, 0.001])
        self.slack = 12 * vtime.clock.tick
        self.handler = self.S.Handler(self.st)
        self.failures = failures
        names = rng.sample(self.S.all, 8) + rng.sample(OTHER, 3)
        self.names = names
        self.broken = ['Broken1', rng.choice(self.S.all)]
        self.names = [n for n in names if n not in self.broken]
        self.subs = {}
        for n in self.names + self.broken:
            if rng.randrange(5) == 0:
                continue
            self.subs[n] = []
            for k in range(rng.choice([0, 1, 1, 1, 2, 3])):
                self.subscribe(n)
            if not self.subs[n]:
                self.handler.register(n)
        self.queues = {}
        self.plan = rng.choice([0.0, 0.05, 0.3])
        self.slow = rng.choice([0.0, 0.1])
        self.hook = None
        self.large = rng.randrange(8) == 0 and 0.1 or 0
        self.streaks = rng.randrange(3) == 0

    def subscribe(self, n):
        k = len(self.subs[n])

        def receive(message):
            vcore.guard(self.deliver)(n, k, message)
        self.subs[n].append(receive)
        self.handler.register(n).subscribe(receive)

    def queue(self, n, **kw):
        q = Queue(self, n, **kw)
        self.queues[(q.host.ip, q.host.port)] = q
        return q

    # what the server does ---------------------------------------------------
    def latency(self):
        return self.rng.choice([0, 0, 0.01, 0.3, 2, 25])

    def body_value(self):
        v = llsdgen.value(self.rng, 1)
        return v

    def event(self):
        rng = self.rng
        name = rng.choice(self.names)
        fields = lambda n: dict([(rng.choice(FIELDS), self.body_value()) for k in range(n)])
        if name in self.S.templates:
            body = {}
            bs = [b.name for b in self.S.templates[name].blocks] + ['Extra']
            for b in rng.sample(bs, rng.randrange(1, len(bs) + 1)):
                body[b] = [fields(rng.choice([0, 1, 2, 4])) for k in range(rng.choice([0, 1, 1, 2, 5]))]
        else:
            body = fields(rng.choice([0, 1, 3, 6]))
        e = {'message': name, 'body': body}
        if rng.randrange(6) == 0:
            e['extra'] = 1
        return e

    def broken_event(self):
        rng = self.rng
        t, o = self.broken[1], self.broken[0]
        return rng.choice([None, 5, 'event', [], [1], {}, {'body': {}}, {'message': t}, {'message': o}, {'message': t, 'body': 7}, {'message': o, 'body': 7},
                           {'message': t, 'body': {'Block': 3}}, {'message': t, 'body': {'Block': [4]}}, {'message': t, 'body': {'Block': [{'a': 1}, None]}},
                           {'message': o, 'body': None}, {'message': t, 'body': None}, {'message': t, 'body': {'Block': None}}, {'message': {}, 'body': {}},
                           {'message': [1], 'body': {'a': [{}]}}, {'message': t, 'body': {'Block': {'a': 1}}}, {'message': t, 'body': [[1]]}])

    def answer(self, q):
        rng = self.rng
        r = rng.random()
        if self.failures and self.streaks and not q.streak and rng.randrange(12) == 0:
            q.streak = rng.choice([4, 8, 20, 60, 150])
            self.ctx.count('streaks of failures')
        if q.streak:
            q.streak -= 1
            return 'raise', rng.choice([IOError('connection lost'), self.http(502), self.http(502), self.http(404), self.http(500), Boom('post')])
        if self.failures and r < 0.25:
            f = rng.randrange(8)
            if f < 3:
                return 'raise', rng.choice([IOError('connection lost'), ValueError('x'), self.http(502), self.http(404), self.http(500), Boom('post')])
            if f == 3:
                return 'text', rng.choice(['', 'Upstream error: 502', '<llsd>', '<html></html>'])
            if f == 4:
                return 'odd', rng.choice([{}, {'events': []}, [], [1], 3, 'text', True])
            if f == 5:
                return 'none', None
            i = self.new_id(q)
            return 'empty', rng.choice([{'id': i}, {'id': i, 'events': []}, {'id': i, 'events': None}, {'id': i, 'events': 7}, {'id': i, 'other': [1]}])
        events = []
        n = rng.choice([1, 1, 2, 3, 8])
        if rng.random() < self.large:
            n = rng.choice([40, 130, 300])
            self.ctx.count('large responses')
        for k in range(n):
            events.append(self.broken_event() if rng.random() < 0.15 else self.event())
        res = {'id': self.new_id(q), 'events': events}
        if rng.randrange(5) == 0:
            res['more'] = 'x'
        return 'ok', res

    def new_id(self, q):
        q.next_id += self.rng.choice([1, 1, 1, 17, 0])
        if q.next_id == -1:
            q.next_id = 0       # the client has no other way to say that there is none
        return q.next_id

    def final(self, q):
        rng = self.rng
        return rng.choice([('none', None), ('ok', {}), ('raise', IOError('gone')), ('raise', self.http(404)), ('raise', self.http(502)), ('ok', {'id': 1, 'events': []})])

    def http(self, code):
        import StringIO
        return self.S.HTTPError(code, 'no', StringIO.StringIO('body'))

    # what the subscribers do ------------------------------------------------
    def deliver(self, n, k, message):
        rng = self.rng
        host = message.host
        q = self.queues.get((host.ip, host.port)) if host is not None else None
        self.ctx.check(q is not None, 'host', 'a message with host %s is delivered', host)
        rec = {'name': n, 'sub': k, 'message': message, 'shown': message.name, 'id': message.event_queue_id, 'content': content(message), 'raised': False}
        q.add('deliver', **rec)
        rec = q.log[-1][1]
        if self.hook is not None:
            self.hook(q, rec)
        if rng.random() < self.slow:
            self.S.api.sleep(rng.choice([0, 0.2, 4]))
        rec['end'] = vtime.clock.now
        if rng.random() < self.plan:
            rec['raised'] = True
            raise Boom('handler')

    # running ----------------------------------------------------------------
    def start(self, q):
        q.started_at = vtime.clock.now

        def body():
            q.begun = True
            q.returned.append(('begin', vtime.clock.now))
            r = q.client.start()
            q.returned.append((r, vtime.clock.now))
        self.S.api.spawn(body)

    def stop(self, q):
        q.was_begun = q.begun
        if q.stopped_at is None:
            q.stopped_at = vtime.clock.now
            q.posts_at_stop = q.posts
            q.log_at_stop = len(q.log)
        r = vcore.attempt(q.client.stop)
        self.ctx.note('stop', q.n, vtime.clock.now)
        self.ctx.check(r[0] == 'ok', 'stop', 'stop() raises %s', r[1])


def content(msg):
    out = []
    for n in msg.blocks:
        out.append((llsdgen.text(n), [dict([(llsdgen.text(v.name), v.data) for v in b.get_variables()]) for b in msg.blocks[n]]))
    return dict(out)


def expected(S, e):
    """(name, content) of a well-formed event, None of another"""
    name, body = e['message'], e['body']
    if name in S.templates:
        return name, dict([(b, body[b]) for b in body if body[b]])
    return name, {'Message_Data': [body]}


def good(w, e):
    return isinstance(e, dict) and isinstance(e.get('body'), dict) and not isinstance(e.get('message'), (dict, list)) and e.get('message') in w.names


def check_deliveries(w, q):
    """C15 over the history of one queue"""
    ctx = w.ctx
    want, got = [], []
    n = 0
    for what, d in q.log + [('post', None)]:
        if what == 'post':
            n += compare(w, q, want, got)
            want, got = [], []
        elif what == 'answer':
            want = []
            if d['kind'] == 'ok' and not d['done']:
                for e in d['value']['events']:
                    if good(w, e):
                        want.append((expected(w.S, e), d['value']['id']))
                ctx.count('broken events', len(d['value']['events']) - len(want))
            ctx.count('answers: ' + d['kind'])
        else:
            got.append(d)
    return n


def compare(w, q, want, got):
    ctx = w.ctx
    got = [d for d in got if d['name'] not in w.broken]
    i = 0
    n = 0
    for (name, cont), eid in want:
        subs = w.subs.get(name)
        if not subs:
            continue
        n += 1
        for k in range(len(subs)):
            if i >= len(got):
                ctx.violate('lost', 'event %s of response %s does not reach subscriber %d; delivered were %s' % (name, eid, k, [(g['name'], g['sub']) for g in got]))
            g = got[i]
            ctx.check(g['name'] == name and g['sub'] == k, 'order', 'subscriber %s of %s is called where subscriber %s of %s is next', g['sub'], g['name'], k, name)
            ctx.check(llsdgen.text(g['shown']) == llsdgen.text(name), 'name', 'event %s is delivered as a message %s', name, g['shown'])
            ctx.check(g['id'] == eid, 'id', 'event %s of response %s is delivered with id %s', name, eid, g['id'])
            h = g['message'].host
            ctx.check((h.ip, h.port) == (q.host.ip, q.host.port), 'host', 'event %s of %s is delivered with host %s', name, q.host, h)
            ctx.check(llsdgen.same(g['content'], cont), 'content', 'event %s is delivered with %s instead of %s', name, g['content'], cont)
            i += 1
            if g['raised']:
                # the others of this event may be left out
                ctx.count('raising handlers')
                while i < len(got) and got[i]['name'] == name and got[i]['message'] is g['message']:
                    i += 1
                break
        ctx.distinct(name, sorted([(b, len(cont[b])) for b in cont]))
    ctx.check(i == len(got), 'extra', 'more is delivered than the response has: %s', [(g['name'], g['sub'], g['id']) for g in got[i:]])
    ctx.count('events delivered', n)
    return n


def check_polls(w, q):
    """C16 over the history of one queue"""
    ctx = w.ctx
    acks = [None]       # the values allowed
    prev_post = prev_end = None
    done = 0
    after = 0
    for j, (what, d) in enumerate(q.log):
        t = d['t']
        late = q.stopped_at is not None and j >= q.log_at_stop
        if what == 'post':
            data = d['data']
            ctx.check(isinstance(data, dict), 'payload', 'polled with %s', data)
            ctx.check(not done, 'after-done', 'another request after the one flagged done: %s', data)
            if data.get('done'):
                ctx.check(late, 'done-early', 'a request flagged done before stop()')
                ctx.check(None not in acks or len(acks) > 1, 'done-ack', 'a final acknowledgement although nothing was received')
                ctx.check(data.get('ack') in acks and data.get('ack') is not None, 'done-ack', 'the final acknowledgement is %s; received was %s', data, acks)
                done += 1
                ctx.count('final acknowledgements')
            else:
                if late:
                    after += 1
                ctx.check(data.get('ack') in acks, 'ack', 'poll %s; to acknowledge is %s', data, acks)
                ctx.count(data.get('ack') is None and 'polls without ack' or 'polls with ack')
                start = prev_end if prev_end is not None else q.started_at
                ctx.check(prev_post is None or t - prev_post >= q.interval - 1e-6, 'interval', 'polls %s s apart, the interval is %s', prev_post is not None and t - prev_post or 0, q.interval)
                ctx.check(t - start <= q.interval + w.slack, 'late', 'a poll comes %s s after the one before was handled, the interval is %s', t - start, q.interval)
                prev_post = t
            prev_end = None
        elif what == 'answer':
            prev_end = t
            if not d['done']:
                v = d['value']
                if d['kind'] in ('ok', 'empty'):
                    acks = [v['id']]
                elif d['kind'] == 'none':
                    acks = sorted(set(acks + [None]))
                ctx.distinct(d['kind'], acks == [None], late)
        else:
            prev_end = d.get('end', t)
    ctx.distinct([what == 'post' and 'p' or what == 'answer' and d['kind'] or '' for what, d in q.log], q.stopped_at is not None and q.log_at_stop)
    if q.stopped_at is None:
        return
    ctx.check(after <= (q.was_begun and 1 or 0), 'polls-after-stop', '%s polls begun after stop()', after)
    if None not in acks:
        ctx.check(done == 1, 'no-final-ack', '%s final acknowledgements after stop(); last received was %s', done, acks)
    last = q.log and q.log[-1][1]['t'] or q.stopped_at
    ctx.check(len(q.returned) == 2 and q.returned[1][0] is True, 'start', 'start() gave %s', q.returned)
    ctx.check(not q.client._running, 'running', 'the client is still running long after stop()')
    ctx.check(q.returned[1][1] <= max(last, q.stopped_at) + q.interval + w.slack + 6, 'slow-stop', 'the client ended %.2f s after its last request', q.returned[1][1] - last)
    ctx.count('stops')
