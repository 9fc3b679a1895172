"""C30: one planned workload under different logging settings gives the same trace; what Settings objects hold"""
import copy, logging, random, StringIO
import vcore, vtime, mgr, ref, gen, fakes, llsdgen

CASES = {'quick': 130, 'thorough': 2400}

SWITCHES = ['LOG_VERBOSE', 'ENABLE_BYTES_TO_HEX_LOGGING', 'ENABLE_CAPS_LOGGING', 'ENABLE_CAPS_LLSD_LOGGING', 'ENABLE_EQ_LOGGING', 'ENABLE_UDP_LOGGING', 'LOG_SKIPPED_PACKETS',
            'ENABLE_OBJECT_LOGGING', 'ENABLE_HOST_LOGGING', 'LOG_COROUTINE_SPAWNS', 'PROXY_LOGGING']
VERBOSE = ['ENABLE_BYTES_TO_HEX_LOGGING', 'ENABLE_CAPS_LLSD_LOGGING']


def setup(ctx):
    ctx.S = mgr.Setup()
    from pyogp.lib.base.settings import Settings
    from pyogp.lib.base.message.udpdispatcher import UDPDispatcher
    from pyogp.lib.base.caps import Capability, SeedCapability
    from pyogp.lib.base.network.stdlib_client import HTTPError
    ctx.Settings, ctx.Disp, ctx.Cap, ctx.Seed, ctx.HTTPError = Settings, UDPDispatcher, Capability, SeedCapability, HTTPError
    vtime.run(1)    # the hub begins
    ctx.default_spammers = list(Settings().UDP_SPAMMERS)


class Response(object):
    def __init__(self, ctype, body):
        self.status = 200
        self.body = body
        self.headers = {'Content-Type': ctype}


class Rest(object):
    """a REST client that answers by plan and records"""
    def __init__(self, trace, answers, api=None, latency=0):
        self.trace, self.answers, self.api, self.latency = trace, list(answers), api, latency

    def GET(self, url, headers={}):
        return self.do('GET', url, headers, None)

    def POST(self, url, payload, headers={}):
        return self.do('POST', url, headers, payload)

    def do(self, method, url, headers, payload):
        self.trace.append(('request', method, url, sorted(headers.items()), payload))
        if self.latency:
            self.api.sleep(self.latency)
        a = self.answers.pop(0) if self.answers else ('raise', 502)
        if a[0] == 'raise':
            raise HTTP(a[1])
        return Response(a[0], a[1])


def HTTP(code):
    return vcore.Context.current.HTTPError(code, 'no', StringIO.StringIO('the body'))


# plans ---------------------------------------------------------------------

def datagram(ctx, rng, names, n):
    k = rng.randrange(12)
    name = rng.choice(names) if k else rng.choice(ctx.S.names)
    mt = ctx.S.templates[name]
    while True:
        wire = gen.wire_message(rng, mt)
        body = ref.enc_body(mt, wire)
        if len(body) < 2000:
            break
    d = ref.datagram(body, rng.choice([0, 0x40, 0x80, 0xc0, 0x60]), n, rng.choice(['', '', 'ex']), rng.choice([None, None, [1], [1, 2, 3]]))
    if k == 1:
        d = d[:rng.randrange(len(d))]
    elif k == 2:
        d = gen.rand_bytes(rng, rng.choice([1, 6, 7, 40]))
    elif k == 3:
        b = ctx.S.templates[rng.choice(ctx.S.banned)]
        d = ref.datagram(ref.enc_body(b, gen.wire_message(rng, b)), 0x40, n)
    elif k == 4:
        d = ref.datagram('\xff\xff\xf0\x01', 0x40, n)
    elif k == 5:
        d = ref.datagram(ref.enc_body(ctx.templates_ack, {'Packets': [{'ID': j} for j in (1, 2, 9)]}), rng.choice([0, 0x40]), n)
    return d


def message(ctx, rng, names):
    """how to build a message"""
    if rng.randrange(8) == 0:
        name = rng.choice(['NoSuchMessage', rng.choice(ctx.S.banned), u'Caf\xe9', 'StartPingCheck'])
        return lambda: gen.lib().Message(name)
    while True:
        mt = ctx.S.templates[rng.choice(names + ['AgentUpdate'])]
        libv, wire = gen.gen_message(rng, mt)
        if len(ref.enc_body(mt, wire)) < 2000:
            return lambda: gen.build(mt, libv)


ADDRS = [('10.0.0.1', 13000), ('10.0.0.1', 13001), ('10.0.0.2', 13000)]


def dispatcher_plan(ctx, rng):
    names = rng.sample(ctx.S.names, 6) + ['AgentUpdate', 'PacketAck']
    ops = []
    for n in range(rng.choice([8, 25])):
        k = rng.randrange(9)
        if k < 4:
            ops.append(('recv', rng.choice(ADDRS), datagram(ctx, rng, [x for x in names if x != 'PacketAck'], n)))
        elif k < 7:
            ops.append(('send', rng.choice(ADDRS + [(None, None)]), message(ctx, rng, [x for x in names if x != 'PacketAck']), rng.randrange(3), rng.randrange(3)))
        else:
            ops.append(('acks',))
    return names, rng.sample(names, 5), ops, rng.randrange(3), rng.randrange(3) == 0, rng.randrange(4) == 0


def run_dispatcher(ctx, plan, st):
    names, handled, ops, seed, deferred, outgoing = plan
    trace = []
    st.ENABLE_DEFERRED_PACKET_PARSING, st.HANDLE_OUTGOING_PACKETS = deferred, outgoing
    udp = fakes.UDP()
    h = ctx.S.Handler(st)
    for n in handled:
        h.register(n).subscribe(lambda m, n=n: trace.append(('handler', n, gen.freeze(m) if m.packet_id is not None else m.name)))
    d = ctx.Disp(udp, st, h)
    udp.log = lambda x: trace.append(('sent', x[0], x[1]))
    for op in ops:
        if op[0] == 'recv':
            r = vcore.attempt(d.receive_check, ctx.S.Host(op[1]), op[2], len(op[2]))
            trace.append(('returned', r[0], r[0] == 'ok' and gen.freeze(r[1]) or repr(r[1])[:60]))
        elif op[0] == 'send':
            host = ctx.S.Host(op[1])
            fn = [d.send_message, d.send_retry, lambda m, x: d.send_reliable(m, x, op[4])][op[3]]
            r = vcore.attempt(fn, op[2](), host)
            trace.append(('send', r[0], r[0] == 'ok' or r[1].__class__.__name__))
        else:
            r = vcore.attempt(d.process_acks)
            trace.append(('acks', r[0]))
        for a in ADDRS:
            c = d.circuit_manager.get_circuit(ctx.S.Host(a))
            trace.append(('circuit', c and (c.last_packet_out_id, sorted(c.unacked_packets), list(c.acks), c.unack_packet_count)))
    return trace


def event(ctx, rng, names):
    name = rng.choice(names + ['Odd', u'Caf\xe9'])
    f = lambda: dict([(rng.choice(['ID', 'Name', u'\xfcber', 'X']), llsdgen.value(rng, 1)) for k in range(rng.choice([0, 1, 3]))])
    if name in ctx.S.templates:
        body = dict([(b.name, [f() for k in range(rng.choice([0, 1, 2]))]) for b in ctx.S.templates[name].blocks])
    else:
        body = f()
    return rng.choice([{'message': name, 'body': body}] * 6 + [{'message': name}, 7, {}])


def manager_plan(ctx, rng):
    names = rng.sample(ctx.S.names, 6)
    rounds = []
    n = 0
    for k in range(rng.choice([3, 8])):
        arrive = []
        for j in range(rng.choice([0, 1, 4])):
            n += 1
            arrive.append((rng.choice(ADDRS), datagram(ctx, rng, names, n)))
        enq = [(message(ctx, rng, names), rng.randrange(2) == 0, rng.randrange(3) == 0) for j in range(rng.choice([0, 1, 3]))]
        rounds.append((arrive, enq, rng.choice([0, 0, 0.1, 1, 3])))
    answers = []
    for k in range(rng.choice([0, 2, 6])):
        i = rng.randrange(4)
        if i == 0:
            answers.append(rng.choice([('raise', 502), ('raise', 404), ('text/html', 'oops'), ('application/llsd+xml', ''), ('application/llsd+xml', '<llsd>')]))
        else:
            answers.append(('application/llsd+xml', llsdgen.to_xml({'id': k + 1, 'events': [event(ctx, rng, names) for j in range(rng.choice([0, 1, 3]))]}).encode('utf-8')))
    queue = rng.randrange(4) > 0
    return names, rounds, queue and answers, rng.choice([0, 0.05, 2]), rng.randrange(3) == 0


def body_of(m):
    return dict([(n, [dict([(v.name, v.data) for v in b.get_variables()]) for b in m.blocks[n]]) for n in m.blocks])


def run_manager(ctx, plan, st):
    names, rounds, answers, latency, deferred = plan
    trace = []
    st.ENABLE_DEFERRED_PACKET_PARSING = deferred
    vtime.clock.now, vtime.clock.tick = 1000000000.0, 0.01
    api = ctx.S.api
    cap = None
    if answers is not False:
        cap = ctx.Cap('EventQueueGet', 'http://10.0.0.1/eq', restclient=Rest(trace, answers, api, latency), settings=st)
    m = mgr.Manager(ctx, random.Random(3), cap, st)
    for n in names + ['Odd', u'Caf\xe9']:
        def handler(x, n=n):
            if x.packet_id is not None and getattr(x, 'event_queue_id', None) is None:
                trace.append(('handler', n, gen.freeze(x)))
            else:
                trace.append(('event', n, getattr(x, 'event_queue_id', None), repr(sorted(body_of(x).items()))))
        m.handler.register(n).subscribe(vcore.guard(handler))
    m.udp.log = lambda x: trace.append(('sent', x[0], x[1]))
    m.start()
    for arrive, enq, nap in rounds:
        m.udp.inbox += arrive
        for b, reliable, first in enq:
            m.mm.enqueue_message(b(), reliable, first)
        m.turns(4)
        api.sleep(nap)
        trace.append(('time', round(vtime.clock.now, 6)))
    m.turns(6)
    m.stop()
    trace.append(('queued', len(m.mm.outgoing_queue), m.udp.inbox))
    vtime.run(60)
    trace.append(('end', m.mm._is_running, m.mm.event_queue and m.mm.event_queue._running))
    vtime.quiet(ctx, ctx.S.hub, 'after stopping')
    return trace


def caps_plan(ctx, rng):
    calls = []
    for k in range(rng.choice([3, 8])):
        how = rng.choice(['GET', 'POST', 'POST', 'POST_CUSTOM', 'seed'])
        payload = llsdgen.value(rng, 2, top=True) if how == 'POST' else rng.choice(['raw \xff\0', '<llsd/>', u'\u20ac', '%s %d'])
        if how == 'seed':
            payload = rng.sample(['A', 'EventQueueGet', 'B b', u'Caf\xe9', '%s'], rng.randrange(1, 4))
            answer = ('application/llsd+xml', llsdgen.to_xml(dict([(n, 'http://x/%d' % j) for j, n in enumerate(payload)])).encode('utf-8'))
        else:
            answer = ('application/llsd+xml', llsdgen.to_xml(llsdgen.value(rng, 3)).encode('utf-8'))
        i = rng.randrange(8)
        if i == 0:
            answer = ('raise', rng.choice([404, 500, 502, 403]))
        elif i == 1:
            answer = rng.choice([('text/plain', 'x'), ('application/llsd+xml', '\xff<llsd>'), ('application/llsd+xml', ''), ('text/html', '<html>\xe9</html>')])
        calls.append((how, payload, dict([('X-%d' % j, 'v') for j in range(rng.choice([0, 2]))]), answer))
    return rng.choice(['http://example.com/cap', u'http://example.com/caf\xe9', 'http://x/%s%d']), rng.choice(['Name', u'Caf\xe9', '%s']), calls


def plainly(v):
    if isinstance(v, dict):
        return ('dict', sorted([(repr(k), plainly(v[k])) for k in v]))
    if isinstance(v, list):
        return [plainly(x) for x in v]
    return repr(v)


def run_caps(ctx, plan, st):
    url, name, calls = plan
    trace = []
    rest = Rest(trace, [c[3] for c in calls])
    cap, seed = ctx.Cap(name, url, restclient=rest, settings=st), ctx.Seed(name, url, restclient=rest, settings=st)
    for how, payload, headers, answer in calls:
        payload = copy.deepcopy(payload)
        if how == 'seed':
            r = vcore.attempt(seed.get, payload)
            if r[0] == 'ok':
                trace.append(('caps', sorted([(repr(n), repr(c.name), c.public_url, c.settings is st) for n, c in r[1].items()])))
                continue
        elif how == 'GET':
            r = vcore.attempt(cap.GET, headers)
        else:
            r = vcore.attempt(getattr(cap, how), payload, headers)
        if r[0] == 'ok':
            trace.append(('result', plainly(r[1])))
        else:
            trace.append(('exception', r[1].__class__.__name__, sorted([(k, repr(v)[:200]) for k, v in vars(r[1]).items()]) if hasattr(r[1], '__dict__') else ''))
    return trace


KINDS = [('dispatcher', dispatcher_plan, run_dispatcher), ('manager', manager_plan, run_manager), ('capabilities', caps_plan, run_caps)]


def assign(ctx, rng, st):
    """logging only"""
    mode = rng.randrange(5)
    for s in SWITCHES + ['DISABLE_SPAMMERS']:
        if mode == 0:
            setattr(st, s, True)
        elif mode == 1:
            setattr(st, s, False)
        elif mode < 4:
            setattr(st, s, rng.randrange(2) == 0)
    if rng.randrange(2):
        st.UDP_SPAMMERS = rng.choice([[], ['PacketAck'], ['AgentUpdate', 'StartPingCheck', 'x'], ctx.S.all])
    return [s for s in SWITCHES + ['DISABLE_SPAMMERS'] if getattr(st, s)]


def case(ctx, i, rng):
    ctx.templates_ack = ctx.S.templates['PacketAck']
    if i % 5 == 4:
        for k in range(20):
            objects(ctx, rng)
        return
    what, make, run = KINDS[i % 3]
    plan = make(ctx, rng)
    base = run_with(ctx, run, plan, ctx.Settings(), logging.CRITICAL)
    for k in range(4):
        st = rng.choice([lambda: ctx.Settings(), lambda: ctx.Settings(quiet_logging=True), lambda: ctx.Settings(spammy_logging=True), lambda: ctx.Settings(True, True), lambda: ctx.Settings(log_tests=False)])()
        on = assign(ctx, rng, st) if rng.randrange(4) else ['as constructed: %s %s' % (st.quiet_logging, st.spammy_logging)]
        level = rng.choice([logging.DEBUG, logging.DEBUG, logging.INFO, logging.CRITICAL])
        ctx.note(what, 'with', on, 'level', level)
        same(ctx, what, base, run_with(ctx, run, plan, st, level), on)
        ctx.count('variants of ' + what)
        ctx.distinct(what, on, level, len(base))
    if what == 'dispatcher':
        # with packet handling off
        st = ctx.Settings(quiet_logging=rng.randrange(2) == 0)
        st.HANDLE_PACKETS = False
        p = plan[:5] + (False,)
        got = run_with(ctx, run, p, st, logging.CRITICAL)
        want = run_with(ctx, run, p, ctx.Settings(), logging.CRITICAL)
        ctx.check(not [t for t in got if t[0] == 'handler'], 'handled', 'with packet handling off, handlers are invoked: %s', [t for t in got if t[0] == 'handler'][:2])
        ctx.count('deliveries switched off', len([t for t in want if t[0] == 'handler']))
        same(ctx, 'dispatcher without handlers', [t for t in want if t[0] != 'handler'], got, ['HANDLE_PACKETS off'])
    ctx.count('trace entries', len(base))
    for t in base:
        ctx.count('seen ' + t[0])
    ctx.sample('%s: %d trace entries, e.g. %s' % (what, len(base), vcore.short(repr(base[:3]))))


def run_with(ctx, run, plan, st, level):
    root = logging.getLogger()
    before = root.level
    root.setLevel(level)
    try:
        return run(ctx, plan, st)
    finally:
        root.setLevel(before)


def same(ctx, what, base, got, on):
    for k in range(max(len(base), len(got))):
        a = base[k] if k < len(base) else 'nothing'
        b = got[k] if k < len(got) else 'nothing'
        ctx.check(equal(a, b), 'differs', '%s with %s: step %s is %s instead of %s', what, on, k, repr(b), repr(a))


def equal(a, b):
    return a == b or repr(a) == repr(b)


# Settings objects ------------------------------------------------------------

def state(st):
    return dict([(k, copy.copy(v)) for k, v in vars(st).items()])


def objects(ctx, rng):
    q, s, t = rng.randrange(2) == 0, rng.randrange(2) == 0, rng.randrange(2) == 0
    st = rng.choice([lambda: ctx.Settings(q, s, t), lambda: ctx.Settings(quiet_logging=q, spammy_logging=s, log_tests=t)])()
    ctx.note('Settings', q, s, t)
    if q:
        for x in SWITCHES:
            ctx.check(not getattr(st, x), 'quiet', 'quiet logging (spammy: %s) leaves %s on', s, x)
        ctx.check(st.DISABLE_SPAMMERS, 'quiet', 'quiet logging (spammy: %s) lets spammers be logged', s)
    elif s:
        for x in VERBOSE:
            ctx.check(getattr(st, x), 'spammy', 'spammy logging leaves %s off', x)
        ctx.check(not st.DISABLE_SPAMMERS, 'spammy', 'spammy logging keeps spammers from being logged')
    ctx.check(bool(st.ENABLE_LOGGING_IN_TESTS) == t, 'tests', 'log_tests=%s gives %s', t, st.ENABLE_LOGGING_IN_TESTS)
    ctx.check(st.HANDLE_PACKETS and not st.HANDLE_OUTGOING_PACKETS and st.ENABLE_DEFERRED_PACKET_PARSING and st.ENABLE_REGION_EVENT_QUEUE, 'other', 'logging arguments change other switches: %s', state(st))
    ctx.check(st.UDP_SPAMMERS == ctx.default_spammers, 'shared', 'new settings list the spammers %s', st.UDP_SPAMMERS)
    # no two of them share anything
    others = [ctx.Settings(), ctx.Settings(q, s, t)]
    before = [state(o) for o in others]
    for k in list(vars(st)):
        v = getattr(st, k)
        if isinstance(v, bool):
            setattr(st, k, not v)
        elif isinstance(v, list):
            v.append('Mine')
        elif isinstance(v, (int, float)):
            setattr(st, k, v + 7)
    others.append(ctx.Settings())
    before.append(before[0])
    for o, b in zip(others, before):
        ctx.check(state(o) == b, 'shared', 'changing one Settings object changed another: %s, before %s', state(o), b)
    # components made without settings have their own
    a, b = ctx.S.Handler(), ctx.S.Handler()
    ctx.check(a.settings is not b.settings, 'shared', 'two handlers share their settings')
    c, d = ctx.Cap('x', 'http://x/'), ctx.Cap('x', 'http://x/')
    ctx.check(c.settings is not d.settings and c.settings is not a.settings, 'shared', 'two capabilities share their settings')
    ctx.count('settings objects', 5)
    ctx.distinct('settings', q, s, t)
