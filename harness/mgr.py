"""A message manager under virtual time with a recording UDP client and, at times, an event queue"""
import vcore, vtime, ref, gen, fakes, llsdgen


class Setup(object):
    def __init__(self):
        vcore.boot(verbose_logs=True)
        self.hub = vtime.install()
        from eventlet import api
        from pyogp.lib.base.message_manager import MessageManager
        from pyogp.lib.base.message.message_handler import MessageHandler
        from pyogp.lib.base.message.circuit import Host
        self.api, self.MM, self.Handler, self.Host = api, MessageManager, MessageHandler, Host
        self.templates, self.all = ref.builtin()
        self.names = [n for n in ref.permitted() if n not in ('PacketAck',)]
        self.banned = [n for n in self.all if n in ref.banned()]


class Boom(vcore.Deliberate):
    pass


class Cap(object):
    """an event queue capability"""
    name = 'EventQueueGet'

    def __init__(self, api, rng, answers):
        self.api, self.rng, self.answers = api, rng, answers
        self.posts = []
        self.pending = 0
        self.latency = rng.choice([0, 0.3, 4])

    def POST(self, data, *a, **kw):
        self.posts.append((vtime.clock.now, dict(data)))
        self.pending += 1
        try:
            if self.latency:
                self.api.sleep(self.latency)
        finally:
            self.pending -= 1
        if data.get('done') or not self.answers:
            if self.rng.randrange(2):
                raise IOError('nothing')
            return None if data.get('done') else {'id': len(self.posts), 'events': []}
        r = self.answers.pop(0)
        if isinstance(r, Exception):
            raise r
        return r


class Manager(object):
    def __init__(self, ctx, rng, queue=None, st=None, host=('10.0.0.1', 13000), constructor=False, **kw):
        self.ctx, self.rng, self.S = ctx, rng, ctx.S
        self.st = st or gen.settings(ENABLE_DEFERRED_PACKET_PARSING=rng.randrange(3) > 0, LOG_VERBOSE=rng.randrange(2) == 0,
                                     DISABLE_SPAMMERS=rng.randrange(2) == 0, ENABLE_UDP_LOGGING=rng.randrange(4) > 0)
        self.handler = self.S.Handler(self.st)
        self.host = self.S.Host(host)
        self.addr = host
        self.cap = queue
        caps = {}
        if queue is not None:
            caps['EventQueueGet'] = queue
        if rng.randrange(2) or queue is not None:
            kw['capabilities'] = caps
        if constructor:
            kw['start_monitors'] = True
        self.mm = self.S.MM(self.host, self.handler, settings=self.st, **kw)
        self.disp = self.mm.udp_dispatcher
        self.disp.socket.close()
        self.udp = fakes.UDP()
        self.disp.udp_client, self.disp.socket = self.udp, self.udp
        self.receives = 0
        self.udp.on_receive = self.on_receive
        self.hooks = []

    def on_receive(self):
        self.receives += 1
        for h in self.hooks:
            h()

    def start(self):
        r = vcore.attempt(self.mm.start_monitors)
        self.ctx.check(r[0] == 'ok', 'start', 'start_monitors raises %s', r[1])
        self.ctx.note('start', vtime.clock.now)

    def stop(self):
        r = vcore.attempt(self.mm.stop_monitors)
        self.ctx.check(r[0] == 'ok', 'stop', 'stop_monitors raises %s at %s', r[1], r[2] and vcore.tb_text(r[2]))
        self.ctx.note('stop', vtime.clock.now)
        self.receives_at_stop = self.receives

    def turns(self, n):
        """let the loop make about n iterations"""
        for k in range(n):
            self.S.api.sleep(0)
