"""C27: LLSD message builders driven by random histories against plain lists"""
import vcore, ref

CASES = {'quick': 6000, 'thorough': 150000}


def setup(ctx):
    vcore.boot()
    from pyogp.lib.base.message.llsd_builder import LLSDMessageBuilder
    from pyogp.lib.base.message.msgtypes import MsgType
    ctx.B, ctx.T = LLSDMessageBuilder, MsgType


class Odd(object):
    pass


NAMES = ['AgentData', 'Data', 'ParcelData', 'x', '', 'blocks', 'name', u'Uni', u'Caf\xe9', 'B 1', '%s', 'Z', 'Data2']
FIELDS = ['ID', 'AgentID', 'Name', 'x', '', u'Uni', u'\xfcber', 'vars', 'Flags', 'Z9', 'A', 'name']


def value(rng):
    return rng.choice([0, 1, -5, 2.5, True, False, None, '', 'text', u'Ren\xe9', '\xff\0', [], [1, 2], {}, {'a': 1}, (1, 2), Odd(), 1 << 70, 0.0, 'x' * 200, lambda: 1])


def ident(a, b):
    return a is b or (type(a) is type(b) and isinstance(a, (int, long, float, str, unicode)) and a == b)


def same(a, b):
    """two results; values by identity"""
    if len(a) != len(b):
        return False
    for n in b:
        if n not in a or not isinstance(a[n], list) or len(a[n]) != len(b[n]):
            return False
        for x, y in zip(a[n], b[n]):
            if not isinstance(x, dict) or len(x) != len(y) or [k for k in y if k not in x or not ident(x[k], y[k])]:
                return False
    return True


def copy(r):
    return dict([(n, [dict(x) for x in r[n]]) for n in r])


class Builder(object):
    def __init__(self, ctx, no):
        self.ctx, self.no = ctx, no
        self.b = ctx.B()
        self.model = None
        self.block = None
        self.built = False
        self.results = []       # (what was returned, what it was)

    def step(self, rng):
        c, b = self.ctx, self.b
        if self.model is None or rng.randrange(25) == 0:
            n = rng.choice(['TestMessage', 'x', '', u'Caf\xe9'])
            b.new_message(n)
            self.model, self.block, self.built = {}, None, False
            c.note(self.no, 'new_message', n)
            c.count('messages')
        elif rng.randrange(6) == 0:
            self.build(rng)
        elif self.block is None or rng.randrange(3) == 0:
            n = rng.choice(self.names)
            b.next_block(n)
            self.block = {}
            self.model.setdefault(n, []).append(self.block)
            self.built = False
            c.note(self.no, 'next_block', n)
            c.count('blocks')
        else:
            f, v = rng.choice(FIELDS), value(rng)
            b.add_data(f, v, rng.choice([c.T.MVT_U8, c.T.MVT_VARIABLE, None, c.T.MVT_LLUUID]))
            if f in self.block:
                c.count('fields overwritten')
            self.block[f] = v
            self.built = False
            c.note(self.no, 'add_data', f, v)
            c.count('fields')

    def build(self, rng):
        c = self.ctx
        r = self.b.build_message()
        self.built = True
        c.note(self.no, 'build_message')
        c.check(isinstance(r, tuple) and len(r) == 2, 'result', 'building returns %s', r)
        msg, n = r
        c.check(same(msg, self.model), 'content', 'builder %s builds %s from %s', self.no, msg, self.model)
        c.check(n == len(self.model), 'number', 'builder %s counts %s distinct blocks of %s', self.no, n, sorted(self.model, key=repr))
        c.count('built')
        if rng.randrange(3) == 0:
            # the caller owns the result
            for k in list(msg):
                msg[k].append({'Mine': 1})
                msg[k][0]['Mine'] = 2
            msg['Mine'] = []
            c.count('results changed by the caller')
        else:
            self.results.append((msg, copy(self.model)))

    def verify(self):
        c = self.ctx
        c.check(bool(self.b.is_built()) == self.built, 'is_built', 'builder %s: is_built is %s, built: %s', self.no, self.b.is_built(), self.built)
        for got, was in self.results:
            c.check(same(got, was), 'earlier', 'builder %s: an earlier result %s became %s', self.no, was, got)


def case(ctx, i, rng):
    names = rng.choice([NAMES[:2], NAMES[:4], NAMES])
    bs = [Builder(ctx, k) for k in range(rng.choice([1, 1, 2, 3]))]
    for b in bs:
        b.names = names
    for k in range(rng.choice([5, 20, 60, 150])):
        b = rng.choice(bs)
        b.step(rng)
        for x in bs:
            x.verify()
    for b in bs:
        if b.model is not None:
            b.build(rng)
            b.verify()
            ctx.distinct(sorted([(n, [sorted(x, key=repr) for x in b.model[n]]) for n in b.model], key=repr))
    ctx.sample('%d builders, last content %s' % (len(bs), bs[0].model and [(n, len(bs[0].model[n])) for n in bs[0].model]))
