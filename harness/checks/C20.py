"""C20: seed capabilities against a recording REST client"""
import vcore, gen, llsdgen
from checks.C19 import Rest, Response

CASES = {'quick': 2000, 'thorough': 40000}
NAMES = ['EventQueueGet', 'MapLayer', 'SendUserReport', 'FetchInventory', u'Caf\xe9', 'a b', '', 'seed_capability', 'capabilities', 'x' * 200, '0', 'None']


def setup(ctx):
    from checks import C19
    C19.setup(ctx)


def case(ctx, i, rng):
    rest, other = Rest(), Rest()
    st = gen.settings(LOG_VERBOSE=rng.randrange(2) == 0, ENABLE_CAPS_LOGGING=rng.randrange(2) == 0, ENABLE_CAPS_LLSD_LOGGING=rng.randrange(2) == 0)
    url = rng.choice(['http://example.com/seed', u'https://h:1/seed?a=b'])
    seed = ctx.Seed(rng.choice(['seed', 'seed_cap']), url, rest, st)
    seed2 = ctx.Seed('seed', url, other, gen.settings())
    before, kept = {}, []
    for k in range(rng.choice([1, 2, 4])):
        names = rng.sample(NAMES, rng.choice([0, 1, 2, 5, 10]))
        if rng.randrange(6) == 0:
            names.insert(rng.randrange(len(names) + 1), seed.name)
            ctx.count("asked for the seed's own name")
        if names and rng.randrange(8) == 0:
            names.insert(rng.randrange(len(names) + 1), rng.choice(names))
            ctx.count('asked for a name twice')
        if rng.randrange(3) == 0:
            names += ['Cap%d' % j for j in range(rng.choice([3, 60, 400]))]
        if kept and rng.randrange(3) == 0:
            # the caller uses its list again, changed or not
            old = rng.choice(kept)
            how = rng.randrange(3)
            if how == 0:
                old[:] = names
            elif how == 1:
                old.reverse()
                old.append('Another%d' % k)
            names = old
            ctx.count('lists used again')
        kept.append(names)
        urls = {}
        for n in names:
            urls[n] = 'http://example.com/%d/%d' % (k, rng.randrange(1 << 30))
        if urls and rng.randrange(6) == 0:
            # two lead to the same place, or back to the seed
            urls[rng.choice(sorted(urls, key=repr))] = rng.choice([url, rng.choice(sorted(urls.values()))])
        answer = dict(urls)
        for j in range(rng.choice([0, 0, 2])):
            answer['Extra%d' % j] = 'http://example.com/extra'
        doc = {'capabilities': answer}
        if rng.randrange(3) == 0:
            doc['more'] = llsdgen.value(rng, 1)
        rest.plan = Response('application/llsd+xml', llsdgen.to_xml(doc, rng).encode('utf-8'), {})
        asked = list(names)
        mark = len(rest.calls)
        ctx.note('get', names)
        r = vcore.attempt(lambda: seed.get() if not names and rng.randrange(2) else seed.get(names))
        ctx.check(r[0] == 'ok', 'exception', 'asking for %s raises %s', names, r[1])
        got = r[1]
        ctx.check(names == asked, 'caller', "the caller's list became %s", names)
        calls = rest.calls[mark:]
        ctx.check(len(calls) == 1 and calls[0][0] == 'POST' and calls[0][1] == url, 'request', 'asking for %s made the requests %s', names, calls)
        p = ctx.llsd.parse(calls[0][3])
        ctx.check(isinstance(p, dict) and p.keys() == ['capabilities'] and llsdgen.same(p['capabilities'], asked), 'payload', 'asking for %s posts %s', asked, p)
        ctx.check(isinstance(got, dict) and set(got) == set(asked), 'names', 'asked for %s, got %s', asked, got)
        for n in asked:
            c = got[n]
            ctx.check(isinstance(c, ctx.Cap) and c.name == n and c.public_url == urls[n], 'capability', 'capability %s is %s with URL %s', n, c, urls[n])
            ctx.check(c.restclient is rest and c.settings is st, 'inherited', "capability %s does not use its seed's REST client and settings", n)
        ctx.count('capabilities', len(asked))
        ctx.count('requests')
        # the capabilities work, and earlier ones still do
        before.update([((k, n), (got[n], urls[n])) for n in asked])
        for key in rng.sample(sorted(before, key=repr), min(2, len(before))):
            c, u = before[key]
            v = llsdgen.value(rng, 1, top=True)
            rest.plan = Response('application/llsd+xml', llsdgen.to_xml(v).encode('utf-8'), {})
            mark = len(rest.calls)
            r = c.POST({'a': 1})
            ctx.check(rest.calls[mark:] and rest.calls[-1][1] == u and len(rest.calls) == mark + 1 and llsdgen.same(r, v), 'use', 'using capability %s made the requests %s', key, rest.calls[mark:])
            ctx.count('capabilities used')
        ctx.check(not other.calls, 'shared', 'another REST client was used')
        ctx.distinct(sorted(names), len(answer))
    # a capability the server does not grant is not made up
    rest.plan = Response('application/llsd+xml', llsdgen.to_xml({'capabilities': {'A': 'http://example.com/a'}}), {})
    r = vcore.attempt(seed.get, ['A', 'Denied'])
    if r[0] == 'ok':
        ctx.check(set(r[1]) <= set(['A', 'Denied']) and r[1]['A'].public_url == 'http://example.com/a', 'denied', 'with one of two granted the result is %s', r[1])
        ctx.check('Denied' not in r[1] or not r[1]['Denied'].public_url, 'denied', 'a capability that was not granted has the URL %s', r[1].get('Denied') and r[1]['Denied'].public_url)
    # the parser remembers nothing
    rest.plan = ctx.HTTPError(404, 'x', None)
    r = vcore.attempt(seed.get, ['A'])
    ctx.check(r[0] == 'exc' and isinstance(r[1], ctx.exc.ResourceNotFound) and r[1].url == url, 'not-found', 'a seed that is gone gives %s', r[1])
    ctx.sample('asked %d times, %d capabilities' % (k + 1, len(before)))
