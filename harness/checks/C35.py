"""C35: the library's errors keep what they are given, render, and are caught by their families"""
import inspect
import vcore, gen, ref

CASES = {'quick': 200, 'thorough': 3000}
# error: (base it is documented to be caught by, parameters in order, those its text shows)
E = {
 'AgentError': ('Error', None, ()), 'NetworkError': ('Error', None, ()), 'SerializationError': ('Error', None, ()), 'DeserializationError': ('Error', None, ()),
 'MessageSystemError': ('Error', None, ()), 'AgentDomainError': ('Error', None, ()), 'RegionDomainError': ('Error', None, ()),
 'LoginError': ('Error', ['error'], ['error']), 'ParseStartLocError': ('LoginError', ['error'], ()),
 'HTTPError': ('NetworkError', ['code', 'msg', 'fp', 'details'], ['code', 'msg']),
 'ResourceNotFound': ('NetworkError', ['url'], ['url']),
 'ResourceError': ('NetworkError', ['url', 'code', 'message', 'body', 'method'], ['url', 'code', 'message', 'method']),
 'DeserializerNotFound': ('DeserializationError', ['content_type'], ['content_type']),
 'CredentialDeserializerNotFound': ('DeserializationError', ['payload'], ['payload']),
 'DeserializationFailed': ('DeserializationError', ['payload', 'reason'], ['payload', 'reason']),
 'MessageTemplateNotFound': ('MessageSystemError', ['context', 'template'], ['context']),
 'MessageTemplateParsingError': ('MessageSystemError', ['context', 'template'], ['context']),
 'CircuitNotFound': ('MessageSystemError', ['host', 'reason'], ['host', 'reason']),
 'MessageBuildingError': ('MessageSystemError', ['label', 'reason'], ['label', 'reason']),
 'MessageSerializationError': ('MessageSystemError', ['label', 'reason'], ['label', 'reason']),
 'MessageDeserializationError': ('MessageSystemError', ['label', 'reason'], ['label', 'reason']),
 'DataUnpackingError': ('MessageSystemError', ['data', 'reason'], ['data', 'reason']),
 'UserNotFound': ('AgentDomainError', ['credentials'], ()), 'UserNotAuthorized': ('AgentDomainError', ['credentials'], ()), 'UserRezFailed': ('AgentDomainError', ['region'], ()),
 'RegionSeedCapNotAvailable': ('RegionDomainError', ['reason'], ['reason']), 'RegionCapNotAvailable': ('RegionDomainError', ['cap'], ()),
 'RegionMessageError': ('RegionDomainError', ['region'], ['region']),
 'DataParsingError': ('Error', ['error'], ['error']), 'NotImplemented': ('Error', ['error'], ['error']), 'Deprecated': ('Error', ['thing'], ['thing']),
}
TEXT_ONLY = ('url',)


def setup(ctx):
    vcore.boot()
    from pyogp.lib.base import exc
    from pyogp.lib.base.message.circuit import Host
    ctx.exc, ctx.Host = exc, Host


def value(ctx, rng, name):
    k = rng.randrange(8)
    if name in TEXT_ONLY or k < 3:
        return ''.join([rng.choice('abcXYZ09 /:%{}<>?&=._-') for j in range(rng.choice([0, 1, 12, 40]))])
    if k == 3:
        return gen.rand_bytes(rng, 12)
    if k == 4:
        return rng.choice([0, 404, 500, -1, 1 << 40, None, 1.5])
    if k == 5:
        return ctx.Host(('10.0.0.1', rng.randrange(65536)))
    if k == 6:
        return ValueError('inner %d' % rng.randrange(100))
    return rng.choice([[1, 2], {'a': 1}, ('pair', 2), ''])


def case(ctx, i, rng):
    kept = []
    for n in rng.sample(sorted(E), len(E)):
        base, params, shown = E[n]
        c = getattr(ctx.exc, n)
        for b in (getattr(ctx.exc, base), ctx.exc.Error, Exception):
            ctx.check(issubclass(c, b), 'family', '%s is no %s', n, b.__name__)
        if params is None:
            v = value(ctx, rng, '')
            e = rng.randrange(2) and c(v) or c('x')
            str(e)
            continue
        vals = [value(ctx, rng, x) for x in params]
        need = 4 if n == 'HTTPError' else 0
        given = len(vals)
        if rng.randrange(3) == 0:
            given = max(rng.randrange(len(vals) + 1), n == 'HTTPError' and 3 or n in ('LoginError', 'ParseStartLocError') and 1 or 0)
        if rng.randrange(2):
            e = c(*vals[:given])
        else:
            e = c(**dict(zip(params, vals)[:given]))
        kept.append((n, e, params[:given], vals, shown))
        ctx.count('made')
    for n, e, params, vals, shown in kept:
        try:
            raise e
        except getattr(ctx.exc, E[n][0]), caught:
            ctx.check(caught is e, 'caught', '%s is caught as %s', n, repr(caught))
        for a, v in zip(params, vals):
            ctx.check(hasattr(e, a), 'lost', '%s does not keep its %s', n, a)
            got = getattr(e, a)
            ctx.check(got is v or got == v, 'changed', '%s keeps %s as its %s instead of %s', n, repr(got), a, repr(v))
        r = vcore.attempt(str, e)
        ctx.check(r[0] == 'ok', 'str', '%s with %s does not render: %s', n, repr(vals), repr(r[1]))
        r2 = vcore.attempt(repr, e)
        ctx.check(r2[0] == 'ok', 'repr', '%s with %s has no repr: %s', n, repr(vals), repr(r2[1]))
        for a, v in zip(params, vals):
            if a in shown:
                ctx.check('%s' % (v,) in r[1], 'text', 'the text of %s with %s %s is %s', n, a, repr(v), repr(r[1]))
        ctx.distinct(n, len(params), [type(v).__name__ for v in vals])
        ctx.count('rendered')
    for n, c in inspect.getmembers(ctx.exc, inspect.isclass):
        if issubclass(c, Exception) and c.__module__ == ctx.exc.__name__:
            ctx.check(issubclass(c, ctx.exc.Error), 'family', '%s is no Error', n)
    ctx.sample('%d errors' % len(kept))
