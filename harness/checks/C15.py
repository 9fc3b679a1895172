"""C15: events of scripted responses against what subscribers see"""
import vcore, vtime, eq

CASES = {'quick': 240, 'thorough': 4000}


def setup(ctx):
    ctx.S = eq.Setup()


def case(ctx, i, rng):
    w = eq.World(ctx, rng)
    qs = [w.queue(k + 1) for k in range(rng.choice([1, 1, 2]))]
    for q in qs:
        w.start(q)
        if rng.randrange(4) == 0:
            q.stopping_in = rng.randrange(1, 20)
    # a queue stopped by a handler delivers the rest of its response
    if rng.randrange(4) == 0:
        at = rng.randrange(1, 12)
        seen = [0]

        def hook(q, rec):
            seen[0] += 1
            if seen[0] == at:
                w.stop(q)
                ctx.count('stopped by a handler')
        w.hook = hook
    for k in range(rng.choice([4, 12, 30])):
        vtime.run(w.st.REGION_EVENT_QUEUE_POLL_INTERVAL * rng.choice([1, 2]) + 1)
    for q in qs:
        if q.stopped_at is None:
            w.stop(q)
    vtime.run(200 + 14 * w.st.REGION_EVENT_QUEUE_POLL_INTERVAL)
    vtime.quiet(ctx, ctx.S.hub, 'after stopping')
    n = 0
    for q in qs:
        n += eq.check_deliveries(w, q)
    ctx.sample('%d queue(s), %d polls, %d events delivered to %s' % (len(qs), sum([q.posts for q in qs]), n, sorted(w.subs)[:4]))
