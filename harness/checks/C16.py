"""C16: what an event queue client posts, and when, around failures and stop() at any moment"""
import vcore, vtime, eq

CASES = {'quick': 260, 'thorough': 4500}


def setup(ctx):
    ctx.S = eq.Setup()


def case(ctx, i, rng):
    w = eq.World(ctx, rng)
    iv = w.st.REGION_EVENT_QUEUE_POLL_INTERVAL
    kind = rng.choice(['run', 'run', 'run', 'run', 'run', 'early', 'other name', 'agent domain'])
    if kind == 'other name':
        return wrong_cap(ctx, w, rng.choice(['', 'EventQueueGet2', 'eventqueueget', 'Seed']))
    if kind == 'agent domain':
        return agent_domain(ctx, w)
    qs = [w.queue(k + 1) for k in range(rng.choice([1, 1, 2]))]
    for q in qs:
        q.was_begun = False
        if kind == 'early':
            before = rng.randrange(2)
            if before:
                w.stop(q)
            w.start(q)
            if not before:
                w.stop(q)
            ctx.count('stopped before it begins')
        else:
            w.start(q)
    if kind == 'run':
        for q in qs:
            how = rng.randrange(4)
            if how == 0:
                q.stopping_in = rng.randrange(1, 12)
            q.how = how
        if rng.randrange(3) == 0:
            at, seen = rng.randrange(1, 12), [0]

            def hook(q, rec):
                seen[0] += 1
                if seen[0] == at:
                    w.stop(q)
                    ctx.count('stopped by a handler')
            w.hook = hook
        for k in range(rng.choice([0, 1, 3, 10, 20])):
            vtime.run(rng.choice([0, iv * 0.5, iv, iv + 1, iv * 3, 10, w.streaks and iv * rng.choice([20, 20, 60, 200]) or 1]))
        for q in rng.sample(qs, len(qs)):
            while q.how == 1 and not q.pending and q.stopped_at is None:
                vtime.run(0.003)      # stop it during a poll
                if vtime.clock.now > q.started_at + 300:
                    break
            ctx.count(q.pending and 'stopped during a poll' or 'stopped between polls')
            w.stop(q)
            if rng.randrange(4) == 0:
                vtime.run(rng.choice([0, 0.1, 5]))
                w.stop(q)
    vtime.run(120 + 14 * iv)
    vtime.quiet(ctx, ctx.S.hub, 'after stopping')
    for q in qs:
        eq.check_polls(w, q)
    ctx.sample('%s: interval %s, posts %s' % (kind, iv, [[(round(d['t'] % 1e6, 2), d['data']) for what, d in q.log if what == 'post'][:5] for q in qs]))


def wrong_cap(ctx, w, name):
    q = w.queue(1, name=name)
    w.start(q)
    vtime.run(5 * q.interval + 5)
    ctx.check(q.posts == 0, 'wrong-cap', 'a capability named %s is polled', name)
    ctx.check(len(q.returned) == 2 and not q.returned[1][0], 'wrong-cap', 'start() with a capability named %s gives %s', name, q.returned)
    ctx.check(not q.client._running, 'wrong-cap', 'a client with a capability named %s says that it is running', name)
    w.stop(q)
    vtime.run(20 * q.interval)
    vtime.quiet(ctx, ctx.S.hub, 'after a wrong capability')
    ctx.count('wrong capabilities')


def agent_domain(ctx, w):
    """the event queue of an agent domain"""
    q = w.queue(1, name='event_queue')
    w.start(q)
    vtime.run(5 * q.interval + 40)
    posts = q.posts
    w.stop(q)
    vtime.run(120 + 20 * q.interval)
    ctx.check(posts > 0 and not q.client._running, 'agent-domain-queue', 'an agent domain event queue is polled %s times, start() gives %s, and after stop() running is %s', posts, q.returned, q.client._running)
    vtime.quiet(ctx, ctx.S.hub, 'after stopping an agent domain queue')
    ctx.count('agent domain queues')
