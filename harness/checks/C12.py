"""C12: the Resending monitor (see disp.py) over random dispatcher traffic"""
import disp

CASES = {'quick': 400, 'thorough': 6000}
WEIGHTS = {'send': 2, 'reliable': 6, 'retry': 1, 'recv': 7, 'round': 5, 'malformed': 1, 'other': 1, 'unusable': 1}


def setup(ctx):
    ctx.S = disp.Setup()


def case(ctx, i, rng):
    most = 5
    retries = (0, 1, 1, 2, 3, 5)
    if i % 20 == 3:
        # patient senders
        most = rng.choice([12, 40, 300])
        retries = (0, 1, most, most)
    w = disp.World(ctx, rng, [disp.Track, disp.Resending], WEIGHTS, retries)
    for k in range(rng.choice(most > 40 and [10, 20] or [10, 40, 80])):
        w.step()
    w.m[1].settle(most)
    if most > 5:
        ctx.count('patient senders')
    ctx.sample('%d messages, %d reliable' % (len(w.m[1].sent_by), len([1 for v in w.m[1].sent_by.values() if v[0] == 'reliable'])))
