"""C11: the Outstanding monitor (see disp.py) over random dispatcher traffic"""
import disp

CASES = {'quick': 400, 'thorough': 6000}
WEIGHTS = {'send': 2, 'reliable': 8, 'retry': 1, 'recv': 12, 'round': 2, 'malformed': 1, 'other': 1, 'unusable': 1}


def setup(ctx):
    ctx.S = disp.Setup()


def case(ctx, i, rng):
    if i % 50 == 2:
        disp.crowd(ctx, rng, rng.choice([40, 200]), 1200, ('outstanding',))
        return
    if i % 50 == 27:
        # many are outstanding at once
        out = disp.crowd(ctx, rng, rng.choice([1, 2]), 3500, ('outstanding',), (0.2, i % 100 == 27 and 60 or 10, 0.2, 1, 0.005))
        ctx.note(sorted([(a, len(s)) for a, s in out.items()]))
        ctx.count('many outstanding', max([len(s) for s in out.values()]))
        return
    w = disp.World(ctx, rng, [disp.Track, disp.Outstanding], WEIGHTS, (0, 0, 1, 3))
    for k in range(rng.choice([10, 40, 80])):
        w.step()
    ctx.sample('left outstanding: %s' % [(a, sorted(s)) for a, s in sorted(w.m[1].out.items())])
