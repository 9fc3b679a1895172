"""C10: the Acking monitor (see disp.py) over random dispatcher traffic"""
import disp

CASES = {'quick': 300, 'thorough': 4500}
WEIGHTS = {'send': 4, 'reliable': 3, 'recv': 16, 'round': 2, 'malformed': 1, 'other': 1, 'misfit': 1, 'unusable': 1}


def setup(ctx):
    ctx.S = disp.Setup()


def case(ctx, i, rng):
    if i % 40 == 2:
        disp.crowd(ctx, rng, rng.choice([40, 150, 400]), 1200, ('acks',))
        return
    w = disp.World(ctx, rng, [disp.Track, disp.Acking], dict(WEIGHTS), (0, 2))
    for k in range(rng.choice([10, 40, 80])):
        w.step()
    for k in range(rng.choice([0, 0, 0, 1, 2])):
        w.op_burst()
        if rng.randrange(2):
            w.op_send()
    due = dict([(a, len(s)) for a, s in w.m[1].due.items()])
    w.op_round()
    ctx.sample('due before the last round: %s' % sorted(due.items()))
