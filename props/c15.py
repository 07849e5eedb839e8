import copy
from vf.core import expect
from vf.trees import *
from props import c14
LEVEL = 'other'
RULE = 'beam values (integers, lists of every length relation to the rounds, invalid values) x rounds x scores; non-trivial: at least one round'

def _beam(data):
    before = copy.deepcopy(data[3])
    (sorted_models, tested_models, _, expanded, not_expanded), f, stages, p_rules, score = c14.run(data)
    expect(data[3] == before, 'the beam {} was modified to {}', before, data[3])
    bs = c14.beams([(data[2], before)] + data[4])
    expect(len(f.calls) == 1 + len(bs), 'beam {}, {} rounds: the search fitted {} lists of models', before, data[2], len(f.calls))
    val = lambda m: score(m.model, m.model._ll, len(m.model.X), m.model._k)
    pool, pos = list(f.calls[0]['models']), 0
    for i, (b, c) in enumerate(zip(bs, f.calls[1:])):
        n = min(b, len(pool))
        now = expanded[pos:pos + n]; pos += n
        expect(len(now) == n and all(any(m is p for p in pool) for m in now), 'beam {}: round {} expands {} models, not {}', before, i + 1, len(now), n)
        pool = [m for m in pool if not any(m is x for x in now)]
        worst = max(map(val, now), default = None)
        expect(n == 0 or all(val(m) >= worst for m in pool), 'beam {}: round {} expands a model although a better one is left', before, i + 1)
        pool += c['models']
    expect(len(expanded) == pos, 'beam {}: {} models are expanded instead of {}', before, len(expanded), pos)

BAD = {'none': None, 'float': 2.5, 'string': '3', 'floats': [1, 2.5], 'tuple': (1, 2), 'strings': ['1'], 'empty': [], 'dict': {1: 2}, 'mixed': [1, None]}
def _reject(data):
    which, rounds = data
    try: c14.run([['WN'], 1, rounds, BAD[which], [], 1, False, False])
    except TypeError: return
    except Exception as e: expect(False, 'the beam {!r} is rejected with {!r} instead of a TypeError', BAD[which], e)
    expect(False, 'the beam {!r} is accepted', BAD[which])

CASES = {'beam': _beam, 'reject': _reject}
def nontrivial(name, data): return name == 'reject' or data[2] > 0

def generate(ctx):
    r = ctx.rng
    for b in BAD:
        for rounds in (1, 2): yield 'reject', [b, rounds]
    for rounds in range(0, 5):
        for beam in ([1], [2, 1], [1, 2], [3, 2, 1], [1, 0, 2], [2, 2, 2, 1, 1, 1], 1, 2, 50, 0):
            if rounds == 0 and isinstance(beam, list): pass
            yield 'beam', [['WN', 'C', 'LIN', 'PER'], 1 + rounds % 2, rounds, beam, [], r.randrange(1000), False, r.random() < .3]
    while True:
        h = c14.history(r, conts = False)
        h[3] = r.choice([r.randint(0, 4), [r.randint(0, 3) for _ in range(r.randint(1, 4))]])
        yield 'beam', h
