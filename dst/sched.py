"""Schedules: lists of [gap, pick] drawn from the seed."""
import math


def draw(rng, nthreads, span):
    """span: rough number of scheduling points of a whole run."""
    k = rng.random()
    if k < 0.45:  # few switches at random places
        n = rng.randrange(1, 6)
        return [[1 + int(math.exp(rng.uniform(0, math.log(max(2, span))))), rng.randrange(12)] for _ in range(n)]
    if k < 0.8:  # dense bursts separated by quiet stretches
        out = []
        for _ in range(rng.randrange(1, 4)):
            out.append([1 + int(math.exp(rng.uniform(0, math.log(max(2, span))))), rng.randrange(12)])
            out += [[rng.randrange(1, 6), rng.randrange(12)] for _ in range(rng.randrange(3, 25))]
        return out
    return [[1 + int(rng.expovariate(1.0 / rng.choice([2, 5, 15, 60]))), rng.randrange(12)] for _ in range(rng.randrange(20, 150))]


def dense(rng):
    """A burst of quick turns, some of them single steps."""
    g = rng.choice([1, 2, 4, 8])
    return [[rng.randrange(1, g + 1), rng.randrange(12)] for _ in range(rng.randrange(3, 40))]
