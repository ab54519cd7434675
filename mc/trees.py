"""Every tree of statements up to a size, as programs of the model."""
from . import gen as g


def forests(n, leaves, blocks):
    """Every sequence of trees with n nodes in all. A leaf is a function of a
    counter; a block is (name, number of bodies, function)."""
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for first in trees(k, leaves, blocks):
            for rest in forests(n - k, leaves, blocks):
                yield (first,) + rest


def split(n, holes, leaves, blocks):
    if holes == 1:
        for f in forests(n, leaves, blocks):
            yield (f,)
        return
    for k in range(n + 1):
        for f in forests(k, leaves, blocks):
            for rest in split(n - k, holes - 1, leaves, blocks):
                yield (f,) + rest


def trees(n, leaves, blocks):
    if n == 1:
        for x in leaves:
            yield (x, None)
    for b in blocks:
        for bodies in split(n - 1, b[1], leaves, blocks):
            yield (b[2], bodies)


class Num:
    """A different number each time."""

    def __init__(self):
        self.n = 0

    def next(self):
        self.n += 1
        return self.n

    def __call__(self):
        return g.I(self.next())


def build(forest, num):
    out = ()
    for f, bodies in forest:
        if bodies is None:
            out += f(num)
        else:
            out += f(num, *[build(b, num) for b in bodies])
    return out
