from specs import erkspec, irkspec
from terms import sym
HARNESS = 'ode'


def verify(c):
    kw = dict(mode=sym('mode', 'I'), interval=sym('oi', 'I'), symout=True)
    irkspec.both(c, erkspec.c07, irkspec.c07, ekw=kw, ikw=kw)
