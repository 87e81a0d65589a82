from specs import erkspec, irkspec
HARNESS = 'ode'


def verify(c):
    irkspec.both(c, erkspec.c06, irkspec.c06)
