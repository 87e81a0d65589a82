from specs import erkspec, irkspec
HARNESS = 'ode'


def verify(c):
    irkspec.both(c, erkspec.c04, irkspec.c04)
