from specs import erkspec, irkspec
HARNESS = 'ode'


def verify(c):
    irkspec.both(c, erkspec.c05, irkspec.c05, relies='count')
