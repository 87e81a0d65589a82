from specs import irkspec
HARNESS = 'ode'


def verify(c):
    irkspec.both(c, None, irkspec.c08)
