from specs import irkspec
HARNESS = 'ode'


def verify(c):
    irkspec.both(c, None, irkspec.c10, iwhich=lambda v: v['adaptive'], relies='jac')
