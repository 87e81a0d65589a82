"""Newton iteration follows its scheme and reports honestly."""
from specs import newtonspec as N
HARNESS = 'newton'
ASSUMPTIONS = N.ASSUMPTIONS


def verify(c):
    with c.part('extraction'):
        prog = c.program(('api', 'newton'))
        c.parallel([(N.label(k), (lambda c, k=k: N.check(c, prog, k))) for k in N.configs()])
