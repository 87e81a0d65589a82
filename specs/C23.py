"""Adams-Bashforth steps use the textbook combination of past derivatives."""
from specs import multispec as M
HARNESS = 'multistep'
ASSUMPTIONS = M.ASSUMPTIONS


def verify(c):
    M.each(c, [('adams_bashforth', k, M.check_ab) for k in range(5, 0, -1)] + [('adams_bashforth', 0, M.check_rejects)])
