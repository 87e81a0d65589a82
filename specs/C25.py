"""Multistep runs start correctly and keep a uniform grid."""
from specs import multispec as M
HARNESS = 'multistep'
ASSUMPTIONS = M.ASSUMPTIONS


def verify(c):
    M.each(c, [('bdf', k, M.check_grid) for k in range(6, 0, -1)] +
           [('adams_bashforth', k, M.check_grid) for k in range(5, 0, -1)])
