"""BDF steps satisfy the BDF equation or the run stops with failure."""
from specs import multispec as M
HARNESS = 'multistep'
ASSUMPTIONS = M.ASSUMPTIONS


def verify(c):
    M.each(c, [('bdf', k, M.check_bdf) for k in range(6, 0, -1)] + [('bdf', 0, M.check_rejects)])
