"""Every bundled problem's Jacobian is the derivative of its right-hand side."""
from specs import probspec as Q
HARNESS = 'problems'
ASSUMPTIONS = Q.ASSUMPTIONS


def verify(c):
    Q.each(c, Q.jacobian)
