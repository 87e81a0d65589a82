"""Bundled problems obey their conservation laws and exact solutions."""
from specs import probspec as Q
HARNESS = 'problems'
ASSUMPTIONS = Q.ASSUMPTIONS


def verify(c):
    Q.each(c, Q.laws)
