from specs import erkspec
HARNESS = 'ode'


def verify(c):
    erkspec.each(c, erkspec.c03)
