from specs import tabspec
HARNESS = 'tableau'


def verify(c):
    # the property is about one up to eight stages: each of them, with arbitrary nodes
    tabspec.c15(c, 8)
