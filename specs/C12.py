from specs import tabspec
HARNESS = "tableau"


def verify(c):
    tabspec.c12(c)
