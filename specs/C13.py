from specs import tabspec
HARNESS = "tableau"


def verify(c):
    tabspec.c13(c)
