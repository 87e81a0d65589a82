from specs import tabspec
HARNESS = "tableau"


def verify(c):
    tabspec.c14(c)
