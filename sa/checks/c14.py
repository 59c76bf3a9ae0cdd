"""C14: the numbers of one inference record agree with each other."""
from ..infer import check


def run(S, c):
    c.rule("Rule: in every inference record and branch world the interval is centred on the reported estimate with the reported "
           "standard error as its unit, t is the reported estimate over the reported standard error, and the p-value is the "
           "two-sided tail of that t in the distribution the interval uses.")
    check(S, c, "C14", {"records": 25, "ratio": 14, "two-sided": 14})
