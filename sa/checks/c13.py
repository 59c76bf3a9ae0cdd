"""C13: confidence intervals are intervals of the requested level."""
from ..infer import check


def run(S, c):
    c.rule("Rule: in every inference record a public call returns and in every branch world, the interval's endpoints are either "
           "estimate -/+ the 1 - alpha/2 point of one distribution times a standard error, or the alpha/2 and 1 - alpha/2 quantiles "
           "of one replicate distribution, with alpha the caller's; lower endpoint first.")
    check(S, c, "C13", {"records": 25, "analytic": 15, "quantile": 8, "bounds": 1})
