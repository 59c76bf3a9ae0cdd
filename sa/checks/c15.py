"""C15: undefined inference is reported as NaN."""
from ..infer import check


def run(S, c):
    c.rule("Rule: in every inference record and branch world where the standard error is zero or undefined the t statistic and the "
           "normal/t p-value are NaN (an exact OLS fit: +-inf), never a finite placeholder; the division by the standard error is "
           "guarded on every path.")
    check(S, c, "C15", {"records": 25, "undefined t": 12, "undefined p": 12, "ratio": 14})
