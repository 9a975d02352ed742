"""C14: VOMM predictions follow the documented scoring."""
from checks import pred
from checks.common import *

VARIANTS = ['san']
LEVEL = 'exploration'
RULE = ('generated models (sequence trees of any shape and count, pair statistics to start a tree from) with some of the applications running, '
        'or learned models, over cycles of 6 to 600 s; logged bids are compared with the reference to 4 decimals and the selection '
        'and order of requests exactly; non-trivial: at least one bid or request')
ASSUMPTIONS = ['bids are compared when they are in the log (verbosity 9), selections always']


def cases(tier, seed):
    return cases_n('C14', 2500 if tier == 'quick' else 40000, seed)


def run_case(case, exes):
    return pred.run(case, exes, 'VOMM')
