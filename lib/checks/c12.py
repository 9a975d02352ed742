"""C12: Markov predictions follow the documented probability model."""
from checks import pred
from checks.common import *

VARIANTS = ['san']
LEVEL = 'exploration'
RULE = ('generated models (pair statistics of any magnitude, missing observations, running times from 0 to the clock) with some of the applications running, '
        'or learned models, with and without correlation, over cycles of 6 to 600 s; logged bids are compared with the reference to 4 decimals and the selection '
        'and order of requests exactly; non-trivial: at least one bid or request')
ASSUMPTIONS = ['bids are compared when they are in the log (verbosity 9), selections always']


def cases(tier, seed):
    return cases_n('C12', 2500 if tier == 'quick' else 40000, seed)


def run_case(case, exes):
    return pred.run(case, exes, 'Markov')
