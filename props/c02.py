"""C02: roles, leaders and the published state"""
from cxv.runner import Unit, Harness
from . import journal as J
ID = 'C02'
FILES = J.FILES
UNITS = J.units(None, {'role'}, [], [J.Observed, J.GrantVote, J.BecomeCandidate, J.Ascend, J.DropOut, J.Shutdown, J.StateCtor]) + [J.unit(J.Contains, None)]
HARNESS = Harness('c02.cc', time=12)
ASSUME = J.ASSUME
