"""C03: the replicated log"""
from cxv.runner import Unit, Harness
from . import journal as J
ID = 'C03'
FILES = J.FILES
UNITS = J.units({'log'}, None, [J.SetCurrentTerm, J.SetCommitIndex, J.Append, J.AppendMarker, J.RemoveEntries, J.TrimUntil, J.MembershipUpdate, J.MatchEntries, J.CompareEntries, J.FetchEntry, J.Initialize, J.SetFsync], [])
HARNESS = Harness('c03.cc', time=12)
ASSUME = J.ASSUME
