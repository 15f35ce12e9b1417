"""C04: what the journal acknowledged survives a crash"""
from cxv.runner import Unit, Harness
from . import journal as J
ID = 'C04'
FILES = J.FILES
UNITS = J.units({'crash', 'mirror'}, None, [J.SetCurrentTerm, J.SetCommitIndex, J.Append, J.AppendMarker, J.RemoveEntries, J.TrimUntil, J.MembershipUpdate, J.Initialize, J.SetFsync], [])
HARNESS = Harness('c04.cc', time=15)
ASSUME = J.ASSUME
