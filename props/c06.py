"""C06: membership changes"""
from cxv.runner import Unit, Harness
from . import journal as J
ID = 'C06'
FILES = J.FILES
UNITS = J.units({'members'}, None, [J.SetCurrentTerm, J.SetCommitIndex, J.Append, J.AppendMarker, J.RemoveEntries, J.TrimUntil, J.MembershipUpdate] + J.member_ops() + [J.Initialize], [])
HARNESS = Harness('c06.cc', time=12)
ASSUME = J.ASSUME
