"""C01: terms and votes"""
from cxv.runner import Unit, Harness
from . import journal as J
ID = 'C01'
FILES = J.FILES
UNITS = J.units({'term'}, {'term'}, [J.SetCurrentTerm, J.SetCommitIndex, J.Append, J.AppendMarker, J.RemoveEntries, J.TrimUntil, J.Initialize, J.SetFsync],
                [J.Observed, J.GrantVote, J.BecomeCandidate, J.Ascend, J.DropOut, J.Shutdown, J.StateCtor])
HARNESS = Harness('c01.cc', time=12)
ASSUME = J.ASSUME
