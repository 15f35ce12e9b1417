"""Quorums"""
from cxv.runner import Harness
from .quorumspec import *
from .smspec import SMSRC
ID = 'C07'
FILES = ['raft/RaftCommitTracker.cc', 'raft/RaftLease.cc', 'raft/RaftVoteRegistry.cc', 'raft/RaftUtils.cc', 'raft/RaftDirector.cc', 'raft/RaftReplicator.cc']
TF = ['raft/RaftCommitTracker.cc', 'raft/RaftLease.cc', 'raft/RaftVoteRegistry.cc']
UNITS = units_of(COMMITU, install, files=TF) + units_of(LEASEU, install_lease, files=TF) + units_of(VOTEU, install_votes, files=TF)
HARNESS = Harness('c07.cc', repo=SMSRC + ['raft/%s.cc' % n for n in ('RaftReplicator', 'RaftCommitTracker', 'RaftLease', 'RaftVoteRegistry', 'RaftUtils', 'RaftTrimmer', 'RaftConfig', 'RaftTalker', 'RaftResilverer', 'RaftDirector', 'RaftDispatcher', 'RaftWriteTracker', 'RaftBlockedWrites')], time=20)
TRUSTED = ['std::sort orders and keeps the multiset of its range', 'journal, node state, clock and network calls stand for their own contracts (C01 to C04, C06); the network delivers an answer only to its own request', 'for sorted values, the k-th largest is held by k of them; for counts over maps, the recursion equations of the count']
ASSUME = ['the servers of a membership are distinct; a cluster has fewer than 2^30 members', 'the clock of a node is monotone', 'locks and the in-flight queue: each function runs alone under its mutex, and an element taken from the queue satisfies what is proved of every element put into it',
    'a leader alone in its cluster commits by itself (that thread is not under contract)', 'resilvering of a replica that fell too far behind is not part of this property']
from .electspec import *
UNITS += units_of(RUNU, install_elect, files=['raft/RaftDirector.cc'])
UNITS += units_of(LEADU, install_lead, files=['raft/RaftDirector.cc'])
UNITS += units_of(PERFU, install_vote, files=['raft/RaftUtils.cc', 'raft/RaftVoteRegistry.cc'])
from .replspec import *
UNITS += units_of(REPLU, install_repl, files=['raft/RaftReplicator.cc'])
RF = ['raft/RaftReplicator.cc']
UNITS += units_of(STREAMU, install_stream, files=RF) + units_of(BEATU, beats, files=RF) + units_of(SENDU, install_send, files=RF) + units_of(CONFU, install_conf, files=RF) + units_of(WHOU, files=RF)
UNITS += units_of(BUILDU, install_build, files=RF)
UNITS += units_of(AWAITU, install_await, files=['raft/RaftVoteRegistry.cc'])
