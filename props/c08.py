"""Requests between nodes, and the way of a write"""
from cxv.runner import Harness
from .adminspec import *
from .smspec import SMSRC
ID = 'C08'
FILES = ['raft/RaftDispatcher.cc', 'raft/RaftWriteTracker.cc', 'raft/RaftBlockedWrites.cc']
RDF, WTF, BWF = ['raft/RaftDispatcher.cc'], ['raft/RaftWriteTracker.cc'], ['raft/RaftBlockedWrites.cc']
UNITS = units_of(HBU, install_rpc, files=RDF) + units_of(AEU, install_ae, files=RDF) + units_of(RVU, install_rpc, files=RDF) + units_of(UPDU, install_upd, files=WTF) + units_of(SINU, install_single, files=WTF) + units_of(APPU, install_write, files=WTF) + units_of(BWU, install_bw, files=BWF)
UNITS += units_of(SERVU, install_serv, files=RDF) + units_of(PUBU, install_pub, files=RDF) + units_of(STU, install_rpc, files=RDF) + units_of(CNTU, install_cnt, files=RDF) + units_of(QUU, install_quorum, files=RDF) + units_of(ACU, install_accept, files=RDF)
UNITS += units_of(DISU, install_admin, files=RDF)
HARNESS = Harness('c08.cc', repo=SMSRC + ['raft/%s.cc' % n for n in ('RaftReplicator', 'RaftCommitTracker', 'RaftLease', 'RaftVoteRegistry', 'RaftUtils', 'RaftTrimmer', 'RaftConfig', 'RaftTalker', 'RaftResilverer', 'RaftDirector', 'RaftDispatcher', 'RaftWriteTracker', 'RaftBlockedWrites')], time=20)
TRUSTED = ['journal, node state, state machine, replicator and connections stand for their own contracts (C01 to C04, C06, C07, C13, C31)', 'promises and queues of the standard library; the text form of servers and replies']
ASSUME = ['a node is not asked to enter the log again while it writes a log message', 'other threads enter as arbitrary changes of the shared state where it is read; exclusion itself is by the mutex each function is proved to hold', 'log indices and sizes stay below 2^60; the servers of a membership are distinct',
    'how often a waiting write is retried is not bounded: each retry needs another change of leadership', 'the thread that applies committed entries is under contract for one entry, its outer loop is not']
