"""Connections: pipelining and transactions"""
from cxv.runner import Harness
from .connspec import *
from .smspec import SMSRC
ID = 'C31'
FILES = ['Connection.cc', 'redis/MultiHandler.cc', 'redis/Transaction.cc', 'RedisRequest.cc']
UNITS = units_of(PQU, install_pq) + units_of(MHU, install_mh) + units_of(PRU, install_mh)
HARNESS = Harness('c31.cc', repo=SMSRC)
TRUSTED = ['what is answered to one request or block at a given moment is the dispatcher\'s (C30), the reply formatter\'s (C17)', 'the parser hands over the requests of a connection in their order; the writer keeps the order of what is given to it']
ASSUME = ['a connection receives fewer than 2^30 requests', 'requests handed over by the parser are not empty; opening, closing and discarding a block are neither reads nor writes (checked by the harness of C30)',
    'locks are not modelled: the functions of a queue run one at a time, as its mutex ensures', 'monitoring of requests and the internal filter do not reply']
