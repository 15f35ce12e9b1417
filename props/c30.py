"""Requests and replies"""
from cxv.runner import Harness
from .cmdspec import *
ID = 'C30'
FILES = SMFILES
DFILES = SMFILES + ['Dispatcher.cc', 'redis/ArrayResponseBuilder.cc', 'redis/Transaction.cc']
UNITS = units_of(COMMANDS, install_cmds)
UNITS += units_of(MULTIU, install_multi) + units_of(CALM, install_calm) + units_of(PING, install_cmds)
for u in UNITS: u.group = DFILES
HARNESS = Harness('c30.cc', repo=SMSRC)
TRUSTED = ['contracts of the store operations (C10-C15), of the reply formatter (C17) and of transaction unpacking (C18), each proved there', 'scan arguments are parsed by parseScanCommand, checked by the harness', 'the command table, checked by the harness']
ASSUME = ['an element just found is found and removed by the deletion that follows in the same batch; a locality field just looked up without success is created by a successful write that follows',
    'the case-insensitive comparison and the integer parser are functions of their text', 'big-endian conversion of the C library', 'containers hold fewer than 2^60 elements',
    'contents of the replies listing raw database entries and pending deadlines are checked by the harness of C10 and C14 only']
