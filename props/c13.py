"""Committed writes"""
from cxv.runner import Harness
from .dispspec import *
ID = 'C13'
FILES = SMFILES
UNITS = units_of(COMMIT, install_commit)
UNITS += units_of(AREA, install_area)
DFILES = SMFILES + ['Dispatcher.cc', 'redis/ArrayResponseBuilder.cc']
def disp_units():
    us = units_of(DISP, install_disp)
    for u in us: u.group = DFILES
    return us
UNITS += disp_units()
HARNESS = Harness('c13.cc', repo=SMSRC)
ASSUME = ['RocksDB applies one write batch atomically and durably in the order of its log, and a snapshot shows the database at one moment', 'the staging batch reads its own writes first, then the database',
    'each request acts on the batch alone (the application properties prove what it does) and may fail; the effect of a request is a function of the batch contents and the request', 'indices stay below 2^62', 'bulk load mode, which has no indices, is outside this property']
