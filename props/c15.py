"""Enumeration: every element exactly once, also in pages"""
from cxv.runner import Harness
from .scanspec import *
ID = 'C15'
FILES = SMFILES
HARNESS = Harness('c15.cc', repo=SMSRC)
ASSUME = ['an iterator of RocksDB visits the keys present when it was positioned in byte order, the ones of the uncommitted batch included, and keeps its place while entries it has passed are removed; a read on a snapshot sees the snapshot',
    'the storage key of every element is what the storage keys property proves (uniquely decodable escaping)', 'the contents before a call satisfy the state invariant',
    'the glob matcher is treated as a function of pattern and text (compared with a reference matcher by the harness)', 'numbers of elements stay below 2^60, stored keys below 2^29 bytes, deque positions away from the ends of the 64-bit range']
UNITS = units_of(SCANUNITS, install_scan)
UNITS += units_of(KEYSCAN, install_keys)
UNITS += units_of(REMOVE, install_scan)
UNITS += units_of(TEXTS)
