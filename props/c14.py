"""Leases and the clock"""
from cxv.runner import Harness
from .leasespec import *
ID = 'C14'
FILES = SMFILES
UNITS = units_of(LEASES, modular_clock) + units_of(MAYBE, modular_advance) + units_of(ADVANCE, modular_release) + units_of(GETCLOCK, install_lease)
CACHE_ = units_of(CACHE, install_cache)
for u in CACHE_: u.group = ['storage/ExpirationEventCache.cc']
UNITS += CACHE_
HARNESS = Harness('c14.cc', repo=SMSRC + ['storage/ExpirationEventCache.cc'])
ASSUME = ['the contents before a call satisfy the state invariant: the deadlines in memory mirror the stored leases, each with one event, and all end after the clock; the contracts prove that every call under contract keeps it',
    'std::multimap keeps its entries in order of their keys and std::set holds each name once', 'clock values stay below 2^63, durations below 2^62', 'RocksDB reads return the newest write of the batch, else of the database']
