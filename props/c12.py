"""Deques and versioned hashes"""
from cxv.runner import Harness
from .smspec import *
ID = 'C12'
FILES = SMFILES
UNITS = units_of(GENERIC + DEQUES + VHASHES, install)
HARNESS = Harness('c12.cc', repo=SMSRC)
ASSUME = ['RocksDB reads return the newest write of the batch, else of the database; the storage key of every element is what the storage keys property proves (uniquely decodable escaping)',
    'the contents before a call satisfy the state invariant (well-formed descriptors, truthful sizes, index and data of locality hashes in step); the contracts prove that every call under contract keeps it',
    'numbers of elements stay below 2^60, texts below 2^40 bytes; floating point treated as mathematical reals; keys of two-key functions do not end in |']
