"""Request parser"""
from cxv.runner import Harness
from . import readspec as RS
from .parsespec import *
ID = 'C16'
FILES = ['RedisParser.cc', 'BufferedReader.cc']
PAF, BRF = ['RedisParser.cc'], ['BufferedReader.cc']
UNITS = units_of(LINEU, install_line, files=PAF) + units_of(FETCHU, install_fetch, files=PAF)
UNITS += units_of(RS.READU, RS.install, files=BRF) + units_of(RS.CANU, RS.install_can, files=BRF) + units_of(RS.INTU, RS.install, files=BRF) + units_of(RS.CONU, RS.install_con, files=BRF) + units_of(RS.RCTORU, RS.install, files=BRF)
HARNESS = Harness('c16.cc', repo=['RedisParser.cc', 'BufferedReader.cc', 'Link.cc'], time=12)
TRUSTED = ['the link delivers bytes into the space it is given and says how many', 'strtol: its result and how much of the text it read are functions of the text', 'a region of memory is an array of its size (its fields are not under contract); shared ownership by the standard library']
ASSUME = ['a connection carries less than 2^60 bytes', 'the reader is used with its default buffer size (32 KB), as the parser does', 'at most 2^31 - 2^17 bytes are asked for at once: elements within 128 KB of 2 GB are not covered']
