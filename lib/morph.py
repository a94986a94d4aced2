"""Machines implemented by the word-classification code (shared by the morphology checks)."""
import string
from common import *
from automata import *

FULL = sorted(ord(c) for c in string.ascii_letters + "',")
LOWER = sorted(ord(c) for c in string.ascii_lowercase + "',")
BAD_CMENE_STUB = {'is_bad_cmene': {'event': True, 'args': [0], 'ret': {'int': 7}, 'writes': [
    {'arg': 1, 'size': 4, 'val': {'int': 7}}, {'arg': 2, 'size': 8, 'val': {'null': 1}}, {'arg': 3, 'size': 8, 'val': {'null': 1}}]}}


def morf_args():
    return [{'tape': 1}, {'obj': 'be', 'size': 8, 'cells': [{'off': 0, 'size': 8, 'val': {'log': 'starts'}}]}, {'obj': 'x', 'size': 24}]


def scan_machine(eng, alphabet, cultural, mark=False, outs=(), stubs=None, **kw):
    return eng.automaton('morf_scan', morf_args(), globals={'allow_cultural_rafsi': cultural}, stubs=stubs or BAD_CMENE_STUB, lag=0,
                         alphabet=''.join(map(chr, alphabet)), mark=mark, outs=[{'obj': 'be', 'off': 0, 'size': 8, 'name': 'end'}] + list(outs), max_states=3000000, **kw)


def ret_of(o):
    import re
    m = re.match(r'ret=(-?\d+)', o)
    if not m:
        return o
    return int(m.group(1))


def describe(word):
    return show(word)
