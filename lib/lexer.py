"""Role-based anchors in the reader (the functions are file-local and may be renamed)."""
from common import *


def closure(inf, f, seen=None):
    seen = set() if seen is None else seen
    if f in seen or f not in inf:
        return seen
    seen.add(f)
    for g in inf[f].get('calls', []):
        closure(inf, g, seen)
    return seen


def infile(inf, f, name):
    return f in inf and os.path.basename(inf[f].get('file', '')) == name


def word_fn(eng):
    """the function every word of the text is handed to"""
    inf = eng.info()['functions']
    S = [f for f in inf if 'morf_scan' in closure(inf, f) and infile(inf, f, 'lex1.c') and f != 'parse_file' and inf[f]['args'] == 3 and 'parse_file' not in closure(inf, f)]
    if not S:
        raise Broken('anchor vanished: function handling one word')
    direct = [f for f in S if f in inf['parse_file']['calls']] or S
    # prefer the one every other candidate is called through
    direct.sort(key=lambda f: (-len(closure(inf, f) & set(S)), f))
    return direct[0]


def cmavo_fn(eng):
    """the function that turns one cmavo into a token"""
    inf = eng.info()['functions']
    def ok(f):
        cl = closure(inf, f)
        return 'add_token' in cl and 'morf_scan' not in cl and any('cmavo_table' in inf[g].get('refs', []) for g in cl if infile(inf, g, 'lex1.c'))
    low = [f for f in inf if infile(inf, f, 'lex1.c') and inf[f]['args'] == 3 and ok(f)]
    if not low:
        raise Broken('anchor vanished: function turning a cmavo into a token')
    top = [f for f in low if not any(f in inf[g].get('calls', []) for g in low if g != f)]
    return top[0]
