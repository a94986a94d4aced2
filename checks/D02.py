"""D02: which dictionary entry glosses a word, and in which English form."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from translation import *

WORDS = ['broda', 'spageti', "ba'i"]                 # a root, a borrowing without parts, a cmavo: none of them has parts to gloss
STEMS = ['make', 'see', 'box', 'fly', 'day', 'be']


def phrases():
    """phrases with every ending of two letters, and with the marker '*' in each position"""
    import string
    out = ['pa' + a + b for a in string.ascii_lowercase for b in string.ascii_lowercase]
    marked = ['%s* %s', '%s*/%s', '%s* in %s', '%s* with %s*', '%s* through %s', '%s* at %s', '%s %s*', '%s*  of %s*', '%s*%s', 'a %s/%s*', '%s* %s* in %s*']
    return out, [m % tuple((STEMS[(i + k) % len(STEMS)] for k in range(m.count('%s')))) for i in range(len(STEMS)) for m in marked] + ['e', 'y', 's', 'ch', '*', '* x']


def run(c):
    tree = Tree(['dfa', 'morf', 'misc', 'grammar'])
    X = Translator(tree)
    jobs = [(w, place, ctx, 3, 14, 2) for w in WORDS for place in range(0, 10) for ctx in range(4)]
    t, n = survey(c, X, jobs, {"ba'i": '', 'spageti': '?'}, 'R1')
    c.need('lookup paths', n, 10000)
    c.rule('R1: for every word without parts, place and use: the entry for the use, else the entry for the place in the form of its class, else the plain entry or the unknown word marked ??; redirections are followed; no path ends abnormally')
    two, marked = phrases()
    todo = [(cl + ';' + x, noun, ctx) for x in marked for cl in 'DSAPRIEZ' for noun in ('', 'nn') for ctx in range(4)] + [(cl + ';' + x, '', ctx) for x in two for cl, ctx in (('D', 0), ('D', 2), ('A', 0), ('A', 1), ('I', 3))]
    t2 = forms(c, X, todo, 'R2')
    c.need('entry forms', t2, 3000)
    c.count(words=len(WORDS), requests=t, abstract_paths=n, entry_forms=t2)
    c.rule('R2: the English form of an entry in each use is that of the documented table of classes, for every ending and every position of the inflection marker')


if __name__ == '__main__':
    main('D02', run)
