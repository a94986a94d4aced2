"""O03: every word is glossed with the dictionary's entry for its use."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from shown import *


def run(c):
    L, fam, long = sentences(c.tier)
    long += indicators()
    total, parsed = report(c, survey(L, fam + long, gloss_judge(0), 15))
    t2, p2 = report(c, survey(L, fam if c.tier == 'thorough' else fam[::4], gloss_judge(0), 15, elided=1))
    c.need('analysed parses', parsed + p2, 10000)
    c.count(sentences=len(fam) + len(long), abstract_paths=total + t2, parses_compared=parsed + p2)
    c.rule('R1: for every parse, the sequence of words, glosses, explanations and place tags handed to the output driver, each gloss identified by the dictionary entry it was taken from, is the one a specification over the annotated tree gives')


if __name__ == '__main__':
    main('O03', run)
