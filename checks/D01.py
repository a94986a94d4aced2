"""D01: words missing from the dictionary never stop the gloss and are replaced by the documented fallback."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from shown import *

MODES = {1: 'plain entries missing', 2: 'contextual entries missing', 3: 'all entries missing', 7: 'all entries missing, no fallback for unknown words', 5: 'plain entries missing, no fallback for unknown words'}


def run(c):
    L, fam, long = sentences(c.tier)
    long += indicators(2)
    total = parsed = 0
    for m in MODES:
        full = c.tier == 'thorough' or m in (2, 7)
        t, p = report(c, survey(L, (fam + long) if full else fam, gloss_judge(m), 15 + 16 * m))
        total += t
        parsed += p
    c.need('analysed parses', parsed, 40000)
    c.count(sentences=len(fam) + len(long), dictionaries=len(MODES), abstract_paths=total, parses_compared=parsed)
    c.rule('R1: for every parse and every pattern of missing entries (%s), the output pass completes and words, brackets and tags are shown as with a full dictionary, with the fallback gloss where the entry is missing' % '; '.join(MODES.values()))


if __name__ == '__main__':
    main('D01', run)
