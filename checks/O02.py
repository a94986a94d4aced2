"""O02: the gloss shows every word of the text, once, in order, as written; supplied terminators are told apart."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from shown import *


def judge(elided):
    def j(r):
        shown = [e[1] for e in events(r) if e[0] == 'loj']
        supplied = [w for w in shown if any(c.isupper() for c in w)]
        words = [w for w in shown if w not in supplied]
        out = []
        a, b = ''.join(words).replace('.', '').replace(' ', ''), ''.join(text_words(r)).replace(' ', '')
        if a != b:
            i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            out.append(('words', 'do_output', 'the words shown differ from the text after "%s": shown "%s", text "%s"' % (b[max(0, i - 12):i], a[i:i + 12], b[i:i + 12])))
        want = [n.word for n in r.top.leaves() if n.el]
        if [w.lower().replace('.', '') for w in supplied] != want:
            out.append(('supplied', 'do_output', 'supplied terminators shown are %s, the tree has %s' % (supplied, want)))
        return out
    return j


def run(c):
    L, fam, long = sentences(c.tier)
    marked = indicators()
    total, parsed = report(c, survey(L, fam + long + marked, judge(0), 15))
    t2, p2 = report(c, survey(L, fam + (long if c.tier == 'thorough' else long[::3]), judge(1), 15, elided=1))
    c.need('analysed parses', parsed + p2, 20000)
    c.count(sentences=len(fam) + len(long) + len(marked), abstract_paths=total + t2, parses_compared=parsed + p2)
    c.rule('R1: for every parse, with and without supplied terminators, the words handed to the output driver in order are the words of the text, each once, and the supplied terminators of the tree in capitals')


if __name__ == '__main__':
    main('O02', run)
