"""Q01: the translator asks about a missing selbri exactly for the utterances that are nothing but sumti."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from pipeline import *

S, P = 'KOhA', 'BRIVLA'


def judge(r):
    want, other = [], []
    for n in r.nodes.values():
        if n.type == 'FRAGMENT' and n.kids and n.kids[0].type == 'TERMS':
            lv = [x.col for x in n.leaves() if x.col and not x.el]
            want.append(min(lv) if lv else None)
    got = []
    for e in r.err:
        if e[0] == 'fprintf' and 'stderr' in str(e[1]) and 'missing selbri' in str(e[2]):
            got.append(e[4] if e[3] - e[4] == 49 else ('line and column of different words', e[3], e[4]))   # word k stands at line 49+k, column k
        elif e[0] in ('fprintf', 'printf', 'puts', 'fputs', 'fwrite', 'putchar', 'fputc'):
            other.append(e)
    out = []
    for w in set(want) | set(got):
        if want.count(w) != got.count(w):
            out.append(('asked', 'error_scan', 'utterance of sumti at word %s asked about %d times' % (w, got.count(w)) if w in want else 'asked about word %s, where no utterance of sumti alone begins' % (w,)))
    if other:
        out.append(('other', 'error_scan', 'also prints %s' % (other[0],)))
    return out


def templates():
    """(sentence, words that begin an utterance of sumti alone), by construction"""
    T = []
    terms = [[S], [S, 'KOhA/do'], ['FA', S], ['LE', P, 'KU'], ['PU', 'KU'], ['BAI', S], ['NA', 'KU'], ['NUhI', 'GA', S, 'NUhU', 'GI', S, 'NUhU'], [S, 'CEhE', S], [S, 'A', S], ['PA', P], ['LA', 'CMENE'], ['LU', P, 'LIhU'], [S, 'NOI', P, 'KUhO'], ['PU', S], ['LI', 'PA', 'LOhO']]
    noterm = [['NA'], ['A'], ['GIhA'], ['PA'], [S, 'ZOhU'], ['NOI', P, 'KUhO'], ['BE', S, 'BEhO'], [P], [S, P], ['GOhA'], ['PU', P], ['GA', P, 'GI', P], ['GOI', S, 'GEhU'], [P, 'BE', S]]
    for t in terms:
        for tail in ([], ['VAU'], ['VAU', 'UI'], ['UI']):
            T.append((t + tail, [1]))
            T.append((['I'] + t + tail, [2]))
            T.append((['NIhO'] + t + tail, [2]))
        T.append((['I', S, P, 'I'] + t, [5]))
        T.append((t + ['I', P], [1]))
        T.append((t + ['I'] + t, [1, len(t) + 2]))
        T.append((['TO'] + t + ['TOI', P], [2]))
        T.append(([S, 'TO'] + t + ['TOI', P], [3]))
        T.append(([S, 'TO'] + t + ['TOI'], [1, 3]))
        T.append((['LU'] + t + ['LIhU', P], [2]))
        T.append((['TUhE'] + t + ['TUhU'], [2]))
        T.append((['NIhO', 'TUhE', 'I'] + t + ['TUhU'], [4]))
        T.append((t + (['CU', P] if t[0] == 'PA' else [P]), []))
        T.append(([P] + t, []))
        T.append((t + ['ZOhU'], []))
    for t in noterm:
        T.append((t, []))
        T.append((['I'] + t + ['I', S], [len(t) + 3]))
        T.append(([S, 'I'] + t, [1]))
    return T


def run(c):
    tree = Tree(['dfa', 'grammar', 'misc'])
    L = Pipeline(tree)
    G = Grammar(tree, 'rpc2x_act.y', 'rpc_tab.c')
    S_ = Sentences(G)
    fam = family(S_, longest=14 if c.tier == 'thorough' else 11)
    fam += [a + b for a in fam if len(a) < 6 for b in (['I', S], ['I', P])] if c.tier == 'thorough' else [a + ['I', S] for a in fam if len(a) < 5]
    total = parsed = 0
    seen = set()
    stats = {'asked': 0}
    for n, p, bad in survey(L, fam, judge, 3):
        total += n
        parsed += p
        for rule, where, what, s in bad:
            if (rule, what) not in seen and len(seen) < 20:
                seen.add((rule, what))
                c.violation(rule, where, what, s if isinstance(s, str) else str(s))
    T = templates()

    def one(p, t):
        res = []
        for r in p.run(t[0], how=3):
            res.append((r.end, r.status, sorted(e[4] for e in r.err if e[0] == 'fprintf' and 'missing selbri' in str(e[2]))))
        return (t, res)
    known = 0
    for t, res in pmap(L, T, one):
        for end, status, got in res:
            if end != 'return' or status:
                continue
            known += 1
            stats['asked'] += len(got)
            if got != t[1] and len(seen) < 30:
                seen.add(str(t))
                c.violation('known', 'error_scan', 'asked at words %s, sumti alone begin at %s' % (got, t[1]), ' '.join(map(str, t[0])))
    c.need('parses', parsed, 5000)
    c.need('utterances of known kind', known, 250)
    c.count(sentences=len(fam), parses_compared=parsed, known_utterances=known, questions=stats['asked'])
    c.rule("R1: one question for every fragment made of terms, with the place of its first word, and none for any other")
    c.rule("R2: the same for utterances whose kind is known by construction")


if __name__ == '__main__':
    main('Q01', run)
