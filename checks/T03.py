"""T03: every term is tagged with the place it fills."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from pipeline import *
from places import Places

HOW = 5
S, P, B = 'KOhA', 'BRIVLA', 'BAI'


def templates(thorough):
    """longer sentences: positional, marked and tagged terms before, inside and after every kind of selbri"""
    F, X = ANYFA, ANYSE
    T = []
    term = [[S], [F, S], [B, S]]
    from itertools import product
    for pre in product(*[[[]] + term] * 2):
        for post in product(*[[[]] + term] * (3 if thorough else 2)):
            h = [w for t in pre for w in t]
            T.append(h + (['CU'] if h and h[-1] == S else []) + [P] + [w for t in post for w in t])
    for n in range(0, 4):
        T.append([S, 'CU'] + [X] * n + [P, S, S])
        T.append([S] + ['SE/se', 'SE/te'][:n % 2] + [X] * n + [P, F, S, S])
    for se in ([], [X]):
        for b1 in ([S], [F, S]):
            for b2 in ([], ['BEI', S], ['BEI', F, S]):
                li = ['BE'] + b1 + b2 + ['BEhO']
                T.append([S, 'CU'] + se + [P] + li + [S, S])
                T.append([S, 'CU'] + se + ['KE'] + se + [P] + li + ['KEhE'] + li + [S])
                T.append([S, 'CU', 'KE'] + se + [P] + li + ['KEhE', 'BE', F, S, S])
                T.append(['LE', P] + li + ['KU', 'CU', P] + li + [S])
    jai = ['JAI', 'BAI']
    for inner in ([P], [X, P], jai + [P], ['KE', P, 'BE', F, S, 'KEhE'], ['KE', P, 'BE', S, 'BEI', F, S, 'BEhO', 'KEhE'], ['JAI', P]):
        for outer in ([], [X]):
            T.append([S, 'CU'] + outer + jai + inner + [S, 'FA/fai', S, S])
            T.append([F, S, 'CU'] + outer + jai + inner + [F, S, S])
            T.append([S, 'CU'] + outer + jai + inner + ['BE', F, S, 'BEhO', S, F, S])
    gi = [['GIhA'], ['GIhA', 'BO'], ['GIhA', 'KE'], ['GIhA', 'BAI', 'BO']]
    for g in gi:
        for a in ([S], [F, S]):
            T.append([S, 'CU', P, S, 'VAU'] + g + [P] + a + ['VAU', S])
            T.append([S, 'CU', P, S, 'VAU'] + g + [P] + a + ['VAU', S, 'VAU', S])
            T.append([S, 'CU', P, 'VAU'] + g + [P] + a + (['KEhE'] if 'KE' in g else ['VAU']) + a)
            for g2 in gi:
                T.append([S, 'CU', P, S, 'VAU'] + g + [P] + a + ['VAU'] + (['KEhE'] if 'KE' in g else []) + [S, 'VAU'] + g2 + [P, S, 'VAU', S])
    for a in ([], [S], [F, S]):
        T.append([S, 'GA'] + a + [P, S, 'GI', S, P] + a + ['VAU'] + a)
        T.append(a + ['GA', S, P, S, 'GI'] + a + [P, 'VAU', S])
        T.append([S, 'GA', S, 'CU', P] + a + ['GI', S, 'CU', P, 'VAU', S])
        T.append([S, 'KE', 'GA'] + a + [P, 'GI', P, 'VAU'] + a + ['KEhE'])
        T.append([S, 'NA', 'GA'] + a + [P, 'GI', P, 'VAU'] + a)
        T.append([S, 'CU', 'BAI', 'KE', 'GA', P, 'GI'] + a + [P, 'VAU'] + a)
        T.append(a + [S, 'CU', P, 'CO', P] + a + [S])
        T.append(a + [S, 'CU', P, 'CO', X, P, 'CO', P] + a)
    for link in (['JA'], ['JOI'], ['JA', 'BO'], ['JOI', 'BO'], [], ['BO']):
        T.append([S, 'CU', P] + link + [X, P, S, F, S])
        T.append([S, 'CU', X, 'KE', P] + link + [X, P, 'KEhE', S, F, S])
        T.append([S, 'CU', P, P] + link + [P] + link + [P, 'BE', S, 'BEhO', S])
        T.append(['LE', X, 'KE', P, 'BE', S, 'BEhO'] + link + [P, 'BE', F, S, 'KEhE', 'KU', P])
    T.append([S, 'CU', X, 'KE', P, 'GUhA', P, 'GI', X, P, 'KEhE', F, S, S])
    T.append([S, 'CU', P, 'JOI', 'KE', P, P, 'KEhE', S])
    heads = [['GOhA'], ['ME', S, 'MEhU'], ['NUhA', 'VUhU'], ['NU', S, P, S, 'KEI'], ['NU', 'NAI', P, 'KEI'], ['PA', 'MOI'], ['BY', 'MOI'], ['NAhE', P], [P, 'ZEI', P], ['NU', 'JA', 'NU', P, 'KEI'], [P, 'CEI', P]]
    for h in heads:
        for se in ([], [X]):
            T.append([S, 'CU'] + se + h + [S, F, S, S])
            T.append([S, F, S, 'CU'] + se + ['KE'] + se + h + ['BE', S, 'BEhO', 'KEhE', S])
            T.append([S, 'CU'] + se + h + h)
            T.append(['LE'] + se + h + ['BE', F, S, 'BEI', S, 'BEhO', 'KU', P])
            T.append([S, 'CU', P] + h + ['JA'] + h + [F, S, S])
    for h in (['LE', 'NU', S, P, F, S, S, 'KEI', 'KU'], ['LI', 'PA', 'LOhO'], ['LE', P, 'NOI', S, P, F, S, S, 'KUhO', 'KU'], ['PA', P, 'KU'], ['KOhA', 'GOI', 'FA/fe', S, 'GEhU'], [S, 'SEI', F, S, P, 'SEhU'], ['LAhE', S, 'LUhU'], [S, 'A', S], ['LU', S, P, S, 'LIhU'], [S, 'TO', S, P, S, 'TOI']):
        T.append([S, 'CU', P] + h + [F] + h)
        T.append(h + [F] + h + ['CU', P] + h)
        T.append([S, 'CU', P, 'BE'] + h + ['BEI'] + h + ['BEhO', S])
    T.append([S, 'ZOhU', S, 'CU', P, S])
    T.append([S, 'CEhE', S, 'CU', P, S])
    T.append([S, S, 'PEhE', 'JA', S, S, 'CU', P, S])
    T.append(['NUhI', 'GA', S, S, 'NUhU', 'GI', S, S, 'NUhU', 'CU', P, S])
    T.append(['BAI', 'NUhI', 'GA', S, 'NUhU', 'GI', S, 'NUhU', S, 'CU', P, S])
    T.append([S, 'PU', 'KU', S, 'CU', P, 'PU', 'KU', S, 'NA', 'KU', S])
    T.append([S, 'FA/fe', 'KU', S, 'CU', P, S])
    T.append([S, 'CU', P] + [S] * 20)
    T.append([S, 'CU', P, 'FA/fu'] + [S] * 18)
    T.append([S] * 18 + ['CU', 'SE/xe', P, S, S])
    T.append([S, 'CU', P, 'BE', S] + ['BEI', S] * 19 + ['BEhO', S])
    T.append(['TUhE', S, 'CU', P, S, 'TUhU'])
    T.append(['DOI', P, 'BE', S, 'BEhO'])
    T.append([S, 'COI', X, P, 'BE', F, S, 'BEhO', 'DOhU', 'CU', P, S])
    return T


def deep(S_):
    """conversion, marked, positional and linked terms around every way the grammar has of nesting a selbri word"""
    T = []
    word = lambda b: [{'SE': ['SE/te', 'SE/xe'], 'FA': ['FA/fe', 'FA/fai'], 'KOhA': 'KOhA/mi'}.get(t, t) if isinstance(t, str) else t for t in b]
    for b in map(word, S_.below('selbri_3', 'BRIVLA') + S_.below('selbri_3', 'BRIVLA', avoid=SELBRI_ONLY)):
        T.append(['KOhA/mi', 'FA/fi', S, 'CU', 'SE/te', 'KE'] + b + ['KEhE', S, 'FA/fa', S])
        T.append(['KOhA/mi', 'CU', 'SE/ve', 'KE', 'SE/te', 'KE'] + b + ['KEhE', 'BE', 'FA/fe', S, 'BEhO', 'KEhE', 'BE', S, 'BEhO', S])
        T.append(['LE', 'JAI', 'BAI', 'KE'] + b + ['KEhE', 'BE', S, 'BEhO', 'KU', P])
    for b in map(word, S_.below('bridi_tail', 'BRIVLA')):
        T.append(['KOhA/mi', 'FA/fe', 'KOhA/mi', 'CU'] + b + ['KOhA/mi'])
        T.append(['LE', 'NU', 'KOhA/mi'] + b + ['VAU', 'KEI', 'KU', P])
    for b in map(word, S_.below('text', 'FA')):
        T.append(b)
    return T


def judge(r):
    W = Places(r.top)
    out = []
    for n in r.nodes.values():
        if n.type == 'TERM' and n.id not in W.free:
            got = sorted((t, 1 if t == 'TTT_JAITAG' else p, a, b) for t, p, a, b in ((r.L.ttt.get(x[0], x[0]),) + x[1:] for x in n.p.get('term', ())))
            want = sorted(W.tags.get(n.id, ()))
            if got != want:
                out.append(('place', 'terms_processing', 'term at word %d: %s; the text gives it %s' % (n.leaves()[0].col, say(r, got), say(r, want))))
            for t, p, a, b in want:
                ref = r.nodes[b if t in ('TTT_JAITAG', 'TTT_NUMBERMOI') else a]
                if t in ('TTT_JAITAG', 'TTT_NUMBERMOI', 'TTT_ME', 'TTT_NUhA') and not ref.num:
                    out.append(('reference', 'terms_processing', 'term at word %d refers to the %s at word %d, which is not numbered' % (n.leaves()[0].col, ref.type, ref.leaves()[0].col)))
    return out


def say(r, tags):
    return ', '.join('%s place %s of word %s' % (t[4:], p, (r.nodes[a].leaves() or [r.nodes[a]])[0].col) for t, p, a, b in tags) or 'no place'


def run(c):
    tree = Tree(['dfa', 'grammar', 'misc'])
    L = Pipeline(tree)
    G = Grammar(tree, 'rpc2x_act.y', 'rpc_tab.c')
    S_ = Sentences(G)
    fam = family(S_, lift={'FA': ANYFA, 'SE': ANYSE}, longest=14 if c.tier == 'thorough' else 12)
    fam += deep(S_)
    T = [thin(t, 3 if c.tier == 'thorough' else 2) for t in templates(c.tier == 'thorough')]
    total = parsed = 0
    seen = set()
    for n, p, bad in survey(L, fam + T, judge, HOW):
        total += n
        parsed += p
        for rule, where, what, s in bad:
            if (rule, what) not in seen and len(seen) < 40:
                seen.add((rule, what))
                c.violation(rule, where, what, s if isinstance(s, str) else str(s))
    c.need('analysed parses', parsed, 5000)
    c.count(sentences=len(fam) + len(T), abstract_paths=total, parses_compared=parsed)
    c.rule('R1: on every sentence of the families (each production, each production within each production, attitudinal after each word, and the place templates) and each choice of marking and converting words, every term carries exactly the tags a specification over the parse tree gives it')


if __name__ == '__main__':
    main('T03', run)
