"""T05: tenses and modals are glossed for the context they stand in."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from pipeline import *

S, P = 'KOhA', 'BRIVLA'
CONTEXT = {'TSC_TERM': ('TERM_TAGGED_SUMTI', 'TAGGED_TERMSET'),
           'TSC_LINK': ('TEXT_1C', 'I_JJ_STAG_BO', 'GIHEK_STAG_KE', 'GIHEK_STAG_BO', 'JOIK_EK_KE', 'JOIK_EK_STAG_BO', 'JOIK_STAG_KE', 'JOIK_JEK_STAG_BO'),
           'TSC_NOUN': ('SUMTI_5B', 'SUMTI_TAIL_1'),
           'TSC_SELBRI': ('STATEMENT_3', 'TERM_FLOATING_TENSE', 'GEK_SENTENCE', 'MAIN_SELBRI', 'METALINGUISTIC_MAIN_SELBRI'),
           'TSC_JAITAG': ('JAI_TAG_TU2',),
           'TSC_CONNECT': ('GEK',),
           None: ('MEX_OPERATOR', 'OPERAND_3', 'COMPLEX_TENSE_MODAL', 'FREE')}
AT = {t: k for k, v in CONTEXT.items() for t in v}


def judge(r):
    out = []
    for n in r.nodes.values():
        got = r.L.tsc.get(n.p['tense'][0], n.p['tense'][0]) if 'tense' in n.p else None
        want = None
        if n.type in ('TIME_OFFSET', 'SPACE_INT_PROP', 'INTERVAL_PROPERTY') or n.sel in ('ZAhO', 'VA', 'FAhA', 'BAI', 'PU'):
            x = n.parent
            while x and x.type not in AT:
                x = x.parent
            if x is None:
                continue
            want = AT[x.type]
        if got != want:
            lv = n.leaves()
            out.append(('context', 'tense_processing', '%s at word %d: glossed for context %s, it stands in context %s' % (n.type or n.word, lv[0].col if lv else 0, got, want)))
    return out


def templates():
    tags = [['PU'], ['BAI'], ['SE', 'BAI'], ['ZAhO'], ['VA'], ['FAhA'], ['PU', 'ZI'], ['PU', 'NAI'], ['MOhI', 'FAhA', 'VA'], ['PA', 'ROI'], ['TAhE'], ['PU', 'ZEhA', 'ZAhO', 'FAhA', 'VEhA', 'KI'], ['NAhE', 'PU'], ['VIhA', 'FEhE', 'TAhE'], ['CUhE'], ['KI'], ['BAI', 'KI']]
    T = []
    for t in tags:
        T += [t + [S, P], [S] + t + [P], [S, 'CU'] + t + ['JAI'] + t + [P], ['LE'] + t + [P, 'KU', 'CU'] + t + [P, 'BE'] + t + [S, 'BEhO'] + t + [S], [P] + t + ['KU'], t + ['KU', P],
              t + ['GI', S, P, 'GI', S, P], [S, 'CU', P, 'I'] + t + ['BO', S, P], [S, 'CU', P, 'I', 'JA'] + t + ['BO', S, P], [S, 'CU', P, 'GIhA'] + t + ['BO', P], [S, 'CU', P, 'GIhA'] + t + ['KE', P], [S, 'A'] + t + ['BO', S, 'CU', P],
              [S, 'A'] + t + ['KE', S, 'CU', P], [P, 'JA'] + t + ['BO', P], [P, 'JOI'] + t + ['KE', P], [S, 'NOI'] + t + [P, 'KUhO', 'CU', P], [S, 'GOI'] + t + [S, 'CU', P], ['LE', 'NU'] + t + [P, 'KEI', 'KU', P], t + ['TUhE', S, 'CU', P, 'TUhU'],
              t + ['KE', 'GA', S, P, 'GI', S, P, 'KEhE'], ['SEI'] + t + [P, 'SEhU', S, P], [S, 'TO'] + t + [P, 'TOI', 'CU', P], [S, 'COI'] + t + [P, 'DOhU', P] if False else [S, 'FIhO'] + t + [P, 'FEhU', S, P], ['LI', 'NIhE'] + t + [P, 'TEhU'], [S, 'CU', P, 'NUhI'] + t + ['GI', S, 'NUhU', 'GI', S],
              t + ['NUhI', 'GA', S, 'NUhU', 'GI', S, P], ['PA'] + t + [P, 'KU', P], [S, 'CU'] + t + ['NA', P], [S, 'SOI'] + t + [S, P] if False else [S] + t + [S] + t + [P] + t + [S], ['ME', 'LE'] + t + [P], ['LA'] + t + [P, 'KU'] + t + [P], ['LE', S] + t + [P, 'KU', P], ['GUhA'] + t + [P, 'GI'] + t + [P]]
    return T


def run(c):
    tree = Tree(['dfa', 'grammar', 'misc'])
    L = Pipeline(tree)
    G = Grammar(tree, 'rpc2x_act.y', 'rpc_tab.c')
    S_ = Sentences(G)
    fam = family(S_, longest=14 if c.tier == 'thorough' else 12)
    # a tense word as deep in a text as the grammar has ways of nesting it
    fam += [list(b) for t in ('PU', 'BAI', 'ZAhO', 'VA', 'FAhA') for b in S_.below('text', t)]
    T = templates()
    total = parsed = 0
    seen = set()
    for n, p, bad in survey(L, fam + T, judge, 5):
        total += n
        parsed += p
        for rule, where, what, s in bad:
            if (rule, what) not in seen and len(seen) < 40:
                seen.add((rule, what))
                c.violation(rule, where, what, s if isinstance(s, str) else str(s))
    c.need('analysed parses', parsed, 5000)
    c.count(sentences=len(fam) + len(T), abstract_paths=total, parses_compared=parsed)
    c.rule('R1: on every sentence of the families, every tense or modal unit carries the context of the nearest construct it belongs to, and nothing else carries one')


if __name__ == '__main__':
    main('T05', run)
