"""T02: conversions are folded into the gloss of the word they convert, and the gloss form fits the word's role."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from pipeline import *
from places import Places, SE

HOW = 5
S, P = 'KOhA', 'BRIVLA'


def role(n):
    """1 predicate, 0 noun-like, None undecided: from the nearest enclosing construct"""
    x = n.parent
    first = True
    while x:
        if x.type in ('MAIN_SELBRI', 'METALINGUISTIC_MAIN_SELBRI'):
            return 1
        if x.type in ('JAI_TAG_TU2', 'JAI_TU2'):
            if not (first and n.sel == 'JAI'):
                return 1
            first = False
        if x.type in ('SUMTI', 'COMPLEX_TENSE_MODAL'):
            return 0
        if x.type in ('FREE', 'OPERAND_3', 'MEX_OPERATOR'):
            return None
        x = x.parent
    return None


def final(n):
    """the word is (in) the last component of the tanru it stands in"""
    x = n
    while x and x.type != 'TANRU_UNIT_2':
        if x.type == 'JAI_TU2' and n.sel == 'JAI':
            return False
        if x.type == 'SUBSENTENCE' or x.type == 'SUMTI':
            return False
        x = x.parent
    while x and x.type in ('TANRU_UNIT_2', 'SE_TU2', 'NAHE_TU2', 'JAI_TU2', 'JAI_TAG_TU2', 'TANRU_UNIT_1', 'TANRU_UNIT', 'SELBRI_6', 'SELBRI_5', 'SELBRI_4'):
        x = x.parent
    return x is not None and x.type == 'SELBRI_3' and x.parent.type != 'SELBRI_3'


def judge(r):
    W = Places(r.top)
    out = []

    def say(rule, n, what):
        out.append((rule, 'do_conversions', 'word %d (%s): %s' % (n.col, n.word, what)))
    for n in r.nodes.values():
        if n.type is not None:
            for k in ('conv', 'bai', 'nogloss', 'glosstype'):
                if k in n.p:
                    out.append(('misplaced', 'do_conversions', 'gloss information %s attached to a %s instead of a word' % (k, n.type)))
            continue
        got, want = n.p.get('conv', [1])[0], sorted(W.conv.get(n.id, {1}))
        if [got] != want:
            say('conversion', n, 'glossed for place %s, the text puts place %s first' % (got, want[0]))
        b = None
        if n.sel == 'BAI':
            x = n.parent
            while x.type == 'AUGMENTED':
                x = x.parent
            se = x.cm('SE') if x.type == 'SE_BAI' else None
            b = SE[se.word] if se else 1
        if n.p.get('bai', [None])[0] != b and not (b == 1 and 'bai' not in n.p):
            say('tag-conversion', n, 'glossed as a tag for place %s instead of %s' % (n.p.get('bai', [None])[0], b))
        if n.sel == 'SE':
            x = n.parent
            while x.type == 'AUGMENTED':
                x = x.parent
            want = x.type == 'SE_BAI' or n.id in W.absorbed
            if ('nogloss' in n.p) != want:
                say('conversion-word', n, 'its effect is in the gloss of the converted word yet it is glossed itself' if want else 'it is left without a gloss although no other gloss contains its effect')
        elif n.sel != 'GOI' and 'nogloss' in n.p:
            say('conversion-word', n, 'is left without a gloss')
        gt = n.p.get('glosstype')
        if n.kind in ('N_BRIVLA', 'N_ZEI') or n.sel in ('NU', 'JAI'):
            ro, fi = role(n), int(final(n))
            want = None if ro is None and not fi else [ro or 0, fi]
            if gt != want:
                say('form', n, 'gloss form %s, its role asks for %s' % (form(gt), form(want)))
        elif gt:
            say('form', n, 'carries a gloss form')
    return out


def form(g):
    return 'plain' if g is None else 'modifier' if not g[1] else 'verb' if g[0] else 'noun'


def templates():
    X = ANYSE
    T = []
    for n in range(0, 4):
        T.append([S, 'CU'] + [X] * n + [P, S])
        T.append(['LE'] + [X] * n + [P, 'KU', 'CU', P])
        T.append(['LE'] + [X] * n + [P] + [X] * n + [P, 'KU', 'CU', P] + [X] + [P])
        T.append([S, 'CU'] + [X] * n + ['NU', 'BRIVLA', 'KEI'])
    for k in (['NAhE'], ['JAI'], ['JAI', 'BAI']):
        T.append([S, 'CU', X] + k + [X, P, X, P])
        T.append([S, 'CU', X] + k + [X, P])
        T.append(['LE', X] + k + [X, 'NU', P, 'KEI', P, 'KU', P])
        T.append(['LE', X] + k + ['KE', X, P, P, 'KEhE', 'KU', P])
    for link in ([], ['BO'], ['JA'], ['JA', 'BO'], ['JOI'], ['CO'], ['JOI', 'KE']):
        for a in ([S, 'CU'], ['LE'], ['FIhO'], ['ME', 'LE'], ['DOI'], ['NUhA', 'MAhO'] if False else ['LI', 'NIhE'], ['SEI'], ['PA']):
            T.append(a + [X, P] + link + [X, P])
            T.append(a + [X, 'KE', P] + link + [X, P, 'KEhE'])
            T.append(a + [P, X, 'KE', P] + link + [X, P, 'KEhE'])
            T.append(a + [X, 'KE', P] + link + [P, 'KEhE', X, P])
            T.append(a + [P] + link + [P] + link + [P])
            T.append(a + [X, 'KE', X, 'KE', P] + link + [P, 'KEhE'] + link + [P, 'KEhE', P])
    for h in (['GOhA'], ['ME', S], ['PA', 'MOI'], [P, 'ZEI', P], ['NU', 'JA', 'NU', P, 'KEI'], ['NU', 'NAI', P, 'KEI'], ['NUhA', 'VUhU']):
        T.append([S, 'CU', X] + h + [X, P])
        T.append([S, 'CU', X, P, X] + h)
        T.append(['LE', X, 'KE', P, X] + h + ['KEhE', X] + h + ['KU', P])
    T.append([S, 'CU', X, 'KE', P, 'GUhA', X, P, P, 'GI', X, P, 'KEhE'])
    T.append(['LE', P, 'CEI', X, P, 'KU', X, P, 'CEI', P])
    T.append(['LE', X, P, 'POI' if False else 'NOI', X, P, X, P, 'KUhO', 'KU', X, P])
    T.append(['LE', X, P, 'BE', 'LE', X, P, P, 'KU', 'BEhO', X, P, 'KU', P])
    T.append([X, 'BAI', S, X, P, X, 'BAI', S])
    T.append([S, 'CU', 'JAI', X, 'BAI', X, P])
    T.append([P, X, 'BAI', 'BO' if False else 'KU', P])
    U = []
    for t in T:
        if len(t) < 9:
            for i in range(1, len(t)):
                if t[i - 1] not in ('ZEI',):
                    U.append(t[:i] + ['UI'] + t[i:])
                    U.append(t[:i] + ['BAhE'] + t[i:])
    return T + U


def run(c):
    tree = Tree(['dfa', 'grammar', 'misc'])
    L = Pipeline(tree)
    G = Grammar(tree, 'rpc2x_act.y', 'rpc_tab.c')
    deep = c.tier == 'thorough'
    S_ = Sentences(G)
    fam = family(S_, lift={'SE': ANYSE}, longest=14 if deep else 12)
    # every way the grammar has of nesting a selbri word inside a converted selbri, a description and a sentence
    word = lambda b: [{'SE': ['SE/te', 'SE/xe'], 'KOhA': 'KOhA/mi'}.get(t, t) if isinstance(t, str) else t for t in b]
    for b in map(word, S_.below('selbri_3', 'BRIVLA') + S_.below('selbri_3', 'BRIVLA', avoid=SELBRI_ONLY)):
        fam += [['KOhA/mi', 'CU', ['SE/te', 'SE/xe'], 'KE', 'SE/ve', 'KE'] + b + ['KEhE', 'KEhE'], ['LE', 'SE/te', 'KE', 'JAI', 'KE'] + b + ['KEhE', P, 'KEhE', P, 'KU', P]]
    fam += [['LE', 'SE/te'] + b + ['KU', P] for b in map(word, S_.below('selbri', 'BRIVLA'))]
    fam += [word(b) for t in ('SE', 'JAI') for b in S_.below('text', t, ['SE/te', 'SE/ve'] if t == 'SE' else None)]
    T = [thin(t, 4 if deep else 2) for t in templates()]
    total = parsed = 0
    seen = set()
    for n, p, bad in survey(L, fam + T, judge, HOW):
        total += n
        parsed += p
        for rule, where, what, s in bad:
            if (rule, what) not in seen and len(seen) < 40:
                seen.add((rule, what))
                c.violation(rule, where, what, s if isinstance(s, str) else str(s))
    c.need('analysed parses', parsed, 5000)
    c.count(sentences=len(fam) + len(T), abstract_paths=total, parses_compared=parsed)
    c.rule('R1: on every sentence of the families and every choice of converting words, the place a word is glossed for, the words left unglossed because another gloss contains them, and the gloss form of every word are those a specification over the parse tree gives')


if __name__ == '__main__':
    main('T02', run)
