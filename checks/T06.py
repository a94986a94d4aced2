"""T06: relative clauses and ke'a point to what they are about; goi-words before tagged sumti are not glossed."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from pipeline import *

S, P, K = 'KOhA', 'BRIVLA', "KOhA/ke'a"


def antecedent(rc):
    x = rc.parent
    while x.type != 'RELATIVE_CLAUSES':
        x = x.parent
    e = x.parent
    if e.type in ('SUMTI', 'SUMTI_5', 'SUMTI_TAIL_1'):
        return e.kids[0]
    if e.type in ('LAHE_SUMTI_6', 'NAHE_BO_SUMTI_6'):
        return e.kid('SUMTI')
    if e.type in ('NAME_SUMTI_6', 'FREE_VOCATIVE'):
        return e
    if e.type == 'SUMTI_TAIL':
        return e.kid('SUMTI_6')
    return None


def judge(r):
    out = []
    inside = set()

    def say(rule, n, what):
        lv = n.leaves() or [n]
        out.append((rule, 'relative_clause_processing', '%s at word %d: %s' % (n.type or n.word, lv[0].col, what)))

    def name(i):
        n = r.nodes.get(i)
        return 'nothing' if n is None else '%s at word %d' % (n.type or n.word, (n.leaves() or [n])[0].col)
    for n in r.nodes.values():
        if n.word == "ke'a" and n.type is None:
            x = n.up('RELATIVE_CLAUSE')
            got = n.p.get('rel', [0])[0]
            if got != (x.id if x else 0):
                say('kea', n, 'linked to %s, it stands in %s' % (name(got), name(x.id if x else 0)))
            if x:
                inside.add(x.id)
        elif 'rel' in n.p:
            say('kea', n, 'linked to a relative clause')
    for n in r.nodes.values():
        if n.type == 'RELATIVE_CLAUSE':
            a = antecedent(n)
            got = n.p.get('ante', [0])[0]
            if got != (a.id if a else 0):
                say('antecedent', n, 'taken to be about %s, it is about %s' % (name(got), name(a.id if a else 0)))
            if a and not a.num and r.nodes.get(got) is a and n.id in inside:
                say('numbered', n, "contains ke'a but %s is not numbered" % name(a.id))
            if ('keha' in n.p) != (n.id in inside):
                say('contains', n, "%s as containing ke'a" % ('marked' if 'keha' in n.p else 'not marked'))
        elif 'ante' in n.p or 'keha' in n.p:
            say('antecedent', n, 'has a relative clause property')
        if n.sel == 'GOI':
            x = n.up('TERM_RELATIVE_CLAUSE')
            want = x is not None and x.kid('TERM').kids[0].type in ('TERM_TAGGED_SUMTI', 'TAGGED_TERMSET')
            if ('nogloss' in n.p) != want:
                say('goi', n, 'left without a gloss' if not want else 'glossed although a tag says the relation')
    return out


def templates():
    T = []
    rc = [['NOI', K, P, 'KUhO'], ['NOI', S, P, K, 'KUhO'], ['NOI', P, 'KUhO'], ['GOI', S, 'GEhU'], ['GOI', 'BAI', S, 'GEhU'], ['GOI', K, 'GEhU'], ['GOI', 'FA', S, 'GEhU'], ['GOI', 'PU', 'KU', 'GEhU'], ['GOI', 'BAI', 'NUhI', 'GA', S, 'NUhU', 'GI', K, 'NUhU', 'GEhU'],
          ['NOI', S, P, 'KUhO', 'ZIhE', 'NOI', P, K, 'KUhO'], ['NOI', 'LE', P, 'NOI', K, P, 'KUhO', 'KU', P, K, 'KUhO'], ['NOI', P, 'LE', 'NU', P, K, 'KEI', 'KU', 'KUhO'], ['NOI', K, P, 'KUhO', 'ZIhE', 'GOI', 'SE', 'BAI', K, 'GEhU']]
    for r in rc:
        T += [[S] + r + ['CU', P], [P, S] + r, ['LE', P] + r + ['KU', P], ['LE', P, 'KU'] + r + [P], ['LE', S] + r + [P, 'KU', P], ['LE'] + r + [P, 'KU', P], ['LA'] + r + ['CMENE', P], ['LA', 'CMENE'] + r + [P], ['LAhE'] + r + [S, 'LUhU', P],
              ['NAhE', 'BO'] + r + [S, 'LUhU', P], ['PA', P, 'KU'] + r + [P], ['LE', 'PA', P] + r + ['KU', P], [S, 'VUhO'] + r + ['CU', P], [S, 'A', S, 'VUhO'] + r + ['CU', P], ['DOI', P] + r + ['DOhU', P], ['DOI'] + r + [P, 'DOhU', P], ['DOI', 'CMENE'] + r + ['DOhU', P],
              ['DOI'] + r + ['CMENE', 'DOhU', P], r, [S, 'TO'] + r + ['TOI', P] if False else [S, 'TO', S] + r + ['TOI', P], [P, 'BE', S] + r + ['BEhO'], ['LU', S] + r + ['LIhU', P], ['LE', 'PA', S] + r + ['KU', P], ['LE', 'PA', S] + r + [P, 'KU', P], ['PA', S] + r + [P]]
    return T


def run(c):
    tree = Tree(['dfa', 'grammar', 'misc'])
    L = Pipeline(tree)
    G = Grammar(tree, 'rpc2x_act.y', 'rpc_tab.c')
    S_ = Sentences(G)
    fam = family(S_, lift={'KOhA': ['KOhA/mi', K]}, longest=14 if c.tier == 'thorough' else 12)
    fam = [[['KOhA/mi', K][0] if isinstance(t, list) and sum(isinstance(x, list) for x in s[:i]) > 2 else t for i, t in enumerate(s)] for s in fam]
    T = templates()
    # a ke'a as deep in a relative clause as the grammar has ways of nesting it
    deep = [[P, S] + ['KOhA/mi' if t == 'KOhA' else t for t in b] for b in S_.below('relative_clause', 'KOhA', K)]
    T += [[u for j, u in enumerate(t[:i] + ['UI'] + t[i:])] for t in T if len(t) < 9 for i in range(1, len(t) + 1)] + deep
    total = parsed = 0
    seen = set()
    for n, p, bad in survey(L, fam + T, judge, 5):
        total += n
        parsed += p
        for rule, where, what, s in bad:
            if (rule, what) not in seen and len(seen) < 40:
                seen.add((rule, what))
                c.violation(rule, where, what, s if isinstance(s, str) else str(s))
    c.need('analysed parses', parsed, 5000)
    c.count(sentences=len(fam) + len(T), abstract_paths=total, parses_compared=parsed)
    c.rule("R1: on every sentence of the families, every relative clause and every ke'a is linked to what it is about, which is numbered when a ke'a refers to it, and a goi word is left unglossed exactly when a tag follows")


if __name__ == '__main__':
    main('T06', run)
