"""Truth functions of the logical connectives under na / se / nai, for every connective position."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from trees import *

BASE = {'a': lambda p, q: p or q, 'e': lambda p, q: p and q, 'o': lambda p, q: p == q, 'u': lambda p, q: p}


def pattern(f, na, se, nai):
    if f is None:
        return 'QQQQ'
    out = ''
    for p, q in ((1, 1), (1, 0), (0, 1), (0, 0)):
        x, y = (not p if na else bool(p)), (not q if nai else bool(q))
        if se:
            x, y = y, x
        out += 'T' if BASE[f](x, y) else 'F'
    return out


def kind(w):
    return {'a': 'a', 'e': 'e', 'o': 'o', 'u': 'u'}.get(w[-1]) if w not in ('ji', "je'i", "gi'i", "ge'i", "gu'i") else None


def run(c):
    tree = Tree(['dfa', 'grammar', 'morf', 'misc'])
    eng = Engine(tree.program('jbofihe'))
    F = Forest(tree, eng)
    xc = tree.consts({'pos': 'offsetof(XConnective,pos)', 'zpos': 'sizeof(((XConnective*)0)->pos)', 'pat': 'offsetof(XConnective,pattern)', 'js': 'offsetof(XConnective,js)', 'neg1': 'offsetof(XConnective,neg1)', 'neg2': 'offsetof(XConnective,neg2)',
                      'CNP_GE': 'CNP_GE', 'CNP_GI': 'CNP_GI', 'CNP_AFTER': 'CNP_AFTER', 'CNP_GE_JOIK': 'CNP_GE_JOIK', 'CNP_GI_JOIK': 'CNP_GI_JOIK', 'CNP_GE_STAG': 'CNP_GE_STAG', 'CNP_GI_STAG': 'CNP_GI_STAG', 'NO': 'NO'})
    by = {}
    for w, code in F.codes.items():
        by.setdefault(F.table[code][1], []).append(w)
    words = lambda sel: sorted(by[F.tok[sel]])
    n = 0

    def ask(top, node):
        nonlocal n
        ps = eng.eval('connectives_processing', [{'ref': top}], objs=F.objs, pokes=F.pokes, mem_end=True,
                      then=[{'fn': 'prop_connective', 'args': [{'ref': node}, {'int': xc['NO']}]}],
                      outs=[{'ret': 1, 'off': xc['pos'], 'size': xc['zpos'], 'name': 'pos'}, {'ret': 1, 'off': xc['pat'], 'size': 8, 'name': 'pat'}, {'ret': 1, 'off': xc['js'], 'size': 8, 'name': 'js', 'ptr': 1},
                            {'ret': 1, 'off': xc['neg1'], 'size': 4, 'name': 'neg1'}, {'ret': 1, 'off': xc['neg2'], 'size': 4, 'name': 'neg2'}])
        out = []
        for p in ps:
            n += 1
            out.append((p, dict(x.split('=', 1) for x in p['out'].split(';')) if not p['out'].startswith('end=') else {'end': p['out']}))
        return out

    def check(what, node, res, poss, exp):
        for p, d in res:
            for code in p['vars'].get('key', [None]):
                w = F.table[code][0]['str'] if code is not None else ''
                e = exp(w)
                got = (d.get('pos'), (d.get('pat') or '').strip('"'))
                if got != (str(poss), e):
                    c.violation('truth-function', 'connectives_processing: ' + what, 'truth function %s, expected %s at position %s' % (d.get('end') or got, e, poss), w)
    opt = list(itertools.product((0, 1), repeat=3))
    # afterthought: [na] [se] X [nai]
    after = [('EK', 'A', []), ('GIHEK', 'GIhA', []), ('JEK', 'JA', []), ('JEK_OPT_KE', 'JA', ['ke']), ('JEK_OPT_KE', 'JA', []), ('JEK_OPT_KEBO', 'JA', ['ke']), ('JEK_OPT_KEBO', 'JA', ['bo'])]
    cov = {}
    for typ, sel, tail in after:
        if typ not in F.nt:
            continue
        for na, se, nai in opt:
            F.reset()
            kids = ([F.cmavo('na')] if na else []) + ([F.cmavo('se')] if se else []) + [F.cmavo(words(sel), var='key')] + ([F.cmavo('nai')] if nai else []) + [F.cmavo(t) for t in tail]
            x = F.nonterm(typ, kids)
            top = F.nonterm('TEXT', [F.nonterm('SUMTI', [x])])
            check('%s%s%s%s' % ('na ' if na else '', 'se ' if se else '', typ.lower(), ' nai' if nai else ''), x, ask(top, x), xc['CNP_AFTER'], lambda w: pattern(kind(w), na, se, nai))
            cov[typ] = 1
    # forethought: [se] X [nai] ... gik: gi [nai]
    for typ, sel in (('GEK', 'GA'), ('GUHEK', 'GUhA')):
        for n1, se, n2 in opt:
            F.reset()
            x = F.nonterm(typ, ([F.cmavo('se')] if se else []) + [F.cmavo(words(sel), var='key')] + ([F.cmavo('nai')] if n1 else []))
            g = F.nonterm('GIK', [F.cmavo('gi')] + ([F.cmavo('nai')] if n2 else []))
            top = F.nonterm('GEK_SENTENCE' if 'GEK_SENTENCE' in F.nt else 'SENTENCE', [x, F.nonterm('SUMTI', [F.brivla()]), g, F.nonterm('SUMTI', [F.brivla()])])
            for node, pos in ((x, 'CNP_GE'), (g, 'CNP_GI')):
                check('%s%s%s ... gi%s (%s)' % ('se ' if se else '', typ.lower(), ' nai' if n1 else '', ' nai' if n2 else '', pos), node, ask(top, node), xc[pos], lambda w: pattern(kind(w), n1, se, n2))
            cov[typ] = 1
    # non-logical forethought: joik gi / stag gik
    for n1, n2, form in itertools.product((0, 1), (0, 1), ('JOIK', 'STAG')):
        if form == 'JOIK' and n1:
            continue
        F.reset()
        if form == 'JOIK':
            js = F.nonterm('JOIK', [F.cmavo('joi')], name='js')
            x = F.nonterm('GEK', [js, F.cmavo('gi')])
        else:
            js = F.nonterm('STAG', [F.cmavo('ba')], name='js')
            x = F.nonterm('GEK', [js, F.nonterm('GIK', [F.cmavo('gi')] + ([F.cmavo('nai')] if n1 else []))])
        g = F.nonterm('GIK', [F.cmavo('gi')] + ([F.cmavo('nai')] if n2 else []))
        top = F.nonterm('GEK_SENTENCE' if 'GEK_SENTENCE' in F.nt else 'SENTENCE', [x, F.nonterm('SUMTI', [F.brivla()]), g, F.nonterm('SUMTI', [F.brivla()])])
        for node, pos in ((x, 'CNP_GE_' + form), (g, 'CNP_GI_' + form)):
            for p, d in ask(top, node):
                got = (d.get('pos'), d.get('js'), d.get('neg1'), d.get('neg2'))
                exp = (str(xc[pos]), '&js', str(n1), str(n2))
                if got != exp:
                    c.violation('nonlogical-connective', 'connectives_processing: %s gi' % form.lower(), 'got %s expected %s' % (d.get('end') or got, exp), 'nai1=%d nai2=%d %s' % (n1, n2, pos))
    c.need('connective node kinds', len(cov), 6)
    c.count(abstract_paths=n, node_kinds=len(cov))
    c.rule('R1: for every connective word of A, GIhA, JA, GA, GUhA and every presence of na/se/nai, the recorded truth pattern equals the truth table computed from the definition (na negates the first term, nai the second, se swaps them), at both halves of forethought forms')
    c.rule('R2: non-logical forethought connectives record their joik/stag and which half is negated')


if __name__ == '__main__':
    main('T01', run)
