"""The sentences the output checks run on, and what a check sees of the output."""
import re
from pipeline import *
from gloss import Gloss


def sentences(tier):
    """(pipeline, grammar families, long shapes of every place, conversion, tense and relative clause kind)"""
    import T02, T03, T05, T06
    tree = Tree(['dfa', 'grammar', 'misc'])
    L = Pipeline(tree)
    fam = family(Sentences(Grammar(tree, 'rpc2x_act.y', 'rpc_tab.c')), longest=14 if tier == 'thorough' else 12)
    T = [thin(t, 1) for m in (T02, T03, T05, T06) for t in (m.templates(False) if m is T03 else m.templates())]
    seen, long = {str(s) for s in fam}, []
    for t in T:
        if str(t) not in seen:
            seen.add(str(t))
            long.append(t)
    return L, fam, long


def indicators(bases=5):
    """indicators with nai and intensity words, emphasis and scope marks after every word"""
    cai = [['CAI/' + w for w in ('cai', 'sai', "ru'e", "cu'i", 'pei')]]
    marks = [['UI'] + x for x in ([], ['NAI'], cai, ['NAI'] + cai, ['CAI/cai', 'NAI'], ['CAI/sai', 'NAI'], ["CAI/ru'e", 'NAI'], ['CAI/pei', 'NAI'], ['UI'] + cai)] + [cai, ['BAhE'], ['FUhE', 'UI'], ['UI', 'FUhO'], ['DAhO'], ['Y']]
    base = [['KOhA', 'CU', 'SE', 'BRIVLA', 'BE', 'KOhA', 'BEhO', 'KOhA'], ['LE', 'NU', 'BRIVLA', 'KEI', 'KU', 'BAI', 'KOhA', 'BRIVLA'], ['ZO', 'KOhA', 'A', 'LU', 'PA', 'I', 'LIhU', 'BRIVLA', 'ZEI', 'BRIVLA'], ['PA', 'ROI', 'GA', 'CMENE', 'GI', ('zoi', 'foo'), 'BRIVLA'], ['LOhU', 'KOhA', 'KU', 'LEhU', 'BRIVLA']]
    marked = []
    for s in base[:bases]:
        for m in marks:
            for i in range(len(s) + 1):
                if m == ['BAhE'] and i == len(s) or i < len(s) and s[i] in ('ZEI', 'LEhU') or i and s[i - 1] in ('ZO', 'ZEI', 'LOhU') or i == 2 and s[0] == 'LOhU':
                    continue
                marked.append(s[:i] + m + s[i:])
    return marked


def events(r):
    """what the generic output pass tells the driver, layout aside"""
    out = []
    for e in r.out:
        if e[0] in ('open', 'close'):
            out.append((e[0], r.L.br.get(e[1], e[1]), e[2]))
        elif e[0] in ('loj', 'trans', 'tag', 'ptag', 'stags', 'stag', 'etags'):
            out.append(tuple(e))
    return out


def text_words(r):
    """the words given, written as the output writes them, without dots and spaces"""
    out = []
    for i, (t, w) in enumerate(zip(r.toks, r.text)):
        if isinstance(t, tuple) and t[0] == 'zoi':
            out.append('zoigy%sgy' % w)
        elif isinstance(t, tuple) and t[0] == 'bu':
            out.append(w + 'bu')
        else:
            out.append(w)
    return out


def report(c, results, limit=40):
    total = parsed = 0
    seen = set()
    for n, p, bad in results:
        total += n
        parsed += p
        for rule, where, what, s in bad:
            if (rule, what) not in seen and len(seen) < limit:
                seen.add((rule, what))
                c.violation(rule, where or 'do_output', what, s if isinstance(s, str) else str(s))
    return total, parsed


def gloss_judge(mode):
    def judge(r):
        got, want = events(r), Gloss(r, mode).out
        if got == want:
            return []
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        after = next((e[1] for e in reversed(got[:i]) if e[0] == 'loj'), 'the start')
        say = lambda l: ' '.join(str(x) for x in l[i]) if i < len(l) else 'nothing more'
        return [('gloss', 'do_output', 'after %s the output has "%s", expected "%s"' % (after, say(got), say(want)))]
    return judge
