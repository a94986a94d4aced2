"""Preprocessing: quotation, erasure, compounding, emphasis, letter and indicator words act on exactly the words they should, before parsing."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from tokens import *

IND = ['UI', 'CAI', 'Y', 'DAhO', 'FUhE', 'FUhO']
CAI = {'cai': ('CC_CAI', 'CC_CAINAI'), 'sai': ('CC_SAI', 'CC_SAINAI'), "ru'e": ('CC_RUhE', 'CC_RUhENAI'), "cu'i": ('CC_CUhI', 'CC_CUhI'), 'pei': ('CC_PEI', 'CC_PEINAI')}
CORE = ['ZO', 'LOhU', 'LEhU', 'SI', 'SA', 'SU', 'ZEI', 'BAhE', 'BU', 'FAhO', 'NAI', 'UI', 'CAI', 'FUhE', 'NIhO', 'KU', 'NA']
ALL = CORE + ['Y', 'DAhO', 'FUhO', 'LU', 'TUhE', 'TO', 'I', 'w:brivla', 'w:cmene', 'w:zoi']
WORDS = {'w:brivla': ('N_BRIVLA', 'broda'), 'w:cmene': ('N_CMENE', 'djan'), 'w:zoi': ('N_ZOI', 'some text')}


class Stop(Exception):
    pass


def spec(words):
    """words: list of (class, text, column); result: (messages?, list of items | 'exit1' | 'bad')"""
    T = []
    for cls, text, col in words:
        k = WORDS[cls][0] if cls in WORDS else 'N_CMAVO'
        T.append({'k': k, 'c': None if cls in WORDS else cls, 'text': text, 'col': col, 'bahe': [], 'ui': [], 'neg': 0, 'cai': None})
    bad = False

    def full(t):
        """the source words of a token as one string"""
        return {'N_ZO': 'zo+' + t['text'], 'N_LOhU': "lo'u+%s+le'u" % t['text'], 'N_ZOI': 'zoi+"%s"' % t['text'], 'N_BROKEN': '<Defective erasure>'}.get(t['k'], t['text'])
    # 1. zo quotes the next word, whatever it is
    out, i = [], 0
    while i < len(T):
        t = T[i]
        if t['c'] == 'ZO':
            if i + 1 == len(T):
                raise Stop('exit1')
            t.update(k='N_ZO', c=None, text=T[i + 1]['text'])
            i += 1
        out.append(t)
        i += 1
    # 2. lo'u ... le'u
    T, out, i = out, [], 0
    while i < len(T):
        t = T[i]
        if t['c'] == 'LOhU':
            j = next((j for j in range(i + 1, len(T)) if T[j]['c'] == 'LEhU'), None)
            if j is None:
                raise Stop('exit1')
            t.update(k='N_LOhU', c=None, text=' '.join(full(x) for x in T[i + 1:j]))
            i = j
        out.append(t)
        i += 1
    # 3. si: erases the preceding word; a quotation counts the words it is made of
    T, out, i = out, [], 0
    while i < len(T):
        t = T[i]
        if t['c'] != 'SI' or not out:
            out.append(t)
            i += 1
            continue
        p = out[-1]
        need = p.get('need') or {'N_ZO': 2, 'N_LOhU': 3, 'N_ZOI': 4}.get(p['k'], 1)
        got = 0
        while i < len(T) and T[i]['c'] == 'SI' and got < need:
            got += 1
            i += 1
        if got == need:
            out.pop()
        else:
            p.update(k='N_BROKEN', c=None, need=need - got)
    # 4. sa: erases back to (and including) the nearest word of the same class as the word that follows
    T, out = out, []
    for i, t in enumerate(T):
        if t['c'] == 'SA' and i + 1 < len(T):
            nx = T[i + 1]
            while out:
                y = out.pop()
                if y['k'] == nx['k'] and y['c'] == nx['c']:
                    break
        else:
            out.append(t)
    # 5. su: erases back to a paragraph, quotation, group or parenthesis start; su su everything
    T, out, i = out, [], 0
    while i < len(T):
        t = T[i]
        if t['c'] != 'SU':
            out.append(t)
        elif i + 1 < len(T) and T[i + 1]['c'] == 'SU':
            out = []
            i += 1
        else:
            while out:
                if out.pop()['c'] in ('NIhO', 'LU', 'TUhE', 'TO'):
                    break
        i += 1
    # 6. zei: glues its neighbours
    T, out, i = out, [], 0
    while i < len(T):
        t = T[i]
        if t['c'] != 'ZEI':
            out.append(t)
            i += 1
            continue
        if i == 0:
            bad = True
            out.append(t)
            i += 1
            continue
        kids, j = [out[-1]], i
        while j < len(T) and T[j]['c'] == 'ZEI':
            if j + 1 == len(T):
                bad = True
                break
            kids.append(T[j + 1])
            j += 2
        if bad:
            raise Stop('bad')
        out[-1] = dict(t, k='N_ZEI', c=None, kids=[k['col'] for k in kids], text=' zei '.join(full(k) for k in kids), plus='+'.join(full(k) for k in kids))
        i = j
    # 7. ba'e belongs to the next word
    T, out, held = out, [], []
    for i, t in enumerate(T):
        if t['c'] == 'BAhE' and i + 1 < len(T) and T[i + 1]['c'] != 'FAhO':
            held = [t['col']] + held
            continue
        t['bahe'] = held
        held = []
        out.append(t)
    # 8. bu makes a letter word of the word before it
    T, out = out, []
    for t in T:
        if t['c'] == 'BU':
            if not out:
                bad = True
                out.append(t)
                continue
            y = out.pop()
            text = {'N_ZO': 'zo' + y['text'], 'N_BU': y['text'] + '.bu', 'N_LOhU': "lo'u-%s-le'u" % y['text'], 'N_BROKEN': '<Defective erasure>'}.get(y['k'], y['text'])
            t = dict(t, k='N_BU', c=None, text=text, bahe=t['bahe'] + y['bahe'], ui=[])
        out.append(t)
    if bad:
        raise Stop('bad')
    # 9. indicators: nai / cai suffixes, then attachment to the word before
    T, out, i = out, [], 0
    while i < len(T):
        t = T[i]
        i += 1
        if t['c'] in ('UI', 'CAI'):
            if i < len(T) and T[i]['c'] == 'NAI':
                t['neg'] = 1
                i += 1
            if i < len(T) and T[i]['c'] == 'CAI':
                w = T[i]['text']
                i += 1
                rev = i < len(T) and T[i]['c'] == 'NAI'
                i += rev
                t['cai'] = CAI[w][rev]
        out.append(t)
    T, out, start = out, [], True
    for i, t in enumerate(T):
        if start and t['c'] in IND:
            out.append(t)
            continue
        # a leading fu'e is followed by one more free word
        if t['c'] in IND:
            out[-1]['ui'].append((t['col'], t['neg'], t['cai']))
        else:
            start = False
            out.append(t)
    # 10. nothing is read after fa'o
    res = []
    for t in out:
        if t['c'] == 'FAhO':
            break
        res.append(t)
    return res


def want(words, L):
    try:
        r = spec(words)
    except Stop as e:
        return str(e)
    out = []
    for t in r:
        d = {'k': t['k'], 'col': t['col'], 'bahe': t['bahe'], 'ui': [(a, b, L.k[c] if c else -1) for a, b, c in t['ui']]}
        if t['k'] == 'N_BROKEN':
            d = {'k': -1, 'col': t['col'], 'bahe': [], 'ui': []}
        if t['k'] in ('N_ZO', 'N_LOhU', 'N_BU', 'N_ZEI'):
            d['text'] = t['text']
        if t['k'] == 'N_ZEI':
            d['kids'], d['plus'] = t['kids'], t['plus']
        out.append(d)
    return out


TOKEN = {'N_ZO': 'ZO', 'N_LOhU': 'LOhU', 'N_BU': 'BU', 'N_ZEI': 'ZEI', 'N_ZOI': 'ZOI', 'N_BRIVLA': 'BRIVLA', 'N_CMENE': 'CMENE', -1: 'GARBAGE'}


def got(L, p):
    st = L.stream(p)
    if p['end'] == 'exit':
        return 'exit1' if p['out'] == 'end=exit:1' and st and any(e.get('fn') == 'fprintf' for e in st) else p['out']
    if p['end'] != 'return':
        return p['out']
    out = []
    ends = []
    for e in st:
        if e['k'] == 'ev':
            continue
        if e['k'] == 'end':
            ends.append(e['how'])
            continue
        if e['k'] == 'bad':
            return 'position passed to the parser differs from the token'
        if ends or e['k'] == 'M':
            return 'a token after the end'
        d = {'k': e['k'], 'col': e['col'], 'bahe': e.get('bahe', []), 'ui': e.get('ui', [])}
        if 'text' in e:
            d['text'] = e['text']
        if e['k'] == 'N_ZEI':
            d['kids'], d['plus'] = e.get('kid', []), e['plus']
        want = 1 if e['k'] == 'N_CMAVO' else L.tok[TOKEN[e['k']]]
        if e['val'] != want or e['line'] != 49 + e['col']:
            return 'token %s handed to the parser as %s at line %s' % (e['k'], L.tokname.get(e['val'], e['val']), e['line'])
        out.append(d)
    if ends == [3]:
        return 'bad' if any(e['k'] == 'ev' and e['fn'] == 'fprintf' for e in st) else 'bad word flagged without a message'
    return out if ends == [L.tok['PRIVATE_EOF_MARK'], 0] else 'the end of text is not announced: %s' % ends


def templates(thorough):
    T = [[ALL]] + [[ALL] * 2] + [[ALL] * 3]
    if thorough:
        T.append([CORE + ['w:brivla']] * 4)
    si = ['SI', 'KU']
    T.append([['ZO', 'LOhU', 'w:zoi', 'w:brivla', 'SI'], ['KU', 'LEhU', 'w:brivla', 'SI', 'ZO'], ['SI', 'LEhU'], si, si, si])
    T.append([['w:zoi', 'KU'], ['SI'], ['SI', 'KU'], ['SI', 'KU'], ['SI', 'KU'], ['SI', 'KU', 'BU']])
    T.append([['w:zoi', 'ZO', 'LOhU'], ['SI', 'LEhU', 'KU'], ['SI', 'LEhU'], ['ZEI', 'BU', 'SI'], ['KU', 'SI']])
    T.append([['LOhU'], ['LOhU', 'ZO', 'KU', 'SI', 'w:cmene', 'w:zoi', 'LEhU'], ['LEhU', 'KU', 'w:brivla', 'ZO'], ['LEhU', 'KU'], ['LEhU', 'ZEI', 'BU', 'SI', 'KU'], ['KU', 'LEhU']])
    sa = ['KU', 'I', 'w:brivla', 'w:cmene', 'NIhO']
    T.append([sa, sa, sa, ['SA'], ['KU', 'I', 'w:brivla', 'w:cmene', 'SA', 'SU'], ['KU', 'SA', 'SU']])
    T.append([['LU', 'KU', 'TO'], ['TUhE', 'KU', 'NIhO', 'ZO'], ['KU', 'LU'], ['SU', 'SI'], ['KU', 'SU', 'I'], ['SU', 'KU']])
    zz = ['w:brivla', 'KU', 'ZO', 'w:zoi']
    T.append([['BAhE', 'KU', 'ZEI'], ['w:brivla', 'ZO', 'LOhU'], ['ZEI', 'KU', 'LEhU'], ['w:brivla', 'ZEI', 'BAhE', 'w:zoi'], ['ZEI', 'BU', 'KU'], ['w:cmene', 'ZEI', 'BU']])
    T.append([['w:brivla', 'ZEI'], ['ZEI'], ['w:cmene', 'ZEI'], ['ZEI'], ['w:brivla', 'ZEI'], ['ZEI', 'KU', 'BU'], ['KU', 'BU']])
    T.append([['BAhE', 'KU'], ['BAhE', 'KU'], ['KU', 'FAhO', 'UI', 'BAhE', 'ZO'], ['BU', 'BAhE', 'UI'], ['BU', 'KU', 'NAI']])
    cai = ['CAI/' + w for w in CAI]
    T.append([['KU', 'FUhE', 'UI'], ['UI', 'FUhO', 'CAI', 'NAI'], ['NAI', 'KU'] + cai, ['NAI', 'UI'] + cai, ['NAI', 'KU', 'CAI'], ['NAI', 'KU']])
    T.append([['FUhE', 'UI', 'KU'], ['FUhE', 'UI', 'KU', 'NAI'], ['FUhE', 'UI', 'KU', 'Y'], ['UI', 'DAhO', 'KU', 'FAhO'], ['KU', 'UI', 'BAhE']])
    T.append([['ZO'], ['ZO', 'LOhU', 'SI', 'BU', 'FAhO', 'UI'], ['ZO', 'BU', 'KU', 'ZEI', 'UI'], ['KU', 'BU', 'LEhU', 'SI'], ['KU', 'BU']])
    return T


def run(c):
    tree = Tree(['dfa', 'grammar', 'misc'])
    L = TokenLists(tree)
    L.k.update(tree.consts({x: x for t in CAI.values() for x in t}))
    paths = combos = 0
    bad = set()
    for T in templates(c.tier == 'thorough'):
        opts = []
        for sl in T:
            g = [[x for x in sl if x not in WORDS]] + [[x] for x in sl if x in WORDS]
            opts.append([x for x in g if x])
        for pick in itertools.product(*opts):
            L.reset()
            names = [L.word(i, d[0][2:], WORDS[d[0]][1]) if d[0] in WORDS else L.any(i, d) for i, d in enumerate(pick)]
            for p in L.pre(names, max_paths=3000000, max_steps=2000000000):
                paths += 1
                g = got(L, p)
                per = [[d[j] for j in p['vars'].get('k%d' % i, range(len(d)))] for i, d in enumerate(pick)]
                for comb in itertools.product(*per):
                    combos += 1
                    if comb in bad:
                        continue
                    ws = [(x.split('/')[0], WORDS[x][1] if x in WORDS else L.wordof(x), i + 1) for i, x in enumerate(comb)]
                    w = want(ws, L)
                    if g != w:
                        bad.add(comb)
                        c.violation('preprocess', 'preprocess_tokens', 'the parser receives %s, expected %s' % (str(g)[:300], str(w)[:300]), ' '.join(x[1] for x in ws))
        if len(bad) > 30:
            break
    c.need('abstract lists', paths, 5000)
    c.count(templates=len(templates(c.tier == 'thorough')), abstract_paths=paths, word_sequences=combos)
    c.rule('R1: on every sequence of up to 3 (thorough: 4) words drawn from the classes the pass distinguishes, and on the longer quotation / erasure / compound / indicator shapes, the stream the parser receives is exactly the specified one')


if __name__ == '__main__':
    main('P03', run)
