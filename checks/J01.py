"""J01: the lujvo maker lists exactly the lujvo of a tanru, best first."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from lujvo import *


def listed(out):
    """(score, lujvo, mark) of every line of the listing"""
    res = []
    for line in out.splitlines():
        m = re.match(r"^([ *!]?) *(\d+)  ([a-z']+)$", line)
        if m:
            res.append((int(m.group(2)), m.group(3), m.group(1)))
    return res


def judge(S, words, options, ps):
    tag = '%s%s' % (' '.join(words), ' with -' + ' -'.join(options) if options else '')
    if len(ps) != 1:
        return 'tanru %s: %d outcomes' % (tag, len(ps))
    p = ps[0]
    want = S.all(words, 'l' in options, 'b' in options)
    if p['end'] not in ('return', 'exit') or p['end'] == 'exit' and want is not None:
        return 'tanru %s: %s' % (tag, p['out'])
    r = rendered(p)
    got = listed(r['stdout'])
    if want is None:
        if p['end'] != 'exit' or p['out'] not in ('ret=1', 'end=exit:1') and '1' not in p['out'] or got:
            return 'tanru %s has no lujvo, but the program ends with %s and lists %s' % (tag, p['out'], ' '.join(x[1] for x in got))
        return None
    if [x[0] for x in got] != sorted(x[0] for x in got):
        return 'tanru %s: the list is not in order of score' % tag
    full = {w: s for s, w in want}
    for s, w, m in got:
        if w not in full:
            return 'tanru %s: lists %s, specified %s' % (tag, w, ' '.join(w for s, w in want))
        if full[w] != s:
            return 'tanru %s: score of %s is %d, specified %d' % (tag, w, s, full[w])
        if m == '*' and s != want[0][0]:
            return 'tanru %s: %s is marked best' % (tag, w)
    if got and got[0][2] == ' ':
        return 'tanru %s: the best lujvo is not marked' % tag
    n = len(want) if 'a' in options else min(8, len(want))
    if len(got) != n or len({w for s, w, m in got}) != len({w for s, w in want}) and 'a' in options:
        return 'tanru %s: %d lujvo listed, specified %d' % (tag, len(got), n)
    if [x[0] for x in got] != [x[0] for x in want][:n]:
        return 'tanru %s: lists %s, specified %s' % (tag, ' '.join(x[1] for x in got), ' '.join(w for s, w in want[:n]))
    return None


def forms(c, S, X, at):
    """the display options change only what they name"""
    import itertools
    n = 0
    for words in (['klama', 'bajra'], ['broda', 'zmadu', 'cusku'], ["ce'o", 'sutra', 'brode'], ['gerku', 'zdani', 'sutra', 'klama'], ['brodi', 'brodo'], ['klama', 'broda', 'ce']):
        for base in ('', 'al', 'lb', 'ab'):
            for k in range(5):
                for ds in itertools.combinations('RSAq', k):
                    o = base + ''.join(ds)
                    n += 1
                    tag = '%s with -%s' % (' '.join(words), ' -'.join(o))
                    ps = X.run([[at[w]] for w in words], o)
                    rafsi, want = shown(S, words, o)
                    if len(ps) != 1 or ps[0]['end'] != ('return' if want else 'exit'):
                        c.violation('R4', 'jvocuhadju.c:main', 'tanru %s: %s' % (tag, ps[0]['out']))
                        continue
                    text = rendered(ps[0])
                    got = [('rafsi', m.group(1), tuple(r for r in m.group(2).split() if r not in ('/!\\', '<NONE>'))) for m in re.finditer(r"^([a-z']+) *:  (.*)$", text['stdout'], re.M)]
                    if [(a, b, tuple(sorted(r))) for a, b, r in got] != [(a, b, tuple(sorted(r))) for a, b, r in rafsi]:
                        c.violation('R4', 'jvocuhadju.c:main', 'tanru %s: rafsi shown %s, specified %s' % (tag, got, rafsi))
                    if not want:
                        continue
                    ex = '' if 'A' in o else '[ *!]' + (' ' if 'S' in o else '')
                    ex += '' if 'S' in o else r' *(?P<s>\d+)  '
                    rows = [m for m in (re.match('^' + ex + "(?P<w>[a-z']+)$", x) for x in text['stdout'].split('\n')) if m]
                    keep = len(want) if 'a' in o else min(8, len(want))
                    full = {w: s for s, w in want}
                    scores = [full.get(m.group('w')) for m in rows]
                    if scores != [s for s, w in want[:keep]] or 'S' not in o and [int(m.group('s')) for m in rows] != scores:
                        c.violation('R4', 'jvocuhadju.c:main', 'tanru %s: lists %s, specified %s' % (tag, [m.group(0) for m in rows], want[:keep]))
                    brod = any(len(r) == 4 and r.startswith('brod') for rs in S.choices(words, 'l' in o, 'b' in o) for r in rs)
                    if brod != ('ambig' in text['stderr']):
                        c.violation('R4', 'jvocuhadju.c:main', 'tanru %s: warning about brod %s' % (tag, 'missing' if brod else 'given'))
                    if ('hidden' in text['stdout']) != (keep < len(want) and 'q' not in o):
                        c.violation('R4', 'jvocuhadju.c:main', 'tanru %s: note about hidden lujvo' % tag)
    for n_ in (49, 50, 51, 60):
        for p in X.run([[at['broda']]] * n_, 'S'):
            if p['end'] not in ('exit', 'return') or n_ > 49 and p['end'] != 'exit':
                c.violation('R3', 'jvocuhadju.c:main', '%d components: %s' % (n_, p['out']))
    return n


def cover(W, short, key, most=1):
    """words that between them show every value of key over their rafsi"""
    seen, out = {}, []
    for w in W:
        ks = [k for r in short[w] + ([w[:4], w] if len(w) == 5 else []) for k in key(r)]
        if any(seen.get(k, 0) < most for k in ks):
            out.append(w)
            for k in ks:
                seen[k] = seen.get(k, 0) + 1
    return out


def run(c):
    tree = Tree(['dfa', 'morf', 'misc', 'grammar'])
    short = rafsi_list(tree)
    W = sorted(short)
    S = LujvoSpec(short, Morphology())
    X = Maker(tree, W)
    thorough = c.tier == 'thorough'
    starts = cover(W, short, lambda r: [(shape(r), r[-1])])
    ends = cover(W, short, lambda r: [(shape(r), r[:2] if r[1] in CONS else r[0])] + ([(shape(r), r[0], r[2:4])] if thorough and shape(r) == 'CVCCV' else [(shape(r), r[2:4] in INITIAL, r[0])] if shape(r) == 'CVCCV' else []))
    mid = cover(W, short, lambda r: [(shape(r), r[-1] if r[-1] in 'nlsz' else 0, r[0] if r[0] in 'rtdn' else 0)])
    jobs = [((w, 'klama'), 'a') for w in W] + [(('bloti', w), 'al') for w in W] + [((w, 'brodi'), 'alb') for w in W[::5]]
    jobs += [((a, b), 'al') for a in starts for b in (W if thorough else ends)]
    few = mid if thorough else mid[::2]
    jobs += [((a, m, b), 'al' if (i + j) % 3 else '') for i, a in enumerate(few) for j, m in enumerate(few) for b in few]
    triples = [next(w for w in W if any(r[:2] == q for r in short[w] + [w])) for q in ('ts', 'tc', 'dj', 'dz')]
    # the first syllable could fall off a lujvo that has a hyphen of every kind further on
    cvc = {w: [r for r in short[w] if shape(r) == 'CVC'] for w in W}
    seen = set()
    for w1 in W:
        for w2 in W:
            for r1 in cvc[w1]:
                for r2 in cvc[w2]:
                    if r1[-1] + r2[0] in INITIAL and (r1[-1] + r2[0], r2[-1]) not in seen and r2[-1] in 'nrtbdk':
                        seen.add((r1[-1] + r2[0], r2[-1]))
                        w3 = [w for w in W if any(r[0] == r2[-1] and r[-1] == 'n' for r in cvc[w])][:2]
                        jobs += [((w1, w2, a, b), 'a') for a in w3 for b in triples]
    jobs += [((a, 'sutra', b, 'cidja', 'broda'), o) for a in mid for b in mid[:6] for o in ('l', 'a')]
    bad = [((w,), 'a') for w in ('klama', 'se')] + [(('klama', 'ce'), ''), (('broda', 'klama'), ''), (('broda', 'klama'), 'b'), (('jai', 'klama'), ''), (('be', 'klama'), 'a')]
    jobs += [b for b in bad if all(w in short for w in b[0])]
    jobs = list(dict.fromkeys(jobs))
    local = threading.local()
    at = {w: i for i, w in enumerate(W)}

    def go(part):
        if not hasattr(local, 'x'):
            local.x = X.clone()
        return [judge(S, list(ws), o, local.x.run([[at[w]] for w in ws], o)) for ws, o in part]
    with ThreadPoolExecutor(8) as ex:
        res = [b for r in ex.map(go, [jobs[i::64] for i in range(64)]) for b in r]
    for b in res:
        if b:
            c.violation('R1', 'jvocuhadju.c:main', b)
    c.need('tanru', len(jobs), 15000)
    words, unsound = set(), []
    for ws, o in jobs:
        for s, w in S.all(list(ws), 'l' in o, 'b' in o) or []:
            words.add(w)
    for w in sorted(words):
        if not S.morph.is_lujvo(w):
            c.violation('R2', 'specification', '%s is not a lujvo' % w)
    odd(c, tree)
    nf = forms(c, S, X, at)
    c.count(components=len(W), displays=nf, tanru=len(jobs), lujvo=len(words))
    c.rule('R1: for every tanru of the family, the list holds each combination of rafsi once, with exactly the hyphens needed and the score of the reference grammar, in order of score, the best marked; a tanru without lujvo is refused with status 1')
    c.rule('R2: every lujvo so specified is a single lujvo for the confirmed word classifier (M01)')
    c.rule('R3: components that are not in the list, of any length, are refused, and so is a tanru of more components than fit')
    c.rule('R4: the display options change only what they name: rafsi list, score, marks, notes; an ambiguous brod is warned about')


def odd(c, tree):
    words = ['', 'k', 'klam', 'klame', 'abcdef', 'abcdefg', 'kla\\na', "k'lam", 'KLAMA', 'sehe', 'Zmadu', "ce'o", 'cehO']
    X = Maker(tree, words)
    good = {'KLAMA': 'klama', 'Zmadu': 'zmadu', "ce'o": "ce'o", 'cehO': "ce'o"}
    for i, w in enumerate(words):
        for j, v in enumerate(words):
            for p in X.run([[i], [j]], 'a'):
                ok = w in good and v in good
                if (p['end'] == 'return') != ok and p['end'] != 'exit' or (p['end'] == 'return') and not ok or p['end'] == 'exit' and '1' not in p['out'] or p['end'] == 'exit' and ok:
                    c.violation('R3', 'jvocuhadju.c:main', 'components "%s" "%s": %s' % (w, v, p['out']))


if __name__ == '__main__':
    main('J01', run)
