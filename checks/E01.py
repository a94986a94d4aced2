"""E01: the elision report names exactly the terminators that could be left out without changing the parse."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from shown import *

# the separators and terminators the published grammar allows to be left out
ELIDABLE = {'BEhO', 'BOI', 'CU', 'DOhU', 'FEhU', 'GEhU', 'KEI', 'KEhE', 'KU', 'KUhE', 'KUhO', 'LIhU', 'LOhO', 'LUhU', 'MEhU', 'NUhU', 'SEhU', 'TEhU', 'TOI', 'TUhU', 'VAU', 'VEhO'}
# phrases with room for a sumti at the end, and the terminators that close them
OPEN = [('LE BRIVLA BE', 'BEhO KU'), ('LE NU KOhA BRIVLA', 'VAU KEI KU'), ('KOhA NOI KOhA BRIVLA', 'VAU KUhO'), ('KOhA GOI', 'GEhU'), ('LAhE', 'LUhU'), ('LU KOhA BRIVLA', 'VAU LIhU'), ('KOhA A KE', 'KEhE'),
        ('LE ME', 'MEhU KU'), ('LE SE KE ME', 'MEhU KEhE KU'), ('LI MOhE', 'TEhU LOhO'), ('KOhA TO KOhA BRIVLA', 'VAU TOI'), ('KOhA COI', 'DOhU'), ('LE BRIVLA BE KOhA BEI', 'BEhO KU'), ('LE BRIVLA GIhA BRIVLA', 'VAU KU'), ('LU BRIVLA GIhA KE BRIVLA', 'VAU KEhE VAU LIhU'), ('NUhI KOhA', 'NUhU'), ('LE NU TUhE BRIVLA', 'VAU TUhU KEI KU')]
INNER = ['KOhA', 'LE BRIVLA KU', 'LI PA BOI LOhO', 'PA BRIVLA KU', 'BY BOI', 'LI VEI PA BOI VEhO LOhO', 'LI PEhO VUhU PA BOI KUhE LOhO']
AFTER = ['CU BRIVLA', 'BRIVLA', 'KOhA', 'KOhA CU BRIVLA', 'A KOhA CU BRIVLA', 'NOI BRIVLA', 'GOI KOhA', 'GIhA BRIVLA', 'I BRIVLA', 'JOI KOhA', 'BAI KOhA', 'PU BRIVLA', 'PA BRIVLA', 'PA ROI BRIVLA', 'XI PA BRIVLA', 'BE KOhA', 'MOI', 'UI CU BRIVLA', 'SEI BRIVLA SEhU CU BRIVLA', 'NAI', 'BY CU BRIVLA', 'VUhO NOI BRIVLA', 'MAI BRIVLA', 'PA MAI BRIVLA', 'VUhU PA', 'PA MOI', '']
NUMBER = ['PA BOI', 'PA XI PA BOI', 'PA BOI XI PA BOI', 'BY BOI', 'KOhA XI PA BOI', 'KOhA XI BY BOI', 'KOhA XI VEI PA BOI VEhO', 'VEI PA BOI VEhO', 'LI PA BOI LOhO', 'LI BY BOI LOhO', 'LE PA BOI', 'ME LI PA BOI LOhO MEhU', 'LI PA BOI VUhU PA BOI LOhO', 'LI MAhO BY TEhU PA BOI LOhO', 'LI JOhI PA BOI TEhU LOhO', 'LI NIhE BRIVLA TEhU LOhO', 'LI GA PA BOI GI PA BOI LOhO', 'KOhA XI PA BOI XI PA BOI', 'LI TEI BY FOI BOI LOhO', 'LI BU BOI LOhO', 'LI FUhA PA BOI PA BOI VUhU LOhO', 'BRIVLA XI PA BOI', 'KOhA CU XI PA BOI', 'NU XI PA BOI']
LEAD = ['', 'KOhA CU BRIVLA', 'KOhA', 'PA BOI', 'COI CMENE DOhU', 'LE']


MOOD = {'UI', 'CAI', 'FUhO', 'Y', 'DAhO', 'NAI'}


def shape(n, toks):
    """the phrase structure, terminators nothing hangs on and the two names of a sentence aside"""
    if n.type is None:
        return None if n.sel in ELIDABLE and (n.el or n.col >= len(toks) or toks[n.col] not in MOOD) else (n.sel or n.kind, n.word)
    kids = [s for s in (shape(k, toks) for k in n.kids) if s is not None]
    if n.type == 'NO_CU_SENTENCE':
        return ('+',) + tuple(kids)
    flat = []
    for k in kids:
        flat += k[1:] if k[0] == '+' else [k]
    if n.type == 'TAIL_TERMS' and not flat:
        return None
    return (n.type,) + tuple(flat)


def full(r, toks):
    """the sentence with every terminator the parser supplied written out"""
    out, pend, done = [], [], 0
    for n in r.top.leaves():
        if n.el:
            pend.append(n.sel or next((s for s in ELIDABLE if s.lower().replace('h', "'") == n.word), None))
        elif n.kind != 'N_MARKER':
            out += list(toks[done:n.col - 1]) + pend + list(toks[n.col - 1:n.col])
            done, pend = n.col, []
    return out + list(toks[done:]) + pend


def reports(r):
    """what is printed: one (kind, words, first column, last column, patterns) per report"""
    s = ''
    for e in r.err:
        if e[0] == 'printf':
            a = list(e[2:])
            s += re.sub(r'%[ds]', lambda m: str(a.pop(0)), e[1])
        elif e[0] == 'putc':
            s += chr(e[1])
        elif e[0] in ('puts', 'fputs'):
            s += e[1]
        else:
            return None, s
    out = []
    for blk in re.split(r'(?=You could omit|The words \')', s):
        if not blk.strip():
            continue
        m = re.match(r"(You could omit|The words)[^']*'(.*)'\s*\((?:at|from) line \d+ col (\d+)(?: to line \d+ col (\d+))?\)\s*(could be safely reduced[^\n]*\n)?", blk)
        if not m:
            return None, s
        pats = [tuple(x.split()) for x in re.findall(r'Pattern \d+ : ([^\n]*)\n', blk[m.end():])]
        if re.sub(r'\s*Pattern \d+ : [^\n]*\n', '', blk[m.end():]).strip() or (m.group(1) == 'You could omit') == bool(m.group(5)):
            return None, s
        out.append((m.group(2).split(), int(m.group(3)), int(m.group(4) or m.group(3)), pats if m.group(5) else [()]))
    return out, s


def runs(r):
    """maximal runs of neighbouring terminators nothing hangs on; as lists of token numbers"""
    spans, cur, last = [], [], None
    for n in r.top.leaves():
        if n.kind == 'N_MARKER':
            continue
        ok = n.kind == 'N_CMAVO' and n.sel in ELIDABLE and not n.el
        if ok:
            k = n.parent.kids.index(n) + 1
            ok = not (n.sel == 'KU' and last == 'NA') and not (k < len(n.parent.kids) and n.parent.kids[k].type in ('FREE_SEQ', 'FREE'))
        last = n.sel
        if not ok or (cur and n.col - 1 != cur[-1] + 1):
            if cur:
                spans.append(cur)
            cur = []
        if ok:
            cur.append(n.col - 1)
    if cur:
        spans.append(cur)
    return spans


FREE = {'XI', 'SEI', 'SOI', 'COI', 'DOI', 'TO', 'PA', 'BY'}
TENSE = {'PU', 'BAI', 'PA', 'SE', 'NAhE'}


def cautious(text, s):
    """where a longer report than necessary is accepted: before a number, tense or cmavo of MOI after a number, before a free modifier, with gi'e ke"""
    nxt, before = text[s[-1] + 1] if s[-1] + 1 < len(text) else None, text[s[0] - 1]
    return before in ('PA', 'BY', ('bu', 'abu'), 'FOI') and nxt in TENSE or nxt == 'MOI' or nxt in FREE or any(text[i] == 'KEhE' for i in s)


def one(p, job):
    mode, toks = job
    n, out, text = 0, [], toks
    if mode == 'full':
        first = [r for r in p.run(toks, how=0, elided=1) if r.end == 'return' and r.status == 0]
        if len(first) != 1:
            return n, 0, []
        text = full(first[0], toks)
    rs = p.run(text, how=0, elided=1, elisions=1)
    n += len(rs)
    if len(rs) != 1 or rs[0].end != 'return' or rs[0].status is None:
        if len(rs) == 1 and rs[0].end == 'exit':
            return n, 0, []
        return n, 0, [('completes', 'elide_trace_shift', 'analysis does not complete: %s' % rs[0].p.get('out', rs[0].end), ' '.join(map(str, text)))]
    r = rs[0]
    if r.status:
        return n, 0, []
    got, said = reports(r)
    words = spell(r, text)
    if got is None:
        return n, 0, [('report', 'emit_elidable_sequence', 'the report is not understood: %r' % said, words)]
    want, w = shape(r.top, text), words.split()
    cells, checked = {(g[1], g[2]): g for g in got}, 0
    for s in runs(r):
        if s[-1] + 1 < len(text) and text[s[-1] + 1] in MOOD:
            s = s[:-1]
        if not s:
            continue
        g = cells.pop((s[0] + 1, s[-1] + 1), None)
        if len(s) > 7:
            continue
        checked += 1
        memo = {}

        def enough(keep):
            if keep not in memo:
                t = [x for i, x in enumerate(text) if i not in s or i in keep]
                q = p.run(t, how=0, elided=1)
                memo[keep] = len(q) == 1 and q[0].end == 'return' and q[0].status == 0 and shape(q[0].top, t) == want
            return memo[keep]

        say = lambda k: tuple(w[i] for i in k)
        safe = []
        for k in range(len(s)):
            for keep in itertools.combinations(s, k):
                if not any(set(m) <= set(keep) for m in safe) and enough(keep):
                    safe.append(keep)
        should, rep = sorted({say(m) for m in safe}), sorted(set(g[3])) if g else []
        for x in rep:
            if x not in should and not any(enough(k) for k in itertools.combinations(s, len(x)) if say(k) == x):
                out.append(('sufficient', 'elide_trace_shift', 'words %s: reported that keeping %s is enough, which changes the parse' % (' '.join(say(s)), ' '.join(x) or 'none'), words))
                break
        else:
            if rep != should and not cautious(text, s):
                out.append(('minimal', 'show_minimal_elidables', 'words %s: reported as least sufficient %s, least sufficient are %s' % (' '.join(say(s)), rep, should), words))
        n += len(memo)
    for g in cells.values():
        out.append(('extra', 'elide_trace_shift', 'report about %s, which are not a run of words that can be left out' % ' '.join(g[0]), words))
    return n, checked, out


def table(c, tree, G):
    """the look-ahead table the reporter consults is the shift table of the parser"""
    if not os.path.exists(os.path.join(tree.src, 'elitabs.c')):
        return 0
    with open(os.path.join(tree.src, 'verif_elitab.c'), 'w') as h:
        h.write('#include "elitabs.c"\nlong verif_par[] = { CODE_OFFSET, BLOCKS_PER_STATE, LO_SUBSCRIPT, HI_SUBSCRIPT, sizeof(elitab) / sizeof(elitab[0]) };\nunsigned long *verif_use(void) { return elitab; }\n')
    e = Engine(tree.compile('verif_elitab.c'))
    num = lambda l: [y for x in l for y in num(x)] if isinstance(l, list) else [l]
    off, blocks, lo, hi, size = num(e.glob('verif_par'))
    bits = num(e.glob('elitab'))
    sub = [n for n, (l, r) in G.rules.items() if l == 'subscript']
    if (lo, hi) != (min(sub), max(sub)) or set(sub) != set(range(lo, hi + 1)):
        c.violation('subscript-rules', 'output2elide.pl', 'the rules taken for subscripts are %d to %d, the grammar has %d to %d' % (lo, hi, min(sub), max(sub)))
    n = bad = 0
    for s in G.root.find('automaton').findall('state'):
        k = int(s.get('number'))
        shifts = {t.get('symbol') for t in s.findall('./actions/transitions/transition') if t.get('type') == 'shift'}
        for t, code in G.terminals.items():
            if t in ('$end', 'error', '$undefined') or code <= 0:
                continue
            i = k * blocks + ((code - off) >> 5)
            has = code >= off and i < size and (code - off) >> 5 < blocks and bits[i] >> ((code - off) & 31) & 1
            n += 1
            if bool(has) != (t in shifts) and bad < 5:
                bad += 1
                c.violation('shift-table', 'output2elide.pl', 'state %d: the reporter takes %s to be %s, the parser says otherwise' % (k, t, 'possible' if has else 'impossible'))
    return n


def run(c):
    tree = Tree(['dfa', 'grammar', 'misc'])
    L = Pipeline(tree)
    G = Grammar(tree, 'rpc2x_act.y', 'rpc_tab.c')
    S = Sentences(G)
    cells = table(c, tree, G)
    fam = family(S, pairs=True, mood=False, longest=12 if c.tier == 'thorough' else 10)
    thorough = c.tier == 'thorough'
    deep = [('', ' '.join([l, a, INNER[0] if b is None else b[0] + ' ' + INNER[0], *([b[1]] if b else []), e, f])) for l in ('', 'KOhA CU BRIVLA') for i, (a, e) in enumerate(OPEN) for j, b in enumerate([None] + OPEN) for k, f in enumerate(AFTER) if thorough or b is None or (l == '') == ((i + j + k) % 2 == 0) and k < 21]
    deep += [('', ' '.join([l, a, i, e, f])) for l in ('', 'KOhA CU BRIVLA') for k, (a, e) in enumerate([('', '')] + OPEN) for m, i in enumerate(INNER) for f in AFTER if thorough or k == 0 or (l == '') == ((k + m) % 2 == 0)]
    deep += [('', ' '.join([l, n, f])) for l in LEAD for n in NUMBER for f in AFTER + NUMBER]
    deep += [('as is', ' '.join([l, n, f]).replace('BOI ', '')) for l in LEAD[:3] for n in NUMBER for f in AFTER + NUMBER]
    deep += [('as is', ' '.join([l, a, INNER[0], e.split(' ', 1)[1], f])) for l in LEAD[:2] for a, e in OPEN if ' ' in e for f in AFTER]
    deep += [('', ' '.join([l, n, 'UI', f])) for l in ('', 'KOhA CU BRIVLA') for n in NUMBER for f in AFTER[:6]]
    jobs = [('full', t) for t in fam] + [(m or 'full', [('bu', 'abu') if x == 'BU' else x for x in t.split()]) for m, t in sorted({(m, ' '.join(t.split())) for m, t in deep})]
    seen, total, checked = {}, 0, 0
    for n, k, viol in pmap(L, jobs, one):
        total += n
        checked += k
        for v in viol:
            seen.setdefault(v[:3], v)
    for rule, where, what, s in seen.values():
        c.violation(rule, where, what, s)
    c.need('runs of terminators', checked, 10000)
    c.count(sentences=len(jobs), abstract_paths=total, terminator_runs=checked, shift_table_cells=cells)
    c.rule("R1: the reporter's table of possible tokens per parser state is the shift table of the parser, for every state and token; its subscript rules are the grammar's")
    c.rule('R2: for every run of terminators of every analysed parse: each selection of words reported as sufficient leaves the parse unchanged when the rest is left out')
    c.rule('R3: the selections reported are exactly the least ones (except that a longer report is accepted before a number, tense or MOI after a number, before a free modifier and with gihe ke); runs that are needed whole are not reported, nor is anything else')


if __name__ == '__main__':
    main('E01', run)
