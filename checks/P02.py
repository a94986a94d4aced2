"""Look-ahead markers: every construct that needs more than one word of look-ahead is announced at the right place, and nothing else is."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from tokens import *
from tense import *

TENSE = ['BAI', 'BY', 'CAhA', 'CUhE', 'FAhA', 'FEhE', 'FOI', 'KI', 'LAU', 'MOhI', 'NAhE', 'NAI', 'PA', 'PU', 'ROI', 'SE', 'TAhE', 'TEI', 'VA', 'VEhA', 'VIhA', 'ZAhO', 'ZEhA', 'ZI']
CONN = ['A', 'JA', 'GIhA', 'GUhA', 'JOI', 'BIhI', 'GA', 'GI', 'I']
REST = ['NA', 'GAhO', 'BO', 'KE', 'MAI', 'MOI', 'KU']
FREE = ['SEI', 'SOI', 'COI', 'DOI', 'TO', 'XI']
KNOWN = set(TENSE + CONN + REST + FREE)
DIGIT = {'PA', 'BY', 'LAU', 'TEI', 'FOI', 'bu', 'BU'}
SPEC = tense_modal()


class Spec:
    """What must stand before each token.  Works on classes; tokens are numbered; result is a list of token numbers and marker names."""

    def __init__(self, toks):
        self.t = toks
        self.n = len(toks)
        self.before = [[] for _ in range(self.n + 1)]      # markers opening at a token, outermost first
        self.after = [[] for _ in range(self.n + 1)]       # markers closing before position i (i.e. after token i-1)
        self.run()

    def at(self, i):
        return self.t[i] if 0 <= i < self.n else None

    def tenses(self):
        self.ten, i = {}, 0
        while i < self.n:
            q, end = SPEC.start(), None
            for j in range(i, self.n):
                q = SPEC.step(q, 'BU' if self.t[j] == 'bu' else self.t[j])
                if not q:
                    break
                if SPEC.accepts(q):
                    end = j
            if end is None:
                i += 1
            else:
                self.ten[i] = end
                i = end + 1
        self.ten_end = {e: s for s, e in self.ten.items()}

    def phrase(self, i):
        """extent of the connective whose core word is token i; a tense phrase is closed, nothing inside it belongs to a connective"""
        c = self.t[i]
        s = i
        inside = lambda j: any(a <= j <= b for a, b in self.ten.items())
        if c in ('A', 'JA', 'GIhA'):
            if self.at(s - 1) == 'SE':
                s -= 1
            if self.at(s - 1) == 'NA':
                s -= 1
        elif c in ('JOI', 'GUhA', 'GA'):
            if self.at(s - 1) == 'SE':
                s -= 1
        elif c == 'BIhI':
            if self.at(s - 1) == 'SE':
                s -= 1
            if self.at(s - 1) == 'GAhO' and s - 1 not in self.jj_end:      # a GAhO closing the previous connective is not shared
                s -= 1
        e = i
        if c in ('A', 'JA', 'GIhA', 'JOI', 'BIhI') and self.at(e + 1) == 'NAI':
            e += 1
        if c == 'BIhI' and self.at(e + 1) == 'GAhO':
            e += 1
        return s, e

    def follow(self, i):
        """skip [stag] from position i; answer BO / KE / None"""
        while i in self.ten:
            i = self.ten[i] + 1
            if i in self.jj:
                j = self.jj[i] + 1
                if j not in self.ten:
                    return None
                i = j
            else:
                break
        return self.at(i) if self.at(i) in ('BO', 'KE') else None

    def run(self):
        self.tenses()
        self.jj, self.jj_end, con = {}, {}, []
        for i in range(self.n):
            if self.t[i] in ('A', 'JA', 'GIhA', 'GUhA', 'JOI', 'BIhI', 'GA'):
                s, e = self.phrase(i)
                con.append((self.t[i], s, e))
                if self.t[i] in ('JA', 'JOI', 'BIhI'):
                    self.jj[s] = e
                    self.jj_end[e] = s
        opening = {i: [] for i in range(self.n + 1)}
        closing = {i: [] for i in range(-1, self.n)}
        # forethought: GA, or [stag | joik] GI
        gek = {}
        for k, s, e in con:
            if k == 'GA':
                gek[s] = gek.get(s, 0) + 1
        for i in range(self.n):
            if self.t[i] == 'GI':
                if i - 1 in self.ten_end:
                    s = self.ten_end[i - 1]
                    while s - 1 in self.jj_end:
                        p = self.jj_end[s - 1]
                        if p - 1 in self.ten_end:
                            s = self.ten_end[p - 1]
                        else:
                            break
                    gek[s] = gek.get(s, 0) + 1
                elif i - 1 in self.jj_end and self.kind_at(con, self.jj_end[i - 1], i - 1) != 'JA':
                    gek[self.jj_end[i - 1]] = gek.get(self.jj_end[i - 1], 0) + 1
        names = {'A': 'EK', 'JA': 'JEK', 'GIhA': 'GIHEK', 'JOI': 'JOIK', 'BIhI': 'JOIK'}
        for i in range(self.n):
            if self.t[i] == 'I':
                j = i + 1
                jj = j in self.jj and j not in gek          # a joik that begins a forethought connective is not part of the I
                if jj:
                    j = self.jj[j] + 1
                if self.follow(j) == 'BO':
                    opening[i].append('I_BO')
                elif jj:
                    opening[i].append('I_JEKJOIK')
            if self.t[i] == 'NAhE' and self.at(i + 1) == 'BO':
                opening[i].append('NAhE_BO')
            if self.t[i] == 'NA' and self.at(i + 1) == 'KU':
                opening[i].append('NA_KU')
        for i in gek:
            opening[i] += ['START_GEK'] * gek[i]
        for k, s, e in con:
            if k == 'GA':
                continue
            if k == 'GUhA':
                opening[s].append('START_GUHEK')
                continue
            f = self.follow(e + 1)
            inner = k in ('JA', 'JOI', 'BIhI') and (self.at(s - 1) == 'I' or s - 1 in self.ten_end)
            if f and not inner:
                opening[s].append('%s_%s' % (names[k], f))
            opening[s].append('START_' + names[k])
            if k in ('JA', 'JOI', 'BIhI'):
                closing[e].append('END_' + names[k])
        for s, e in self.ten.items():
            opening[s].append('START_TENSE')
            closing[e].append('END_TENSE')
        # a number directly before MAI / ROI / MOI (digits and letters; a marker interrupts it)
        for i in range(self.n):
            if self.t[i] in ('MAI', 'ROI', 'MOI'):
                j = i
                while j > 0 and self.t[j - 1] in DIGIT and not opening[j] and not closing[j - 1]:
                    j -= 1
                if j < i:
                    self.num = getattr(self, 'num', []) + [(j, 'NUMBER_' + self.t[i])]
        for j, m in getattr(self, 'num', []):
            opening[j].append(m)
        self.out = []
        for i in range(self.n):
            self.out.append((frozenset(opening[i]), tuple(sorted(opening[i]))))
        self.opening, self.closing = opening, closing

    @staticmethod
    def kind_at(con, s, e):
        for k, a, b in con:
            if (a, b) == (s, e):
                return k


def expected(toks):
    s = Spec(toks)
    out = []
    for i in range(s.n):
        after = s.opening[i + 1] if i + 1 < s.n else []
        # directly before a free modifier: one that starts with its own word, or a number with mai
        free = 1 if not s.closing[i] and (s.at(i + 1) in FREE and not after or list(after) == ['NUMBER_MAI']) else 0
        out.append((tuple(sorted(s.opening[i])), tuple(sorted(s.closing[i])), free if toks[i] not in ('bu', 'word') else None))
    return out


def observed(L, st, n):
    """group the resulting list per token: markers between the previous token and this one that open / close"""
    op = [[] for _ in range(n + 1)]
    cl = [[] for _ in range(n + 1)]
    free, cur, order = [None] * n, -1, []
    for e in st:
        if e['k'] == 'M':
            name = e['m'].replace('PRIVATE_', '', 1) if isinstance(e['m'], str) else str(e['m'])
            if name.startswith('END_'):
                cl[cur].append(name)
            else:
                op[cur + 1].append(name)
        elif e['k'] == 'end':
            break
        elif e['k'] in ('bad', 'ev'):
            return 'list links broken or unexpected call: %s' % (e,)
        else:
            if e['col'] != cur + 2 or not e['val']:
                return 'token %d out of place' % e['col']
            cur += 1
            free[cur] = e.get('free')
    if cur != n - 1:
        return 'tokens lost'
    return [(tuple(sorted(op[i])), tuple(sorted(cl[i])), free[i]) for i in range(n)], op, cl, st


RANK = {}


def seq_ok(op, cl, st):
    """markers between two tokens: all closing ones come before all opening ones; openings are nested outermost first"""
    prev_open = False
    for e in st:
        if e['k'] == 'M':
            nm = str(e['m'])
            if 'END_' in nm and prev_open:
                return 'a closing marker stands after an opening one'
            prev_open = prev_open or 'END_' not in nm
        else:
            prev_open = False
    return None


def templates(thorough):
    """sequences of slots; each slot a set of kinds ('*' = every class, 'bu' and 'word' non-particle tokens)"""
    T = []
    for n in range(1, 4):
        T.append(['*'] * n)
    if thorough:                        # length 4 over the classes the pass can tell apart ('KU' stands for every other one)
        k = sorted(KNOWN)
        T += [[[x], k, k, k] for x in k]
    o = ['KU']
    pre = ['NA', 'SE', 'GAhO', 'I', 'PU', 'KU']
    post = ['NAI', 'GAhO', 'BO', 'KE', 'KU', 'PU']
    T.append([pre, pre, ['A', 'JA', 'GIhA', 'GUhA', 'JOI', 'BIhI', 'GA', 'GI'], post, post])
    T.append([['GAhO', 'KU'], ['SE', 'KU'], ['BIhI', 'JOI'], ['NAI', 'KU'], ['GAhO', 'KU'], ['BO', 'KE', 'GI', 'KU']])
    conn = ['A', 'JA', 'GIhA', 'JOI', 'BIhI', 'I', 'KU', 'GUhA']
    T.append([conn, ['NAI', 'PU', 'JA', 'JOI'], ['PU', 'KU', 'BO', 'KE'], ['JA', 'JOI', 'BO', 'KE', 'KU', 'A'], ['ZI', 'PU', 'BAI', 'BO', 'KE', 'KU'], ['BO', 'KE', 'GI', 'KU']])
    T.append([['I', 'KU', 'PU'], ['JA', 'JOI', 'BIhI', 'A'], ['NAI', 'PU'], ['PU', 'SE'], ['BO', 'KE', 'JA', 'BAI', 'KU'], ['PU', 'BO', 'KE', 'KU'], ['BO', 'GI', 'KE', 'KU']])
    T.append([['PU', 'KU'], ['JA', 'JOI', 'KU'], ['PU', 'KU', 'NAI'], ['JA', 'JOI', 'NAI', 'PU', 'GI'], ['PU', 'GI', 'KU'], ['GI', 'KU']])
    num = ['PA', 'BY', 'LAU', 'TEI', 'FOI', 'KU', 'PU', 'SE']
    T.append([num, num, num, ['MAI', 'ROI', 'MOI']])
    T.append([['bu'], ['PA', 'BY', 'KU'], ['MAI', 'ROI', 'MOI', 'KU']])
    T.append([['PA', 'BY', 'KU', 'PU'], ['bu'], ['PA', 'MAI', 'ROI', 'MOI', 'KU']])
    T.append([['PA', 'KU'], ['PA', 'KU'], ['bu'], ['MAI', 'ROI', 'MOI', 'KU']])
    T.append([['word'], '*'])
    T.append(['*', ['word']])
    T.append(['*', ['word'], '*'])
    T.append([['NAhE', 'SE', 'BAI', 'PU', 'KU'], ['NAhE', 'SE', 'BAI', 'PU', 'KU', 'NAI'], ['NAhE', 'SE', 'BAI', 'PU', 'KU', 'NAI', 'KI'], ['BAI', 'PU', 'KU', 'NAI', 'ZI', 'KI'], ['BAI', 'PU', 'KU', 'ZEhA', 'BO']])
    return T


def run(c):
    tree = Tree(['dfa', 'grammar', 'misc'])
    L = TokenLists(tree)
    paths = combos = 0
    bad = set()
    cls = lambda x: x if x in KNOWN or x in ('bu', 'word', 'BU') else 'other'
    for T in templates(c.tier == 'thorough'):
        L.reset()
        names, doms = [], []
        for i, sl in enumerate(T):
            d = [x for x in L.classes if x != 'BU'] if sl == '*' else sl      # every bu has become a letter word before this pass
            doms.append(d)
            names.append(L.word(i, 'bu', 'a') if d == ['bu'] else L.word(i, 'brivla', 'broda') if d == ['word'] else L.any(i, d))
        for p in L.categ(names, max_paths=3000000, max_steps=2000000000):
            paths += 1
            per = []
            for i, d in enumerate(doms):
                per.append(sorted({cls(d[j]) for j in p['vars'].get('k%d' % i, range(len(d)))}))
            if p['end'] != 'return' or p['out'].startswith('end='):
                w = ' '.join(x[0] for x in per)
                c.violation('completes', 'categorize_tokens', 'marking does not complete: %s' % p['out'], w)
                continue
            ob = observed(L, L.stream(p), len(T))
            for comb in itertools.product(*per):
                combos += 1
                if comb in bad:
                    continue
                if isinstance(ob, str):
                    bad.add(comb)
                    c.violation('tokens-kept', 'categorize_tokens', ob, ' '.join(comb))
                    continue
                got, op, cl, st = ob
                exp = expected(list(comb))
                m = seq_ok(op, cl, st)
                if got != exp or m:
                    bad.add(comb)
                    i = next((i for i in range(len(exp)) if got[i] != exp[i]), 0)
                    c.violation('markers', 'categorize_tokens', m or 'at word %d: opening %s closing %s free %s, expected opening %s closing %s free %s' % ((i + 1,) + got[i] + exp[i]), ' '.join(comb))
        if len(bad) > 30:
            break
    c.need('abstract lists', paths, 5000)
    c.count(templates=len(templates(c.tier == 'thorough')), abstract_paths=paths, class_sequences=combos)
    c.rule('R1: on every list of up to 3 (thorough: 4) tokens of any class, and on the longer connective / tense / number shapes, the markers inserted before and after each token are those the grammar needs there, and tokens are neither lost nor moved')


if __name__ == '__main__':
    main('P02', run)
