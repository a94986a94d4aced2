"""What the gloss output shows for a parse tree: a specification of words, glosses, brackets and place tags, written over the tree and its annotations."""
from places import SE

B, L, LI, E, T = 'both', 'lojban', 'lojban+indicators', 'english', 'tag'
CTX = {'TSC_OTHER': '', 'TSC_TERM': '@TERM', 'TSC_NOUN': '@NOUN', 'TSC_SELBRI': '@SELBRI', 'TSC_LINK': '@LINK', 'TSC_CONNECT': '@CONNECT', 'TSC_JAITAG': '@JAI'}
CAI = {'cai', 'sai', "ru'e", "cu'i", 'pei'}
CONNECT = ('JEK', 'JEK_OPT_KE', 'JEK_OPT_KEBO', 'EK', 'GIHEK', 'GEK', 'GIK', 'GUHEK')
FREEWORDS = ('UI', 'BAhE', 'Y', 'DAhO', 'FUhO')
SEPREFIX = ['', 'se', 'te', 've', 'xe']


def contextual(key):
    return '@' in key or '_' in key or key[-1:].isdigit()


class Gloss:
    def __init__(self, result, dict_mode):
        self.r, self.mode = result, dict_mode
        self.out = []
        self.show(result.top, B)

    # ---------------------------------------------------------------- dictionary as the recording stub answers
    def look(self, key):
        return None if self.mode & (2 if contextual(key) else 1) else '<%s>' % key

    def adv(self, word, place, use):
        return '<%s:%d%s>' % (word, place, use)

    def unknown(self):
        return None if self.mode & 4 else '?u'

    # ---------------------------------------------------------------- words
    def suffixes(self, n):
        """(negated, intensity words) of an indicator, from the text itself"""
        w = self.r.text
        i = n.col
        neg = ''
        if i < len(w) and w[i] == 'nai':
            neg, i = 'nai', i + 1
        cai = ''
        if i < len(w) and w[i] in CAI:
            cai = w[i]
            if i + 1 < len(w) and w[i + 1] == 'nai' and cai != "cu'i":
                cai += 'nai'
        return neg, cai

    def context(self, n):
        return CTX[self.r.L.tsc[n.p['tense'][0]]] if 'tense' in n.p else None

    def convertible(self, word, n):
        """a word with places: by place and use when its use is known"""
        conv = n.p.get('conv', [1])[0]
        g = n.p.get('glosstype')
        if g:
            return self.adv(word, conv, 'q' if not g[1] else 'v' if g[0] else 'n')
        t = self.look('%s%d' % (word, conv))
        if t is None:
            t = self.look(word)
            if t is not None and 'conv' in n.p:
                t += ' (CONV?)'
        return t if t is not None else self.unknown()

    def word(self, n):
        """(shown text, gloss or None)"""
        k, w = n.kind, n.word
        if k == 'N_CMAVO':
            loj, s = w, n.sel
            if s == 'BAI':
                key = SEPREFIX[n.p['bai'][0] - 1] + w if 'bai' in n.p else w
                t = self.look(key + '@JAI') if self.context(n) == '@JAI' else None
                t = t if t is not None else self.look(key)
                if t is None:
                    t = self.look(w)
                    t = '?' if t is None else t + ' (CONV?)'
            elif s in ('SE', 'GOI'):
                t = None if 'nogloss' in n.p else self.look(w)
            elif s == 'KOhA':
                t = self.look(w)
                if w == "ke'a" and 'rel' in n.p:
                    rc = self.r.nodes[n.p['rel'][0]]
                    if 'ante' in rc.p:
                        t = (t or '') + ' #%d' % self.r.nodes[rc.p['ante'][0]].num
            elif s == 'NU':
                t = self.convertible(w, n)
            elif s in ('PU', 'ZAhO', 'VA', 'FAhA'):
                c = self.context(n)
                t = self.look(w + c) if c is not None else None
                t = t if t is not None else self.look(w)
            elif s in ('UI', 'CAI'):
                neg, cai = self.suffixes(n)
                loj = w + neg + (' ' + cai if cai else '')
                t = self.look(w + neg)
                if t is not None:
                    c = ''
                    if cai:
                        c = self.look(cai)
                        c = ('?' if c is None else c) + ' '
                    t = '{' + c + t + '..}'
            elif s == 'JAI':
                g = n.p.get('glosstype')
                t = self.look('jai_' + ('a' if not g or not g[1] else 'v' if g[0] else 'n'))
                t = t if t is not None else self.look(w)
            else:
                t = self.look(w)
            if n.el:
                loj = ''.join(c.upper() if c.islower() and c != 'h' else c for c in w)
            return loj, t
        if k == 'N_ZOI':
            return 'zoi gy %s gy' % n.word, self.look(n.word) or '?'
        if k == 'N_ZO':
            return 'zo ' + n.word, '"%s"' % (self.look(n.word) or '?')
        if k == 'N_LOhU':
            return "lo'u %s le'u" % n.word, self.look(n.word) or '?'
        if k == 'N_BU':
            return n.word + '.bu', self.look(n.word + '.bu') or '?'
        if k == 'N_BRIVLA':
            return n.word, self.convertible(n.word, n)
        if k == 'N_CMENE':
            return n.word, '[NAME]'
        if k == 'N_ZEI':
            parts = n.word.split(' zei ')
            t = self.convertible('+'.join(parts), n)
            if t is None or t[0] == '?':
                t = ' type-of '.join(self.look(p) or '?' for p in parts)
            return n.word, t
        raise ValueError(k)

    # ---------------------------------------------------------------- output
    def lojban(self, m):
        return m in (B, L, LI)

    def english(self, m):
        return m in (B, E)

    def trans(self, t):
        self.out.append(('trans', t))

    def tagtext(self, t):
        self.out.append(('tag', '', '', t, 0))

    def say(self, m, t):
        """the translation of a connective, into the text or into a tag"""
        self.tagtext(t) if m == T else self.trans(t)

    def bracket(self, what, n, m):
        if self.lojban(m) and n.brac not in (0, 'BR_NONE'):
            self.out.append((what, n.brac, n.num))

    def show(self, n, m):
        if n.type is None:
            return self.leaf(n, m)
        self.bracket('open', n, m)
        t = n.type
        if t == 'SELBRI_3' and len(n.kids) == 2:
            self.show(n.kids[0], m)
            if self.english(m):
                self.trans('[type-of]')
            self.show(n.kids[1], m)
        elif t == 'TERM':
            if self.lojban(m) and n.p.get('term'):
                self.tags(n)
            self.every(n, m)
        elif t == 'NO_CU_SENTENCE' and len(n.kids) == 2:
            self.show(n.kids[0], m)
            if self.english(m):
                self.trans('[is, does]')
            self.show(n.kids[1], m)
        elif t == 'TIME_OFFSET':
            self.time_offset(n, m)
        elif t in ('SPACE_INT_PROP', 'INTERVAL_PROPERTY', 'NUMBER_MOI_TU2'):
            self.cluster(n, m)
        elif t == 'SUMTI_TAIL' and n.kids[0].type == 'SUMTI_6':
            if self.lojban(m):
                self.show(n.kids[0], L)
                self.trans(' ')
            self.every(n, m, 1)
            if self.english(m):
                self.trans('[of]')
                self.show(n.kids[0], E)
        elif t == 'SUMTI_5A' and len(n.kids) == 2 or t == 'SUMTI_TAIL_1' and n.kids[0].type == 'QUANTIFIER' and n.kids[1].type == 'SUMTI':
            self.show(n.kids[0], m)
            if self.english(m):
                self.trans('(of)')
            self.every(n, m, 1)
        elif t in CONNECT:
            if self.lojban(m):
                for k in n.kids:
                    self.show(k, LI)
            if m in (B, E, T):
                self.connective(n, m)
        else:
            self.every(n, m)
        self.bracket('close', n, m)

    def every(self, n, m, start=0):
        for k in n.kids[start:]:
            self.show(k, m)

    def leaf(self, n, m):
        self.bracket('open', n, m)
        loj, t = self.word(n)
        if n.kind != 'N_ZEI':
            loj = ('.' if loj[:1] in 'aeiou' else '') + loj + ('.' if n.kind == 'N_CMENE' else '')
        if self.lojban(m):
            self.out.append(('loj', loj))
        if t and (m in (B, E) or m == LI and n.sel in FREEWORDS):
            self.trans(t)
        if t and m == T:
            self.tagtext(t)
        self.bracket('close', n, m)

    def tags(self, n):
        o = self.out
        o.append(('stags',))
        for typ, pos, ref, ref2 in n.p['term']:
            typ = self.r.L.ttt[typ]
            x = self.r.nodes.get(ref)
            o.append(('stag',))
            if typ in ('TTT_BRIVLA', 'TTT_JAI', 'TTT_ABSTRACTION'):
                o.append(('tag', x.word, str(pos), self.adv(x.word, pos, 't'), 1))
            elif typ == 'TTT_JAITAG':
                o.append(('ptag', 'jai+<tag>1: ('))
                self.show(x, T)
                o.append(('ptag', '#%d)' % self.r.nodes[ref2].num))
            elif typ == 'TTT_ME':
                o.append(('tag', 'me', '%d..' % pos, self.adv('me', pos, 't'), 1))
            elif typ == 'TTT_NUMBERMOI':
                o.append(('tag', '#%d-%s%d' % (self.r.nodes[ref2].num, x.word, pos), '', self.adv(x.word, pos, 't'), 1))
            elif typ == 'TTT_GOhA':
                o.append(('tag', '%s%d' % (x.word, pos), '', '', 1))
            elif typ == 'TTT_NUhA':
                o.append(('tag', '#%d-%d' % (x.num, pos), '', '', 1))
            elif typ == 'TTT_ZEI':
                o.append(('tag', '#%d-%d' % (x.num, pos), '', self.adv('+'.join(x.word.split(' zei ')), pos, 't'), 1))
        o.append(('etags',))

    def in_context(self, key, c):
        t = self.look(key + c) if c is not None else None
        return t if t is not None else self.look(key)

    def time_offset(self, n, m):
        parts = [n.cm(s) for s in ('PU', 'NAI', 'ZI')]
        words = [p.word for p in parts if p]
        t = self.in_context(''.join(words), self.context(n))
        if t is None:
            t = ' '.join(self.look(w) or '?' for w in words)
        if self.lojban(m):
            for k in n.kids:
                self.show(k, LI)
        if self.english(m):
            self.trans(t)
        elif m == T:
            self.tagtext(t)

    def cluster(self, n, m):
        words = ''.join(x.word for x in n.leaves() if x.kind in ('N_CMAVO', 'N_BU') and x.sel not in FREEWORDS)
        t = self.in_context(words, self.context(n) or '')
        if t is None:
            return self.every(n, m)
        if self.lojban(m):
            for k in n.kids:
                self.show(k, LI)
        if m in (B, E, T):
            self.say(m, t)

    def connective(self, n, m):
        pos, js, neg1, neg2 = n.p['conn'][:4]
        pos = self.r.L.cnp[pos]
        if pos in ('CNP_AFTER', 'CNP_GE', 'CNP_GI'):
            t = self.look(n.p['conn'][4] + '@' + pos[4:])
            if t is not None:
                self.say(m, t)
        elif pos == 'CNP_GE_STAG':
            if neg1:
                self.say(m, 'something other than')
        elif pos == 'CNP_GI_STAG':
            self.show(self.r.nodes[js], T if m == T else E)
            if neg2:
                self.say(m, 'other than')
        elif pos == 'CNP_GI_JOIK':
            if neg2:
                self.say(m, 'other than')
            self.show(self.r.nodes[js], T if m == T else E)
