"""What place each term fills and how each selbri word is converted: a specification over the parse tree alone."""

SE = {'se': 2, 'te': 3, 've': 4, 'xe': 5}
FA = {'fa': 1, 'fe': 2, 'fi': 3, 'fo': 4, 'fu': 5, 'fai': 'fai', "fi'a": None}
LAST = 19                                   # places after the nineteenth are not tagged


class Place:
    def __init__(self, n):
        self.n, self.taken, self.tag, self.open = n, False, None, False


class Unsupported(Exception):
    """a construct for which the program announces that places are not worked out"""


def flat_terms(terms):
    """TERMS node -> its terms in text order; members of a termset joined with ce'e / pe'e are not places of anything"""
    out = []
    for k in terms.kids:
        if k.type == 'TERMS':
            out += flat_terms(k)
        elif k.type == 'TERMS_1' and len(k.kids) == 1 and len(k.kids[0].kids) == 1:
            out.append(k.kids[0].kids[0])
    return out


def entry(term):
    """(how, node): 'pos', a place number, 'fai', or None for a term that takes no numbered place"""
    c = term.kids[0]
    if c.type == 'TERM_PLAIN_SUMTI':
        return ('pos', term)
    if c.type == 'TERM_PLACED_SUMTI':
        return (FA[c.kids[0].bare().word], term)
    return (None, term)


def entries(terms):
    return [entry(t) for t in flat_terms(terms)] if terms is not None else []


def tail(node, inner):
    """terms of the TAIL_TERMS child, before those shared from outside"""
    t = node.kid('TAIL_TERMS')
    return (entries(t.kid('TERMS')) if t else []) + inner


class Places:
    def __init__(self, top):
        self.tags = {}                      # term node id -> set of (type, place, ref, ref2)
        self.conv = {}                      # word node id -> place its gloss is for
        self.absorbed = set()               # SE words whose effect is in a gloss
        self.brac = set()
        self.heads = set()
        self.free = set()                   # terms with a place this specification leaves open
        self.done = set()
        self.walk(top)
        for x in top.walk():                # linked sumti of words that are no selbri head
            if x.type == 'TANRU_UNIT_1' and x.id not in self.done and len(x.kids) > 1:
                self.unit2(x.kids[0], [], [], [('links', self.links(x))])
        for x in top.walk():
            if x.type is None and x.parent is not None:
                self.modifier(x)

    # ------------------------------------------------------------------ where sentences and selbri occur
    def walk(self, x):
        if x.type == 'STATEMENT_3' and len(x.kids) == 1:
            self.sentence(x.kids[0], [], [])
        elif x.type == 'ABSTRACTION':
            self.subsentence(x.kid('SUBSENTENCE'), [], [])
        elif x.type == 'FULL_RELATIVE_CLAUSE' and x.kid('SUBSENTENCE'):
            self.subsentence(x.kid('SUBSENTENCE'), [], [])
        elif x.type == 'METALINGUISTIC':
            self.selbri(x.kid('METALINGUISTIC_MAIN_SELBRI').kids[0], entries(x.kid('TERMS')), [], [])
        elif x.type in ('SUMTI_5B', 'SUMTI_TAIL_1A'):
            self.selbri(x.kid('SELBRI'), [], [], [])
        for k in x.kids:
            self.walk(k)

    def subsentence(self, x, pre, post):
        while x.kid('SUBSENTENCE'):
            x = x.kid('SUBSENTENCE')
        self.sentence(x.kid('SENTENCE'), pre, post)

    def sentence(self, x, pre, post):
        inner = x.kid('NO_CU_SENTENCE', 'OBSERVATIVE_SENTENCE')
        x = inner or x
        self.tails(x.kid('BRIDI_TAIL'), pre + entries(x.kid('TERMS')), post)

    def tails(self, x, pre, post):
        """bridi_tail, _1, _2, _3: connected tails share the terms before them and those after the connection"""
        post = tail(x, post)
        for k in x.kids:
            if k.type in ('BRIDI_TAIL', 'BRIDI_TAIL_1', 'BRIDI_TAIL_2', 'BRIDI_TAIL_3'):
                self.tails(k, pre, post)
            elif k.type == 'MAIN_SELBRI':
                self.selbri(k.kids[0], pre, post, [])
            elif k.type == 'GEK_SENTENCE':
                g = k
                while g.kid('GEK_SENTENCE'):
                    g = g.kid('GEK_SENTENCE')
                p = tail(g, post)
                for s in g.allkids('SUBSENTENCE'):
                    self.subsentence(s, pre, p)

    # ------------------------------------------------------------------ selbri
    def selbri(self, s, pre, post, chain):
        while s.type != 'SELBRI_2':
            s = s.kid('SELBRI', 'SELBRI_1', 'SELBRI_2')
        if s.kid('SELBRI_2'):                                # inversion: what stands before belongs to the first, what follows to the last
            self.sel3(s.kid('SELBRI_3'), pre, [], chain)
            while s.kid('SELBRI_2'):
                s = s.kid('SELBRI_2')
            self.sel3(s.kid('SELBRI_3'), [], post, chain)
        else:
            self.sel3(s.kid('SELBRI_3'), pre, post, chain)

    def sel3(self, s3, pre, post, chain):
        s4 = s3.kid('SELBRI_4')                              # the last component carries the places
        while s4:
            for k in s4.kids:
                if k.type == 'SELBRI_5':
                    self.sel5(k, pre, post, chain)
                elif k.type == 'KE_SELBRI_3':
                    self.sel3(k.kid('SELBRI_3'), pre, post, chain)
            s4 = s4.kid('SELBRI_4')

    def sel5(self, s5, pre, post, chain):
        while s5:
            self.sel6(s5.kid('SELBRI_6'), pre, post, chain)
            s5 = s5.kid('SELBRI_5')

    def sel6(self, s6, pre, post, chain):
        if s6.kid('SELBRI'):
            self.selbri(s6.kid('SELBRI'), pre, post, chain)
        if s6.kid('SELBRI_6'):
            self.sel6(s6.kid('SELBRI_6'), pre, post, chain)
        elif len(s6.kid('TANRU_UNIT').kids) == 1:            # (words joined with cei: places not worked out)
            u1 = s6.kid('TANRU_UNIT').kids[0]
            self.done.add(u1.id)
            self.unit2(u1.kids[0], pre, post, chain + ([('links', self.links(u1))] if len(u1.kids) > 1 else []))

    def links(self, u1):
        out, la = [], u1.kid('LINKARGS')
        while la:
            e = entry(la.kid('TERM'))
            out.append(e)
            la = la.kid('LINKS')
        return out

    def unit2(self, u2, pre, post, chain):
        c = u2.kids[0].bare()
        if c.type == 'KE_SELBRI3_TU2':
            self.sel3(c.kid('SELBRI_3'), pre, post, chain)
        elif c.type == 'SE_TU2':
            self.unit2(c.kid('TANRU_UNIT_2'), pre, post, chain + [('se', c.kids[0].bare())])
        elif c.type == 'JAI_TAG_TU2':
            inner = c.kid('TANRU_UNIT_2')
            self.brac.add(inner.id)
            self.unit2(inner, pre, post, chain + [('tag', (c.kid('TAG'), inner))])
        elif c.type == 'JAI_TU2':
            self.unit2(c.kid('TANRU_UNIT_2'), pre, post, chain + [('jai', None)])
        elif c.type == 'NAHE_TU2':
            self.unit2(c.kid('TANRU_UNIT_2'), pre, post, chain)
        elif c.type == 'ABSTRACTION':
            nns = c.kids[0]
            nu = nns.kids[0].bare()
            if nu.sel == 'NU':
                self.place(('TTT_ABSTRACTION', nu.id, 0), pre, post, chain)
                self.convert(nu, chain)
        elif c.type == 'NUMBER_MOI_TU2':
            self.place(('TTT_NUMBERMOI', c.cm('MOI').id, c.kids[0].id), pre, post, chain)
            if pre or post:
                self.brac.add(c.kids[0].id)
        elif c.kind == 'N_BRIVLA':
            self.place(('TTT_BRIVLA', c.id, 0), pre, post, chain)
            self.convert(c, chain)
        elif c.kind == 'N_ZEI':
            self.place(('TTT_ZEI', c.id, 0), pre, post, chain)
            self.convert(c, chain)
        elif c.sel == 'GOhA':
            self.place(('TTT_GOhA', c.id, 0), pre, post, chain)
            self.convert(c, chain)
        elif c.sel == 'ME':
            su = u2.kid('SUMTI')
            self.brac.add(su.id)
            self.place(('TTT_ME', su.id, 0), pre, post, chain)
        elif c.sel == 'NUhA':
            op = u2.kid('MEX_OPERATOR')
            self.brac.add(op.id)
            self.place(('TTT_NUhA', op.id, 0), pre, post, chain)
            self.convert(c, chain)
        else:
            raise Unsupported(u2.show())

    # ------------------------------------------------------------------ places
    def place(self, base, pre, post, chain):
        vis = [Place(i) for i in range(LAST + 1)]
        fai = []

        def give(term, p):
            t, r, r2 = base
            if p.open:                                       # first place after plain jai: what it is called is left open
                self.free.add(term.id)
            elif p.tag:
                self.tags.setdefault(term.id, []).append(('TTT_JAITAG', 1, p.tag[0].id, p.tag[1].id))
            else:
                self.tags.setdefault(term.id, []).append((t, p.n, r, r2))
            p.taken = True

        def fill(vec, start):
            for how, t in vec:                               # marked places first
                if how == 'fai':
                    if fai:
                        give(t, fai[-1])
                elif isinstance(how, int):
                    give(t, vis[how])
            at = start
            for how, t in vec:                               # then the others take the free places in order, going on after a marked one
                if how == 'pos':
                    while at <= LAST and vis[at].taken:
                        at += 1
                    if at <= LAST:
                        give(t, vis[at])
                        at += 1
                elif isinstance(how, int):
                    at = how + 1

        for what, x in reversed(chain):                      # from the innermost outwards
            if what == 'se':
                n = SE[x.word]
                vis[1], vis[n] = vis[n], vis[1]
            elif what == 'links':
                fill(x, 2)
            elif what == 'tag':
                fai.append(vis[1])
                vis[1] = Place(1)
                vis[1].tag = x
            elif what == 'jai':
                fai.append(vis[1])
                vis[1] = Place(1)
                vis[1].open = True
        fill(pre, 1)
        fill(post, 2)

    # ------------------------------------------------------------------ conversion of glosses
    def convert(self, word, chain):
        """a word that carries the places: the conversions up to the nearest jai + tag are part of its gloss"""
        p = list(range(6))
        for what, x in reversed(chain):
            if what == 'tag':
                break
            if what == 'se':
                n = SE[x.word]
                p[1], p[n] = p[n], p[1]
                self.absorbed.add(x.id)
        self.heads.add(word.id)
        self.conv.setdefault(word.id, set()).add(p[1])

    def modifier(self, w):
        """a brivla or abstraction that does not carry the places of a selbri"""
        if w.id in self.heads or not (w.kind == 'N_BRIVLA' or w.sel == 'NU'):
            return
        x = w
        while x and x.type != 'TANRU_UNIT_2':
            x = x.parent
        if x is None:
            return
        p = list(range(6))
        while True:
            u = x.parent
            if u.type == 'SE_TU2':
                se = u.kids[0].bare()
                n = SE[se.word]
                p[1], p[n] = p[n], p[1]
                self.absorbed.add(se.id)
            elif u.type in ('JAI_TU2', 'JAI_TAG_TU2'):
                p[1] = 0
            elif u.type in ('SELBRI_3', 'KE_SELBRI_3', 'SELBRI_5', 'TANRU_UNIT_2', 'NAHE_TU2', 'TANRU_UNIT_1', 'KE_SELBRI3_TU2'):
                pass
            elif u.type in ('TANRU_UNIT', 'SELBRI_6'):
                if x.type == 'TANRU_UNIT' and len(u.kids) > 1 and u.type == 'SELBRI_6':
                    break
            elif u.type == 'SELBRI_4':
                if u.parent.type == 'SELBRI_3' and u.parent.parent.type == 'SELBRI_3':
                    break
            else:
                break
            x = u
        self.conv.setdefault(w.id, set()).add(p[1])
