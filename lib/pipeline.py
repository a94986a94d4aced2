"""The whole translator after the reader, interpreted on abstract token lists: preprocessing, the compiled parser, every pass over the tree in the
order main() calls them, and the generic output pass with a recording driver.  Each token is a set of words; the tree and every annotation come back
as data, to be compared with specifications written over the tree alone."""
from concurrent.futures import ThreadPoolExecutor
from tokens import *
from grammar import Grammar

EXTRA = r'''
#include <string.h>
TreeNode *top; int had_syntax_error; int insert_elidables; int opt_output_width; int show_dictionary_defects, allow_cultural_rafsi, require_elidables;
extern int yyparse(void);
extern void verif_in(int id, int type, int nchildren, int brackets, int number);
extern void verif_out(int id, int type);
extern void verif_leaf(int id, int kind, int code, int selmao, int col, int elided, int eols);
extern void verif_word(const char *s);
extern void verif_zei(int id, int brackets, int number);
extern void verif_parent(int ok);
extern void p_conv(int id, int conv), p_bai(int id, int conv), p_nogloss(int id), p_glosstype(int id, int in_selbri, int is_tertau), p_brac(int id), p_tense(int id, int ctx);
extern void p_term(int id, int type, int pos, int ref, int ref2), p_ante(int id, int node), p_rel(int id, int rel), p_keha(int id), p_conn(int id, int pos, int js, int neg1, int neg2), p_pattern(const char *s);
extern void d_init(void), d_prologue(void), d_epilogue(void), d_open(int type, int sub), d_close(int type, int sub), d_eols(int n), d_loj(const char *s), d_trans(const char *s);
extern void d_stags(void), d_etags(void), d_stag(void), d_tag(const char *a, const char *b, const char *c, int brac), d_ptag(const char *s), d_begin(void);
void yyerror(char *s) { had_syntax_error = 1; }
static int verif_seq;
static void verif_number(TreeNode *x) {
  int i; XTermTags *t; int id = ++verif_seq;
  x->start_line = id;
  if (x->type == N_NONTERM) for (i=0;i<x->data.nonterm.nchildren;i++) verif_number(x->data.nonterm.children[i]);
}
static int verif_id(TreeNode *x) { return x ? x->start_line : 0; }
static int verif_ref1(XTermTag *t) {
  switch (t->type) {
    case TTT_BRIVLA: case TTT_JAI: return verif_id(t->brivla.x);
    case TTT_JAITAG: return verif_id(t->jaitag.tag);
    case TTT_ABSTRACTION: return verif_id(t->abstraction.nu);
    case TTT_ME: return verif_id(t->me.sumti);
    case TTT_GOhA: return verif_id(t->goha.goha);
    case TTT_NUhA: return verif_id(t->nuha.mex_operator);
    case TTT_NUMBERMOI: return verif_id(t->numbermoi.moi);
    case TTT_ZEI: return verif_id(t->zei.zei);
  }
  return -1;
}
static int verif_ref2(XTermTag *t) {
  switch (t->type) {
    case TTT_JAITAG: return verif_id(t->jaitag.inner_tu2);
    case TTT_NUMBERMOI: return verif_id(t->numbermoi.number_or_lerfu);
    default: return 0;
  }
}
static void verif_dump(TreeNode *x) {
  int i, id = verif_id(x); XTermTags *t; XConversion *c; XBaiConversion *b; XGlosstype *g; XTenseCtx *tc; XAntecedent *an; XRelClauseLink *rl; XConnective *xc;
  if (x->type == N_NONTERM) verif_in(id, x->data.nonterm.type, x->data.nonterm.nchildren, x->data.nonterm.brackets, x->data.nonterm.number);
  else {
    verif_leaf(id, x->type, x->type == N_CMAVO ? x->data.cmavo.code : x->type == N_MARKER ? x->data.marker.tok : -1, x->type == N_CMAVO ? x->data.cmavo.selmao : -1, x->start_column, prop_elidable(x, NO) != 0, x->eols);
    if (x->type == N_ZEI) verif_zei(id, x->data.zei.brackets, x->data.zei.number);
    verif_word(x->type == N_BRIVLA ? x->data.brivla.word : x->type == N_CMENE ? x->data.cmene.word : x->type == N_ZEI ? x->data.zei.sep_with_zei : x->type == N_ZO ? x->data.zo.text : x->type == N_LOhU ? x->data.lohu.text : x->type == N_BU ? x->data.bu.word : "");
  }
  if ((c = prop_conversion(x, NO))) p_conv(id, c->conv);
  if ((b = prop_bai_conversion(x, NO))) p_bai(id, b->conv);
  if (prop_dont_gloss(x, NO)) p_nogloss(id);
  if ((g = prop_glosstype(x, NO))) p_glosstype(id, g->in_selbri, g->is_tertau);
  if (prop_require_brac(x, NO)) p_brac(id);
  if ((tc = prop_tense_ctx(x, NO))) p_tense(id, tc->ctx);
  for (t = prop_term_tags(x, NO); t; t = t->next) p_term(id, t->tag.type, t->tag.pos, verif_ref1(&t->tag), verif_ref2(&t->tag));
  if ((an = prop_antecedent(x, NO))) p_ante(id, verif_id(an->node));
  if ((rl = prop_rel_clause_link(x, NO))) p_rel(id, verif_id(rl->rel));
  if (prop_contains_keha(x, NO)) p_keha(id);
  if ((xc = prop_connective(x, NO))) { int after = xc->pos == CNP_AFTER || xc->pos == CNP_GE || xc->pos == CNP_GI; p_conn(id, xc->pos, after ? 0 : verif_id(xc->js), after ? 0 : xc->neg1, after ? 0 : xc->neg2); if (after) p_pattern(xc->pattern); }
  if (x->type == N_NONTERM) { for (i=0;i<x->data.nonterm.nchildren;i++) verif_dump(x->data.nonterm.children[i]); verif_out(id, x->data.nonterm.type); }
}
static void o_init(void) { d_init(); }
static void o_prologue(void) { d_prologue(); }
static void o_epilogue(void) { d_epilogue(); }
static void o_open(BracketType t, int s) { if (t != BR_NONE) d_open(t, s); }
static void o_close(BracketType t, int s) { if (t != BR_NONE) d_close(t, s); }
static void o_eols(int n) { d_eols(n); }
static void o_loj(char *s) { d_loj(s); }
static void o_trans(char *s) { d_trans(s); }
static void o_stags(void) { d_stags(); }
static void o_etags(void) { d_etags(); }
static void o_stag(void) { d_stag(); }
static void o_tag(char *a, char *b, char *c, int br) { d_tag(a, b, c, br); }
static void o_ptag(char *s) { d_ptag(s); }
static DriverVector verif_driver = { o_init, o_prologue, o_epilogue, o_open, o_close, o_eols, o_loj, o_trans, o_stags, o_etags, o_stag, o_tag, o_ptag };
static int verif_dict;
static char *verif_buf(void) { static char b[64][512]; static int n; n = (n + 1) & 63; return b[n]; }
static int verif_contextual(char *w) { int n = 0; for (; *w; w++) { if (*w == '@' || *w == '_') return 1; n = *w >= '0' && *w <= '9'; } return n; }
char *translate(char *w) {
  char *b; int c = verif_contextual(w);
  if (verif_dict & (c ? 2 : 1)) return NULL;
  b = verif_buf(); strcpy(b, "<"); strcat(b, w); strcat(b, ">"); return b;
}
char *adv_translate(char *w, int place, TransContext ctx) {
  static char b[512]; char *k = ctx == TCX_NOUN ? "n" : ctx == TCX_VERB ? "v" : ctx == TCX_QUAL ? "q" : "t";
  sprintf(b, "<%s:%d%s>", w, place, k); return b;
}
char *translate_unknown(char *w, int place, TransContext ctx) { char *b; if (verif_dict & 4) return NULL; b = verif_buf(); strcpy(b, "?u"); return b; }
int verif_passes(TreeNode **v, int n, int how) {
  int i, r;
  had_bad_tokens = 0; had_syntax_error = 0;
  lex2_initialise();
  for (i=0;i<n;i++) add_token(v[i]);
  preprocess_tokens();
  if (had_bad_tokens) { verif_end(3); return 3; }
  r = yyparse();
  if (r || had_syntax_error) { verif_end(r ? 1 : 2); return 1; }
  verif_end(0);
  if (how & 1) expand_bahe_ui(top);
  if (how & 2) error_scan(top);
  if (how & 4) { terms_processing(top); do_conversions(top); tense_processing(top); connectives_processing(top); relative_clause_processing(top); add_bracketing_tags(top); }
  verif_number(top);
  verif_dump(top);
  verif_dict = how >> 4 & 15;
  if (how & 8) { d_begin(); do_output(top, &verif_driver); }
  if (how & 256) compress_singletons(top);
  if (how & 512) { d_begin(); print_parse_tree(top); }
  if (how & 1024) { d_begin(); print_bracketed_text(top, (how & 2048) != 0); }
  return 0;
}
'''

ALL = 15
WORDS = {'BRIVLA': 'broda', 'CMENE': 'djan'}


class Node:
    __slots__ = ('id', 'type', 'kids', 'parent', 'kind', 'word', 'sel', 'col', 'el', 'eols', 'p', 'brac', 'num', 'text', 'code')

    def __init__(self, **kw):
        self.kids, self.parent, self.p, self.type, self.kind, self.sel, self.word, self.text, self.col, self.el, self.eols, self.brac, self.num, self.code = [], None, {}, None, None, None, None, None, 0, 0, 0, 0, 0, -1
        for k, v in kw.items():
            setattr(self, k, v)

    def walk(self):
        yield self
        for k in self.kids:
            yield from k.walk()

    def leaves(self):
        return [x for x in self.walk() if x.type is None]

    def kid(self, *types):
        return next((k for k in self.kids if k.type in types), None)

    def allkids(self, typ):
        return [k for k in self.kids if k.type == typ]

    def cm(self, sel):
        """first child that is a particle of the selma'o, indicators and free modifiers looked through"""
        for k in self.kids:
            b = k.bare()
            if b.sel == sel:
                return b
        return None

    def bare(self):
        """the thing itself, with attached indicators/frees/ba'e taken off"""
        x = self
        while x.type == 'AUGMENTED' and x.kids:
            x = next((c for c in x.kids if c.sel != 'BAhE'), x.kids[0])
        return x

    def up(self, *types):
        x = self.parent
        while x and x.type not in types:
            x = x.parent
        return x

    def show(self):
        if self.type is None:
            return self.word or self.kind
        return '%s(%s)' % (self.type, ' '.join(k.show() for k in self.kids))


PASSES = ['terms_processing', 'do_conversions', 'tense_processing', 'connectives_processing', 'relative_clause_processing', 'add_bracketing_tags']


class Pipeline(TokenLists):
    MORE = ['rpc_tab', 'tree', 'errorscan', 'terms', 'conversion', 'tenses', 'connect', 'relative', 'output']

    def __init__(self, tree, share=None, order=PASSES):
        if share is None:
            calls = ''.join('%s(top); ' % p for p in PASSES)
            assert calls in EXTRA
            TokenLists.__init__(self, tree, EXTRA.replace(calls, ''.join('%s(top); ' % p for p in order)), self.MORE)
            self.ntname = {v: k for k, v in self.nt.items()}
            self.tsc = {v: k for k, v in tree.consts({k: k for k in ['TSC_OTHER', 'TSC_SELBRI', 'TSC_TERM', 'TSC_NOUN', 'TSC_LINK', 'TSC_CONNECT', 'TSC_JAITAG']}).items()}
            self.ttt = {v: k for k, v in tree.consts({k: k for k in ['TTT_BRIVLA', 'TTT_JAITAG', 'TTT_JAI', 'TTT_ABSTRACTION', 'TTT_ME', 'TTT_GOhA', 'TTT_NUhA', 'TTT_NUMBERMOI', 'TTT_ZEI']}).items()}
            self.cnp = {v: k for k, v in tree.consts({k: k for k in ['CNP_GE', 'CNP_GI', 'CNP_GE_JOIK', 'CNP_GI_JOIK', 'CNP_GE_STAG', 'CNP_GI_STAG', 'CNP_AFTER']}).items()}
            self.br = {v: k for k, v in tree.consts({k: k for k in re.findall(r'\bBR_[A-Z]+\b', tree.read('nodes.h'))}).items()}
        else:
            self.__dict__.update(share.__dict__)
            self.eng = Engine(share.eng.bc)
        self.reset()

    def clone(self):
        return Pipeline(self.tree, self)

    def token(self, i, t):
        """t: a selma'o, 'SEL/word', a list of those (a set of words), or BRIVLA / CMENE / ('zoi', text) / ('laho', text)"""
        if t == 'BRIVLA':
            return self.word(i, 'brivla', 'broda')
        if t == 'CMENE':
            return self.word(i, 'cmene', 'djan')
        if isinstance(t, tuple):
            return self.word(i, *t)
        return self.any(i, [t] if isinstance(t, str) else list(t))

    def run(self, toks, how=ALL, elided=0, elisions=0):
        """interpret the passes; a list of Result, one per abstract path"""
        self.reset()
        self.toks = toks
        names = [self.token(i, t) for i, t in enumerate(toks)]
        self.objs.append({'obj': 'vec', 'size': 8 * max(1, len(names)), 'init': 'undef', 'cells': [{'off': 8 * i, 'size': 8, 'val': {'ref': n}} for i, n in enumerate(names)]})
        ps = self.eng.eval('verif_passes', [{'ref': 'vec'}, len(names), how], objs=self.objs, pokes=self.pokes, extern_event=True, mem_end=True,
                           globals={'show_elisions': elisions, 'insert_elidables': elided}, stubs={'report_trace_shift': {'event': False}, 'report_trace_reduce': {'event': False}, 'report_trace_error': {'event': False}, 'Free': {'event': False, 'free': True}}, max_steps=30000000, **({'heap_zero': True} if elisions else {}))
        return [Result(self, p, toks) for p in ps]


class Result:
    def __init__(self, L, p, toks):
        self.L, self.p, self.toks = L, p, toks
        self.end, self.vars = p['end'], p.get('vars', {})
        self.status, self.top, self.nodes, self.out, self.err, self.badparent = None, None, {}, None, [], []
        stack = []
        for e in p['events']:
            a = [int(x) if re.match(r'^-?\d+$', x) else x[1:-1] if x[:1] == '"' and x[-1:] == '"' else x for x in e[1:]]
            f = e[0]
            if f == 'verif_end':
                self.status = a[0]
            elif f == 'verif_in' or f == 'verif_leaf':
                if f == 'verif_in':
                    n = Node(id=a[0], type=L.ntname.get(a[1], a[1]), brac=L.br.get(a[3], a[3]), num=a[4])
                else:
                    n = Node(id=a[0], kind=L.kind.get(a[1], a[1]), code=a[2], sel=L.tokname.get(a[3]) if isinstance(a[3], int) else None, col=a[4], el=a[5], eols=a[6])
                    if n.kind == 'N_CMAVO' and n.el and isinstance(n.code, int):
                        n.word = L.table[n.code][0]['str']
                    if n.kind == 'N_MARKER':
                        n.sel = L.tokname.get(n.code, n.code)
                if stack:
                    n.parent = stack[-1]
                    stack[-1].kids.append(n)
                else:
                    self.top = n
                self.nodes[n.id] = n
                if f == 'verif_in':
                    stack.append(n)
            elif f == 'verif_out':
                stack.pop()
            elif f == 'verif_word':
                n.text = a[0]
            elif f == 'verif_zei':
                self.nodes[a[0]].brac, self.nodes[a[0]].num = L.br.get(a[1], a[1]), a[2]
            elif f == 'verif_parent':
                self.badparent.append(a[0])
            elif f.startswith('p_'):
                if f == 'p_pattern':
                    last[1].append(a[0])
                else:
                    d = self.nodes[a[0]].p
                    last = (d, list(a[1:]))
                    if f == 'p_term':
                        d.setdefault('term', []).append(tuple(a[1:]))
                    else:
                        d[f[2:]] = last[1]
            elif f == 'd_begin':
                self.out = []
            elif f.startswith('d_'):
                self.out.append((f[2:],) + tuple(a))
            else:
                self.err.append((f,) + tuple(a))
        self.assign(None)

    def choices(self):
        """the word choices of this path: one dict token index -> word per member (bounded)"""
        import itertools
        per = []
        for i, t in enumerate(self.toks):
            if t in ('BRIVLA', 'CMENE') or isinstance(t, tuple):
                continue
            ms = [t] if isinstance(t, str) else list(t)
            dom = self.vars.get('k%d' % i)
            per.append((i, [ms[k] for k in (dom if dom is not None else range(len(ms)))]))
        for combo in itertools.product(*[m for _, m in per]):
            yield dict(zip([i for i, _ in per], combo))

    def assign(self, choice):
        """give every word node the word and class it has under one choice"""
        if choice is None:
            choice = next(self.choices(), {})
        self.text = [choice[i].split('/')[1] if '/' in choice.get(i, '') else self.L.rep[choice[i]] if i in choice else t[1] if isinstance(t, tuple) else WORDS.get(t, t) for i, t in enumerate(self.toks)]
        for n in self.nodes.values():
            if n.type is None and not n.el and n.kind == 'N_CMAVO' and (n.col - 1) in choice:
                c = choice[n.col - 1]
                n.sel, n.word = c.split('/')[0], self.L.wordof(c)
            elif n.type is None and n.kind in ('N_BRIVLA', 'N_CMENE', 'N_ZEI', 'N_ZO', 'N_LOhU', 'N_BU'):
                n.word = n.text
        return self


class Sentences:
    """Token lists derived from the grammar bison reads: every production, and every production inside every production, in the smallest context."""

    def __init__(self, G, skip=('error', 'IMPOSSIBLE_TOKEN')):
        self.G = G
        self.rules = {n: r for n, r in G.rules.items() if n and not set(r[1]) & set(skip) and n not in G.useless}
        self.by = {}
        for n, (l, r) in self.rules.items():
            self.by.setdefault(l, []).append(n)
        self.best = {}
        # a free modifier that takes nothing of what follows
        fixed = {f: (('TO', 'KOhA', 'TOI'), None) for f in ('free', 'free_seq') if f in G.nonterminals}
        self.best.update(fixed)
        ch = True
        while ch:
            ch = False
            for n, (l, r) in self.rules.items():
                if l in fixed:
                    continue
                y = self.yield_of(r)
                if y is not None and (l not in self.best or self.cost(y) < self.cost(self.best[l][0])):
                    self.best[l] = (y, n)
                    ch = True
        # smallest context of each nonterminal
        self.ctx = {G.start: ((), ())}
        work = [G.start]
        while work:
            nxt = []
            for a in work:
                pre, post = self.ctx[a]
                for n in self.by.get(a, ()):
                    r = self.rules[n][1]
                    for i, s in enumerate(r):
                        if s in G.nonterminals:
                            x, y = self.yield_of(r[:i]), self.yield_of(r[i + 1:])
                            if x is None or y is None:
                                continue
                            c = (pre + x, y + post)
                            if s not in self.ctx or len(c[0]) + len(c[1]) < len(self.ctx[s][0]) + len(self.ctx[s][1]):
                                self.ctx[s] = c
                                nxt.append(s)
            work = nxt

    def sym(self, s):
        if s in self.G.nonterminals:
            return self.best[s][0] if s in self.best else None
        if s.startswith('PRIVATE_') or s == '$end':
            return ()
        return ((('bu', 'abu') if s == 'BU' else s),)

    @staticmethod
    def cost(y):
        return (sum(1.0 if t in ('KOhA', 'BRIVLA', 'PA') else 1.2 for t in y), [str(t) for t in y])

    def yield_of(self, syms):
        out = ()
        for s in syms:
            y = self.sym(s)
            if y is None:
                return None
            out += y
        return out

    def singles(self):
        for n, (l, r) in sorted(self.rules.items()):
            y = self.yield_of(r)
            if y is not None and l in self.ctx:
                yield self.ctx[l][0] + y + self.ctx[l][1]

    def below(self, root, leaf, mark=None, avoid=()):
        """expansions of root with the token leaf somewhere inside: for every nonterminal that can lie between the two (those of avoid are not passed through)
        and each way its productions (terminators and free modifiers aside) lead on towards the leaf, the shortest one"""
        mark = mark or leaf
        down = {}
        ch = True
        while ch:
            ch = False
            for n, (l, r) in sorted(self.rules.items()):
                for i, s in enumerate(r):
                    d = (mark,) if s == leaf else down.get(s)
                    x, y = self.yield_of(r[:i]), self.yield_of(r[i + 1:])
                    if d is None or x is None or y is None or l == 'free_seq' or l in avoid:
                        continue
                    t = x + d + y
                    if l not in down or self.cost(t) < self.cost(down[l]):
                        down[l] = t
                        ch = True
        ctx = {root: ((), ())}
        work = [root]
        out = {}
        while work:
            nxt = []
            for a in sorted(work):
                for n in self.by.get(a, ()):
                    r = self.rules[n][1]
                    for i, s in enumerate(r):
                        if s != leaf and s not in down:
                            continue
                        x, y = self.yield_of(r[:i]), self.yield_of(r[i + 1:])
                        if x is None or y is None:
                            continue
                        if s in down:
                            c = (ctx[a][0] + x, y + ctx[a][1])
                            if s not in ctx or len(c[0]) + len(c[1]) < len(ctx[s][0]) + len(ctx[s][1]):
                                ctx[s] = c
                                nxt.append(s)
            work = nxt
        for a in ctx:
            for n in self.by.get(a, ()):
                r = self.rules[n][1]
                for i, s in enumerate(r):
                    if s != leaf and s not in down:
                        continue
                    x, y = self.yield_of(r[:i]), self.yield_of(r[i + 1:])
                    if x is None or y is None:
                        continue
                    t = ctx[a][0] + x + ((mark,) if s == leaf else down[s]) + y + ctx[a][1]
                    k = (a, s, tuple(q for q in r[:i] if q in self.G.nonterminals and q != 'free_seq'), tuple(q for q in r[i + 1:] if q in self.G.nonterminals and q != 'free_seq'))
                    if k not in out or (len(t), str(t)) < (len(out[k]), str(out[k])):
                        out[k] = t
        return sorted({str(t): t for t in out.values()}.values(), key=lambda t: (len(t), str(t)))

    def within(self, nt, inner):
        """a whole text with the expansion inner of nt in the smallest context"""
        return [list(self.ctx[nt][0] + t + self.ctx[nt][1]) for t in inner]

    def pairs(self):
        for n, (l, r) in sorted(self.rules.items()):
            if l not in self.ctx:
                continue
            for i, s in enumerate(r):
                for m in self.by.get(s, ()):
                    parts = [self.yield_of(r[:i]), self.yield_of(self.rules[m][1]), self.yield_of(r[i + 1:])]
                    if None not in parts:
                        yield self.ctx[l][0] + parts[0] + parts[1] + parts[2] + self.ctx[l][1]


_job = {}


def _work(span):
    try:
        p = _job.get('mine')
        if p is None:
            p = _job['mine'] = _job['pipe'].clone()
        s0 = dict(p.eng.stats)
        out = [_job['fn'](p, j) for j in _job['jobs'][span[0]:span[1]]]
        return out, {k: p.eng.stats[k] - s0[k] for k in s0}, None
    except Broken as e:
        return None, None, str(e)


def pmap(pipe, jobs, fn, n=8):
    """fn(pipe, job) over all jobs, in n processes each with its own engine"""
    import multiprocessing as mp
    if pipe.eng.p:
        pipe.eng.p.kill()
        pipe.eng.p = None
    _job.update(pipe=pipe, fn=fn, jobs=jobs, mine=None)
    step = max(1, min(50, len(jobs) // (4 * n)))
    out = []
    with mp.get_context('fork').Pool(n) as pool:
        for r, st, err in pool.imap(_work, [(i, i + step) for i in range(0, len(jobs), step)]):
            if err:
                raise Broken(err)
            out += r
            for k in st:
                pipe.eng.stats[k] += st[k]
    return out


# what can stand inside a selbri without being part of its own chain of words
SELBRI_ONLY = ('sumti', 'subsentence', 'sentence', 'terms', 'term', 'tag', 'stag', 'mex', 'mex_operator', 'quantifier', 'number', 'text', 'free', 'operand')
ANYFA, ANYSE = ['FA/fa', 'FA/fe', 'FA/fi', 'FA/fo', 'FA/fu', 'FA/fai', "FA/fi'a"], ['SE/se', 'SE/te', 'SE/ve', 'SE/xe']


def family(S, pairs=True, mood=True, longest=13, lift=None):
    """sentences of the grammar: every production in its smallest context, every production inside every production,
    and every production with an attitudinal after each word in turn"""
    lift = lift or {}
    out = set(S.singles())
    if mood:
        for s in sorted(out, key=str):
            for i in range(1, len(s) + 1):
                if s[i - 1] not in ('ZO', 'ZEI', 'SI', 'SA', 'SU', 'LOhU', 'ZOI', 'BU') and len(s) < longest:
                    out.add(s[:i] + ('UI',) + s[i:])
    if pairs:
        out |= {s for s in S.pairs() if len(s) <= longest}
    return [[lift.get(t, t) if isinstance(t, str) else t for t in s] for s in sorted(out, key=lambda s: (len(s), str(s)))]


def survey(L, jobs, judge, how, elided=0):
    """run every token list, give each parsed result (with each choice of words) to judge(result, sentence) -> list of complaints"""
    def one(p, toks):
        n, parsed, out = 0, 0, []
        for r in p.run(toks, how=how, elided=elided):
            n += 1
            if r.end != 'return' or r.status is None:
                if r.end == 'exit':
                    continue
                out.append(('completes', '', 'analysis does not complete: %s' % r.p.get('out', r.end), toks))
                continue
            if r.status:
                continue
            for ch in r.choices():
                r.assign(ch)
                parsed += 1
                for x in judge(r):
                    out.append(x + (spell(r, toks),))
        return n, parsed, out
    return pmap(L, jobs, one)


def spell(r, toks):
    """the sentence in words"""
    ch = next(r.choices(), {})
    w = {n.col - 1: n.word for n in r.nodes.values() if n.type is None and n.word and not n.el}
    return ' '.join(str(w.get(i) or (t[1] if isinstance(t, tuple) else t)) for i, t in enumerate(toks))


def thin(toks, full=2):
    """bound the product of word choices: the first sets whole, later ones by two or three members"""
    out, n = [], 0
    for t in toks:
        if isinstance(t, list):
            n += 1
            t = t if n <= full else t[1:4] if n == full + 1 else t[:3:2] if n == full + 2 else t[1:2]
        out.append(t)
    return out
