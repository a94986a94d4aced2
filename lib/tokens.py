"""Abstract token lists for the passes between reader and parser.  Each token is an abstract value over a set of token kinds; the passes are
interpreted on the abstract list and the resulting stream is read back through the parser's own entry point."""
from trees import *

HARNESS = r'''
#include <stddef.h>
#include "functions.h"
#include "cmavotab.h"
#include "nodes.h"
#define YYSTYPE TreeNode *
#include "rpc2x_act.tab.h"
YYSTYPE yylval; YYLTYPE yylloc, full_yylloc;
int show_elisions, show_elisions_verbose;
extern void verif_item(int kind, int col, int same, int line);
extern void verif_marker(int tok, int line, int col);
extern void verif_text(const char *s);
extern void verif_plus(const char *s);
extern void verif_bahe(int col);
extern void verif_ui(int col, int neg, int cai);
extern void verif_kid(int col);
extern void verif_free(int f);
extern void verif_end(int how);
extern void verif_bad(int n);
extern int had_bad_tokens;
static void verif_node(TreeNode *x, int value) {
  TreeNode *b, *u; int i;
  if (x->type == N_MARKER) { if (value >= 0 && value != x->data.marker.tok) verif_bad(9); verif_marker(x->data.marker.tok, x->start_line, x->start_column); return; }
  verif_item(x->type, x->start_column, x->type == N_CMAVO ? (value < 0 || value == x->data.cmavo.selmao) : value, x->start_line);
  if (x->type == N_ZO) verif_text(x->data.zo.text);
  if (x->type == N_LOhU) verif_text(x->data.lohu.text);
  if (x->type == N_BU) verif_text(x->data.bu.word);
  if (x->type == N_ZEI) { verif_plus(x->data.zei.sep_with_plus); verif_text(x->data.zei.sep_with_zei); for (i=0;i<x->data.zei.nchildren;i++) verif_kid(x->data.zei.children[i]->start_column); }
  if (x->type == N_BROKEN_ERASURE) verif_kid(x->data.erasure.defects);
  for (b = x->bahe; b; b = b->bahe) verif_bahe(b->start_column);
  for (u = x->ui_next; u != (TreeNode *) &x->ui_next; u = u->ui_next_in_list) verif_ui(u->start_column, prop_neg_indicator(u, NO) != 0, prop_cai_indicator(u, NO) ? prop_cai_indicator(u, NO)->code : -1);
}
void verif_categ(TreeNode *head) {
  TreeNode *x;
  categorize_tokens(head);
  for (x = head->next; x != head; x = x->next) { if (x->next->prev != x || x->prev->next != x) verif_bad(1); verif_node(x, -1); if (x->type == N_CMAVO) verif_free(x->data.cmavo.followed_by_free); }
  verif_end(0);
}
void verif_pre(TreeNode **v, int n) {
  int i, t;
  had_bad_tokens = 0;
  lex2_initialise();
  for (i=0;i<n;i++) add_token(v[i]);
  preprocess_tokens();
  if (had_bad_tokens) { verif_end(3); return; }
  for (i=0;i<100;i++) { yylval = NULL; t = yylex(); if (!t || t == PRIVATE_EOF_MARK) { verif_end(t); if (!t) return; } else if (t == GARBAGE || !yylval) verif_item(-1, yylloc.first_column, t, yylloc.first_line); else { verif_node(yylval, t); if (yylloc.first_line != yylval->start_line || yylloc.first_column != yylval->start_column) verif_bad(2); } }
}
'''


class TokenLists(Forest):
    def __init__(self, tree, extra='', more=()):
        f = 'verif_tokens%s.c' % ('_x' if extra else '')
        with open(os.path.join(tree.src, f), 'w') as h:
            h.write(HARNESS.replace('ui_next_in_list', 'next') + extra)
        objs = ['lex2', 'categ', 'stag_dfa', 'erasure', 'elide', 'functions', 'memory', 'properties', 'cmavotab', 'nonterm'] + list(more)
        with ThreadPoolExecutor(8) as ex:
            bcs = list(ex.map(tree.compile, [o + '.c' for o in objs] + [f]))
        raw, out = os.path.join(tree.dir, f + '.raw.bc'), os.path.join(tree.dir, f + '.bc')
        sh(['llvm-link-18', '-o', raw] + bcs)
        sh(['opt-18', '-passes=function(sroa,simplifycfg)', raw, '-o', out])
        self.eng = Engine(out)
        Forest.__init__(self, tree, self.eng)
        k = tree.consts({'o.bahe': 'offsetof(TreeNode,bahe)', 'o.uin': 'offsetof(TreeNode,ui_next)', 'o.uip': 'offsetof(TreeNode,ui_prev)', 'N_BROKEN_ERASURE': 'N_BROKEN_ERASURE', 'o.zoi': 'offsetof(TreeNode,data.zoi.text)', 'o.zoif': 'offsetof(TreeNode,data.zoi.form)', 'o.zoit': 'offsetof(TreeNode,data.zoi.term)', 'o.garb': 'offsetof(TreeNode,data.garbage.word)'})
        self.k.update(k)
        self.kind = {self.k[n]: n for n in self.k if n.startswith('N_')}
        self.tokname = {v: n for n, v in self.tok.items()}
        # one word per selma'o stands for all words of it (the passes look at the class; where they look at the word, the word's text is opaque)
        self.rep = {}
        for w, code in sorted(self.codes.items()):
            sel = self.tokname.get(self.table[code][1])
            if sel and sel not in self.rep:
                self.rep[sel] = w
        self.classes = sorted(self.rep)

    def wordof(self, x):
        """the word standing for a class ('CAI/sai' names one explicitly)"""
        return x.split('/')[1] if '/' in x else self.rep[x]

    def any(self, i, sels, line=None):
        """abstract cmavo token number i over the given selma'o"""
        codes = [self.codes[self.wordof(x)] for x in sels]
        sel = [self.tok[x.split('/')[0]] for x in sels]
        var = 'k%d' % i
        dom = list(range(len(sels)))
        cells = [self.cell('type', {'int': self.k['N_CMAVO']}), self.cell('code', {'var': var, 'dom': dom, 'map': codes}), self.cell('selmao', {'var': var, 'dom': dom, 'map': sel})]
        return self._tok('t%d' % i, i, cells)

    def word(self, i, kind, text):
        f = {'brivla': ('N_BRIVLA', 'o.bword'), 'cmene': ('N_CMENE', 'o.cword'), 'zoi': ('N_ZOI', 'o.zoi'), 'laho': ('N_ZOI', 'o.zoi'), 'garbage': ('N_GARBAGE', 'o.garb'), 'bu': ('N_BU', 'o.cword')}[kind]
        more = [{'off': self.k['o.zoif'], 'size': 8, 'val': {'str': "la'o" if kind == 'laho' else 'zoi'}}, {'off': self.k['o.zoit'], 'size': 8, 'val': {'str': 'gy'}}] if kind in ('zoi', 'laho') else []
        return self._tok('t%d' % i, i, [self.cell('type', {'int': self.k[f[0]]}), {'off': self.k[f[1]], 'size': 8, 'val': {'str': text}}] + more)

    def _tok(self, name, i, cells):
        self.node(name, cells + [self.cell('col', {'int': i + 1}), self.cell('line', {'int': 50 + i})])
        for o in ('o.uin', 'o.uip'):
            self.pokes.append({'obj': name, 'off': self.k[o], 'size': 8, 'val': {'ref': name, 'off': self.k['o.uin']}})
        return name

    def ring(self, names):
        """link the tokens into the circular list categorize_tokens works on"""
        self.node('head', [])
        seq = ['head'] + names
        for a, b in zip(seq, seq[1:] + seq[:1]):
            self.pokes.append(dict(self.cell('next', {'ref': b}), obj=a))
            self.pokes.append(dict(self.cell('prev', {'ref': a}), obj=b))

    def categ(self, names, **kw):
        self.ring(names)
        return self.eng.eval('verif_categ', [{'ref': 'head'}], objs=self.objs, pokes=self.pokes, extern_event=True, mem_end=True, **kw)

    def pre(self, names, **kw):
        self.objs.append({'obj': 'vec', 'size': 8 * max(1, len(names)), 'init': 'undef', 'cells': [{'off': 8 * i, 'size': 8, 'val': {'ref': n}} for i, n in enumerate(names)]})
        return self.eng.eval('verif_pre', [{'ref': 'vec'}, len(names)], objs=self.objs, pokes=self.pokes, extern_event=True, mem_end=True, globals={'show_elisions': 0}, stubs={'categorize_tokens': {'event': False}, 'Free': {'event': False, 'free': True}}, **kw)

    def stream(self, p):
        """events of a path -> list of items"""
        out = []
        for e in p['events']:
            a = [int(x) if re.match(r'^-?\d+$', x) else x[1:-1] if x[:1] == '"' and x[-1:] == '"' else x for x in e[1:]]
            if e[0] == 'verif_item':
                out.append({'k': self.kind.get(a[0], a[0]), 'col': a[1], 'val': a[2], 'line': a[3]})
            elif e[0] == 'verif_marker':
                out.append({'k': 'M', 'm': self.tokname.get(a[0], a[0]), 'line': a[1], 'col': a[2]})
            elif e[0] in ('verif_text', 'verif_plus'):
                out[-1][e[0][6:]] = a[0]
            elif e[0] in ('verif_bahe', 'verif_kid'):
                out[-1].setdefault(e[0][6:], []).append(a[0])
            elif e[0] == 'verif_ui':
                out[-1].setdefault('ui', []).append(tuple(a))
            elif e[0] == 'verif_free':
                out[-1]['free'] = a[0]
            elif e[0] == 'verif_end':
                out.append({'k': 'end', 'how': a[0]})
            elif e[0] == 'verif_bad':
                out.append({'k': 'bad', 'n': a[0]})
            else:
                out.append({'k': 'ev', 'fn': e[0], 'args': a})
        return out
