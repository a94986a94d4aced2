"""The context-free grammars of the parsers actually built: productions (bison's own reading), and the tree each action builds
(the action's C text is wrapped in a function and evaluated by the IR interpreter, so its form does not matter)."""
import xml.etree.ElementTree as ET
from trees import *


class Grammar:
    def __init__(self, tree, yfile, cfile, prefix=None):
        self.yfile, self.cfile, self.tree = yfile, cfile, tree
        xml = os.path.join(tree.dir, yfile + '.xml')
        sh(['bison', '--xml=' + xml, '-o', os.path.join(tree.dir, yfile + '.c')] + (['-p', prefix] if prefix else []) + [yfile], cwd=tree.src, env=tree.env)
        root = ET.parse(xml).getroot()
        g = root.find('grammar')
        self.rules, self.prec, self.useless = {}, 0, set()
        for r in g.find('rules'):
            n = int(r.get('number'))
            self.rules[n] = (r.find('lhs').text, tuple(s.text for s in r.find('rhs').findall('symbol')))
            if r.get('usefulness') == 'useless-in-grammar':
                self.useless.add(n)
            self.prec += r.get('percent_prec') is not None
        self.terminals = {t.get('name'): int(t.get('token-number')) for t in g.find('terminals')}
        self.assoc = [t.get('name') for t in g.find('terminals') if t.get('assoc') or t.get('prec')]
        self.nonterminals = {t.get('name') for t in g.find('nonterminals')}
        self.start = self.rules[0][1][0]
        self.root = root
        self._conflicts()

    def _conflicts(self):
        """reduce/reduce: two reductions competing for one look-ahead in one state (shift/reduce ones are settled by shifting, whatever the rule order)"""
        self.states, self.rr, self.sr = 0, [], 0
        for s in self.root.find('automaton').findall('state'):
            self.states += 1
            shifts = {t.get('symbol') for t in s.findall('./actions/transitions/transition') if t.get('type') == 'shift'}
            seen = {}
            for r in s.findall('./actions/reductions/reduction'):
                sym = r.get('symbol')
                if r.get('rule') == 'accept':
                    continue
                if sym in seen and sym not in shifts and sym != '$default':
                    self.rr.append((int(s.get('number')), sym, seen[sym], int(r.get('rule'))))
                seen.setdefault(sym, int(r.get('rule')))
                self.sr += sym in shifts

    def raw_actions(self):
        src = self.tree.read(self.cfile)
        m = re.search(r'switch \(yyn\)\s*\{(.*?)\n\s*default: break;', src, re.S)
        if not m:
            raise Broken('anchor vanished: action switch in ' + self.cfile)
        out = {}
        parts = re.split(r'\n\s*case (\d+):[^\n]*\n', m.group(1))
        for num, body in zip(parts[1::2], parts[2::2]):
            body = re.sub(r'^#line.*$', '', body, flags=re.M)
            body = re.sub(r'\n\s*break;\s*$', '', body.rstrip())
            out[int(num) - 1] = body.strip()
        return out

    def evaluate(self, c=None):
        """rule number -> {'type': node type name or None, 'kids': [rhs index | ('elided', code, selmao)], 'events': [...]}, with terminators inserted and without"""
        tree, acts = self.tree, self.raw_actions()
        self.own = {}
        src = tree.read(self.cfile)
        f = 'verif_act_%s' % os.path.basename(self.cfile)
        add = ['\n#undef yyerrok\n#undef yyclearin\n#undef YYABORT\n#undef YYACCEPT\n#undef YYERROR\n', '#define yyerrok verif_event(1)\n#define yyclearin verif_event(2)\n#define YYABORT verif_event(3)\n#define YYACCEPT verif_event(4)\n#define YYERROR verif_event(5)\n',
               '#include "functions.h"\nstatic YYLTYPE verif_loc[64]; static YYLTYPE *const yylsp=verif_loc+32;\nextern void verif_event(int);\nextern void verif_root(int, int, int, int);\nextern void verif_child(int, int);\nextern void verif_top(int);\nextern void verif_elided(int,int,int);\n',
               'static void verif_show(TreeNode *x) { int i; verif_top(top ? top->start_column : 0); if (!x) { verif_root(-1,0,0,0); return; } if (x->type != N_NONTERM) { verif_root(-2,x->start_column,0,0); return; } verif_root(x->data.nonterm.type, x->data.nonterm.nchildren, x->start_line, x->start_column);\n'
               ' for (i=0;i<x->data.nonterm.nchildren;i++) { TreeNode *k=x->data.nonterm.children[i]; if (!k) verif_child(0,0); else if (k->type==N_CMAVO) verif_elided(k->data.cmavo.code,k->data.cmavo.selmao,prop_elidable(k,NO)!=0); else verif_child(k->start_column, k->parent==x); } }\n']
        for n, body in sorted(acts.items()):
            k = len(self.rules[n][1])
            add.append('void verif_act_%d(TreeNode **yyvsp) { TreeNode *yyval = %s; int yychar=0,yyerrstatus=0; {%s}\n verif_show(yyval); }\n' % (n, 'yyvsp[%d]' % (1 - k) if k else '0', body))
        with open(os.path.join(tree.src, f), 'w', encoding='latin-1') as h:
            h.write(src + ''.join(add))
        objs = ['functions.o', 'memory.o', 'properties.o', 'cmavotab.o', 'nonterm.o']
        bcs = [tree.compile(o[:-2] + '.c') for o in objs] + [tree.compile(f, ['-UDEBUG'])]
        raw, out = os.path.join(tree.dir, f + '.raw.bc'), os.path.join(tree.dir, f + '.bc')
        sh(['llvm-link-18', '-o', raw] + bcs)
        sh(['opt-18', '-passes=function(sroa,simplifycfg)', raw, '-o', out])
        eng = Engine(out)
        F = Forest(tree, eng)
        self.forest = F
        tok = {v: k for k, v in F.tok.items()}
        ntn = {v: k for k, v in F.nt.items()}
        res = {}
        for n in sorted(acts):
            k = len(self.rules[n][1])
            objs = [{'obj': 'k%d' % i, 'size': F.k['size'], 'init': 'zero', 'cells': [F.cell('type', {'int': F.k['N_GARBAGE']}), F.cell('line', {'int': 7}), F.cell('col', {'int': i + 1})]} for i in range(k)]
            objs.append({'obj': 'stack', 'size': 8 * max(1, k), 'init': 'undef', 'cells': [{'off': 8 * i, 'size': 8, 'val': {'ref': 'k%d' % i}} for i in range(k)]})
            for ins in (1, 0):
                ps = eng.eval('verif_act_%d' % n, [{'ref': 'stack', 'off': 8 * (k - 1)}], objs=objs, globals={'insert_elidables': ins, 'top': {'null': 1}}, extern_event=True)
                res[n, ins] = self._read(n, ps, F, tok, ntn)
        self.evals = len(res)
        return res

    def _read(self, n, ps, F, tok, ntn):
        if len(ps) != 1 or ps[0]['end'] != 'return':
            return {'kids': [], 'bad': [], 'other': [], 'type': None, 'error': 'action does not complete: %s' % sorted({p.get('out', p['end']) for p in ps})}
        r = {'type': None, 'kids': [], 'other': [], 'bad': []}
        for e in ps[0]['events']:
            a = [int(x) if re.match(r'^-?\d+$', x) else x for x in e[1:]]
            if e[0] == 'verif_top':
                r['top'] = a[0]
            elif e[0] == 'verif_root':
                if a[0] == -2:
                    r['type'], r['kids'] = 'same', [a[1] - 1]
                elif a[0] >= 0:
                    r['type'], r['n'], r['pos'] = ntn.get(a[0], a[0]), a[1], (a[2], a[3])
            elif e[0] == 'verif_child':
                r['kids'].append(a[0] - 1)
                if a[1] != 1:
                    r['bad'].append('child %d does not point back to its parent' % a[0])
            elif e[0] == 'verif_elided':
                w = F.table[a[0]] if isinstance(a[0], int) and 0 <= a[0] < len(F.table) else None
                r['kids'].append(('elided', w[0].get('str') if w and isinstance(w[0], dict) else None, tok.get(a[1], a[1])))
                if w is None or w[1] != a[1]:
                    r['bad'].append("inserted terminator's code is not a word of its selma'o %s" % tok.get(a[1], a[1]))
                if a[2] != 1:
                    r['bad'].append('inserted terminator is not marked as supplied')
            else:
                r['other'].append(e[0])
        return r


def grammars(tree):
    return Grammar(tree, 'rpc2x_act.y', 'rpc_tab.c'), Grammar(tree, 'rpc2x_full_act.y', 'rpc_full.c', 'full_yy')
