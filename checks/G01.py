"""The parser is generated from exactly the confirmed productions, and is the machine those productions determine."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from grammar import *

TABLES = ['yypact', 'yydefact', 'yypgoto', 'yydefgoto', 'yytable', 'yycheck', 'yyr1', 'yyr2', 'yytranslate', 'yystos']


def show(p):
    return '%s : %s' % (p[0], ' '.join(p[1]) or '(empty)')


def run(c):
    tree = Tree(['grammar', 'misc'])
    g, _ = grammars(tree)
    got = {g.rules[n] for n in g.rules if n and n not in g.useless}
    c.need('productions', len(got), 900)
    if c.update:
        save_ref('G01.json.gz', {'start': g.start, 'rules': sorted([l] + list(r) for l, r in got)})
    ref = load_ref('G01.json.gz')
    want = {(r[0], tuple(r[1:])) for r in ref['rules']}
    for p in sorted(want - got):
        c.violation('production-lost', 'rpc2x.y: ' + p[0], 'the grammar no longer has the production', show(p))
    for p in sorted(got - want):
        c.violation('production-added', 'rpc2x.y: ' + p[0], 'the grammar has a production outside the confirmed grammar', show(p))
    if g.start != ref['start']:
        c.violation('start-symbol', 'rpc2x.y', 'the start symbol is %s' % g.start)
    if g.prec or g.assoc:
        c.violation('no-precedence', 'rpc2x.y', 'precedence declarations change which parse is chosen', '%s' % (g.assoc,))
    for st, sym, a, b in g.rr:
        c.violation('order-independent', 'rpc2x.y: ' + g.rules[b][0], 'reduce/reduce conflict on %s: the choice depends on the order of the productions' % sym, '%s / %s' % (show(g.rules[a]), show(g.rules[b])))
    # the compiled tables are bison's tables for these productions
    a, b = Engine(tree.compile('rpc_tab.c')), Engine(tree.compile('rpc2x_act.tab.c'))
    n = 0
    for t in TABLES:
        x, y = a.glob(t), b.glob(t)
        n += len(x)
        if x != y:
            i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), -1)
            c.violation('tables', 'rpc_tab.c: ' + t, "the compiled parser's table differs from the one generated for the grammar", 'entry %d' % i)
    c.count(productions=len(got), states=g.states, shift_preferred=g.sr, table_entries=n)
    c.rule('R1: the set of useful productions bison reads equals the confirmed set; start symbol unchanged; no precedence; no reduce/reduce conflict (so rule order is irrelevant)')
    c.rule("R2: every table of the compiled parser equals bison's table for that grammar")


if __name__ == '__main__':
    main('G01', run)
