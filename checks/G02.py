"""The strict parser ("every terminator written out") is the normal grammar without the productions that leave a terminator out."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from grammar import *
from G01 import show, TABLES


def run(c):
    tree = Tree(['grammar', 'misc'])
    g, f = grammars(tree)
    res = g.evaluate()
    full = {f.rules[n] for n in f.rules if n and n not in f.useless}
    c.need('productions of the strict grammar', len(full), 800)
    norm = {}
    for n in g.rules:
        if n and n not in g.useless:
            norm[g.rules[n]] = [k for k in res[n, 1]['kids'] if isinstance(k, tuple)] if (n, 1) in res else []
    for p in sorted(full - set(norm)):
        c.violation('strict-within-normal', 'rpc2x_full_act.y: ' + p[0], 'the strict parser has a production the normal grammar lacks', show(p))
    nel = 0
    for p, el in sorted(norm.items()):
        if el:
            nel += 1
            if p in full:
                c.violation('strict-requires', 'rpc2x_full_act.y: ' + p[0], 'the strict parser accepts the construct with %s left out' % ', '.join(str(e[2]) for e in el), show(p))
        elif p not in full:
            c.violation('strict-complete', 'rpc2x_full_act.y: ' + p[0], 'the strict parser lost a construct that leaves nothing out', show(p))
    # independently of what the actions record: no strict production is another one with a terminator dropped.  CU outside sentences is an
    # optional separator in the language definition, not a terminator.
    terms = {k[2] for el in norm.values() for k in el}
    for l, rhs in sorted(full):
        for i, s in enumerate(rhs):
            q = (l, rhs[:i] + rhs[i + 1:])
            if s in terms and s != 'CU' and q in full and 'error' not in q[1]:
                c.violation('strict-requires', 'rpc2x_full_act.y: ' + l, 'the strict parser accepts the construct with %s left out' % s, show(q))
    if f.start != g.start:
        c.violation('start-symbol', 'rpc2x_full_act.y', 'start symbols differ')
    for st, sym, a, b in f.rr:
        c.violation('order-independent', 'rpc2x_full_act.y: ' + f.rules[b][0], 'reduce/reduce conflict on %s' % sym, '%s / %s' % (show(f.rules[a]), show(f.rules[b])))
    # both parsers number the tokens alike, since one lexer feeds both
    for t, num in sorted(g.terminals.items()):
        if t in f.terminals and f.terminals[t] != num:
            c.violation('token-numbers', 'rpc2x_full_act.y', 'token %s has number %d in the strict parser, %d in the normal one' % (t, f.terminals[t], num))
    # the strict parser builds the same nodes
    fres = f.evaluate()
    idx = {g.rules[n]: n for n in g.rules}
    m = 0
    for n, p in f.rules.items():
        if n and n not in f.useless and p in idx and (idx[p], 1) in res:
            m += 1
            if any(fres[n, 1].get(k) != res[idx[p], 1].get(k) for k in ('type', 'kids', 'top')):
                c.violation('same-tree', 'rpc_full.c: ' + p[0], 'the strict parser builds a different node than the normal one', show(p))
    c.count(productions_strict=len(full), productions_normal=len(norm), productions_with_elision=nel, actions_compared=m)
    c.rule("R1: strict productions = normal productions whose action records no left-out terminator, and no strict production is another one with a terminator dropped; same tokens, start symbol and node building")


if __name__ == '__main__':
    main('G02', run)
