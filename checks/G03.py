"""Every production's action puts every matched word or phrase into the tree, once and in order, and records each left-out terminator at its place."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from grammar import *
from G01 import show


def run(c):
    tree = Tree(['grammar', 'misc'])
    total, elided = 0, 0
    for g in grammars(tree):
        res = g.evaluate()
        where = lambda p: '%s: %s' % ('rpc2x.y', p[0])
        terms = {k[2] for r in res.values() for k in r['kids'] if isinstance(k, tuple)}
        prods = {p: n for n, p in g.rules.items()}
        alone = {}                        # nonterminal -> terminals it can consist of alone
        for l, r in g.rules.values():
            if len(r) == 1 and r[0] not in g.nonterminals:
                alone.setdefault(l, set()).add(r[0])
        for n, p in sorted(g.rules.items()):
            if not n or n in g.useless:
                continue
            l, rhs = p
            r, r0 = res.get((n, 1)), res.get((n, 0))
            total += 1
            if r is None:
                c.violation('node-built', where(p), 'the production builds no node of its own', show(p))
                continue
            if 'error' in r or 'error' in r0:
                c.violation('node-built', where(p), r.get('error') or r0.get('error'), show(p))
                continue
            recovery = 'error' in rhs or 'error_advance' in r['other']
            live = [i for i, s in enumerate(rhs) if not s.startswith('PRIVATE_') and s != 'error']
            kids = [k for k in r['kids'] if isinstance(k, int)]
            if kids != live:
                c.violation('children', where(p), 'the node holds parts %s of the production, expected %s' % ([rhs[k] if 0 <= k < len(rhs) else '?' for k in kids], [rhs[k] for k in live]), show(p))
            if l == g.start:
                if r['top'] != 1:
                    c.violation('root', where(p), 'the completed tree is not handed over as the result', show(p))
            elif r['type'] != l.upper() and not (recovery and r['type'] == 'same' and len(live) == 1):
                c.violation('node-type', where(p), 'the node is labelled %s' % r['type'], show(p))
            for b in r['bad'] + r0['bad']:
                c.violation('node-links', where(p), b, show(p))
            if live and r.get('pos') not in (None, (7, live[0] + 1)):
                c.violation('node-position', where(p), "the node's position is not that of its first part: %s" % (r['pos'],), show(p))
            if (r0['type'], r0['kids']) != (r['type'], kids):
                c.violation('no-elidables', where(p), 'with terminator display off the node holds %s, expected the same parts without the supplied terminators' % (r0['kids'],), show(p))
            el = [k for k in r['kids'] if isinstance(k, tuple)]
            elided += len(el)
            for k in el:
                if k[2] not in g.terminals:
                    c.violation('elided-known', where(p), 'the recorded terminator %s is no token' % (k[2],), show(p))
            if el:
                full, pos = [[]], 0       # the production written out; a terminator may be wrapped in a phrase that can be it alone
                for k in r['kids']:
                    if isinstance(k, int):
                        full = [x + list(rhs[pos:k + 1]) for x in full]
                        pos = k + 1
                    else:
                        full = [x + [y] for x in full for y in [k[2]] + sorted(n_ for n_, s in alone.items() if k[2] in s)]
                full = [tuple(x + list(rhs[pos:])) for x in full]
                if not any((l, x) in prods for x in full):
                    names = [x for x in full if all(y not in x for y in alone)] or full[:1]
                    parent = [q for q, rr in g.rules.values() if rr == (l,)]
                    if not any((q, x) in prods for q in parent for x in full):
                        c.violation('elision-completes', where(p), 'recorded terminator is not one the construct could carry there: no production %s' % ' '.join(names[0]), show(p))
            # converse: a production that is another one with a terminator dropped must say so.  CU outside sentences is an optional
            # separator, not a terminator, in the language definition.
            for i, s in enumerate(rhs):
                if s in terms and s != 'CU':
                    q = (l, rhs[:i] + rhs[i + 1:])
                    m = prods.get(q)
                    if m and m not in g.useless and (m, 1) in res:
                        if s not in [k[2] for k in res[m, 1]['kids'] if isinstance(k, tuple)] and 'error' not in q[1]:
                            c.violation('elision-recorded', where(q), 'the construct may leave out %s but does not record it' % s, show(q))
    c.need('actions', total, 1800)
    c.need('recorded terminators', elided, 100)
    c.count(actions=total, recorded_terminators=elided)
    c.rule('R1: per production, the node built is labelled with its phrase kind and has exactly the non-marker parts as children, in order, linked to it, positioned at the first part')
    c.rule('R2: each supplied terminator has the right word and class, is marked as supplied, and inserting it gives a production of the grammar; with display off it is absent and nothing else changes')
    c.rule('R3: a production equal to another with one terminator dropped records that terminator')


if __name__ == '__main__':
    main('G03', run)
