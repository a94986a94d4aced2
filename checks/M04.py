"""Borrowed words: the position of the hyphen that separates the classifier from the borrowed part."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from morph import *


def run(c):
    tree = Tree(['dfa', 'grammar', 'morf', 'misc'])
    eng = Engine(tree.program('jbofihe'))
    m = Machine(scan_machine(eng, LOWER, 1, mark=True, outs=[{'obj': 'x', 'off': 0, 'size': 8, 'name': 'hyph'}]))

    def outmap(o, ev):
        d = dict(x.split('=', 1) for x in o.split(';'))
        h = d.get('hyph')
        if h is None or not h.startswith('@'):
            return 'no hyphen'
        return 'class %s hyphen %s' % (d['ret'], 'HERE' if h == '@mark' else '-')
    cur = project(m, outmap)
    if c.update:
        save_ref('M04.json.gz', cur.dump())
    ref = Machine(load_ref('M04.json.gz'))
    c.count(raw_states=m.n, states=cur.n, outcomes=len({s['out'] for s in cur.st if 'out' in s}), steps=eng.stats['steps'])
    c.need('outcomes', len({s['out'] for s in cur.st if 'out' in s}), 5)
    diffs, pairs = compare(ref, cur, LOWER, marks=True)
    c.count(product_pairs=pairs)
    for w, a, b in diffs:
        c.violation('hyphen-machine', 'morf_scan', 'outcome "%s" instead of "%s"' % (b, a), show(w))
    c.rule("R1: the finite-state machine implemented by morf_scan over words with one marked letter, whose outcome says whether the reported type-3 fu'ivla hyphen is the marked letter, equals the confirmed machine")


main('M04', run)
