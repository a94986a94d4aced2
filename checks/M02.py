"""Word boundaries: where the words of an unspaced compound start, as a finite-state transducer."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from morph import *


def run(c):
    tree = Tree(['dfa', 'grammar', 'morf', 'misc'])
    eng = Engine(tree.program('jbofihe'))
    m = Machine(scan_machine(eng, LOWER, 1))
    zero = ret_of('ret=0')

    def outmap(o, ev):
        r = ret_of(o)
        if r == zero:
            return 'none'
        return 'ends-at:' + re.sub(r'^.*;end=', '', o).replace('&starts', '')

    def evmap(ev):
        return ';'.join(sorted(x for x in ev.split(';') if x.startswith(('append', 'write', 'rewrite', '{'))))
    cur = project(m, outmap, evmap)
    if c.update:
        save_ref('M02.json.gz', cur.dump())
    ref = Machine(load_ref('M02.json.gz'))
    c.count(raw_states=m.n, states=cur.n, step_outputs=len(cur.ev), steps=eng.stats['steps'])
    c.need('step outputs', len(cur.ev), 3)
    diffs, pairs = compare(ref, cur, LOWER, events=lambda e: e, dead=lambda o: o == 'none')
    c.count(product_pairs=pairs)
    for w, a, b in diffs:
        c.violation('word-start-transducer', 'morf_scan', 'recorded word starts: %s instead of %s' % (b, a), show(w))
    c.rule('R1: the transducer from letter strings to recorded word-start positions implemented by morf_scan (every write of an input position to the start list, and the final list end) equals the confirmed one on every string that is a word')


main('M02', run)
