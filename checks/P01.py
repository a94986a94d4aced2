"""The tense recogniser marks exactly the tense phrases of the grammar: equality of regular languages."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from tokens import *
from tense import *
from collections import deque


def run(c):
    tree = Tree(['dfa', 'grammar', 'misc'])
    L = TokenLists(tree)
    eng = L.eng
    # class -> input symbol of the recogniser, and its initial state, as categorize_tokens uses them
    stub = {'stag_next_state': {'event': True, 'ret': {'int': -1}}}
    sym, start = {}, set()

    def first(ps, names):
        for p in ps:
            ev = [e for e in p['events'] if e[0] == 'stag_next_state']
            if not ev:
                raise Broken('anchor vanished: categorize_tokens does not consult stag_next_state')
            start.add(int(ev[0][1]))
            for i in (p['vars'].get('k0') or [0]):
                sym[names[i]] = int(ev[0][2])
    L.reset()
    first(L.categ([L.any(0, L.classes)], stubs=stub), L.classes)
    L.reset()
    first(L.categ([L.word(0, 'bu', 'a')], stubs=stub), ['(letter) bu'])
    L.reset()
    first(L.categ([L.word(0, 'brivla', 'broda')], stubs=stub), ['BRIVLA'])
    if len(start) != 1:
        c.violation('initial-state', 'categorize_tenses', 'recogniser is started in states %s' % sorted(start))
    q0 = min(start)
    exitval = eng.glob('stag_exitval')
    spec = tense_modal()
    alphabet = sorted(sym)
    trans = {}

    def step(q, s):
        if (q, s) not in trans:
            ps = eng.eval('stag_next_state', [q, s], mem_end=True)
            if len(ps) != 1 or ps[0]['end'] != 'return':
                raise Broken('stag_next_state(%d,%d) undecided' % (q, s))
            r = re.search(r'ret=(-?\d+)', ps[0]['out'])
            if not r:
                c.violation('memory', 'stag_next_state', 'state %d, symbol %d: %s' % (q, s, ps[0]['out']))
                trans[q, s] = -1
            else:
                trans[q, s] = int(r.group(1)) if int(r.group(1)) < 1 << 31 else -1
        return trans[q, s]
    seen = {(q0, spec.start()): None}
    work = deque(seen)
    bad, states = 0, set()
    while work:
        k = work.popleft()
        q, s = k
        states.add(q)
        for x in alphabet:
            y = 'BU' if x == '(letter) bu' else x if x != 'BU' else '(bare BU)'
            n = (step(q, sym[x]) if q >= 0 else -1, spec.step(s, y))
            if n in seen:
                continue
            seen[n] = (k, x)
            acc = n[0] >= 0 and exitval[n[0]] != 0
            if acc != spec.accepts(n[1]):
                bad += 1
                w, z = [], n
                while seen[z]:
                    z, a = seen[z]
                    w.append(a)
                c.violation('language', 'stag_nfa.in / categorize_tenses', 'the sequence is %s as a tense phrase' % ('accepted' if acc else 'not recognised'), ' '.join(reversed(w)))
                if bad > 8:
                    return
            if n[0] >= 0 or n[1]:
                work.append(n)
    c.need('recogniser states', len(states), 20)
    c.count(product_states=len(seen), recogniser_states=len(states), token_classes=len(alphabet))
    c.rule("R1: the language over selma'o accepted by the tense recogniser (generated machine composed with the class mapping used by its caller) equals the regular language of simple tense-modals of the published grammar; decided by product fixpoint, all lengths")


if __name__ == '__main__':
    main('P01', run)
