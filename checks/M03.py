"""Names containing la/lai/doi: detection, splittability and split points, as a finite-state machine over marked words."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from morph import *


def run(c):
    tree = Tree(['dfa', 'grammar', 'morf', 'misc'])
    eng = Engine(tree.program('jbofihe'))
    args = [{'tape': 1}, {'obj': 'split', 'size': 4}, {'obj': 'ladoi', 'size': 8}, {'obj': 'tail', 'size': 8}]
    outs = [{'obj': n, 'off': 0, 'size': s, 'name': n} for n, s in (('split', 4), ('ladoi', 8), ('tail', 8))]
    r = eng.automaton('is_bad_cmene', args, lag=0, mark=True, alphabet=''.join(map(chr, FULL)), outs=outs, mem_end=True)
    names = project(Machine(scan_machine(Engine(eng.bc), FULL, 1)), lambda o, ev: 'name' if 'is_bad_cmene' in ev else 'other')

    def outmap(o, ev):
        if o.startswith('end='):
            return o
        d = dict(x.split('=', 1) for x in o.split(';'))
        bad = d['ret'] != '0'
        if not bad:
            return 'good'
        if d['ladoi'] == 'undef' or d['tail'] == 'undef':
            return 'end=bad name without parts'
        return 'bad, %s: name-marker %s, rest %s' % ('splits' if d['split'] != '0' else 'does not split', 'HERE' if d['ladoi'] == '@mark' else '-', 'HERE' if d['tail'] == '@mark' else '-')
    cur = project(Machine(r), outmap)
    if c.update:
        save_ref('M03.json.gz', cur.dump())
    ref = Machine(load_ref('M03.json.gz'))
    # the verdict matters on the words the classifier calls names
    diffs, pairs = compare_names(ref, cur, names)
    c.count(raw_states=r['raw_states'], states=cur.n, outcomes=len({s['out'] for s in cur.st if 'out' in s}), product_pairs=pairs)
    c.need('outcomes', len({s['out'] for s in cur.st if 'out' in s}), 4)
    for w, a, b in diffs:
        c.violation('name-check-machine', 'is_bad_cmene', 'name is judged "%s" instead of "%s"' % (b, a), show(w))
    c.rule('R1: the finite-state machine implemented by is_bad_cmene over all words the classifier calls names, with one marked position, (verdict, splittable, whether the name-marker / the remainder start at the mark) equals the confirmed machine')
    independent(c, cur)
    total(c, cur, names)


def compare_names(ref, cur, names):
    from collections import deque
    cl = {}
    for a in FULL:
        for b in (a, a + 256):
            cl.setdefault((ref.sym[b], cur.sym[b], names.sym[a], b >= 256), b)
    reps = sorted(cl.values())
    seen = {(0, 0, 0, 0): None}
    dq = deque(seen)
    diffs = []

    def word(k):
        w = []
        while seen[k] is not None:
            k, a = seen[k]
            w.append(a)
        return w[::-1]
    while dq and len(diffs) < 5:
        k = dq.popleft()
        p, q, n, mk = k
        if names.out(n)[0] == 'name':
            a, b = ref.out(p)[0], cur.out(q)[0]
            if a != b:
                diffs.append((word(k), a, b))
        for x in reps:
            if x >= 256 and mk:
                continue
            t = (ref.step(p, x)[0], cur.step(q, x)[0], names.step(n, x & 255)[0], 1 if mk or x >= 256 else 0)
            if t not in seen:
                seen[t] = (k, x)
                dq.append(t)
    return diffs, len(seen)


def total(c, cur, names):
    from collections import deque
    seen, dq = {(0, 0): None}, deque([(0, 0)])
    n = 0
    while dq:
        k = dq.popleft()
        p, q = k
        if k != (0, 0) and names.out(p)[0] == 'name':
            n += 1
            o = cur.out(q)[0]
            if o is None or o.startswith('end='):
                w = []
                while seen[k] is not None:
                    k, a = seen[k]
                    w.append(a)
                c.violation('name-check-total', 'is_bad_cmene', 'no verdict for a word the classifier calls a name (%s)' % o, show(w[::-1]))
                return
        for a in FULL:
            t = (names.step(p, a)[0], cur.step(q, a)[0])
            if t not in seen and not ('out' in names.st[t[0]] and names.st[t[0]]['out'] == 'other'):
                seen[t] = (k, a)
                dq.append(t)
    c.need('name states', n, 10)
    c.count(name_state_pairs=n)
    c.rule('R2: on every word the classifier calls a name, the check returns a verdict (no table access outside its bounds)')


def independent(c, m):
    """every letter string la/lai/la'i/doi preceded by nothing or a vowel is detected (reference grammar 4.8)"""
    def verdict(w):
        q = 0
        for ch in w:
            q, _ = m.step(q, ord(ch))
        return m.out(q)[0]
    n = 0
    for pre, bad in (('', True), ('a', True), ('ko', True), ('s', False), ('ak', False)):
        for mk in ('la', 'lai', 'doi'):
            for post in ('n', 'ban', 'bon'):
                n += 1
                w = pre + mk + post
                if verdict(w).startswith('bad') != bad:
                    c.violation('name-definition', 'is_bad_cmene', 'verdict %r' % verdict(w), w)
    c.count(definition_instances=n)


main('M03', run)
