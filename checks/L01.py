"""L01: a lujvo is taken apart into the components it was made from."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from lujvo import *
import itertools
from J01 import cover


def family(S, short, W, thorough):
    """lujvo -> components, one way or several ('brod')"""
    out = {}

    def add(ws):
        ch = S.choices(ws, True, True)
        if any(not x for x in ch):
            return
        for rs in itertools.product(*ch):
            w, _ = S.join(rs)
            out.setdefault(w, set()).add(tuple(ws))
    starts = cover(W, short, lambda r: [(shape(r), r[-1])])
    ends = cover(W, short, lambda r: [(shape(r), r[:2] if r[1] in CONS else r[0])] + ([(shape(r), r[2:4] in INITIAL, r[0])] if shape(r) == 'CVCCV' else []))
    mid = cover(W, short, lambda r: [(shape(r), r[-1] if r[-1] in 'nlsz' else 0, r[0] if r[0] in 'rtdn' else 0)])
    for w in W:
        add((w, 'klama'))
        add(('bloti', w))
        add(('klama', w, 'cidja'))
    for a in starts:
        for b in ends if thorough else ends[::3]:
            add((a, b))
    few = mid if thorough else mid[::3]
    for a in few:
        for m in few:
            for b in few:
                add((a, m, b))
    for a in mid:
        add((a, 'sutra', 'se', 'cidja', a, 'broda'))
    return out


def run(c):
    tree = Tree(['misc', 'dfa'])
    short = rafsi_list(tree)
    W = sorted(short)
    S = LujvoSpec(short, Morphology())
    fam = sorted(family(S, short, W, c.tier == 'thorough').items())
    with open(os.path.join(tree.src, 'verif_canon.c'), 'w') as h:
        h.write('''#include "canonluj.h"
#include <string.h>
#include <stdlib.h>
extern void verif_result(const char *s);
void *bsearch(const void *key, const void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
  size_t lo = 0, hi = n;
  while (lo < hi) { size_t m = (lo + hi) / 2; const char *p = (const char *)base + m * sz; int k = cmp(key, p); if (!k) return (void *)p; if (k < 0) hi = m; else lo = m + 1; }
  return 0;
}
void verif_canon(char *w) { char *r = canon_lujvo(w); verif_result(r); }
''')
    raw, bc = os.path.join(tree.dir, 'canon.raw.bc'), os.path.join(tree.dir, 'canon.bc')
    sh(['llvm-link-18', '-o', raw, tree.compile('canonluj.c'), tree.compile('verif_canon.c')])
    sh(['opt-18', '-passes=function(sroa,simplifycfg)', raw, '-o', bc])
    local = threading.local()

    def one(e, w):
        ps = e.eval('verif_canon', [{'str': w}], extern_event=True, mem_end=True, max_steps=10000000)
        if len(ps) != 1 or ps[0]['end'] != 'return' or len(ps[0]['events']) != 1:
            return 'taking %s apart: %s' % (w, ps[0]['out'])
        return ps[0]['events'][0][1]

    def same(got, ws):
        g = got.split('+')
        return len(g) == len(ws) and all(x == y or x[:4] == 'brod' == y[:4] for x, y in zip(g, ws))

    def go(part):
        if not hasattr(local, 'e'):
            local.e = Engine(bc)
        bad = []
        for w, ways in part:
            r = one(local.e, w)
            if r[:1] != '"':
                bad.append(r if ' ' in r else 'no parts for %s' % w)
            elif not any(same(r[1:-1], ws) for ws in ways):
                bad.append('%s is taken apart as %s, made from %s' % (w, r[1:-1], ' or '.join('+'.join(x) for x in ways)))
            else:
                r = one(local.e, r[1:-1])
                if not any(same(r[1:-1], ws) for ws in ways):
                    bad.append('the parts of %s, taken apart again, are %s' % (w, r))
        return bad
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(go, [fam[i::64] for i in range(64)]):
            for b in r:
                c.violation('R1', 'canonluj.c:canon_lujvo', b)
    e = Engine(bc)
    n = 0
    for w in W:
        for v in ('ba', "mu'i", 'coi', ''):
            n += 1
            r = one(e, w + v if len(w) < 5 else v)
            if r != 'null' and r not in ('0', 'NULL'):
                c.violation('R2', 'canonluj.c:canon_lujvo', '%s, which has no consonant cluster, is taken apart as %s' % (w + v if len(w) < 5 else v, r))
            if len(w) == 5:
                break
    c.need('lujvo', len(fam), 20000)
    c.count(components=len(W), lujvo=len(fam), cmavo=n)
    c.rule('R1: every lujvo of the family yields exactly the words it was made from, in order; a result taken apart again is unchanged')
    c.rule('R2: a cmavo compound is not taken for a lujvo')


if __name__ == '__main__':
    main('L01', run)
